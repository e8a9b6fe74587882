// Reading and judging the files a run exports.
#pragma once
#include "app.h"
#include "ref.h"
#include "scene.h"

namespace sim {

struct Failure {
  std::string cls; // stable class of the violation (kept while minimising)
  std::string detail;
};
using Failures = std::vector<Failure>;

struct CamRes {
  double K[4] = {0};
  std::vector<double> dist;
  int type = -1, group = -1, w = 0, h = 0;
  bool affine = true; // camera matrix has the expected structure
  Pose T; // reference -> camera (inverse of the exported matrix)
  bool rigid = true;
};
struct ObjRes {
  std::vector<std::array<double, 5>> pts;
  std::vector<std::array<double, 6>> poses;
  bool hasPoses = false;
};
struct ErrRes {
  int nbGroups = -1;
  struct Frame {
    std::vector<int> camList;
    std::multimap<int, std::vector<double>> lists;
    std::multimap<int, int> nbPts;
  };
  struct Group {
    std::vector<int> frameList;
    std::multimap<int, Frame> frames;
  };
  std::multimap<int, Group> groups;
};
struct KpRes {
  struct Item {
    int frame, board;
    std::string path;
    std::vector<int> ids;
    std::vector<cv::Point2f> px;
  };
  struct Cam {
    int w = 0, h = 0;
    std::vector<Item> items;
  };
  int nbCamera = -1;
  std::map<int, Cam> cams;
};
struct Results {
  bool parsed = true;
  std::string error;
  int nbCamera = -1;
  std::multimap<int, CamRes> cams;
  std::multimap<int, ObjRes> objs;
  ErrRes err;
  KpRes kp;
};
extern const char *kResultFiles[5];
KpRes readKeypoints(const std::string &file, std::string &error);
Results readResults(const std::string &dir, const std::string &camFile = "calibrated_cameras_data.yml");

// ---- oracles; each appends to `f`, and some report numbers for the evidence
struct Judge {
  Failures f;
  double worstCam = 0, worstIntr = 0, worstBoard = 0, worstErr = 0, worstPose = 0;
  bool opinion = false; // something non-trivial was decided
  std::map<std::string, int> probes;
};
double &gK(); // tolerance in (normalised) standard deviations
void judgeStructure(const Results &r, const Scene &s, const Partition &p, Judge &j);
void judgeCameras(const Results &r, const Scene &s, const Partition &p, bool fixIntr, Judge &j);
void judgeObjects(const Results &r, const Scene &s, const Partition &p, bool fixIntr, Judge &j);
void judgeConsistency(const Results &r, const Scene &s, const Partition &p, Judge &j);

} // namespace sim
