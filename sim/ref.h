// Reference model: which cameras / boards a run must link, and how precisely the linked
// structure can be known from the delivered observations (Cramer-Rao bound at the truth).
#pragma once
#include "scene.h"

namespace sim {

struct Partition {
  bool clear = true; // false: the observations sit between "linked" and "not linked"
  std::string why;
  std::map<int, int> groupOf; // camera -> group number (only cameras with observations)
  std::map<int, int> objOf;   // board -> object number (only observed boards)
  std::vector<std::vector<int>> groups, objs;
  int handEyeLinks = 0; // group links made by common motion
  int minLinkFrames = 1 << 30; // weakest common-motion link
  int stage1Groups = 0, stage1Objs = 0;
};
// linkMin: at least this many common frames link surely; at most 3 never do
Partition refPartition(const Scene &s, int linkMin = 8);

struct Accuracy {
  bool ok = false;
  std::string why;
  Eigen::MatrixXd cov; // of all parameters below
  std::map<int, int> refBoard; // object -> board its frame is tied to
  std::map<int, int> camOff, intrOff, boardOff; // offsets into cov, absent: fixed / reference
  double relFocal = 0; // worst sigma(f)/f
  double rot = 0, trans = 0; // worst camera sigma, rad / relative to scene distance
  double dist = 1;     // typical scene distance
  std::map<int, int> obsPerCam;
};
// group: cameras of one final group; the first is the reference
Accuracy crlb(const Scene &s, const Partition &p, int group, bool fixIntr);

} // namespace sim
