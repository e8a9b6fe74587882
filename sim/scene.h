// Simulated world: a rigid camera rig watching a rigid assembly of boards, and the
// observations its sensors deliver (with dropouts, occlusions, noise, outliers).
#pragma once
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include <map>
#include <opencv2/core.hpp>
#include <set>
#include <string>
#include <tuple>
#include <vector>

#include "plan.h"

namespace sim {

using Vec3 = Eigen::Vector3d;
using Mat3 = Eigen::Matrix3d;
using Vec2 = Eigen::Vector2d;

struct Pose { // x_out = R x_in + t
  Mat3 R = Mat3::Identity();
  Vec3 t = Vec3::Zero();
  Pose operator*(const Pose &o) const { return {R * o.R, R * o.t + t}; }
  Vec3 operator*(const Vec3 &v) const { return R * v + t; }
  Pose inv() const { return {R.transpose(), -(R.transpose() * t)}; }
};
Mat3 rotVec(const Vec3 &w);
Vec3 logRot(const Mat3 &R);
double rotAngle(const Mat3 &R);

struct CamModel {
  int model = 0; // 0 Brown, 1 Kannala
  int w = 640, h = 480;
  double p[9] = {0}; // fx fy cx cy + (k1 k2 p1 p2 k3 | k1 k2 k3 k4)
  int np() const { return model == 0 ? 9 : 8; }
};
// false when the point cannot be imaged by this lens model
bool project(const CamModel &c, const Vec3 &x, Vec2 &out);

struct SimCam {
  CamModel m;
  Pose T_cr; // rig -> camera
};
struct SimBoard {
  int nx = 5, ny = 5; // squares
  double sq = 0.1;
  int index = 0;      // board index in the configuration (boards_index)
  Pose T_ab;          // board -> assembly
  int npts() const { return (nx - 1) * (ny - 1); }
  Vec3 pt(int id) const {
    return Vec3((id % (nx - 1)) * sq, (id / (nx - 1)) * sq, 0);
  }
};
struct Ob {
  std::vector<int> ids;
  std::vector<cv::Point2f> px;
  std::vector<char> outlier; // ground truth label
  bool bogus = false;        // whole board is a false detection
};
using Key = std::tuple<int, int, int>; // cam, frame, board

struct Scene {
  std::vector<SimCam> cams;
  std::vector<SimBoard> boards;
  std::vector<Pose> T_ra;     // assembly -> rig, per frame
  std::vector<int> frameIds;  // number of each frame in the files
  double noise = 0.2;
  double unit = 1.0;
  bool perBoard = false, perNum = false;      // per-board sizes in the configuration
  std::map<Key, Ob> obs;
  std::string imgDir;         // prefix of the frame paths
  std::string camPrefix = "Cam_";
  std::vector<std::string> exts{"png"}; // of the images, by turns
  std::map<int, cv::Mat> print; // printed board of each number (else drawn by the renderer)
  Pose boardInCam(int c, int f, int b) const {
    return cams[c].T_cr * T_ra[f] * boards[b].T_ab;
  }
};

// Builds the world and its observations from the plan's knobs and items.
Scene buildScene(const Plan &p);
// adds the geometry knobs of a random scene; layout: arc, fan, split, wall
void genScene(Plan &p, Rng &r, const std::string &layout);

// premise of the accuracy properties: every view determines its pose
void clearViews(Plan &p, Rng &r);

std::string framePath(const Scene &s, int cam, int frameId);
void writeKeypoints(const Scene &s, const std::string &file);
// camera parameter file with the true intrinsics (or the supplied ones)
void writeCamParams(const Scene &s, const std::string &file,
                    const std::vector<CamModel> &models);
std::vector<CamModel> perturbedModels(const Scene &s, Rng &r, double amount);

struct Config {
  std::map<std::string, std::string> kv; // raw yaml values
};
Config baseConfig(const Scene &s, const Plan &p);
void writeConfig(const Config &c, const std::string &file);

// image rendering (for the detection stage)
int cornersFound(const Scene &s, int board, const cv::Mat &image);
cv::Mat renderImage(const Scene &s, int cam, int frame, uint64_t texSeed);

} // namespace sim
