#include "results.h"

#include <algorithm>
#include <cmath>
#include <opencv2/calib3d.hpp>
#include <opencv2/core.hpp>

namespace sim {

const char *kResultFiles[5] = {"calibrated_cameras_data.yml", "calibrated_objects_data.yml",
                               "calibrated_objects_pose_data.yml", "reprojection_error_data.yml",
                               "detected_keypoints_data.yml"};
double &gK() {
  static double k = 10;
  return k;
}

static int suffix(const std::string &key, const std::string &prefix) {
  if (key.compare(0, prefix.size(), prefix))
    return -1;
  std::string t = key.substr(prefix.size());
  if (t.empty() || t.find_first_not_of("0123456789") != std::string::npos)
    return -1;
  return std::stoi(t);
}
static std::vector<double> matList(const cv::FileNode &n) {
  std::vector<double> v;
  if (n.empty())
    return v;
  if (n.isSeq()) {
    for (auto it = n.begin(); it != n.end(); ++it)
      v.push_back((double)*it);
    return v;
  }
  cv::Mat m;
  n >> m;
  cv::Mat d;
  if (m.empty())
    return v;
  m.reshape(1).convertTo(d, CV_64F);
  for (int i = 0; i < d.rows; i++)
    for (int k = 0; k < d.cols; k++)
      v.push_back(d.at<double>(i, k));
  return v;
}

KpRes readKeypoints(const std::string &file, std::string &error) {
  KpRes r;
  try {
    cv::FileStorage fs(file, cv::FileStorage::READ);
    if (!fs.isOpened()) {
      error = "cannot open " + file;
      return r;
    }
    if (fs["nb_camera"].isInt())
      r.nbCamera = (int)fs["nb_camera"];
    cv::FileNode root = fs.root();
    for (auto it = root.begin(); it != root.end(); ++it) {
      cv::FileNode n = *it;
      int c = suffix(n.name(), "camera_");
      if (c < 0)
        continue;
      if (r.cams.count(c)) {
        error = "camera " + std::to_string(c) + " twice in " + file;
        return r;
      }
      KpRes::Cam &k = r.cams[c];
      n["img_width"] >> k.w;
      n["img_height"] >> k.h;
      std::vector<int> fi, bi;
      std::vector<std::string> fp;
      std::vector<std::vector<cv::Point2f>> pts;
      std::vector<std::vector<int>> ids;
      n["frame_idxs"] >> fi;
      n["frame_paths"] >> fp;
      n["board_idxs"] >> bi;
      n["pts_2d"] >> pts;
      n["charuco_idxs"] >> ids;
      if (fi.size() != bi.size() || fi.size() != fp.size() || fi.size() != pts.size() ||
          fi.size() != ids.size()) {
        error = "unequal lists for camera " + std::to_string(c) + " in " + file;
        return r;
      }
      for (size_t i = 0; i < fi.size(); i++) {
        if (pts[i].size() != ids[i].size()) {
          error = "unequal points and ids for camera " + std::to_string(c) + " in " + file;
          return r;
        }
        k.items.push_back({fi[i], bi[i], fp[i], ids[i], pts[i]});
      }
    }
  } catch (const std::exception &e) {
    error = file + ": " + e.what();
  }
  return r;
}

Results readResults(const std::string &dir, const std::string &camFile) {
  Results r;
  auto bad = [&](const std::string &e) {
    if (r.parsed)
      r.error = e;
    r.parsed = false;
  };
  try {
    {
      cv::FileStorage fs(dir + "/" + camFile, cv::FileStorage::READ);
      if (!fs.isOpened())
        bad("no camera file");
      else {
        if (fs["nb_camera"].isInt())
          r.nbCamera = (int)fs["nb_camera"];
        cv::FileNode root = fs.root();
        for (auto it = root.begin(); it != root.end(); ++it) {
          cv::FileNode n = *it;
          int c = suffix(n.name(), "camera_");
          if (c < 0)
            continue;
          CamRes k;
          cv::Mat K, P;
          n["camera_matrix"] >> K;
          n["camera_pose_matrix"] >> P;
          k.dist = matList(n["distortion_vector"]);
          n["distortion_type"] >> k.type;
          n["camera_group"] >> k.group;
          n["img_width"] >> k.w;
          n["img_height"] >> k.h;
          if (K.rows != 3 || K.cols != 3 || P.rows != 4 || P.cols != 4) {
            bad("camera entry incomplete");
            continue;
          }
          K.convertTo(K, CV_64F);
          P.convertTo(P, CV_64F);
          k.K[0] = K.at<double>(0, 0);
          k.K[1] = K.at<double>(1, 1);
          k.K[2] = K.at<double>(0, 2);
          k.K[3] = K.at<double>(1, 2);
          k.affine = K.at<double>(0, 1) == 0 && K.at<double>(1, 0) == 0 && K.at<double>(2, 0) == 0 &&
                     K.at<double>(2, 1) == 0 && K.at<double>(2, 2) == 1;
          Pose T;
          for (int i = 0; i < 3; i++) {
            for (int q = 0; q < 3; q++)
              T.R(i, q) = P.at<double>(i, q);
            T.t[i] = P.at<double>(i, 3);
          }
          k.rigid = (T.R * T.R.transpose() - Mat3::Identity()).norm() < 1e-6 && T.R.determinant() > 0 &&
                    P.at<double>(3, 3) == 1;
          k.T = T.inv();
          r.cams.insert({c, k});
        }
      }
    }
    {
      cv::FileStorage fs(dir + "/" + kResultFiles[1], cv::FileStorage::READ);
      if (!fs.isOpened())
        bad("no object file");
      else {
        cv::FileNode root = fs.root();
        for (auto it = root.begin(); it != root.end(); ++it) {
          int o = suffix((*it).name(), "object_");
          if (o < 0)
            continue;
          cv::Mat m;
          (*it)["points"] >> m;
          m.convertTo(m, CV_64F);
          ObjRes x;
          if (m.rows != 5) {
            bad("object entry incomplete");
            continue;
          }
          for (int i = 0; i < m.cols; i++)
            x.pts.push_back({m.at<double>(0, i), m.at<double>(1, i), m.at<double>(2, i),
                             m.at<double>(3, i), m.at<double>(4, i)});
          r.objs.insert({o, x});
        }
      }
    }
    {
      cv::FileStorage fs(dir + "/" + kResultFiles[2], cv::FileStorage::READ);
      if (!fs.isOpened())
        bad("no object pose file");
      else {
        cv::FileNode root = fs.root();
        for (auto it = root.begin(); it != root.end(); ++it) {
          int o = suffix((*it).name(), "object_");
          if (o < 0)
            continue;
          auto i2 = r.objs.find(o);
          if (i2 == r.objs.end()) {
            bad("poses of an unknown object");
            continue;
          }
          if (i2->second.hasPoses) {
            bad("poses of one object twice");
            continue;
          }
          cv::Mat m;
          (*it)["poses"] >> m;
          m.convertTo(m, CV_64F);
          if (m.rows != 6) {
            bad("pose entry incomplete");
            continue;
          }
          i2->second.hasPoses = true;
          for (int i = 0; i < m.cols; i++) {
            std::array<double, 6> a;
            for (int k = 0; k < 6; k++)
              a[k] = m.at<double>(k, i);
            i2->second.poses.push_back(a);
          }
        }
      }
    }
    {
      cv::FileStorage fs(dir + "/" + kResultFiles[3], cv::FileStorage::READ);
      if (!fs.isOpened())
        bad("no error file");
      else {
        if (fs["nb_camera_group"].isInt())
          r.err.nbGroups = (int)fs["nb_camera_group"];
        cv::FileNode root = fs.root();
        for (auto it = root.begin(); it != root.end(); ++it) {
          int g = suffix((*it).name(), "camera_group_");
          if (g < 0)
            continue;
          ErrRes::Group G;
          for (auto jt = (*it).begin(); jt != (*it).end(); ++jt) {
            cv::FileNode fn = *jt;
            if (fn.name() == "frame_list") {
              for (double v : matList(fn))
                G.frameList.push_back((int)v);
              continue;
            }
            int f = suffix(fn.name(), "frame_");
            if (f < 0)
              continue;
            ErrRes::Frame F;
            for (auto kt = fn.begin(); kt != fn.end(); ++kt) {
              cv::FileNode cn = *kt;
              if (cn.name() == "camera_list") {
                for (double v : matList(cn))
                  F.camList.push_back((int)v);
                continue;
              }
              int c = suffix(cn.name(), "camera_");
              if (c < 0)
                continue;
              F.lists.insert({c, matList(cn["error_list"])});
              F.nbPts.insert({c, (int)cn["nb_pts"]});
            }
            G.frames.insert({f, F});
          }
          r.err.groups.insert({g, G});
        }
      }
    }
  } catch (const std::exception &e) {
    bad(std::string("parse: ") + e.what());
  }
  std::string e;
  r.kp = readKeypoints(dir + "/" + kResultFiles[4], e);
  if (!e.empty())
    bad(e);
  return r;
}

static std::string S(double v) {
  char b[40];
  std::snprintf(b, sizeof b, "%.4g", v);
  return b;
}
static std::string I(long v) { return std::to_string(v); }

// normalised deviation of x under covariance C (+ floor)
static double dev(const Eigen::VectorXd &x, Eigen::MatrixXd C, const Eigen::VectorXd &floorSd) {
  for (int i = 0; i < x.size(); i++)
    C(i, i) += floorSd[i] * floorSd[i];
  Eigen::VectorXd d(x.size());
  for (int i = 0; i < x.size(); i++)
    d[i] = 1 / std::sqrt(C(i, i));
  Eigen::MatrixXd Cs = d.asDiagonal() * C * d.asDiagonal();
  Cs += Eigen::MatrixXd::Identity(x.size(), x.size()) * 1e-9;
  Eigen::VectorXd xs = d.asDiagonal() * x;
  double q = xs.dot(Cs.ldlt().solve(xs));
  if (!(q >= 0))
    return 1e9;
  return std::sqrt(q / x.size());
}
static Eigen::VectorXd poseErr(const Pose &est, const Pose &truth) {
  Eigen::VectorXd e(6);
  Mat3 dR = est.R * truth.R.transpose();
  e.head(3) = logRot(dR);
  e.tail(3) = est.t - dR * truth.t;
  return e;
}
static Pose kabsch(const std::vector<Vec3> &a, const std::vector<Vec3> &b) { // b = T a
  Vec3 ca = Vec3::Zero(), cb = Vec3::Zero();
  for (size_t i = 0; i < a.size(); i++) {
    ca += a[i];
    cb += b[i];
  }
  ca /= (double)a.size();
  cb /= (double)a.size();
  Mat3 H = Mat3::Zero();
  for (size_t i = 0; i < a.size(); i++)
    H += (b[i] - cb) * (a[i] - ca).transpose();
  Eigen::JacobiSVD<Mat3> svd(H, Eigen::ComputeFullU | Eigen::ComputeFullV);
  Mat3 D = Mat3::Identity();
  D(2, 2) = (svd.matrixU() * svd.matrixV().transpose()).determinant() < 0 ? -1 : 1;
  Mat3 R = svd.matrixU() * D * svd.matrixV().transpose();
  return {R, cb - R * ca};
}

void judgeStructure(const Results &r, const Scene &s, const Partition &p, Judge &j) {
  auto fail = [&](const std::string &c, const std::string &d) { j.f.push_back({c, d}); };
  if (!r.parsed) {
    fail("unreadable", r.error);
    return;
  }
  if (r.nbCamera != (int)s.cams.size())
    fail("nb_camera", "nb_camera " + I(r.nbCamera) + " instead of " + I((long)s.cams.size()));
  for (auto &g : p.groupOf) {
    auto n = r.cams.count(g.first);
    if (n != 1)
      fail(n ? "camera-twice" : "camera-missing", "camera " + I(g.first) + " exported " + I((long)n) + " times");
  }
  for (auto &c : r.cams) {
    if (!p.groupOf.count(c.first)) {
      fail("camera-unobserved", "camera " + I(c.first) + " exported without observations");
      continue;
    }
    const SimCam &sc = s.cams[c.first];
    if (c.second.w != sc.m.w || c.second.h != sc.m.h)
      fail("image-size", "camera " + I(c.first) + " size " + I(c.second.w) + "x" + I(c.second.h));
    if (c.second.type != sc.m.model)
      fail("distortion-type", "camera " + I(c.first) + " type " + I(c.second.type));
    if ((int)c.second.dist.size() != (sc.m.model == 0 ? 5 : 4))
      fail("distortion-size", "camera " + I(c.first));
    if (!c.second.rigid)
      fail("pose-not-rigid", "camera " + I(c.first));
    if (!c.second.affine)
      fail("camera-matrix", "camera " + I(c.first));
  }
  if (!p.clear)
    return;
  j.opinion = true;
  for (auto &a : r.cams)
    for (auto &b : r.cams)
      if (a.first < b.first && p.groupOf.count(a.first) && p.groupOf.count(b.first)) {
        bool same = p.groupOf.at(a.first) == p.groupOf.at(b.first);
        bool got = a.second.group == b.second.group;
        if (same && !got)
          fail("group-split", "cameras " + I(a.first) + " and " + I(b.first) + " are linked but in different groups");
        if (!same && got)
          fail("group-joined", "cameras " + I(a.first) + " and " + I(b.first) + " are not linked but in one group");
      }
  std::map<int, int> gn;
  for (auto &c : r.cams)
    gn[c.second.group]++;
  for (auto &g : p.groups) {
    auto it = r.cams.find(g[0]);
    if (it == r.cams.end())
      continue;
    if ((it->second.T.R - Mat3::Identity()).norm() > 1e-9 || it->second.T.t.norm() > 1e-9 * (1 + s.boards[0].sq))
      fail("reference-pose", "reference camera " + I(g[0]) + " has a non-identity pose");
  }
  if (r.err.nbGroups != (int)p.groups.size())
    fail("group-count", "error file counts " + I(r.err.nbGroups) + " groups, expected " + I((long)p.groups.size()));
  if (r.err.groups.size() != p.groups.size())
    fail("group-count", "error file has " + I((long)r.err.groups.size()) + " groups, expected " + I((long)p.groups.size()));
  for (auto &g : r.err.groups)
    if (!gn.count(g.first))
      fail("group-ids", "error file group " + I(g.first) + " does not exist in the camera file");
}

static bool precise(const Accuracy &a) {
  return a.ok && a.relFocal < 0.01 && a.rot < 0.01 && a.trans < 0.02;
}

void judgeCameras(const Results &r, const Scene &s, const Partition &p, bool fixIntr, Judge &j) {
  if (!r.parsed || !p.clear)
    return;
  for (size_t g = 0; g < p.groups.size(); g++) {
    Accuracy A = crlb(s, p, (int)g, fixIntr);
    if (!precise(A)) {
      j.probes["imprecise"]++;
      continue;
    }
    int ref = p.groups[g][0];
    for (int c : p.groups[g]) {
      auto it = r.cams.find(c);
      if (it == r.cams.end())
        continue;
      const CamModel &m = s.cams[c].m;
      if (A.intrOff.count(c) && (int)it->second.dist.size() >= m.np() - 4) {
        int n = m.np();
        Eigen::VectorXd e(n), fl(n);
        for (int i = 0; i < 4; i++) {
          e[i] = it->second.K[i] - m.p[i];
          fl[i] = 2e-5 * m.p[0];
        }
        for (int i = 4; i < n; i++) {
          e[i] = it->second.dist[i - 4] - m.p[i];
          fl[i] = 1e-4;
        }
        double d = dev(e, A.cov.block(A.intrOff[c], A.intrOff[c], n, n), fl);
        j.worstIntr = std::max(j.worstIntr, d);
        if (d > gK())
          j.f.push_back({"intrinsics", "camera " + I(c) + " intrinsics off by " + S(d) + " sigma (f " +
                                           S(it->second.K[0]) + " vs " + S(m.p[0]) + ")"});
        j.opinion = true;
      }
      if (c != ref) {
        Pose truth = s.cams[c].T_cr * s.cams[ref].T_cr.inv();
        Eigen::VectorXd e = poseErr(it->second.T, truth), fl(6);
        fl << 2e-5, 2e-5, 2e-5, 2e-5 * A.dist, 2e-5 * A.dist, 2e-5 * A.dist;
        double d = dev(e, A.cov.block(A.camOff[c], A.camOff[c], 6, 6), fl);
        j.worstCam = std::max(j.worstCam, d);
        if (d > gK())
          j.f.push_back({"camera-pose", "camera " + I(c) + " pose off by " + S(d) + " sigma (rot " +
                                            S(e.head(3).norm()) + " rad, trans " + S(e.tail(3).norm() / A.dist) + " of distance)"});
        j.opinion = true;
      }
    }
  }
}

void judgeObjects(const Results &r, const Scene &s, const Partition &p, bool fixIntr, Judge &j) {
  if (!r.parsed)
    return;
  auto fail = [&](const std::string &c, const std::string &d) { j.f.push_back({c, d}); };
  std::map<int, std::map<int, std::vector<Vec3>>> where; // board -> pt -> positions
  std::map<int, std::set<int>> objsOf;
  for (auto &o : r.objs)
    for (auto &q : o.second.pts) {
      int b = (int)std::lround(q[3]), id = (int)std::lround(q[4]);
      if (b < 0 || b >= (int)s.boards.size() || id < 0 || id >= s.boards[b].npts() ||
          std::abs(q[3] - b) > 1e-6 || std::abs(q[4] - id) > 1e-6) {
        fail("object-point-id", "object " + I(o.first) + " has a point of board " + S(q[3]) + " id " + S(q[4]));
        continue;
      }
      where[b][id].push_back(Vec3(q[0], q[1], q[2]));
      objsOf[b].insert(o.first);
    }
  std::map<int, Pose> placed;
  for (auto &bo : p.objOf) {
    int b = bo.first;
    if (!where.count(b)) {
      fail("board-missing", "board " + I(b) + " is observed but in no object");
      continue;
    }
    if (objsOf[b].size() != 1) {
      fail("board-twice", "board " + I(b) + " is in several objects");
      continue;
    }
    std::vector<Vec3> m, e;
    bool all = true;
    for (int id = 0; id < s.boards[b].npts(); id++) {
      auto it = where[b].find(id);
      if (it == where[b].end() || it->second.size() != 1) {
        fail("board-points", "board " + I(b) + " point " + I(id) + " exported " +
                                 I(it == where[b].end() ? 0 : (long)it->second.size()) + " times");
        all = false;
        break;
      }
      m.push_back(s.boards[b].pt(id));
      e.push_back(it->second[0]);
    }
    if (!all)
      continue;
    Pose T = kabsch(m, e);
    double ext = (m.back() - m.front()).norm(), worst = 0, scale = ext;
    for (size_t i = 0; i < m.size(); i++) {
      worst = std::max(worst, (T * m[i] - e[i]).norm());
      scale = std::max(scale, e[i].norm());
    }
    if (!(worst < 2e-5 * scale))
      fail("board-not-rigid", "board " + I(b) + " points deviate by " + S(worst / ext) + " of its size from its geometry");
    placed[b] = T;
    j.opinion = true;
  }
  for (auto &x : where)
    if (!p.objOf.count(x.first))
      fail("board-unobserved", "board " + I(x.first) + " exported but never observed");
  if (!p.clear)
    return;
  for (auto &a : placed)
    for (auto &b : placed)
      if (a.first < b.first) {
        bool same = p.objOf.at(a.first) == p.objOf.at(b.first);
        bool got = *objsOf[a.first].begin() == *objsOf[b.first].begin();
        if (same && !got)
          fail("object-split", "boards " + I(a.first) + " and " + I(b.first) + " are linked but in different objects");
        if (!same && got)
          fail("object-joined", "boards " + I(a.first) + " and " + I(b.first) + " are not linked but in one object");
      }
  // placement: correct for at least one of the groups that see the pair
  std::map<int, std::pair<double, std::string>> best;
  for (size_t g = 0; g < p.groups.size(); g++) {
    Accuracy A = crlb(s, p, (int)g, fixIntr);
    for (auto &x : A.boardOff) {
      int b = x.first, ref = A.refBoard.at(p.objOf.at(b));
      if (!placed.count(b) || !placed.count(ref))
        continue;
      double d = 0;
      std::string txt;
      if (precise(A)) {
        Pose est = placed[ref].inv() * placed[b], truth = s.boards[ref].T_ab.inv() * s.boards[b].T_ab;
        Eigen::VectorXd e = poseErr(est, truth), fl(6);
        double sz = s.boards[b].sq * 6;
        // exported as 32-bit floats
        double fr = 2e-5;
        fl << fr, fr, fr, fr * A.dist, fr * A.dist, fr * A.dist;
        (void)sz;
        d = dev(e, A.cov.block(x.second, x.second, 6, 6), fl);
        txt = "board " + I(b) + " relative to board " + I(ref) + " off by " + S(d) + " sigma (rot " +
              S(e.head(3).norm()) + " rad, trans " + S(e.tail(3).norm() / A.dist) + " of distance)";
        j.opinion = true;
      } else
        j.probes["imprecise"]++;
      auto it = best.find(b);
      if (it == best.end() || d < it->second.first)
        best[b] = {d, txt};
    }
  }
  for (auto &b : best) {
    j.worstBoard = std::max(j.worstBoard, b.second.first);
    if (b.second.first > gK())
      fail("board-placement", b.second.second);
  }
}

// predicted image of an object point
static bool predict(const CamRes &c, const Pose &T, const Vec3 &x, Vec2 &u) {
  double k[5] = {0};
  for (size_t i = 0; i < c.dist.size() && i < 5; i++)
    k[i] = c.dist[i];
  // the plain formulas, as the program evaluates them: also for points behind the camera
  Vec3 y = T * x;
  if (std::abs(y.z()) <= 1e-12)
    return false;
  double a = y.x() / y.z(), b = y.y() / y.z(), r2 = a * a + b * b, dx, dy;
  if (c.type != 1) {
    double rad = 1 + k[0] * r2 + k[1] * r2 * r2 + k[4] * r2 * r2 * r2;
    dx = a * rad + 2 * k[2] * a * b + k[3] * (r2 + 2 * a * a);
    dy = b * rad + 2 * k[3] * a * b + k[2] * (r2 + 2 * b * b);
  } else {
    double r = std::sqrt(r2), th = std::atan(r), t2 = th * th;
    double thd = th * (1 + k[0] * t2 + k[1] * t2 * t2 + k[2] * t2 * t2 * t2 + k[3] * t2 * t2 * t2 * t2);
    double sc = r > 1e-8 ? thd / r : 1;
    dx = a * sc;
    dy = b * sc;
  }
  u = Vec2(c.K[0] * dx + c.K[2], c.K[1] * dy + c.K[3]);
  return true;
}

void judgeConsistency(const Results &r, const Scene &s, const Partition &p, Judge &j) {
  auto fail = [&](const std::string &c, const std::string &d) { j.f.push_back({c, d}); };
  if (!r.parsed) {
    fail("unreadable", r.error);
    return;
  }
  // exported structure
  std::map<int, int> objOfBoard;
  std::map<std::pair<int, int>, Vec3> X;
  for (auto &o : r.objs)
    for (auto &q : o.second.pts) {
      objOfBoard[(int)std::lround(q[3])] = o.first;
      X[{(int)std::lround(q[3]), (int)std::lround(q[4])}] = Vec3(q[0], q[1], q[2]);
    }
  // kept observations; none invented, none duplicated
  struct O {
    std::vector<Vec3> x;
    std::vector<Vec2> u;
  };
  std::map<int, int> frameOf; // frame number -> index
  for (size_t f = 0; f < s.frameIds.size(); f++)
    frameOf[s.frameIds[f]] = (int)f;
  std::map<std::tuple<int, int, int>, O> kept; // frame number, object, cam
  std::set<std::tuple<int, int, int>> seen;
  size_t nKept = 0;
  if (r.kp.nbCamera != (int)s.cams.size())
    fail("keypoints-cameras", "nb_camera in the keypoints file is " + I(r.kp.nbCamera));
  for (auto &c : r.kp.cams)
    for (auto &it : c.second.items) {
      if (!seen.insert({c.first, it.frame, it.board}).second) {
        fail("keypoints-twice", "camera " + I(c.first) + " frame " + I(it.frame) + " board " + I(it.board));
        continue;
      }
      auto fi = frameOf.find(it.frame);
      auto oi = fi == frameOf.end() ? s.obs.end() : s.obs.find(Key(c.first, fi->second, it.board));
      if (oi == s.obs.end()) {
        fail("keypoints-invented", "camera " + I(c.first) + " frame " + I(it.frame) + " board " + I(it.board));
        continue;
      }
      std::map<int, cv::Point2f> want;
      for (size_t k = 0; k < oi->second.ids.size(); k++)
        want[oi->second.ids[k]] = oi->second.px[k];
      std::set<int> ids;
      for (size_t k = 0; k < it.ids.size(); k++) {
        auto w = want.find(it.ids[k]);
        if (!ids.insert(it.ids[k]).second || w == want.end() ||
            std::abs(w->second.x - it.px[k].x) > 2e-3 || std::abs(w->second.y - it.px[k].y) > 2e-3) {
          fail("keypoints-wrong", "camera " + I(c.first) + " frame " + I(it.frame) + " board " + I(it.board) +
                                      " point " + I(it.ids[k]));
          break;
        }
      }
      if (it.ids.empty())
        continue;
      if (!objOfBoard.count(it.board)) {
        fail("board-missing", "board " + I(it.board) + " kept but in no object");
        continue;
      }
      O &o = kept[{it.frame, objOfBoard[it.board], c.first}];
      for (size_t k = 0; k < it.ids.size(); k++) {
        o.x.push_back(X[{it.board, it.ids[k]}]);
        o.u.push_back(Vec2(it.px[k].x, it.px[k].y));
      }
      nKept++;
    }
  j.probes["kept"] += (int)nKept;
  // lost whole observations although nothing is wrong with them
  size_t clean = 0, lost = 0;
  for (auto &o : s.obs) {
    if (o.second.bogus)
      continue;
    clean++;
    if (!seen.count({std::get<0>(o.first), s.frameIds[std::get<1>(o.first)], std::get<2>(o.first)}))
      lost++;
  }
  if (lost)
    fail("keypoints-lost", I((long)lost) + " of " + I((long)clean) + " observations are missing from the keypoints file");
  // --- object poses: one per (object, camera, frame)
  std::map<int, std::vector<const std::pair<const std::tuple<int, int, int>, O> *>> perObj;
  for (auto &k : kept)
    perObj[std::get<1>(k.first)].push_back(&k);
  for (auto &o : r.objs) {
    auto want = perObj[o.first];
    // export order: camera, then frame
    std::sort(want.begin(), want.end(), [](auto *a, auto *b) {
      return std::make_pair(std::get<2>(a->first), std::get<0>(a->first)) <
             std::make_pair(std::get<2>(b->first), std::get<0>(b->first));
    });
    if (!o.second.hasPoses || o.second.poses.size() != want.size()) {
      fail("pose-count", "object " + I(o.first) + " has " + I((long)o.second.poses.size()) + " poses for " +
                             I((long)want.size()) + " observations");
      continue;
    }
    if (!want.empty())
      j.opinion = true;
  }
  // --- error lists
  std::map<std::pair<int, int>, std::vector<std::vector<double>>> lists; // (cam, frame)
  std::map<int, int> groupOf;
  for (auto &c : r.cams)
    groupOf[c.first] = c.second.group;
  std::set<int> gseen;
  for (auto &g : r.err.groups) {
    if (!gseen.insert(g.first).second)
      fail("error-group-twice", I(g.first));
    std::vector<int> fl = g.second.frameList, fr;
    for (auto &f : g.second.frames) {
      fr.push_back(f.first);
      std::vector<int> cl = f.second.camList, ck;
      for (auto &c : f.second.lists) {
        ck.push_back(c.first);
        if (groupOf.count(c.first) && groupOf[c.first] != g.first)
          fail("error-wrong-group", "camera " + I(c.first) + " frame " + I(f.first) + " listed in group " + I(g.first));
        lists[{c.first, f.first}].push_back(c.second);
      }
      for (auto &c : f.second.nbPts) {
        bool ok = false;
        auto rg = f.second.lists.equal_range(c.first);
        for (auto q = rg.first; q != rg.second; ++q)
          ok |= (int)q->second.size() == c.second;
        if (!ok)
          fail("error-nb", "camera " + I(c.first) + " frame " + I(f.first) + " nb_pts " + I(c.second));
      }
      std::sort(cl.begin(), cl.end());
      std::sort(ck.begin(), ck.end());
      if (cl != ck)
        fail("error-camera-list", "group " + I(g.first) + " frame " + I(f.first));
    }
    std::sort(fl.begin(), fl.end());
    std::sort(fr.begin(), fr.end());
    if (fl != fr)
      fail("error-frame-list", "group " + I(g.first) + " lists " + I((long)fl.size()) + " frames, has " + I((long)fr.size()));
  }
  std::map<std::pair<int, int>, std::vector<const std::pair<const std::tuple<int, int, int>, O> *>> perCF;
  for (auto &k : kept)
    perCF[{std::get<2>(k.first), std::get<0>(k.first)}].push_back(&k);
  for (auto &l : lists)
    if (!perCF.count(l.first))
      fail("error-invented", "camera " + I(l.first.first) + " frame " + I(l.first.second));
  for (auto &k : perCF) {
    auto it = lists.find(k.first);
    size_t n = it == lists.end() ? 0 : it->second.size();
    if (n != k.second.size()) {
      fail(n < k.second.size() ? "error-missing" : "error-twice",
           "camera " + I(k.first.first) + " frame " + I(k.first.second) + " has " + I((long)n) + " error lists for " +
               I((long)k.second.size()) + " observations");
      continue;
    }
    std::multiset<size_t> a, b;
    for (auto &v : it->second)
      a.insert(v.size());
    for (auto *o : k.second)
      b.insert(o->second.x.size());
    if (a != b)
      fail("error-size", "camera " + I(k.first.first) + " frame " + I(k.first.second) +
                             ": error entries do not match the kept keypoints");
  }
  if (!j.f.empty())
    return;
  // --- the errors themselves: one pose per (group, frame, object) must explain all of them
  std::map<std::tuple<int, int, int>, std::vector<const std::pair<const std::tuple<int, int, int>, O> *>> sets;
  for (auto &k : kept) {
    int c = std::get<2>(k.first);
    if (groupOf.count(c))
      sets[{groupOf[c], std::get<0>(k.first), std::get<1>(k.first)}].push_back(&k);
  }
  auto errorMismatch = [&](const std::vector<const std::pair<const std::tuple<int, int, int>, O> *> &set, const Pose &P) {
    double worst = 0;
    for (auto *k : set) {
      int c = std::get<2>(k->first);
      const CamRes &cr = r.cams.find(c)->second;
      std::vector<double> e;
      double zmin = 1e18, ymax = 0;
      for (auto &x : k->second.x) {
        Vec3 y = (cr.T * P) * x;
        zmin = std::min(zmin, std::abs(y.z()));
        ymax = std::max(ymax, y.norm());
      }
      if (zmin < 2e-3 * ymax)
        continue; // a point in the plane of the lens (diverged calibration): no meaningful number
      // the program computes in single precision: what that is worth here, in pixels
      double sens = 0;
      const Pose T = cr.T * P;
      for (size_t i = 0; i < k->second.x.size(); i++) {
        Vec2 u, v;
        bool ok = predict(cr, T, k->second.x[i], u);
        e.push_back(ok ? (u - k->second.u[i]).norm() : 1e6);
        double d = 0;
        for (int a = 0; ok && a < 3; a++) {
          Pose S = T;
          S.t(a) += 2e-6 * ymax;
          if (predict(cr, S, k->second.x[i], v))
            d += (u - v).norm();
        }
        sens = std::max(sens, d);
      }
      double bestList = 1e18;
      for (auto &l : lists[{c, std::get<0>(k->first)}]) {
        if (l.size() != e.size())
          continue;
        double d1 = 0, d2 = 0;
        for (size_t i = 0; i < e.size(); i++)
          d1 = std::max(d1, std::abs(e[i] - l[i]) / (1 + l[i] / 50));
        auto a = e, b = l;
        std::sort(a.begin(), a.end());
        std::sort(b.begin(), b.end());
        for (size_t i = 0; i < e.size(); i++)
          d2 = std::max(d2, std::abs(a[i] - b[i]) / (1 + b[i] / 50));
        bestList = std::min(bestList, std::max(0.0, std::min(d1, d2) - sens));
      }
      worst = std::max(worst, bestList);
    }
    return worst;
  };
  // (the exported pose of the object in the frame of the rig is the one the errors belong to)
  for (auto &st : sets) {
    auto oi = r.objs.find(std::get<2>(st.first));
    if (oi == r.objs.end() || oi->second.poses.empty())
      continue;
    // columns are written in the order camera, frame: look there first, then anywhere
    std::vector<size_t> cols;
    {
      auto want = perObj[oi->first];
      std::sort(want.begin(), want.end(), [](auto *a, auto *b) {
        return std::make_pair(std::get<2>(a->first), std::get<0>(a->first)) <
               std::make_pair(std::get<2>(b->first), std::get<0>(b->first));
      });
      for (size_t i = 0; i < want.size(); i++)
        if (want[i] == st.second[0])
          cols.push_back(i);
      for (size_t i = 0; i < want.size(); i++)
        if (want[i] != st.second[0])
          cols.push_back(i);
    }
    double worst = 1e18;
    for (size_t ic = 0; ic < cols.size() && worst > 0.05; ic++) {
      auto &pv = oi->second.poses[cols[ic]];
      const Pose P{rotVec(Vec3(pv[0], pv[1], pv[2])), Vec3(pv[3], pv[4], pv[5])};
      worst = std::min(worst, errorMismatch(st.second, P));
    }
    j.worstErr = std::max(j.worstErr, worst);
    if (worst > 0.05) {
      fail("error-values", "group " + I(std::get<0>(st.first)) + " frame " + I(std::get<1>(st.first)) + " object " +
                               I(std::get<2>(st.first)) + ": exported errors differ by " + S(worst) +
                               " px from the exported structure");
      break;
    }
    j.opinion = true;
  }
}

} // namespace sim
