#include "scene.h"
#include <sstream>

#include <algorithm>
#include <cstdio>
#include <fstream>
#include <opencv2/aruco/charuco.hpp>
#include <opencv2/imgproc.hpp>

namespace sim {

Mat3 rotVec(const Vec3 &w) {
  double a = w.norm();
  if (a < 1e-15)
    return Mat3::Identity();
  return Eigen::AngleAxisd(a, w / a).toRotationMatrix();
}
Vec3 logRot(const Mat3 &R) {
  Eigen::AngleAxisd aa(R);
  return aa.axis() * aa.angle();
}
double rotAngle(const Mat3 &R) {
  Eigen::Quaterniond q(R);
  return 2 * std::atan2(q.vec().norm(), std::abs(q.w()));
}

bool project(const CamModel &c, const Vec3 &x, Vec2 &out) {
  const double *p = c.p;
  if (c.model == 0) {
    if (x.z() <= 1e-9)
      return false;
    double a = x.x() / x.z(), b = x.y() / x.z();
    double r2 = a * a + b * b;
    double k1 = p[4], k2 = p[5], p1 = p[6], p2 = p[7], k3 = p[8];
    double rad = 1 + k1 * r2 + k2 * r2 * r2 + k3 * r2 * r2 * r2;
    // outside the invertible part of the lens model
    double drad = 1 + 3 * k1 * r2 + 5 * k2 * r2 * r2 + 7 * k3 * r2 * r2 * r2;
    if (drad <= 0.2 || rad <= 0.2)
      return false;
    double dx = a * rad + 2 * p1 * a * b + p2 * (r2 + 2 * a * a);
    double dy = b * rad + 2 * p2 * a * b + p1 * (r2 + 2 * b * b);
    out = Vec2(p[0] * dx + p[2], p[1] * dy + p[3]);
    return true;
  }
  double rxy = std::sqrt(x.x() * x.x() + x.y() * x.y());
  if (x.z() <= 1e-9)
    return false;
  double th = std::atan2(rxy, x.z());
  double t2 = th * th;
  double thd =
      th * (1 + p[4] * t2 + p[5] * t2 * t2 + p[6] * t2 * t2 * t2 +
            p[7] * t2 * t2 * t2 * t2);
  double s = rxy > 1e-12 ? thd / rxy : 1 / x.z();
  out = Vec2(p[0] * s * x.x() + p[2], p[1] * s * x.y() + p[3]);
  return true;
}

// The image circle of a wide lens ends before 90 degrees.  (Close to them the program's
// pinhole pixels are many image pixels wide, and no pose can be had from a few points there.)
static bool outsideLens(const CamModel &c, const Vec3 &x) {
  return c.model == 1 && std::atan2(x.head<2>().norm(), x.z()) > 1.2;
}

static Pose lookAt(const Vec3 &eye, const Vec3 &target, double roll) {
  // world -> camera, z forward, y down
  Vec3 z = (target - eye).normalized();
  Vec3 up(0, -1, 0);
  if (std::abs(z.dot(up)) > 0.98)
    up = Vec3(1, 0, 0);
  Vec3 x = (-up).cross(z).normalized();
  Vec3 y = z.cross(x);
  Mat3 R;
  R.row(0) = x;
  R.row(1) = y;
  R.row(2) = z;
  R = rotVec(Vec3(0, 0, roll)) * R;
  return {R, -R * eye};
}

void genScene(Plan &p, Rng &r, const std::string &layout) {
  for (auto k : {"bindex", "frame_gap", "ransac_thresh", "ngroups", "cgroup", "bgroup", "maxrot", "fan_roll", "dist"})
    p.kv.erase(k); // of an earlier attempt
  p.set("layout", layout);
  p.set("scene_seed", r.next() >> 1);
  p.set("noise", r.coin(0.15) ? 0.02 : r.uni(0.05, 0.2));
  p.set("unit", std::vector<double>{1, 1, 100, 1000}[r.ri(0, 3)]);
  int ncam, nboard, nframes;
  if (layout == "split") {
    int G = r.coin(0.75) ? 2 : 3;
    p.set("ngroups", G);
    std::string cg, bg;
    ncam = nboard = 0;
    for (int g = 0; g < G; g++) {
      const double size = r.uni();
      int nc = size < 0.5 ? 1 : size < 0.75 ? 2 : 3, nb = r.coin(0.6) ? 1 : 2;
      for (int k = 0; k < nc; k++, ncam++)
        cg += std::to_string(g) + " ";
      for (int k = 0; k < nb; k++, nboard++)
        bg += std::to_string(g) + " ";
    }
    p.set("cgroup", cg);
    p.set("bgroup", bg);
    nframes = r.ri(30, 50);
    p.set("maxrot", r.uni(15, 22));
    if (r.coin(0.5))
      p.set("fan_roll", 3.14159);
    // few pixels: with a wide threshold the mirrored pose of a planar board passes as well
    p.set("ransac_thresh", r.uni(2, 2.5));
  } else if (layout == "ring") {
    ncam = r.ri(2, 5);
    nboard = r.ri(4, 6);
    nframes = r.ri(20, 34);
  } else if (layout == "fan") {
    ncam = r.ri(2, 5);
    nboard = r.ri(1, 3);
    nframes = 12 + 9 * ncam + r.ri(0, 8);
    if (r.coin(0.5))
      p.set("fan_roll", 3.14159);
  } else {
    ncam = r.ri(1, 4);
    nboard = r.ri(1, 4);
    nframes = r.ri(14, 30);
  }
  // numbers with two digits
  Rng big(p.u("scene_seed"), "big");
  if (big.coin(0.06)) {
    if (layout == "arc") {
      ncam = big.ri(10, 12);
      nboard = std::min(nboard, 2);
      nframes = std::min(nframes, 16);
    } else if (layout == "fan") {
      ncam = big.ri(10, 11);
      nboard = std::min(nboard, 2);
      nframes = 100 + big.ri(0, 12);
    } else if (layout == "ring") {
      nboard = big.ri(10, 12);
      p.set("dist", 3.3);
    }
  }
  p.set("ncam", ncam);
  p.set("nboard", nboard);
  p.set("nframes", nframes);
  // lens models
  int mode = r.ri(0, 3);
  std::string ms;
  for (int c = 0; c < ncam; c++)
    ms += (mode <= 1 ? "0 " : mode == 2 ? "1 " : r.coin(0.5) ? "0 " : "1 ");
  p.set("models", ms);
  // boards
  bool per = r.coin(0.4);
  std::string nx, ny, sq;
  int bx = r.ri(5, 8), by = r.ri(5, 8);
  double bs = r.uni(0.08, 0.15);
  for (int b = 0; b < nboard; b++) {
    if (per) {
      bx = r.ri(5, 8);
      by = r.ri(5, 8);
      bs = r.uni(0.08, 0.15);
    }
    nx += std::to_string(bx) + " ";
    ny += std::to_string(by) + " ";
    char buf[32];
    std::snprintf(buf, sizeof buf, "%.4f ", bs);
    sq += buf;
  }
  p.set("nx", nx);
  p.set("ny", ny);
  p.set("sq", sq);
  p.set("per_board", per ? 1 : 0);
  if (r.coin(0.35)) {
    // a subset of board indices, in any order
    std::vector<int> idx;
    for (int i = 0; i < nboard + 3; i++)
      idx.push_back(i);
    for (size_t i = idx.size(); i > 1; i--)
      std::swap(idx[i - 1], idx[r.ri(0, (int)i - 1)]);
    std::string s;
    for (int b = 0; b < nboard; b++)
      s += std::to_string(idx[b]) + " ";
    p.set("bindex", s);
  }
  if (r.coin(0.3))
    p.set("frame_gap", r.ri(1, 7));
  p.set("quat", r.coin(0.5) ? 1 : 0);
  p.set("he", r.coin(0.5) ? 1 : 0);
}

void clearViews(Plan &p, Rng &r) {
  // a threshold of a few pixels, and no view whose mirrored pose passes it
  if (!p.has("ransac_thresh"))
    p.set("ransac_thresh", p.prop == "C13" ? r.uni(3.5, 5) : r.uni(2, 3.5));
  if (p.str("models").find('1') != std::string::npos && p.has("pert"))
    p.set("pert", 0.4 * p.d("pert"));
  p.set("unamb", p.str("intr") == "self" ? 0 : 1);
}

static void hide(Ob &o, const SimBoard &b, int k) {
  // partial occlusion: only the rows (k > 0) or columns (k < 0) below |k| stay visible
  Ob n;
  n.bogus = o.bogus;
  for (size_t i = 0; i < o.ids.size(); i++) {
    int row = o.ids[i] / (b.nx - 1), col = o.ids[i] % (b.nx - 1);
    if (k > 0 ? row < k : col < -k) {
      n.ids.push_back(o.ids[i]);
      n.px.push_back(o.px[i]);
      n.outlier.push_back(o.outlier[i]);
    }
  }
  o = n;
}

// at least 6 points, spanning at least 2 rows and 2 columns
static bool usable(const Ob &o, const SimBoard &b, double minPerc) {
  if (o.ids.size() < 6 || o.ids.size() <= minPerc * b.npts() + 1)
    return false;
  std::map<int, int> rows, cols;
  for (int id : o.ids) {
    rows[id / (b.nx - 1)]++;
    cols[id % (b.nx - 1)]++;
  }
  int nr = 0, nc = 0;
  for (auto &x : rows)
    nr += x.second >= 2;
  for (auto &x : cols)
    nc += x.second >= 2;
  return nr >= 2 && nc >= 2;
}

// A planar board seen from afar has a second, mirrored pose which reprojects almost as well; when it passes the
// RANSAC threshold no PnP on that view alone can tell the two apart.
static bool ambiguous(const Ob &o, const SimBoard &b, const CamModel &c, const Pose &T0, double thr) {
  std::vector<cv::Point3d> X;
  std::vector<cv::Point2d> u, n;
  std::vector<size_t> at;
  for (size_t i = 0; i < o.ids.size(); i++)
    if (!o.outlier[i]) {
      Vec3 q = b.pt(o.ids[i]);
      X.emplace_back(q.x(), q.y(), q.z());
      u.emplace_back(o.px[i].x, o.px[i].y);
      at.push_back(i);
    }
  if (X.size() < 4)
    return true;
  // beyond this angle the library's undistorted (pinhole) pixels are several image pixels wide
  if (c.model == 1)
    for (auto &q : X) {
      Vec3 y = T0 * Vec3(q.x, q.y, 0);
      if (std::atan2(y.head<2>().norm(), y.z()) > 0.95)
        return true;
    }
  cv::Mat K = (cv::Mat_<double>(3, 3) << c.p[0], 0, c.p[2], 0, c.p[1], c.p[3], 0, 0, 1);
  cv::Mat d(1, c.np() - 4, CV_64F);
  for (int i = 4; i < c.np(); i++)
    d.at<double>(i - 4) = c.p[i];
  if (c.model == 0)
    cv::undistortPoints(u, n, K, d);
  else
    cv::fisheye::undistortPoints(u, n, K, d);
  std::vector<cv::Mat> rv, tv;
  try {
    cv::solvePnPGeneric(X, n, cv::Mat(cv::Mat::eye(3, 3, CV_64F)), cv::Mat(), rv, tv, false, cv::SOLVEPNP_IPPE);
  } catch (const cv::Exception &) {
    return true;
  }
  for (size_t k = 1; k < rv.size(); k++) { // solutions come best first
    Pose T;
    T.R = rotVec(Vec3(rv[k].at<double>(0), rv[k].at<double>(1), rv[k].at<double>(2)));
    T.t = Vec3(tv[k].at<double>(0), tv[k].at<double>(1), tv[k].at<double>(2));
    size_t in = 0;
    for (size_t i = 0; i < X.size(); i++) {
      Vec2 v;
      in += project(c, T * Vec3(X[i].x, X[i].y, 0), v) && (v - Vec2(u[i].x, u[i].y)).norm() < thr;
    }
    if (in >= 0.5 * X.size())
      return true;
  }
  return false;
}

Scene buildScene(const Plan &p) {
  Scene s;
  Rng g(p.u("scene_seed", 1), "geometry");
  const std::string layout = p.str("layout", "arc");
  const int ncam = (int)p.i("ncam", 2), nboard = (int)p.i("nboard", 1),
            nframes = (int)p.i("nframes", 20);
  s.noise = p.d("noise", 0.2);
  s.unit = p.d("unit", 1);
  s.perBoard = p.i("per_board", 0) != 0;
  s.perNum = s.perBoard && p.i("per_num", 1);
  s.imgDir = p.str("imgdir", "images");
  s.camPrefix = p.str("prefix", "Cam_");
  if (p.has("exts")) {
    s.exts.clear();
    std::istringstream is(p.str("exts"));
    for (std::string e; is >> e;)
      s.exts.push_back(e);
  }
  auto models = p.list("models");
  auto nx = p.list("nx"), ny = p.list("ny"), sq = p.list("sq");
  auto bindex = p.list("bindex");
  auto cgroup = p.list("cgroup"), bgroup = p.list("bgroup");
  const double fscale = p.d("fscale", 0); // 0: random
  const double distScale = p.d("dist_scale", 1);

  // --- cameras
  for (int c = 0; c < ncam; c++) {
    Rng r(p.u("scene_seed", 1), "cam" + std::to_string(c));
    SimCam sc;
    CamModel &m = sc.m;
    m.model = c < (int)models.size() ? (int)models[c] : 0;
    m.w = p.has("img_w") ? (int)p.i("img_w") : std::vector<int>{640, 800, 1024, 1280}[r.ri(0, 3)];
    m.h = p.has("img_h") ? (int)p.i("img_h") : m.w * 3 / 4;
    double f = m.model == 0 ? r.uni(0.75, 1.05) : r.uni(0.42, 0.6);
    if (fscale > 0)
      f = fscale * r.uni(0.95, 1.05);
    m.p[0] = f * m.w;
    m.p[1] = m.p[0] * r.uni(0.98, 1.02);
    m.p[2] = m.w * (0.5 + r.uni(-0.02, 0.02));
    m.p[3] = m.h * (0.5 + r.uni(-0.02, 0.02));
    if (m.model == 0) {
      m.p[4] = distScale * r.uni(-0.2, 0.15);
      m.p[5] = distScale * r.uni(-0.05, 0.08);
      m.p[6] = distScale * r.uni(-0.002, 0.002);
      m.p[7] = distScale * r.uni(-0.002, 0.002);
      m.p[8] = r.coin(0.5) ? distScale * r.uni(-0.03, 0.03) : 0;
    } else {
      m.p[4] = distScale * r.uni(-0.05, 0.05);
      m.p[5] = distScale * r.uni(-0.02, 0.02);
      m.p[6] = distScale * r.uni(-0.005, 0.005);
      m.p[7] = distScale * r.uni(-0.002, 0.002);
    }
    s.cams.push_back(sc);
  }
  // --- boards
  for (int b = 0; b < nboard; b++) {
    SimBoard sb;
    sb.nx = b < (int)nx.size() ? (int)nx[b] : 6;
    sb.ny = b < (int)ny.size() ? (int)ny[b] : 6;
    sb.sq = (b < (int)sq.size() ? sq[b] : 0.1) * s.unit;
    sb.index = b < (int)bindex.size() ? (int)bindex[b] : b;
    s.boards.push_back(sb);
  }
  double S = 0; // typical board extent
  for (auto &b : s.boards)
    S = std::max(S, b.sq * std::max(b.nx, b.ny));
  const double D = S * p.d("dist", 2.2);
  const double PI = 3.14159265358979;
  const Mat3 face = Mat3::Identity(); // printed side: x right, y down, z away from the viewer
  auto jit = [&](double a) {
    return Vec3(g.uni(-a, a), g.uni(-a, a), g.uni(-a, a));
  };
  auto centred = [&](const SimBoard &b, const Pose &centre) {
    Pose q = centre;
    q.t -= q.R * Vec3((b.nx - 2) * b.sq / 2, (b.ny - 2) * b.sq / 2, 0);
    return q;
  };
  if (layout == "split") {
    const int G = (int)p.i("ngroups", 2);
    const double maxrot = p.d("maxrot", 18) * PI / 180;
    std::vector<Mat3> dir; // rig -> group viewing frame
    for (int k = 0; k < G; k++) {
      double yaw = 2 * PI * k / G + g.uni(-0.3, 0.3), pitch = g.uni(-0.4, 0.4);
      Mat3 R = Eigen::AngleAxisd(yaw, Vec3::UnitY()).toRotationMatrix() *
               Eigen::AngleAxisd(pitch, Vec3::UnitX()).toRotationMatrix();
      dir.push_back(R.transpose());
    }
    std::vector<int> seenC(G, 0), seenB(G, 0);
    for (int c = 0; c < ncam; c++) {
      int k = c < (int)cgroup.size() ? (int)cgroup[c] : 0;
      const int nth = seenC[k]++; // beside the first one
      Vec3 eye = Vec3(0.25 * D * (nth == 0 ? 0 : nth % 2 ? 1 : -1), 0, 0.15 * D) + jit(0.05 * D);
      Pose view = lookAt(eye, Vec3(g.uni(-.05, .05) * D, g.uni(-.05, .05) * D, 1.15 * D), g.uni(-0.3, 0.3));
      s.cams[c].T_cr = view * Pose{dir[k], Vec3::Zero()};
      if (p.d("fan_roll", 0) > 0) {
        Rng rr(p.u("scene_seed", 1), "roll" + std::to_string(c));
        double turn = p.d("fan_roll");
        s.cams[c].T_cr = Pose{rotVec(Vec3(0, 0, rr.uni(-turn, turn))), Vec3::Zero()} * s.cams[c].T_cr;
      }
    }
    for (int b = 0; b < nboard; b++) {
      int k = b < (int)bgroup.size() ? (int)bgroup[b] : 0;
      double off = seenB[k]++ ? 0.62 * S : -0.2 * S;
      Pose centre{rotVec(jit(0.3)) * face, Vec3(off, g.uni(-.1, .1) * S, 1.15 * D)};
      Pose q = Pose{dir[k].transpose(), Vec3::Zero()} * centre;
      s.boards[b].T_ab = centred(s.boards[b], q);
    }
    for (int f = 0; f < nframes; f++) {
      Rng r(p.u("scene_seed", 1), "frame" + std::to_string(f));
      Vec3 ax(r.gauss(), r.gauss(), r.gauss());
      ax.normalize();
      Pose T{rotVec(ax * maxrot * std::cbrt(r.uni(0.15, 1))),
             Vec3(r.uni(-.15, .15), r.uni(-.15, .15), r.uni(-.15, .15)) * D};
      s.T_ra.push_back(T);
    }
  } else if (layout == "ring") {
    // cameras around a column whose sides carry the boards
    for (int c = 0; c < ncam; c++) {
      double a = p.d("ring_span", 150) * PI / 180 * (ncam > 1 ? c / double(ncam - 1) : 0) + g.uni(-0.1, 0.1);
      Vec3 eye(1.35 * D * std::sin(a), g.uni(-.2, .2) * D, -1.35 * D * std::cos(a));
      s.cams[c].T_cr = lookAt(eye, jit(0.05 * D), g.uni(-0.3, 0.3));
    }
    for (int b = 0; b < nboard; b++) {
      double a = 2 * PI * b / nboard + g.uni(-0.1, 0.1);
      double rad = 0.16 * nboard * S;
      Pose q{Eigen::AngleAxisd(-a, Vec3::UnitY()).toRotationMatrix() * face * rotVec(jit(0.15)),
             Vec3(rad * std::sin(a), g.uni(-.1, .1) * S, -rad * std::cos(a))};
      s.boards[b].T_ab = centred(s.boards[b], q);
    }
    for (int f = 0; f < nframes; f++) {
      Rng r(p.u("scene_seed", 1), "frame" + std::to_string(f));
      Mat3 R = rotVec(Vec3(r.uni(-.5, .5), r.uni(-PI, PI), 0)) * rotVec(Vec3(0, 0, r.uni(-.3, .3)));
      s.T_ra.push_back({R, Vec3(r.uni(-.12, .12), r.uni(-.12, .12), r.uni(-.12, .12)) * D});
    }
  } else if (layout == "fan") {
    double fov = 2 * PI;
    for (auto &c : s.cams)
      fov = std::min(fov, 2 * std::atan2(0.5 * c.m.w, c.m.p[0]));
    double step = p.d("fan_step", 0.55) * fov;
    std::vector<double> yaw;
    for (int c = 0; c < ncam; c++) {
      double a = (c - (ncam - 1) / 2.0) * step + g.uni(-.03, .03);
      yaw.push_back(a);
      Mat3 Ry = Eigen::AngleAxisd(a, Vec3::UnitY()).toRotationMatrix();
      Vec3 eye = Vec3((c - (ncam - 1) / 2.0) * 0.1 * D, g.uni(-.05, .05) * D, 0);
      s.cams[c].T_cr = lookAt(eye, eye + Ry * Vec3(0, g.uni(-.03, .03), 1), g.uni(-0.2, 0.2));
      // cameras mounted sideways or upside down
      double turn = p.d("fan_roll", 0);
      if (turn > 0) {
        Rng rr(p.u("scene_seed", 1), "roll" + std::to_string(c));
        s.cams[c].T_cr = Pose{rotVec(Vec3(0, 0, rr.uni(-turn, turn))), Vec3::Zero()} * s.cams[c].T_cr;
      }
    }
    double span = yaw.back() - yaw.front();
    for (int b = 0; b < nboard; b++) {
      Pose q{rotVec(jit(0.35)) * face, Vec3((b - (nboard - 1) / 2.0) * 0.75 * S, g.uni(-.1, .1) * S, g.uni(-.1, .1) * S)};
      s.boards[b].T_ab = centred(s.boards[b], q);
    }
    for (int f = 0; f < nframes; f++) {
      Rng r(p.u("scene_seed", 1), "frame" + std::to_string(f));
      double a = yaw.front() - 0.25 * fov + (span + 0.5 * fov) * ((f + r.uni()) / nframes);
      Mat3 Ry = Eigen::AngleAxisd(a, Vec3::UnitY()).toRotationMatrix();
      double d = D * r.uni(1.0, 1.9);
      Vec3 ax(r.gauss(), r.gauss(), 0.2 * r.gauss());
      ax.normalize();
      Mat3 R = Ry * rotVec(ax * r.uni(0.1, 0.75)) * rotVec(Vec3(0, 0, r.coin(0.5) ? r.uni(-PI, PI) : r.uni(-.4, .4)));
      s.T_ra.push_back({R, Ry * Vec3(0, r.uni(-.2, .2) * d, d)});
    }
  } else { // arc: all cameras look at the same volume
    double spread = p.d("arc_spread", 0.45);
    for (int c = 0; c < ncam; c++) {
      double a = ncam > 1 ? spread * (2.0 * c / (ncam - 1) - 1) : 0;
      a += g.uni(-.08, .08);
      Vec3 eye(1.35 * D * std::sin(a), g.uni(-.25, .25) * D, 1.35 * D * (1 - std::cos(a)));
      s.cams[c].T_cr = lookAt(eye, Vec3(0, 0, 1.35 * D) + jit(0.05 * D), g.uni(-0.3, 0.3));
    }
    int cols = nboard <= 1 ? 1 : 2;
    double pitch = p.d("board_pitch", 0.8);
    for (int b = 0; b < nboard; b++) {
      int cx = b % cols, cy = b / cols, rows = (nboard + cols - 1) / cols;
      double tilt = p.d("board_tilt", 0.35);
      double spin = p.i("board_spin", 1) ? g.uni(-PI, PI) : 0;
      Pose q{rotVec(jit(tilt)) * rotVec(Vec3(0, 0, spin)) * face,
             Vec3((cx - (cols - 1) / 2.0) * pitch * S, (cy - (rows - 1) / 2.0) * pitch * S, g.uni(-.1, .1) * S)};
      s.boards[b].T_ab = centred(s.boards[b], q);
    }
    for (int f = 0; f < nframes; f++) {
      Rng r(p.u("scene_seed", 1), "frame" + std::to_string(f));
      Vec3 ax(r.gauss(), r.gauss(), 0.1 * r.gauss());
      ax.normalize();
      Mat3 R = rotVec(ax * r.uni(0.1, p.d("frame_tilt", 0.75))) *
               rotVec(Vec3(0, 0, r.coin(0.5) ? r.uni(-PI, PI) : r.uni(-.4, .4)));
      double d = D * r.uni(0.95, 1.7);
      s.T_ra.push_back({R, Vec3(r.uni(-.4, .4) * d * 0.6, r.uni(-.3, .3) * d * 0.6, d)});
    }
  }
  // an arbitrary rig frame, so that nothing is aligned by accident
  {
    Pose any{rotVec(jit(2.0)), jit(D)};
    for (auto &c : s.cams)
      c.T_cr = c.T_cr * any.inv();
    for (auto &f : s.T_ra)
      f = any * f;
  }
  // --- frame numbers
  {
    Rng r(p.u("scene_seed", 1), "frameids");
    int gap = (int)p.i("frame_gap", 0), id = gap ? r.ri(0, 5) : 0;
    for (int f = 0; f < nframes; f++) {
      s.frameIds.push_back(id);
      id += 1 + (gap ? r.ri(0, gap) : 0);
    }
  }
  // --- observations
  const double minPerc = p.d("min_perc", 0.4);
  const double maxView = p.d("max_view", 68) * PI / 180;
  for (int c = 0; c < ncam; c++)
    for (int f = 0; f < nframes; f++)
      for (int b = 0; b < nboard; b++) {
        const SimBoard &sb = s.boards[b];
        Pose T = s.boardInCam(c, f, b);
        Vec3 mid = T * Vec3((sb.nx - 2) * sb.sq / 2, (sb.ny - 2) * sb.sq / 2, 0);
        double ca = T.R.col(2).dot(mid) / mid.norm();
        if (ca < std::cos(maxView))
          continue;
        Ob o;
        for (int id = 0; id < sb.npts(); id++) {
          Vec2 u;
          if (!project(s.cams[c].m, T * sb.pt(id), u) || outsideLens(s.cams[c].m, T * sb.pt(id)))
            continue;
          Rng r(mix64(p.u("scene_seed", 1) ^ mix64(c * 1000003ull + f * 7919ull + b * 104729ull + id)), "noise");
          u += s.noise * Vec2(r.gauss(), r.gauss());
          if (u.x() < 3 || u.y() < 3 || u.x() > s.cams[c].m.w - 4 || u.y() > s.cams[c].m.h - 4)
            continue;
          o.ids.push_back(id);
          o.px.emplace_back((float)u.x(), (float)u.y());
          o.outlier.push_back(0);
        }
        if (usable(o, sb, minPerc))
          s.obs[Key(c, f, b)] = o;
      }
  // --- injected sensor faults
  auto num = [](const std::string &w) { return std::stoi(w); };
  auto eraseIf = [&](auto pred) {
    for (auto it = s.obs.begin(); it != s.obs.end();)
      it = pred(it->first) ? s.obs.erase(it) : std::next(it);
  };
  for (auto &w : p.itemsOf("drop"))
    eraseIf([&](const Key &k) { return std::get<0>(k) == num(w[1]) && std::get<1>(k) == num(w[2]); });
  for (auto &w : p.itemsOf("stall"))
    eraseIf([&](const Key &k) {
      int f = std::get<1>(k);
      return std::get<0>(k) == num(w[1]) && f >= num(w[2]) && f < num(w[2]) + num(w[3]);
    });
  for (auto &w : p.itemsOf("dead"))
    eraseIf([&](const Key &k) { return std::get<0>(k) == num(w[1]); });
  for (auto &w : p.itemsOf("hide"))
    eraseIf([&](const Key &k) {
      int f = std::get<1>(k);
      return std::get<2>(k) == num(w[1]) && f >= num(w[2]) && f < num(w[3]);
    });
  for (auto &w : p.itemsOf("mask"))
    eraseIf([&](const Key &k) { // camera, board, frames from..to
      int f = std::get<1>(k);
      return std::get<0>(k) == num(w[1]) && std::get<2>(k) == num(w[2]) && f >= num(w[3]) && f < num(w[4]);
    });
  for (auto &w : p.itemsOf("occl"))
    s.obs.erase(Key(num(w[1]), num(w[2]), num(w[3])));
  for (auto &w : p.itemsOf("sep")) {
    // boards a and b are never in the same image: in even frames a is covered, in odd frames b
    int a = num(w[1]), b = num(w[2]), turn = w.size() > 3 ? num(w[3]) : 2;
    eraseIf([&](const Key &k) {
      int f = std::get<1>(k);
      return std::get<2>(k) == (f % turn ? b : a);
    });
  }
  for (auto &w : p.itemsOf("part")) {
    auto it = s.obs.find(Key(num(w[1]), num(w[2]), num(w[3])));
    if (it == s.obs.end())
      continue;
    Ob keep = it->second;
    hide(it->second, s.boards[num(w[3])], num(w[4]));
    if (!usable(it->second, s.boards[num(w[3])], minPerc))
      s.obs.erase(it);
  }
  for (auto &w : p.itemsOf("few")) {
    // few cam frame board n: n points are seen (nothing can be calibrated from them)
    auto it = s.obs.find(Key(num(w[1]), num(w[2]), num(w[3])));
    if (it == s.obs.end() || (int)it->second.ids.size() <= num(w[4]))
      continue;
    Ob &o = it->second;
    o.ids.resize(num(w[4]));
    o.px.resize(num(w[4]));
    o.outlier.resize(num(w[4]));
  }
  for (auto &w : p.itemsOf("line")) {
    // line cam frame board k: only row k (or column -k-1) is seen
    auto it = s.obs.find(Key(num(w[1]), num(w[2]), num(w[3])));
    if (it == s.obs.end())
      continue;
    const int nx = s.boards[num(w[3])].nx - 1, k = num(w[4]);
    Ob n;
    for (size_t i = 0; i < it->second.ids.size(); i++)
      if (k >= 0 ? it->second.ids[i] / nx == k : it->second.ids[i] % nx == -k - 1) {
        n.ids.push_back(it->second.ids[i]);
        n.px.push_back(it->second.px[i]);
        n.outlier.push_back(0);
      }
    if (n.ids.empty())
      s.obs.erase(it);
    else
      it->second = n;
  }
  for (auto &w : p.itemsOf("heap")) {
    // heap cam frame board mode: 0 all points at one place, 1 all far outside of the image, 2 on one line
    auto it = s.obs.find(Key(num(w[1]), num(w[2]), num(w[3])));
    if (it == s.obs.end())
      continue;
    const cv::Point2f a = it->second.px[0];
    for (size_t i = 0; i < it->second.px.size(); i++) {
      cv::Point2f &q = it->second.px[i];
      q = num(w[4]) == 0 ? a : num(w[4]) == 1 ? cv::Point2f(q.x * 1000, q.y * -1000) : cv::Point2f(q.x, a.y);
    }
  }
  for (auto &w : p.itemsOf("froz")) {
    // froz cam frame n: the camera repeats this frame n times
    const int c = num(w[1]), f = num(w[2]), n = num(w[3]);
    for (int g = f + 1; g < std::min(nframes, f + 1 + n); g++)
      for (int b = 0; b < nboard; b++) {
        s.obs.erase(Key(c, g, b));
        auto it = s.obs.find(Key(c, f, b));
        if (it != s.obs.end())
          s.obs[Key(c, g, b)] = it->second;
      }
  }
  for (auto &w : p.itemsOf("lone")) {
    // lone cam n: the camera sees the boards in n frames only
    std::set<int> used;
    eraseIf([&](const Key &k) {
      if (std::get<0>(k) != num(w[1]) || used.count(std::get<1>(k)))
        return false;
      if ((int)used.size() >= num(w[2]))
        return true;
      used.insert(std::get<1>(k));
      return false;
    });
  }
  for (auto &w : p.itemsOf("outl")) {
    // outl cam frame board id dx dy
    auto it = s.obs.find(Key(num(w[1]), num(w[2]), num(w[3])));
    if (it == s.obs.end())
      continue;
    for (size_t i = 0; i < it->second.ids.size(); i++)
      if (it->second.ids[i] == num(w[4])) {
        it->second.px[i].x += std::stof(w[5]);
        it->second.px[i].y += std::stof(w[6]);
        it->second.outlier[i] = 1;
      }
  }
  for (auto &w : p.itemsOf("bogus")) {
    // bogus cam frame board seed: a false detection, points anywhere
    int c = num(w[1]), f = num(w[2]), b = num(w[3]);
    if (c >= ncam || f >= nframes || b >= nboard)
      continue;
    Ob o;
    o.bogus = true;
    Rng r(std::stoull(w[4]), "bogus");
    for (int id = 0; id < s.boards[b].npts(); id++) {
      o.ids.push_back(id);
      o.px.emplace_back((float)r.uni(5, s.cams[c].m.w - 5), (float)r.uni(5, s.cams[c].m.h - 5));
      o.outlier.push_back(1);
    }
    s.obs[Key(c, f, b)] = o;
  }
  if (p.i("unamb", 0)) {
    double thr = 1.2 * p.d("ransac_thresh", 10);
    for (auto it = s.obs.begin(); it != s.obs.end();)
      it = !it->second.bogus && ambiguous(it->second, s.boards[std::get<2>(it->first)], s.cams[std::get<0>(it->first)].m,
                                            s.boardInCam(std::get<0>(it->first), std::get<1>(it->first), std::get<2>(it->first)), thr)
               ? s.obs.erase(it)
               : std::next(it);
    // a camera left with a handful of views does not determine its lens: it stays dark
    std::map<int, int> views;
    for (auto &o : s.obs)
      views[std::get<0>(o.first)]++;
    for (auto it = s.obs.begin(); it != s.obs.end();)
      it = views[std::get<0>(it->first)] < 6 ? s.obs.erase(it) : std::next(it);
  }
  return s;
}

std::string framePath(const Scene &s, int cam, int frameId) {
  char buf[64], name[64];
  std::snprintf(buf, sizeof buf, "%03d", cam + 1);
  std::snprintf(name, sizeof name, "/%06d.", frameId);
  return s.imgDir + "/" + s.camPrefix + buf + name + s.exts[(size_t)(cam * 5 + frameId) % s.exts.size()];
}

void writeKeypoints(const Scene &s, const std::string &file) {
  cv::FileStorage fs(file, cv::FileStorage::WRITE);
  fs << "nb_camera" << (int)s.cams.size();
  for (size_t c = 0; c < s.cams.size(); c++) {
    fs << "camera_" + std::to_string(c) << "{";
    fs << "img_width" << s.cams[c].m.w << "img_height" << s.cams[c].m.h;
    std::vector<int> fi, bi;
    std::vector<std::string> fp;
    std::vector<std::vector<cv::Point2f>> pts;
    std::vector<std::vector<int>> ids;
    for (auto &o : s.obs)
      if (std::get<0>(o.first) == (int)c) {
        int id = s.frameIds[std::get<1>(o.first)];
        fi.push_back(id);
        fp.push_back(framePath(s, (int)c, id));
        bi.push_back(std::get<2>(o.first));
        pts.push_back(o.second.px);
        ids.push_back(o.second.ids);
      }
    fs << "frame_idxs" << fi << "frame_paths" << fp << "board_idxs" << bi;
    fs << "pts_2d" << pts << "charuco_idxs" << ids << "}";
  }
}

std::vector<CamModel> perturbedModels(const Scene &s, Rng &r, double a) {
  std::vector<CamModel> v;
  for (auto &c : s.cams) {
    CamModel m = c.m;
    m.p[0] *= 1 + a * r.uni(-1, 1);
    m.p[1] *= 1 + a * r.uni(-1, 1);
    m.p[2] += a * m.w * 0.3 * r.uni(-1, 1);
    m.p[3] += a * m.h * 0.3 * r.uni(-1, 1);
    for (int i = 4; i < m.np(); i++)
      m.p[i] *= 1 + 2 * a * r.uni(-1, 1);
    v.push_back(m);
  }
  return v;
}

void writeCamParams(const Scene &, const std::string &file,
                    const std::vector<CamModel> &models) {
  cv::FileStorage fs(file, cv::FileStorage::WRITE);
  fs << "nb_camera" << (int)models.size();
  for (size_t c = 0; c < models.size(); c++) {
    const CamModel &m = models[c];
    cv::Mat K = (cv::Mat_<double>(3, 3) << m.p[0], 0, m.p[2], 0, m.p[1], m.p[3], 0, 0, 1);
    cv::Mat d(1, m.np() - 4, CV_64F);
    for (int i = 4; i < m.np(); i++)
      d.at<double>(i - 4) = m.p[i];
    fs << "camera_" + std::to_string(c) << "{";
    fs << "camera_matrix" << K << "distortion_vector" << d;
    fs << "distortion_type" << m.model << "camera_group" << 0;
    fs << "img_width" << m.w << "img_height" << m.h;
    fs << "camera_pose_matrix" << cv::Mat(cv::Mat::eye(4, 4, CV_64F)) << "}";
  }
}

static std::string q(const std::string &s) { return "\"" + s + "\""; }
template <class T> static std::string lst(const std::vector<T> &v) {
  std::ostringstream os;
  os.precision(9);
  os << "[ ";
  for (size_t i = 0; i < v.size(); i++)
    os << (i ? ", " : "") << v[i];
  os << " ]";
  return os.str();
}

Config baseConfig(const Scene &s, const Plan &p) {
  Config c;
  auto &k = c.kv;
  auto num = [](double v) {
    std::ostringstream os;
    os.precision(9);
    os << v;
    std::string t = os.str();
    if (t.find_first_of(".e") == std::string::npos)
      t += ".";
    return t;
  };
  const SimBoard &b0 = s.boards[0];
  auto num2 = num;
  k["number_camera"] = std::to_string(s.cams.size());
  k["number_board"] = std::to_string(s.boards.size());
  k["refine_corner"] = p.str("refine_corner", "1");
  k["min_perc_pts"] = num(p.d("min_perc", 0.4));
  k["number_x_square"] = std::to_string(b0.nx);
  k["number_y_square"] = std::to_string(b0.ny);
  k["resolution_x"] = "500";
  k["resolution_y"] = "500";
  {
    std::istringstream ls(p.str("len", "0.04 0.03"));
    std::string a, b;
    ls >> a >> b;
    k["length_square"] = a;
    k["length_marker"] = b;
  }
  k["square_size"] = num(b0.sq);
  k["root_path"] = q(s.imgDir);
  k["cam_prefix"] = q(s.camPrefix);
  k["quaternion_averaging"] = p.str("quat", "1");
  k["ransac_threshold"] = p.str("ransac_thresh", "10");
  k["number_iterations"] = p.str("nb_iter", "1000");
  k["he_approach"] = p.str("he", "0");
  k["fix_intrinsic"] = p.str("fix", "0");
  bool uniform = true;
  std::vector<int> models;
  for (auto &x : s.cams) {
    models.push_back(x.m.model);
    uniform &= x.m.model == s.cams[0].m.model;
  }
  k["distortion_model"] = std::to_string(models[0]);
  k["distortion_per_camera"] =
      uniform && !p.i("force_dist_list", 0) ? "[ ]" : lst(models);
  k["boards_index"] = "[ ]";
  k["number_x_square_per_board"] = "[ ]";
  k["number_y_square_per_board"] = "[ ]";
  k["square_size_per_board"] = "[ ]";
  k["resolution_x_per_board"] = "[ ]";
  k["resolution_y_per_board"] = "[ ]";
  if (p.has("bindex")) {
    std::vector<int> v;
    for (auto &b : s.boards)
      v.push_back(b.index);
    k["boards_index"] = lst(v);
  }
  if (p.i("per_board", 0)) {
    int mx = 0;
    for (auto &b : s.boards)
      mx = std::max(mx, b.index);
    // entries of unused boards are deliberately different
    std::vector<int> vx(mx + 1, 9), vy(mx + 1, 7), res(mx + 1, 500);
    std::vector<double> vs(mx + 1, 0.777 * b0.sq);
    for (auto &b : s.boards) {
      vx[b.index] = b.nx;
      vy[b.index] = b.ny;
      vs[b.index] = b.sq;
    }
    // numbers, sizes and resolutions can each be given per board or globally
    const bool num = p.i("per_num", 1), size = p.i("per_size", 1), resl = p.i("per_res", 1);
    const bool mislead = p.i("per_board_misleading", 1); // unused global values are wrong
    if (num) {
      k["number_x_square_per_board"] = lst(vx);
      k["number_y_square_per_board"] = lst(vy);
      if (mislead) {
        k["number_x_square"] = "4";
        k["number_y_square"] = "9";
      }
    }
    if (size) {
      k["square_size_per_board"] = lst(vs);
      if (mislead)
        k["square_size"] = num2(b0.sq * 1.7);
    }
    if (resl) {
      k["resolution_x_per_board"] = lst(res);
      k["resolution_y_per_board"] = lst(res);
    }
  }
  k["save_path"] = q(p.str("save_path", "out/"));
  k["save_reprojection"] = p.str("save_repro", "0");
  k["save_detection"] = p.str("save_det", "0");
  k["camera_params_file_name"] = q(p.str("cam_file", ""));
  k["cam_params_path"] = q(p.str("cam_params", "None"));
  k["keypoints_path"] = q(p.str("keypoints", "None"));
  return c;
}

void writeConfig(const Config &c, const std::string &file) {
  std::ofstream o(file);
  o << "%YAML:1.0\n---\n";
  for (auto &x : c.kv)
    o << x.first << ": " << x.second << "\n";
}

// marker ids: boards numbered 0..max take consecutive ranges
static cv::Ptr<cv::aruco::CharucoBoard> markers(const Scene &s, const SimBoard &sb) {
  static cv::Ptr<cv::aruco::Dictionary> dict = cv::aruco::getPredefinedDictionary(cv::aruco::DICT_6X6_1000);
  int off = 0;
  for (int i = 0; i < sb.index; i++) {
    // sizes given for unused boards (baseConfig)
    int nx = s.perNum ? 9 : s.boards[0].nx, ny = s.perNum ? 7 : s.boards[0].ny;
    for (auto &o : s.boards)
      if (o.index == i) {
        nx = o.nx;
        ny = o.ny;
      }
    off += nx * ny / 2;
  }
  auto cb = cv::aruco::CharucoBoard::create(sb.nx, sb.ny, 0.04f, 0.03f, dict);
  for (auto &id : cb->ids)
    id += off;
  return cb;
}

// number of corners that OpenCV finds of this board, whatever else is in the image; 0 when they lie on one line
int cornersFound(const Scene &s, int board, const cv::Mat &image) {
  const SimBoard &sb = s.boards[board];
  auto cb = markers(s, sb);
  auto par = cv::aruco::DetectorParameters::create();
  par->adaptiveThreshConstant = 1;
  std::vector<std::vector<cv::Point2f>> mc;
  std::vector<int> mi, ids;
  std::vector<cv::Point2f> cc;
  cv::aruco::detectMarkers(image, cb->dictionary, mc, mi, par);
  if (mi.empty())
    return 0;
  cv::aruco::interpolateCornersCharuco(mc, mi, image, cb, cc, ids);
  std::set<int> rows, cols;
  for (int id : ids) {
    rows.insert(id / (sb.nx - 1));
    cols.insert(id % (sb.nx - 1));
  }
  return rows.size() < 2 || cols.size() < 2 ? 0 : (int)ids.size();
}

cv::Mat renderImage(const Scene &s, int cam, int frame, uint64_t texSeed) {
  const CamModel &m = s.cams[cam].m;
  const int ss = 2;
  cv::Mat img(m.h * ss, m.w * ss, CV_8UC1);
  {
    Rng r(texSeed, "bg");
    int base = r.ri(90, 150), gx = r.ri(-30, 30), gy = r.ri(-30, 30);
    for (int y = 0; y < img.rows; y++)
      for (int x = 0; x < img.cols; x++)
        img.at<uchar>(y, x) = (uchar)(base + gx * x / img.cols + gy * y / img.rows);
  }
  // paint far boards first
  std::vector<std::pair<double, int>> order;
  for (size_t b = 0; b < s.boards.size(); b++)
    order.push_back({-s.boardInCam(cam, frame, (int)b).t.norm(), (int)b});
  std::sort(order.begin(), order.end());
  for (auto &ob : order) {
    int b = ob.second;
    const SimBoard &sb = s.boards[b];
    Pose T = s.boardInCam(cam, frame, b);
    if (!s.obs.count(Key(cam, frame, b)))
      continue; // not (sufficiently) visible, or covered: nothing is shown
    const int margin = 20;
    double pxs = 40, ox = margin, oy = margin; // square size and top left square in the texture
    auto cb = markers(s, sb);
    cv::Mat tex;
    if (s.print.count(sb.index)) {
      // a printed page: the board fills it up to the margin of 10, with equal sides
      cv::Mat pr = s.print.at(sb.index);
      pxs = std::min((pr.cols - 20.0) / sb.nx, (pr.rows - 20.0) / sb.ny);
      ox = (pr.cols - pxs * sb.nx) / 2 + margin;
      oy = (pr.rows - pxs * sb.ny) / 2 + margin;
      // paper around the page; white parts far from the board are cut off
      cv::copyMakeBorder(pr, tex, margin, margin, margin, margin, cv::BORDER_CONSTANT, cv::Scalar(255));
      const int cut = (int)(0.5 * pxs);
      cv::Rect keep((int)ox - cut, (int)oy - cut, (int)(pxs * sb.nx) + 2 * cut, (int)(pxs * sb.ny) + 2 * cut);
      keep &= cv::Rect(0, 0, tex.cols, tex.rows);
      tex = tex(keep).clone();
      ox -= keep.x;
      oy -= keep.y;
    } else
      cb->draw(cv::Size(sb.nx * 40 + 2 * margin, sb.ny * 40 + 2 * margin), tex, margin, 1);
    // texture pixel -> board plane: column -> x, row -> y; corner 0 is one square in
    std::vector<cv::Point2f> tp, ip;
    for (int k = 0; k < 4; k++) {
      double X = (k == 1 || k == 2) ? sb.nx - 1 : -1, Y = k >= 2 ? sb.ny - 1 : -1;
      Vec2 u;
      if (!project(m, T * Vec3(X * sb.sq, Y * sb.sq, 0), u)) {
        tp.clear();
        break;
      }
      double tx = ox + (X + 1) * pxs, ty = oy + (Y + 1) * pxs;
      tp.emplace_back((float)(tx - 0.5), (float)(ty - 0.5));
      ip.emplace_back((float)((u.x() + 0.5) * ss - 0.5), (float)((u.y() + 0.5) * ss - 0.5));
    }
    if (tp.size() != 4)
      continue;
    cv::Mat H = cv::getPerspectiveTransform(tp, ip);
    cv::Mat warped, mask, white(tex.size(), CV_8UC1, cv::Scalar(255));
    cv::Mat texb;
    cv::GaussianBlur(tex, texb, cv::Size(3, 3), 0.7);
    cv::warpPerspective(texb, warped, H, img.size(), cv::INTER_LINEAR);
    cv::warpPerspective(white, mask, H, img.size(), cv::INTER_NEAREST);
    warped.copyTo(img, mask);
  }
  cv::Mat out;
  cv::resize(img, out, cv::Size(m.w, m.h), 0, 0, cv::INTER_AREA);
  Rng r(texSeed, "pixnoise");
  for (int y = 0; y < out.rows; y++)
    for (int x = 0; x < out.cols; x++) {
      int v = out.at<uchar>(y, x) + (int)(r.next() % 5) - 2;
      out.at<uchar>(y, x) = cv::saturate_cast<uchar>(v);
    }
  cv::Mat bgr;
  cv::cvtColor(out, bgr, cv::COLOR_GRAY2BGR);
  return bgr;
}

} // namespace sim
