#include "ref.h"

#include <numeric>

namespace sim {
namespace {
struct UF {
  std::map<int, int> p;
  void add(int x) {
    if (!p.count(x))
      p[x] = x;
  }
  int find(int x) { return p[x] == x ? x : p[x] = find(p[x]); }
  void join(int a, int b) {
    a = find(a);
    b = find(b);
    if (a != b)
      p[std::max(a, b)] = std::min(a, b);
  }
};
Mat3 skew(const Vec3 &v) {
  Mat3 m;
  m << 0, -v.z(), v.y(), v.z(), 0, -v.x(), -v.y(), v.x(), 0;
  return m;
}
} // namespace

Partition refPartition(const Scene &s, int linkMin) {
  Partition P;
  UF board, cam;
  std::map<std::pair<int, int>, std::vector<int>> img; // (cam, frame) -> boards
  for (auto &o : s.obs) {
    if (o.second.bogus)
      continue;
    int c = std::get<0>(o.first), f = std::get<1>(o.first), b = std::get<2>(o.first);
    board.add(b);
    cam.add(c);
    img[{c, f}].push_back(b);
  }
  for (auto &x : img)
    for (int b : x.second)
      board.join(x.second[0], b);
  {
    std::set<int> st;
    for (auto &x : board.p)
      st.insert(board.find(x.first));
    P.stage1Objs = (int)st.size();
  }
  // cameras that see one object in one frame
  std::map<std::pair<int, int>, std::vector<int>> of; // (object, frame) -> cams
  for (auto &x : img)
    for (int b : x.second)
      of[{board.find(b), x.first.second}].push_back(x.first.first);
  for (auto &x : of)
    for (int c : x.second)
      cam.join(x.second[0], c);
  {
    std::set<int> st;
    for (auto &x : cam.p)
      st.insert(cam.find(x.first));
    P.stage1Groups = (int)st.size();
  }
  // objects seen by one camera group in one frame
  auto mergeObjects = [&]() {
    std::map<std::pair<int, int>, std::set<int>> gf;
    for (auto &x : img)
      for (int b : x.second)
        gf[{cam.find(x.first.first), x.first.second}].insert(b);
    for (auto &x : gf)
      for (int b : x.second)
        board.join(*x.second.begin(), b);
  };
  mergeObjects();
  // common motion
  std::set<int> gs;
  for (auto &x : cam.p)
    gs.insert(cam.find(x.first));
  std::map<int, std::map<int, std::set<int>>> seen; // group -> frame -> objects
  for (auto &x : img)
    for (int b : x.second)
      seen[cam.find(x.first.first)][x.first.second].insert(board.find(b));
  std::vector<std::pair<int, int>> link, maybe;
  for (int g1 : gs)
    for (int g2 : gs)
      if (g1 < g2) {
        std::map<std::pair<int, int>, int> cnt;
        int common = 0, best = 0;
        for (auto &fr : seen[g1]) {
          auto it = seen[g2].find(fr.first);
          if (it == seen[g2].end())
            continue;
          common++;
          for (int a : fr.second)
            for (int b : it->second)
              best = std::max(best, ++cnt[{a, b}]);
        }
        int second = 0, worst = 1 << 30;
        for (auto &x : cnt) {
          second += x.second > best / 2;
          worst = std::min(worst, x.second);
        }
        (void)second;
        // enough frames for every candidate pair that could be chosen
        if (best >= linkMin) {
          link.push_back({g1, g2});
          P.minLinkFrames = std::min(P.minLinkFrames, best);
        } else if (common > 3)
          maybe.push_back({g1, g2});
      }
  P.handEyeLinks = (int)link.size();
  for (auto &l : link)
    cam.join(l.first, l.second);
  for (auto &m : maybe)
    if (cam.find(m.first) != cam.find(m.second)) {
      P.clear = false;
      P.why = "between linked and not linked by common motion";
    }
  mergeObjects();
  std::map<int, int> gi, oi;
  for (auto &x : cam.p) {
    int r = cam.find(x.first);
    if (!gi.count(r)) {
      gi[r] = (int)P.groups.size();
      P.groups.emplace_back();
    }
    P.groupOf[x.first] = gi[r];
    P.groups[gi[r]].push_back(x.first);
  }
  for (auto &x : board.p) {
    int r = board.find(x.first);
    if (!oi.count(r)) {
      oi[r] = (int)P.objs.size();
      P.objs.emplace_back();
    }
    P.objOf[x.first] = oi[r];
    P.objs[oi[r]].push_back(x.first);
  }
  return P;
}

Accuracy crlb(const Scene &s, const Partition &P, int group, bool fixIntr) {
  Accuracy A;
  const auto &cams = P.groups[group];
  int ref = cams[0];
  int n = 0;
  std::set<int> boards;
  std::set<int> cset(cams.begin(), cams.end());
  double dist = 0;
  int nd = 0;
  for (auto &o : s.obs)
    if (cset.count(std::get<0>(o.first)) && !o.second.bogus) {
      boards.insert(std::get<2>(o.first));
      A.obsPerCam[std::get<0>(o.first)]++;
      dist += s.boardInCam(std::get<0>(o.first), std::get<1>(o.first), std::get<2>(o.first)).t.norm();
      nd++;
    }
  A.dist = nd ? dist / nd : 1;
  for (int c : cams) {
    if (!fixIntr) {
      A.intrOff[c] = n;
      n += s.cams[c].m.np();
    }
    if (c != ref) {
      A.camOff[c] = n;
      n += 6;
    }
  }
  // boards relative to the smallest board of their object that this group sees
  std::map<int, int> &refBoard = A.refBoard;
  for (int b : boards) {
    int o = P.objOf.at(b);
    if (!refBoard.count(o))
      refBoard[o] = b;
    else {
      A.boardOff[b] = n;
      n += 6;
    }
  }
  if (n == 0) {
    A.ok = true;
    A.cov = Eigen::MatrixXd::Zero(0, 0);
    return A;
  }
  Eigen::MatrixXd M = Eigen::MatrixXd::Zero(n, n);
  std::map<std::pair<int, int>, std::vector<const std::pair<const Key, Ob> *>> perFrame;
  for (auto &o : s.obs)
    if (cset.count(std::get<0>(o.first)) && !o.second.bogus)
      perFrame[{P.objOf.at(std::get<2>(o.first)), std::get<1>(o.first)}].push_back(&o);
  for (auto &pf : perFrame) {
    int obj = pf.first.first, f = pf.first.second;
    Eigen::Matrix<double, 6, 6> C = Eigen::Matrix<double, 6, 6>::Zero();
    Eigen::MatrixXd B = Eigen::MatrixXd::Zero(n, 6);
    Pose T_a_ref = s.boards[refBoard[obj]].T_ab;
    Pose P_of = s.cams[ref].T_cr * s.T_ra[f] * T_a_ref;
    for (auto *o : pf.second) {
      int c = std::get<0>(o->first), b = std::get<2>(o->first);
      const CamModel &m = s.cams[c].m;
      Pose T_c = s.cams[c].T_cr * s.cams[ref].T_cr.inv();
      Pose T_ob = T_a_ref.inv() * s.boards[b].T_ab;
      for (size_t k = 0; k < o->second.ids.size(); k++) {
        if (o->second.outlier[k])
          continue;
        Vec3 xo = T_ob * s.boards[b].pt(o->second.ids[k]);
        Vec3 xr = P_of * xo, xc = T_c * xr;
        Vec2 u;
        if (!project(m, xc, u))
          continue;
        Eigen::Matrix<double, 2, 3> Jp;
        double h = 1e-6 * xc.norm();
        bool good = true;
        for (int d = 0; d < 3; d++) {
          Vec3 a = xc, bb = xc;
          a[d] += h;
          bb[d] -= h;
          Vec2 ua, ub;
          good &= project(m, a, ua) && project(m, bb, ub);
          Jp.col(d) = (ua - ub) / (2 * h);
        }
        if (!good)
          continue;
        std::vector<std::pair<int, Eigen::Matrix<double, 2, Eigen::Dynamic>>> blocks;
        if (A.intrOff.count(c)) {
          Eigen::Matrix<double, 2, Eigen::Dynamic> J(2, m.np());
          for (int d = 0; d < m.np(); d++) {
            CamModel ma = m, mb = m;
            double hh = d < 4 ? 1e-3 : 1e-5;
            ma.p[d] += hh;
            mb.p[d] -= hh;
            Vec2 ua, ub;
            good &= project(ma, xc, ua) && project(mb, xc, ub);
            J.col(d) = (ua - ub) / (2 * hh);
          }
          if (!good)
            continue;
          blocks.push_back({A.intrOff[c], J});
        }
        auto six = [](const Eigen::Matrix<double, 2, 3> &L, const Vec3 &x) {
          Eigen::Matrix<double, 2, Eigen::Dynamic> J(2, 6);
          J.leftCols(3) = -L * skew(x);
          J.rightCols(3) = L;
          return J;
        };
        if (A.camOff.count(c))
          blocks.push_back({A.camOff[c], six(Jp, xc)});
        Eigen::Matrix<double, 2, 3> L = Jp * T_c.R;
        Eigen::Matrix<double, 2, Eigen::Dynamic> Jf = six(L, xr);
        L = L * P_of.R;
        if (A.boardOff.count(b))
          blocks.push_back({A.boardOff[b], six(L, xo)});
        for (size_t i = 0; i < blocks.size(); i++) {
          auto &bi = blocks[i];
          for (size_t j = i; j < blocks.size(); j++) {
            auto &bj = blocks[j];
            Eigen::MatrixXd X = bi.second.transpose() * bj.second;
            M.block(bi.first, bj.first, X.rows(), X.cols()) += X;
            if (i != j)
              M.block(bj.first, bi.first, X.cols(), X.rows()) += X.transpose();
          }
          B.block(bi.first, 0, bi.second.cols(), 6) += bi.second.transpose() * Jf;
        }
        C += Jf.transpose() * Jf;
      }
    }
    Eigen::Matrix<double, 6, 6> D = Eigen::Matrix<double, 6, 6>::Zero();
    for (int i = 0; i < 6; i++)
      D(i, i) = C(i, i) > 0 ? 1 / std::sqrt(C(i, i)) : 1;
    Eigen::Matrix<double, 6, 6> Cs = D * C * D;
    Eigen::Matrix<double, 6, 6> Ci = D * Cs.ldlt().solve(Eigen::Matrix<double, 6, 6>::Identity()) * D;
    M -= B * Ci * B.transpose();
  }
  Eigen::VectorXd d(n);
  for (int i = 0; i < n; i++) {
    if (!(M(i, i) > 0)) {
      A.why = "a parameter is not observable";
      return A;
    }
    d[i] = 1 / std::sqrt(M(i, i));
  }
  Eigen::MatrixXd Ms = d.asDiagonal() * M * d.asDiagonal();
  Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(Ms);
  if (es.eigenvalues()[0] < 1e-10 * es.eigenvalues()[n - 1]) {
    A.why = "ill-conditioned";
    return A;
  }
  A.cov = d.asDiagonal() *
          (es.eigenvectors() * es.eigenvalues().cwiseInverse().asDiagonal() * es.eigenvectors().transpose()) *
          d.asDiagonal();
  double sg = std::max(s.noise, 0.1);
  A.cov *= sg * sg;
  for (auto &x : A.intrOff)
    A.relFocal = std::max(A.relFocal, std::sqrt(A.cov(x.second, x.second)) / s.cams[x.first].m.p[0]);
  for (auto &x : A.camOff) {
    for (int i = 0; i < 3; i++) {
      A.rot = std::max(A.rot, std::sqrt(A.cov(x.second + i, x.second + i)));
      A.trans = std::max(A.trans, std::sqrt(A.cov(x.second + 3 + i, x.second + 3 + i)) / A.dist);
    }
  }
  A.ok = true;
  return A;
}

} // namespace sim
