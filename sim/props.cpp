#include "props.h"
#include "prng.h"

#include <algorithm>
#include <cmath>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <opencv2/imgcodecs.hpp>
#include <opencv2/imgproc.hpp>
#include <sstream>
#include <unistd.h>

namespace sim {
namespace fs = std::filesystem;

namespace {
std::string gOther;

std::string S(double v) {
  char b[40];
  std::snprintf(b, sizeof b, "%.5g", v);
  return b;
}
std::string N(long v) { return std::to_string(v); }

void mixInto(uint64_t &h, uint64_t v) { h = mix64(h ^ v) + 0x51ed27; }

// ------------------------------------------------------------------ running
RtConfig rtOf(const Plan &p, int run) {
  RtConfig c;
  const std::string k = "r" + std::to_string(run) + "_";
  auto get = [&](const std::string &n, double d) {
    return p.has(k + n) ? p.d(k + n) : p.d(n, d);
  };
  auto getu = [&](const std::string &n, uint64_t d) {
    return p.has(k + n) ? p.u(k + n) : p.u(n, d);
  };
  c.ncpu = (unsigned)get("ncpu", 2);
  c.schedSeed = getu("sched_seed", p.seed * 31 + run);
  c.siteFrac = get("site_frac", 0);
  c.siteP = get("site_p", 0);
  c.siteBudget = (int)get("site_budget", 3);
  c.syncP = get("sync_p", 0);
  c.spuriousP = get("spurious", 0);
  c.starve = (int)get("starve", 0);
  c.createFail = (int)get("create_fail", 0);
  c.randSeed = getu("rand_seed", p.seed * 77 + 5);
  c.clockMode = (int)get("clock", 0);
  c.clockBase = 1700000000ll + (int64_t)getu("clock_base", 0);
  c.clockSeed = getu("clock_seed", p.seed * 13 + run);
  if (p.i("explicit", 0)) {
    c.explicitMode = true;
    for (auto &w : p.itemsOf("dec"))
      if (std::stoi(w[1]) == run)
        c.decisions[std::stoull(w[2])] = std::stoi(w[3]);
  }
  c.shortP = get("short_p", 0);
  c.countAllocs = p.i("alloc_count", 0) != 0;
  c.allocFail = p.u("alloc_nth", 0);
  c.allocLen = p.u("alloc_len", 1);
  c.allocMin = p.u("alloc_min", 0);
  c.saveRoot = p.str("save_root", "simout");
  c.inputRoot = p.str("input_root", "images");
  return c;
}

void addFaults(RtConfig &c, const Plan &p, int run) {
  // io <run> <kind> <path or -> <nth> <errno> <sticky>
  for (auto &w : p.itemsOf("io"))
    if (std::stoi(w[1]) == run) {
      RtConfig::IoFault f;
      f.kind = w[2];
      f.path = w[3] == "-" ? "" : w[3];
      f.nth = std::stoi(w[4]);
      f.err = std::stoi(w[5]);
      f.sticky = std::stoi(w[6]) != 0;
      c.faults.push_back(f);
    }
}

struct Exec {
  const Plan &p;
  Outcome &o;
  Scratch sc;
  int run = 0;
  explicit Exec(const Plan &p_, Outcome &o_) : p(p_), o(o_) {}
  std::string at(const std::string &f) const { return sc.dir + "/" + f; }
  AppResult go(AppRun::Mode mode, const std::string &config = "config.yml",
               const std::string &cwd = "", bool faults = true) {
    AppRun a;
    a.mode = mode;
    a.cwd = cwd.empty() ? sc.dir : cwd;
    a.config = config;
    a.rt = rtOf(p, run);
    if (faults)
      addFaults(a.rt, p, run);
    a.memFill = (int)p.i("mem", 0x55);
    a.cpuLimit = (int)p.i("cpu_limit", 90);
    a.keepLog = getenv("MCSIM_LOG") != nullptr;
    AppResult r = runApp(a);
    if (a.keepLog)
      std::fprintf(stderr, "--- run %d: %s %d %s\n%s\n", run, endName(r.end), r.code, r.what.c_str(), slurp(a.cwd + "/log.txt").c_str());
    o.decisions[run] = r.st.decisions;
    run++;
    mixInto(o.hash, (uint64_t)r.end * 1000 + r.code);
    mixInto(o.hash, r.st.interleaving);
    mixInto(o.hash, r.st.randDraws);
    mixInto(o.hash, r.st.ioSteps);
    mixInto(o.hash, hashStr(r.what));
    if (r.end == End::Budget || r.end == End::Unsupported || r.end == End::Wall)
      o.inconclusive = std::string("run ended by ") + endName(r.end) + " " + r.what;
    return r;
  }
  void hashTree(const std::string &d) {
    for (auto &x : treeHash(d)) {
      mixInto(o.hash, hashStr(x.first));
      mixInto(o.hash, x.second);
    }
  }
};

void fail(Outcome &o, const std::string &cls, const std::string &d) { o.f.push_back({cls, d}); }

// the run has to end with success
bool mustSucceed(Outcome &o, const AppResult &r, const std::string &what) {
  switch (r.end) {
  case End::Success:
    return true;
  case End::Failure:
    fail(o, "aborted", what + " ended with failure " + N(r.code) + (r.what.empty() ? "" : ": " + r.what));
    return false;
  case End::Crash:
    fail(o, "crash", what + " crashed, code " + N(r.code));
    return false;
  case End::Hang:
    fail(o, "hang", what + " does not terminate");
    return false;
  default:
    return false;
  }
}
// the run has to end, with success or failure, but without crash or hang
bool mustEnd(Outcome &o, const AppResult &r, const std::string &what) {
  if (r.end == End::Crash)
    fail(o, "crash", what + " crashed, code " + N(r.code));
  else if (r.end == End::Hang)
    fail(o, "hang", what + " does not terminate");
  return r.end == End::Success || r.end == End::Failure;
}

// ------------------------------------------------------------- calibration scenes
const char *kIntr[] = {"self", "pert", "exact"};

void writeInputs(const Scene &s, const Plan &p, const std::string &dir, Config *out = nullptr) {
  Plan q = p;
  const std::string intr = p.str("intr", "exact");
  if (intr != "self" || p.i("fix", 0)) {
    Rng r(p.u("scene_seed"), "intrinsics");
    writeCamParams(s, dir + "/cams.yml", perturbedModels(s, r, intr == "pert" ? p.d("pert", 0.01) : 0));
    q.set("cam_params", p.str("cam_params", "cams.yml"));
  }
  if (!q.has("keypoints"))
    q.set("keypoints", "kp.yml");
  if (!q.has("save_path"))
    q.set("save_path", "simout");
  q.set("imgdir", "images");
  if (q.str("keypoints") != "None")
    writeKeypoints(s, dir + "/kp.yml");
  Config c = baseConfig(s, q);
  if (out)
    *out = c;
  writeConfig(c, dir + "/config.yml");
}

void genRun(Plan &p, Rng &r) {
  p.set("rand_seed", r.next() >> 1);
  p.set("clock", r.ri(0, 3));
  p.set("ncpu", r.ri(1, 9));
  p.set("mem", r.ri(1, 254));
  Rng e(p.seed, "env");
  if (e.coin(0.3)) // writes that are interrupted or take only a part of the data
    p.set("short_p", e.uni(0.05, 0.6));
}
// Few iterations of the bundle adjustment: it hides no wrong starting point
void genIterations(Plan &p) {
  Rng r(p.seed, "iterations");
  if (r.coin(0.6))
    p.set("nb_iter", r.pick(std::vector<int>{6, 10, 20, 40}));
}

void genIntr(Plan &p, Rng &r, double pSelf, double pExact) {
  double u = r.uni();
  std::string how = u < pSelf ? "self" : u < pSelf + pExact ? "exact" : "pert";
  p.set("intr", how);
  p.set("pert", r.uni(0.003, 0.02));
  if (how == "exact")
    p.set("fix", r.coin(0.7) ? 1 : 0);
  if (how == "self" && p.i("nframes") > 18) {
    // self-initialisation is slow: fewer frames
    if (p.str("layout") == "arc")
      p.set("nframes", r.ri(12, 18));
  }
}

// sensor faults: dropped frames, stalls, dead cameras, covered boards, partial occlusions
void genDropouts(Plan &p, Rng &r, double level, bool allowDead) {
  int nc = (int)p.i("ncam"), nf = (int)p.i("nframes"), nb = (int)p.i("nboard");
  double rate = r.coin(0.4) ? 0 : r.uni(0, 0.25) * level;
  for (int c = 0; c < nc; c++)
    for (int f = 0; f < nf; f++)
      if (r.coin(rate))
        p.add("drop " + N(c) + " " + N(f));
  if (r.coin(0.3 * level))
    p.add("stall " + N(r.ri(0, nc - 1)) + " " + N(r.ri(0, nf - 1)) + " " + N(r.ri(2, std::max(2, nf / 4))));
  if (r.coin(0.3 * level)) {
    int a = r.ri(0, nf - 1);
    p.add("hide " + N(r.ri(0, nb - 1)) + " " + N(a) + " " + N(a + r.ri(2, std::max(2, nf / 4))));
  }
  if (r.coin(0.4 * level)) {
    int n = r.ri(1, std::max(1, (int)(0.15 * nc * nf)));
    for (int i = 0; i < n; i++)
      p.add("occl " + N(r.ri(0, nc - 1)) + " " + N(r.ri(0, nf - 1)) + " " + N(r.ri(0, nb - 1)));
  }
  if (r.coin(0.4 * level)) {
    int n = r.ri(1, std::max(1, (int)(0.2 * nc * nf)));
    for (int i = 0; i < n; i++)
      p.add("part " + N(r.ri(0, nc - 1)) + " " + N(r.ri(0, nf - 1)) + " " + N(r.ri(0, nb - 1)) + " " +
            N(r.coin(0.5) ? r.ri(3, 4) : -r.ri(3, 4)));
  }
  if (allowDead && nc > 1 && r.coin(0.12))
    p.add("dead " + N(r.ri(0, nc - 1)));
}

std::string partSig(const Scene &s, const Partition &P, const Plan &p) {
  std::ostringstream os;
  os << p.str("layout") << " g";
  for (auto &g : P.groups)
    os << g.size() << ",";
  os << " o";
  for (auto &g : P.objs)
    os << g.size() << ",";
  os << " he" << P.handEyeLinks << p.str("he", "0") << " q" << p.str("quat", "1") << " m" << p.str("models") << " i"
     << p.str("intr") << p.str("fix", "0") << " c" << s.cams.size() << " u" << p.str("unit");
  std::map<std::string, int> k;
  for (auto &i : p.items)
    k[i.substr(0, i.find(' '))]++;
  for (auto &x : k)
    os << " " << x.first << (x.second > 8 ? 9 : x.second);
  // the random draws decide the outcome of RANSAC, shuffles and cluster sampling
  os << " r" << p.str("rand_seed");
  return os.str();
}

void countFaults(Outcome &o, const Plan &p) {
  for (auto &i : p.items) {
    std::istringstream is(i);
    std::string a, b, c;
    is >> a >> b >> c;
    if (a == "dec")
      continue;
    o.probes["fault:" + a + (a == "io" ? "-" + c : a == "dmg" ? "-" + b : "")]++;
  }
}

struct Calib {
  Scene s;
  Partition P;
  AppResult res;
  Results R;
  bool ok = false;
};

Calib runCalib(Exec &x, const Plan &p, int linkMin = 8) {
  Calib c;
  c.s = buildScene(p);
  c.P = refPartition(c.s, linkMin);
  writeInputs(c.s, p, x.sc.dir);
  c.res = x.go(AppRun::MAIN);
  x.hashTree(x.at("simout"));
  if (c.res.end == End::Success) {
    c.R = readResults(x.at("simout"));
    c.ok = true;
  }
  countFaults(x.o, p);
  x.o.probes["groups:" + N((long)std::min<size_t>(c.P.groups.size(), 4))]++;
  x.o.probes["objects:" + N((long)std::min<size_t>(c.P.objs.size(), 4))]++;
  if (c.P.handEyeLinks)
    x.o.probes["hand-eye-link"]++;
  if (!c.P.clear)
    x.o.probes["borderline-partition"]++;
  return c;
}

void finish(Outcome &o, const Judge &j) {
  for (auto &f : j.f)
    o.f.push_back(f);
  for (auto &x : j.probes)
    o.probes[x.first] += x.second;
  auto w = [&](const char *n, double v) { o.worst[n] = std::max(o.worst[n], v); };
  w("camera_pose_sigma", j.worstCam);
  w("intrinsics_sigma", j.worstIntr);
  w("board_sigma", j.worstBoard);
  w("error_list_px", j.worstErr);
  w("object_pose_px", j.worstPose);
}

Plan start(const std::string &id, uint64_t seed) {
  Plan p;
  p.prop = id;
  p.seed = seed;
  return p;
}

bool anyObs(const Scene &s) { return !s.obs.empty(); }

// ---------------------------------------------------------------- C07
Plan genC07(uint64_t seed, const std::string &) {
  Plan p = start("C07", seed);
  Rng r(seed, "C07");
  genScene(p, r, r.pick(std::vector<std::string>{"arc", "arc", "fan", "ring"}));
  if (p.str("layout") == "arc" && p.i("ncam") < 2)
    p.set("layout", "arc");
  genRun(p, r);
  genIntr(p, r, p.str("layout") == "arc" ? 0.12 : 0.0, 0.15);
  clearViews(p, r);
  genDropouts(p, r, 1.0, true);
  genIterations(p);
  return p;
}
Outcome runC07(const Plan &p) {
  Outcome o;
  Exec x(p, o);
  Calib c = runCalib(x, p);
  if (!anyObs(c.s))
    return o;
  if (!mustSucceed(o, c.res, "calibration"))
    return o;
  if (c.P.handEyeLinks)
    return o; // C08
  Judge j;
  judgeCameras(c.R, c.s, c.P, p.i("fix", 0), j);
  if (!c.R.parsed)
    j.f.push_back({"unreadable", c.R.error});
  else
    for (auto &g : c.P.groupOf)
      if (!c.R.cams.count(g.first))
        j.f.push_back({"camera-missing", "camera " + N(g.first) + " has no exported parameters"});
  finish(o, j);
  if (j.opinion)
    o.sig = partSig(c.s, c.P, p);
  return o;
}

// ---------------------------------------------------------------- C08
Plan genC08(uint64_t seed, const std::string &) {
  Plan p = start("C08", seed);
  Rng r(seed, "C08");
  do
    genScene(p, r, "split");
  while (p.i("ngroups") == 2 && r.coin(0.3)); // more of the larger rigs
  bool chain = p.i("ngroups") == 3 && r.coin(0.6);
  genRun(p, r);
  genIntr(p, r, 0, 0.6);
  clearViews(p, r);
  if (chain) {
    // the outer groups share (almost) no frames: their relative pose comes through the middle one
    int nf = r.ri(50, 64), m = r.ri(0, 3), over = r.coin(0.4) ? r.ri(4, 9) : r.ri(0, 2);
    m = m == 3 ? 1 : m;
    p.set("nframes", nf);
    int first = m == 0 ? 1 : 0, cut = nf / 2;
    auto cg = p.list("cgroup");
    for (size_t c = 0; c < cg.size(); c++)
      if (cg[c] != m)
        p.add((int)cg[c] == first ? "stall " + N((long)c) + " " + N(cut + (over + 1) / 2) + " " + N(nf)
                                  : "stall " + N((long)c) + " 0 " + N(cut - over / 2));
  }
  genDropouts(p, r, chain ? 0.35 : 0.7, false);
  if (!chain && r.coin(0.35)) {
    // a group whose boards take turns: they are several objects until the groups are joined
    auto bg = p.list("bgroup");
    for (size_t a = 0; a < bg.size(); a++)
      for (size_t b = a + 1; b < bg.size(); b++)
        if (bg[a] == bg[b]) {
          bool swap = r.coin(0.5);
          p.add("sep " + N((long)(swap ? b : a)) + " " + N((long)(swap ? a : b)) + " " +
                N(r.pick(std::vector<int>{2, 2, 12, 20})));
          p.set("nframes", std::max<int64_t>(p.i("nframes"), 50));
          a = b = bg.size();
        }
  }
  if (!chain && r.coin(0.15)) {
    // too few common frames: group 1 is blind except for 1..3 frames
    int nf = (int)p.i("nframes"), keep = r.ri(0, 3);
    auto cg = p.list("cgroup");
    for (size_t c = 0; c < cg.size(); c++)
      if (cg[c] == 1)
        p.add("stall " + N((long)c) + " 0 " + N(nf / 2));
      else if (cg[c] == 0)
        p.add("stall " + N((long)c) + " " + N(nf / 2 + keep) + " " + N(nf));
  }
  genIterations(p);
  return p;
}
Outcome runC08(const Plan &p) {
  Outcome o;
  Exec x(p, o);
  Calib c = runCalib(x, p, 10);
  if (!anyObs(c.s))
    return o;
  if (!mustSucceed(o, c.res, "calibration"))
    return o;
  Judge j, k;
  judgeStructure(c.R, c.s, c.P, k);
  for (auto &f : k.f)
    if (f.cls == "group-split" || f.cls == "group-joined" || f.cls == "camera-missing")
      j.f.push_back(f);
  judgeCameras(c.R, c.s, c.P, p.i("fix", 0), j);
  finish(o, j);
  if (j.opinion)
    o.sig = partSig(c.s, c.P, p);
  return o;
}

// ---------------------------------------------------------------- C09
void genUnlinked(Plan &p, Rng &r) {
  // groups watching at different times: no common motion, except maybe between two of them
  genScene(p, r, "split");
  int G = (int)p.i("ngroups"), nf = (int)p.i("nframes");
  auto cg = p.list("cgroup");
  bool linkedPair = G == 3 && r.coin(0.5);
  for (size_t c = 0; c < cg.size(); c++) {
    int g = (int)cg[c];
    int a, b;
    if (linkedPair) {
      a = g < 2 ? 0 : nf - 12;
      b = g < 2 ? nf - 12 : nf;
    } else {
      a = nf * g / G;
      b = nf * (g + 1) / G;
    }
    int over = r.ri(0, 2);
    if (a > 0)
      p.add("stall " + N((long)c) + " 0 " + N(std::max(0, a - over)));
    if (b < nf)
      p.add("stall " + N((long)c) + " " + N(b) + " " + N(nf));
  }
}
// several boards that are never seen together by one camera
void genSeparated(Plan &p, Rng &r) {
  genScene(p, r, r.coin(0.6) ? "arc" : "fan");
  int nb = (int)p.i("nboard"), nc = (int)p.i("ncam"), nf = (int)p.i("nframes");
  if (nb < 2)
    return;
  int mode = r.ri(0, 2);
  if (mode == 0) { // boards alternate over the frames: never in the same frame
    for (int f = 0; f < nf; f++) {
      int keep = f % nb;
      for (int c = 0; c < nc; c++)
        for (int b = 0; b < nb; b++)
          if (b != keep)
            p.add("occl " + N(c) + " " + N(f) + " " + N(b));
    }
  } else if (mode == 1) { // never in the same image, but in the same frame of different cameras
    for (int f = 0; f < nf; f++)
      for (int c = 0; c < nc; c++) {
        int keep = (f + c) % nb;
        for (int b = 0; b < nb; b++)
          if (b != keep)
            p.add("occl " + N(c) + " " + N(f) + " " + N(b));
      }
  } else // one pair separated
    p.add("sep " + N(0) + " " + N(nb - 1));
}
Plan genC09(uint64_t seed, const std::string &) {
  Plan p = start("C09", seed);
  Rng r(seed, "C09");
  double u = r.uni();
  if (u < 0.35)
    genUnlinked(p, r);
  else if (u < 0.5)
    genScene(p, r, "split");
  else if (u < 0.7)
    genSeparated(p, r);
  else
    genScene(p, r, r.pick(std::vector<std::string>{"arc", "fan", "ring"}));
  genRun(p, r);
  genIntr(p, r, 0, 0.7);
  genDropouts(p, r, 0.8, true);
  Rng e(seed, "C09 more");
  if (p.i("ncam") > 1 && p.str("layout") != "split" && e.coin(0.15)) {
    // a camera that records a single frame; maybe a single board of it
    const int c = e.ri(0, (int)p.i("ncam") - 1), nf = (int)p.i("nframes"), f = e.ri(0, nf - 1);
    p.set("intr", "exact");
    p.set("fix", 1);
    p.add("stall " + N(c) + " 0 " + N(f));
    p.add("stall " + N(c) + " " + N(f + 1) + " " + N(nf));
    if (p.i("nboard") > 1 && e.coin(0.5)) {
      const int keep = e.ri(0, (int)p.i("nboard") - 1);
      for (int b = 0; b < (int)p.i("nboard"); b++)
        if (b != keep)
          p.add("occl " + N(c) + " " + N(f) + " " + N(b));
    }
  }
  return p;
}
Outcome runC09(const Plan &p) {
  Outcome o;
  Exec x(p, o);
  Calib c = runCalib(x, p);
  if (!anyObs(c.s))
    return o;
  if (!mustSucceed(o, c.res, "calibration"))
    return o;
  Judge j;
  judgeStructure(c.R, c.s, c.P, j);
  finish(o, j);
  if (j.opinion)
    o.sig = partSig(c.s, c.P, p);
  return o;
}

// ---------------------------------------------------------------- C10
Plan genC10(uint64_t seed, const std::string &) {
  Plan p = start("C10", seed);
  Rng r(seed, "C10");
  double u = r.uni();
  if (u < 0.35)
    genSeparated(p, r);
  else if (u < 0.5)
    genScene(p, r, "split");
  else if (u < 0.6)
    genUnlinked(p, r);
  else
    genScene(p, r, r.pick(std::vector<std::string>{"arc", "arc", "ring", "fan"}));
  genRun(p, r);
  genIntr(p, r, 0, 0.6);
  genDropouts(p, r, 0.8, true);
  clearViews(p, r);
  genIterations(p);
  return p;
}
Outcome runC10(const Plan &p) {
  Outcome o;
  Exec x(p, o);
  Calib c = runCalib(x, p);
  if (!anyObs(c.s))
    return o;
  if (!mustSucceed(o, c.res, "calibration"))
    return o;
  Judge j;
  judgeObjects(c.R, c.s, c.P, p.i("fix", 0), j);
  if (!c.R.parsed)
    j.f.push_back({"unreadable", c.R.error});
  finish(o, j);
  if (j.opinion)
    o.sig = partSig(c.s, c.P, p);
  return o;
}

// ---------------------------------------------------------------- C11
void genOutliers(Plan &p, Rng &r, double fracObs, double fracPts, int bogus) {
  Scene s = buildScene(p);
  for (auto &ob : s.obs) {
    if (!r.coin(fracObs))
      continue;
    const Ob &o = ob.second;
    int n = std::max(1, (int)(r.uni(0, fracPts) * o.ids.size()));
    if ((int)o.ids.size() - n < 6)
      continue;
    std::set<int> used;
    bool coherent = r.coin(0.15); // all moved the same way
    double a0 = r.uni(0, 6.283), m0 = r.uni(60, 160);
    for (int i = 0; i < n; i++) {
      int k = r.ri(0, (int)o.ids.size() - 1);
      if (!used.insert(k).second)
        continue;
      double a = coherent ? a0 : r.uni(0, 6.283), m = coherent ? m0 : r.uni(60, 200);
      p.add("outl " + N(std::get<0>(ob.first)) + " " + N(std::get<1>(ob.first)) + " " + N(std::get<2>(ob.first)) +
            " " + N(o.ids[k]) + " " + S(m * std::cos(a)) + " " + S(m * std::sin(a)));
    }
  }
  for (int i = 0; i < bogus; i++)
    p.add("bogus " + N(r.ri(0, (int)p.i("ncam") - 1)) + " " + N(r.ri(0, (int)p.i("nframes") - 1)) + " " +
          N(r.ri(0, (int)p.i("nboard") - 1)) + " " + N((long)(r.next() >> 40)));
}
Plan genC11(uint64_t seed, const std::string &) {
  Plan p = start("C11", seed);
  Rng r(seed, "C11");
  double u = r.uni();
  if (u < 0.3)
    genSeparated(p, r);
  else if (u < 0.45)
    genScene(p, r, "split");
  else if (u < 0.65)
    genUnlinked(p, r);
  else
    genScene(p, r, r.pick(std::vector<std::string>{"arc", "ring", "fan"}));
  genRun(p, r);
  genIntr(p, r, 0, 0.6);
  genDropouts(p, r, 0.8, true);
  if (r.coin(0.25))
    genOutliers(p, r, 0.1, 0.15, 0);
  return p;
}
Outcome runC11(const Plan &p) {
  Outcome o;
  Exec x(p, o);
  Calib c = runCalib(x, p);
  if (!anyObs(c.s))
    return o;
  if (!mustSucceed(o, c.res, "calibration"))
    return o;
  Judge j;
  judgeConsistency(c.R, c.s, c.P, j);
  finish(o, j);
  if (j.opinion)
    o.sig = partSig(c.s, c.P, p);
  return o;
}

// ---------------------------------------------------------------- C12
Plan genC12(uint64_t seed, const std::string &) {
  Plan p = start("C12", seed);
  Rng r(seed, "C12");
  genScene(p, r, r.pick(std::vector<std::string>{"arc", "arc", "fan", "ring", "split"}));
  genRun(p, r);
  double u = r.uni();
  if (u < 0.5) {
    p.set("intr", "exact");
    p.set("fix", 1);
  } else if (u < 0.75) {
    p.set("intr", "pert");
    p.set("pert", r.uni(0.001, 0.01));
    p.set("fix", 1);
  } else {
    p.set("intr", "pert");
    p.set("pert", r.uni(0.005, 0.03));
    p.set("fix", 0);
  }
  genDropouts(p, r, 0.8, true);
  clearViews(p, r);
  Rng e(seed, "C12 wrong");
  if (p.i("fix") && p.str("intr") == "pert" && e.coin(0.6)) { // only the intrinsics are judged
    p.set("wrong", 1);
    genOutliers(p, e, e.uni(0.1, 0.6), e.uni(0.2, 0.8), e.ri(0, 4));
  }
  return p;
}
Outcome runC12(const Plan &p) {
  Outcome o;
  Exec x(p, o);
  Calib c = runCalib(x, p);
  if (!anyObs(c.s))
    return o;
  if (p.i("wrong", 0) && c.res.end == End::Failure)
    return o; // C20
  if (!mustSucceed(o, c.res, "calibration"))
    return o;
  Judge j;
  const bool fix = p.i("fix", 0);
  if (fix) {
    Rng r(p.u("scene_seed"), "intrinsics");
    auto given = perturbedModels(c.s, r, p.str("intr") == "pert" ? p.d("pert", 0.01) : 0);
    for (auto &g : c.P.groupOf) {
      auto it = c.R.cams.find(g.first);
      if (it == c.R.cams.end())
        continue; // C09
      const CamModel &m = given[g.first];
      auto near = [](double a, double b) { return std::abs(a - b) <= 1e-12 * std::max(1.0, std::abs(b)); };
      bool same = it->second.affine && (int)it->second.dist.size() == m.np() - 4;
      for (int i = 0; i < 4 && same; i++)
        same = near(it->second.K[i], m.p[i]);
      for (int i = 4; i < m.np() && same; i++)
        same = near(it->second.dist[i - 4], m.p[i]);
      if (!same)
        j.f.push_back({"intrinsics-changed", "camera " + N(g.first) + " fixed intrinsics came out different (f " +
                                                 S(it->second.K[0]) + " given " + S(m.p[0]) + ")"});
      j.opinion = true;
    }
    if (p.str("intr") == "exact")
      judgeCameras(c.R, c.s, c.P, true, j);
  } else
    judgeCameras(c.R, c.s, c.P, false, j);
  finish(o, j);
  if (j.opinion)
    o.sig = partSig(c.s, c.P, p);
  return o;
}

// ---------------------------------------------------------------- C13
Plan genC13(uint64_t seed, const std::string &) {
  Plan p = start("C13", seed);
  Rng r(seed, "C13");
  genScene(p, r, r.pick(std::vector<std::string>{"arc", "arc", "fan", "ring"}));
  genRun(p, r);
  genIntr(p, r, 0, 0.5);
  clearViews(p, r);
  genOutliers(p, r, r.uni(0.05, 0.5), r.uni(0.03, 0.2), 0);
  return p;
}
Outcome runC13(const Plan &p) {
  Outcome o;
  Exec x(p, o);
  Calib c = runCalib(x, p);
  if (!anyObs(c.s))
    return o;
  if (!mustSucceed(o, c.res, "calibration"))
    return o;
  Judge j;
  judgeCameras(c.R, c.s, c.P, p.i("fix", 0), j);
  judgeObjects(c.R, c.s, c.P, p.i("fix", 0), j);
  // kept keypoints
  std::map<int, int> frameOf;
  for (size_t f = 0; f < c.s.frameIds.size(); f++)
    frameOf[c.s.frameIds[f]] = (int)f;
  size_t clean = 0, lost = 0, gross = 0, kept = 0;
  std::map<Key, std::set<int>> got;
  for (auto &cam : c.R.kp.cams)
    for (auto &it : cam.second.items)
      if (frameOf.count(it.frame))
        for (int id : it.ids)
          got[Key(cam.first, frameOf[it.frame], it.board)].insert(id);
  std::string ex, ex2;
  for (auto &ob : c.s.obs) {
    if (ob.second.bogus)
      continue;
    for (size_t i = 0; i < ob.second.ids.size(); i++) {
      bool k = got.count(ob.first) && got[ob.first].count(ob.second.ids[i]);
      std::string who = "camera " + N(std::get<0>(ob.first)) + " frame " + N(std::get<1>(ob.first)) + " board " +
                        N(std::get<2>(ob.first)) + " point " + N(ob.second.ids[i]);
      if (ob.second.outlier[i]) {
        gross++;
        if (k) {
          kept++;
          ex = who;
        }
      } else {
        clean++;
        if (!k) {
          lost++;
          ex2 = who;
        }
      }
    }
  }
  o.probes["outliers"] += gross;
  o.probes["outliers-kept"] += kept;
  o.probes["clean-lost"] += lost;
  if (kept)
    j.f.push_back({"outlier-kept", N((long)kept) + " of " + N((long)gross) + " gross outliers kept, e.g. " + ex});
  // the noise takes a few over the threshold, more so where a fisheye lens is undistorted
  bool fish = false;
  for (auto &cm : c.s.cams)
    fish |= cm.m.model == 1;
  if (lost > 3 + (fish ? 0.08 : 0.05) * clean)
    j.f.push_back({"inlier-lost", N((long)lost) + " of " + N((long)clean) + " consistent keypoints dropped, e.g. " + ex2});
  finish(o, j);
  if (j.opinion && gross)
    o.sig = partSig(c.s, c.P, p);
  return o;
}

struct Def {
  const char *id;
  Plan (*gen)(uint64_t, const std::string &);
  Outcome (*run)(const Plan &);
};
#include "props_io.inc"
#include "props_img.inc"
#include "props_deg.inc"
const Def kDefs[] = {{"C03", genC03, runC03}, {"C04", genC04, runC04}, {"C05", genC05, runC05},
                     {"C06", genC06, runC06}, {"C07", genC07, runC07}, {"C08", genC08, runC08},
                     {"C09", genC09, runC09}, {"C10", genC10, runC10}, {"C11", genC11, runC11},
                     {"C12", genC12, runC12}, {"C13", genC13, runC13}, {"C15", genC15, runC15},
                     {"C16", genC16, runC16}, {"C01", genC01, runC01}, {"C02", genC02, runC02},
                     {"C14", genC14, runC14}, {"C17", genC17, runC17}, {"C18", genC18, runC18}, {"C19", genC19, runC19}, {"C20", genC20, runC20}, {"C21", genC21, runC21}};
} // namespace

AppRun makeRun(const Plan &p, int run) {
  AppRun a;
  a.rt = rtOf(p, run);
  a.memFill = (int)p.i("mem", 0x55);
  a.heapSeed = p.u("heap", 0);
  return a;
}
void exportScene(const Plan &p, const std::string &dir, bool images) {
  Scene s = buildScene(p);
  Plan q = p;
  q.set("save_path", "out");
  fs::create_directories(dir);
  writeInputs(s, q, dir);
  if (images)
    renderAll(s, p, dir + "/images");
  auto mat = [](const Pose &T) {
    std::ostringstream o;
    o.precision(12);
    o << "[";
    for (int r = 0; r < 3; r++)
      for (int c = 0; c < 4; c++)
        o << (r + c ? "," : "") << (c < 3 ? T.R(r, c) : T.t(r));
    o << "]";
    return o.str();
  };
  std::ofstream t(dir + "/truth.json");
  t.precision(12);
  t << "{\"cams\":[";
  for (size_t c = 0; c < s.cams.size(); c++) {
    const CamModel &m = s.cams[c].m;
    t << (c ? ",\n" : "\n") << "{\"model\":" << m.model << ",\"w\":" << m.w << ",\"h\":" << m.h << ",\"p\":[";
    for (int i = 0; i < m.np(); i++)
      t << (i ? "," : "") << m.p[i];
    t << "],\"pose\":" << mat(s.cams[c].T_cr * s.cams[0].T_cr.inv()) << "}";
  }
  t << "],\n\"boards\":[";
  for (size_t b = 0; b < s.boards.size(); b++)
    t << (b ? ",\n" : "\n") << "{\"nx\":" << s.boards[b].nx << ",\"ny\":" << s.boards[b].ny << ",\"sq\":" << s.boards[b].sq
      << ",\"index\":" << s.boards[b].index << ",\"pose\":" << mat(s.boards[0].T_ab.inv() * s.boards[b].T_ab) << "}";
  t << "],\n\"frames\":[";
  for (size_t f = 0; f < s.frameIds.size(); f++)
    t << (f ? ",\n" : "\n") << "{\"id\":" << s.frameIds[f] << ",\"board0_in_cam0\":" << mat(s.boardInCam(0, (int)f, 0)) << "}";
  t << "],\n\"obs\":[";
  bool first = true;
  for (auto &o : s.obs) {
    t << (first ? "\n" : ",\n") << "[" << std::get<0>(o.first) << "," << s.frameIds[std::get<1>(o.first)] << ","
      << std::get<2>(o.first) << "," << o.second.ids.size() << "]";
    first = false;
  }
  t << "]}\n";
}
void setOtherBinary(const std::string &p) { gOther = p; }
std::vector<std::string> propIds() {
  std::vector<std::string> v;
  for (auto &d : kDefs)
    v.push_back(d.id);
  std::sort(v.begin(), v.end());
  return v;
}
Plan genPlan(const std::string &prop, uint64_t seed, const std::string &tier) {
  for (auto &d : kDefs)
    if (prop == d.id)
      return d.gen(seed, tier);
  throw std::runtime_error("unknown property " + prop);
}
Outcome runPlan(const Plan &p) {
  for (auto &d : kDefs)
    if (p.prop == d.id) {
      Outcome o = d.run(p);
      for (auto &f : o.f)
        mixInto(o.hash, hashStr(f.cls + f.detail));
      if (!o.inconclusive.empty() && o.f.empty())
        o.sig.clear();
      return o;
    }
  throw std::runtime_error("unknown property " + p.prop);
}

} // namespace sim
