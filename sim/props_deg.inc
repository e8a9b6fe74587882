// ---------------------------------------------------------------- C20
// Sensor data from which little or nothing can be calibrated: an orderly end, and no rubbish reported as success.
Plan genC20(uint64_t seed, const std::string &) {
  Plan p = start("C20", seed);
  Rng r(seed, "C20");
  double u = r.uni();
  if (u < 0.2)
    genUnlinked(p, r);
  else if (u < 0.35)
    genSeparated(p, r);
  else
    genScene(p, r, r.pick(std::vector<std::string>{"arc", "arc", "fan", "ring", "split"}));
  genRun(p, r);
  genIntr(p, r, 0.35, 0.6);
  if (r.coin(0.3))
    p.set("fix", 1);
  const int nc = (int)p.i("ncam"), nb = (int)p.i("nboard");
  if (r.coin(0.4))
    p.set("nframes", r.pick(std::vector<int>{1, 1, 2, 3, 4, 6, 9}));
  const int nf = (int)p.i("nframes");
  // degenerate problems converge slowly: bounded work, so that a hang is told from it
  p.set("nb_iter", r.pick(std::vector<int>{5, 50, 150}));
  p.set("cpu_limit", 300);
  p.set("min_perc", r.coin(0.5) ? 0 : r.uni(0, 0.2));
  if (r.coin(0.2))
    p.set("noise", r.coin(0.5) ? 0 : r.uni(2, 12));
  if (r.coin(0.3))
    p.set("ransac_thresh", r.pick(std::vector<double>{1e-3, 0.1, 0.5, 2, 1000}));
  if (r.coin(0.2)) {
    p.set("frame_tilt", 0.1);
    p.set("board_tilt", 0);
  }
  const double thin = r.coin(0.35) ? r.uni(0.3, 1) : r.coin(0.5) ? r.uni(0, 0.15) : 0;
  for (int c = 0; c < nc; c++)
    for (int f = 0; f < nf; f++)
      for (int b = 0; b < nb; b++)
        if (r.coin(thin)) {
          std::string k = N(c) + " " + N(f) + " " + N(b) + " ";
          switch (r.ri(0, 6)) {
          case 0:
          case 1:
            p.add("few " + k + N(r.ri(1, 6)));
            break;
          case 2:
            p.add("line " + k + N(r.ri(-3, 2)));
            break;
          case 3:
          case 4:
            p.add("heap " + k + N(r.ri(0, 2)));
            break;
          case 5:
            p.add("occl " + k);
            break;
          default:
            p.add("bogus " + k + N((long)(r.next() >> 40)));
          }
        }
  if (r.coin(0.35))
    for (int c = 0; c < nc; c++)
      if (r.coin(0.6))
        p.add("lone " + N(c) + " " + N(r.ri(0, 4)));
  if (r.coin(0.25))
    for (int c = 0; c < nc; c++)
      if (r.coin(0.6))
        p.add("froz " + N(c) + " " + N(r.coin(0.5) ? 0 : r.ri(0, nf - 1)) + " " + N(r.coin(0.6) ? nf : r.ri(1, nf)));
  genDropouts(p, r, 1, true);
  return p;
}
Outcome runC20(const Plan &p) {
  Outcome o;
  Exec x(p, o);
  Scene s = buildScene(p);
  writeInputs(s, p, x.sc.dir);
  AppResult res = x.go(AppRun::MAIN);
  x.hashTree(x.at("simout"));
  countFaults(o, p);
  o.probes[std::string("end:") + endName(res.end)]++;
  o.probes["observations:" + N((long)std::min<size_t>(s.obs.size(), 3))]++;
  std::ostringstream sig;
  sig << p.str("layout") << " " << s.obs.size() << " " << p.str("intr") << p.str("fix", "0") << " " << endName(res.end) << " "
      << res.st.randDraws << " r" << p.str("rand_seed");
  switch (res.end) {
  case End::Crash:
    fail(o, "crash", "calibration crashed, code " + N(res.code));
    break;
  case End::Hang:
    fail(o, "hang", "calibration does not terminate");
    break;
  case End::Success:
    for (const char *f : kResultFiles) {
      std::string t = slurp(x.at("simout") + "/" + f);
      if (t.empty())
        fail(o, "missing", std::string("success without ") + f);
      // an error may be too large for a 32-bit float: it says that the view doesn't fit
      const bool errors = std::string(f).find("reprojection") == 0;
      for (const char *bad : {".Nan", ".nan", ".Inf", ".inf"}) {
        if (errors && std::tolower(bad[1]) == 'i')
          continue;
        size_t k = t.find(bad);
        if (k != std::string::npos) {
          fail(o, "not-a-number", std::string(f) + " holds " + bad + " near '" + t.substr(k > 60 ? k - 60 : 0, 60) + "'");
          break;
        }
      }
    }
    break;
  default:
    break;
  }
  if (res.end == End::Success || res.end == End::Failure)
    o.sig = sig.str();
  return o;
}

// ---------------------------------------------------------------- C21
// Failing allocations. Each run starts in a process of its own, so that the n-th allocation is always the same one.
Plan genC21(uint64_t seed, const std::string &) {
  Plan p = start("C21", seed);
  Rng r(seed, "C21");
  const bool images = r.coin(0.3);
  if (images) {
    genImg(p, r, 2);
    p.set("nframes", r.ri(3, 4));
    genRun(p, r);
    genSched(p, r, 0);
  } else {
    if (r.coin(0.2))
      genSeparated(p, r);
    else
      genScene(p, r, r.pick(std::vector<std::string>{"arc", "arc", "fan", "ring", "split"}));
    p.set("nframes", r.ri(8, 16));
    genRun(p, r);
    genIntr(p, r, 0.2, 0.5);
    if (p.str("intr") == "exact" && r.coin(0.5))
      p.set("fix", 1);
    genDropouts(p, r, 0.5, false);
    p.set("nb_iter", r.pick(std::vector<int>{3, 10, 40}));
  }
  const int n = images ? 5 : 8;
  for (int i = 0; i < n; i++) {
    // where, how many in a row, how large
    double at = r.coin(0.15) ? 1 - 0.02 * r.uni() : r.uni();
    p.add("mem " + S(at) + " " + N(r.pick(std::vector<long>{1, 1, 1, 2, 5, 1000000000})) + " " +
          N(r.pick(std::vector<int>{0, 0, 300, 3000})));
  }
  return p;
}
Outcome runC21(const Plan &p) {
  Outcome o;
  Exec x(p, o);
  Scene s = buildScene(p);
  if (!anyObs(s))
    return o;
  const bool images = p.str("keypoints", "") == "None";
  writeInputs(s, p, x.sc.dir);
  if (images)
    renderAll(s, p, x.at("images"));
  auto once = [&](uint64_t minBytes, uint64_t nth, uint64_t len, uint64_t &count, uint64_t &fired) {
    Plan q = p;
    q.set("alloc_count", 1);
    q.set("alloc_min", (double)minBytes);
    q.set("alloc_nth", N((long)nth));
    q.set("alloc_len", N((long)len));
    spew(x.at("plan.txt"), q.text());
    fs::remove_all(x.at("simout"));
    fs::create_directories(x.at("simout"));
    char self[4096];
    ssize_t l = readlink("/proc/self/exe", self, sizeof self - 1);
    self[std::max<ssize_t>(0, l)] = 0;
    const std::string cmd = std::string(self) + " one " + x.at("plan.txt") + " " + x.sc.dir + " 0 > " + x.at("one.txt") + " 2>/dev/null";
    const int st = system(cmd.c_str());
    std::istringstream is(slurp(x.at("one.txt")));
    int e = -1;
    AppResult r;
    is >> e >> r.code >> r.st.randDraws >> count >> fired;
    if (st != 0 || e < 0) {
      o.inconclusive = "run in a process of its own did not work";
      return r;
    }
    r.end = (End)e;
    totals.runs++;
    totals.ends[endName(r.end)]++;
    x.run++;
    mixInto(o.hash, (uint64_t)r.end * 1000 + r.code);
    mixInto(o.hash, r.st.randDraws);
    mixInto(o.hash, count);
    x.hashTree(x.at("simout"));
    if (r.end == End::Budget || r.end == End::Unsupported || r.end == End::Wall)
      o.inconclusive = std::string("run ended by ") + endName(r.end);
    return r;
  };
  std::map<uint64_t, uint64_t> total; // allocations of at least so many bytes
  std::map<std::string, uint64_t> want;
  KpRes kw;
  countFaults(o, p);
  int fault = 0;
  for (auto &w : p.itemsOf("mem")) {
    const uint64_t minBytes = std::stoull(w[3]), len = std::stoull(w[2]);
    uint64_t fired = 0;
    if (!total.count(minBytes)) {
      AppResult base = once(minBytes, 0, 1, total[minBytes], fired);
      if (!o.inconclusive.empty())
        return o;
      if (base.end != End::Success) { // nothing to compare with
        o.probes["undisturbed-run-fails"]++;
        return o;
      }
      auto t = treeHash(x.at("simout"));
      if (want.empty()) {
        want = t;
        std::string err;
        kw = readKeypoints(x.at(std::string("simout/") + kKpFile), err);
      } else if (want != t) {
        fail(o, "not-repeatable", "the undisturbed run gives other results when repeated");
        return o;
      }
      o.worst["allocations"] = std::max(o.worst["allocations"], (double)total[minBytes]);
    }
    fault++;
    const uint64_t nth = 1 + (uint64_t)(std::stod(w[1]) * (double)(total[minBytes] - 1)), len2 = len;
    uint64_t count = 0;
    AppResult r = once(minBytes, nth, len2, count, fired);
    if (!o.inconclusive.empty())
      return o;
    if (fired)
      o.probes["allocation-failed"]++;
    o.probes[std::string("end:") + endName(r.end)]++;
    const std::string when = "with allocation " + N((long)nth) + " of " + N((long)total[minBytes]) + " failing";
    if (r.end == End::Hang) {
      fail(o, "hang", "calibration does not terminate " + when);
      return o;
    }
    if (r.end != End::Success)
      continue;
    o.probes["survived"] += fired ? 1 : 0;
    auto got = treeHash(x.at("simout"));
    if (got == want)
      continue;
    if (images) { // an image that can't be loaded is left out
      std::string err;
      KpRes k = readKeypoints(x.at(std::string("simout/") + kKpFile), err);
      std::map<std::pair<int, int>, std::vector<std::string>> a, b;
      auto fill = [](const KpRes &k, std::map<std::pair<int, int>, std::vector<std::string>> &m) {
        for (auto &c : k.cams)
          for (auto &i : c.second.items) {
            std::ostringstream os;
            os.precision(17);
            os << i.board;
            for (size_t j = 0; j < i.ids.size(); j++)
              os << " " << i.ids[j] << " " << i.px[j].x << " " << i.px[j].y;
            m[{c.first, i.frame}].push_back(os.str());
          }
      };
      fill(kw, a);
      fill(k, b);
      uint64_t lost = 0;
      bool ok = err.empty() && k.nbCamera == kw.nbCamera;
      for (auto &f : a) {
        auto it = b.find(f.first);
        if (it == b.end())
          lost++;
        else
          ok = ok && it->second == f.second;
      }
      for (auto &f : b)
        ok = ok && a.count(f.first);
      if (ok && lost > 0 && lost <= fired) {
        o.probes["image-left-out"]++;
        continue;
      }
    }
    std::string f;
    for (auto &t : want)
      if (!got.count(t.first))
        f += " " + t.first + " is missing;";
      else if (got[t.first] != t.second)
        f += " " + t.first + " differs;";
    fail(o, "wrong-success", "calibration ended with success " + when + " but" + (f.empty() ? " wrote other files" : f));
    return o;
  }
  o.sig = p.str("scene_seed");
  for (auto &i : p.items)
    o.sig += " " + i;
  return o;
}
