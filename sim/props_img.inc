// Properties about images: detection under any schedule, damaged images, overlays, per-board settings.

void genImg(Plan &p, Rng &r, int maxBoards) {
  p.set("layout", "arc");
  p.set("scene_seed", r.next() >> 1);
  p.set("noise", 0);
  p.set("unit", r.pick(std::vector<double>{1, 1, 10, 1000, 0.05}));
  p.set("len", r.pick(std::vector<std::string>{"0.04 0.03", "0.04 0.03", "1 0.75", "100 75"}));
  int nc = r.ri(1, 3), nb = r.ri(1, maxBoards), nf = r.ri(3, 6);
  Rng big(p.u("scene_seed"), "big"); // numbers with two digits
  if (big.coin(0.05)) {
    nc = big.ri(10, 11);
    nf = 3;
  } else if (big.coin(0.05)) {
    nc = big.ri(1, 2);
    nf = big.ri(10, 12);
  }
  p.set("ncam", nc);
  p.set("nboard", nb);
  p.set("nframes", nf);
  p.set("dist_scale", 0);
  p.set("fscale", 0.95);
  p.set("img_w", r.pick(std::vector<int>{560, 640}));
  p.set("dist", r.uni(1.5, 2.0) * (nb > 2 ? 1.25 : 1));
  p.set("frame_tilt", 0.5);
  p.set("board_tilt", 0.25);
  p.set("board_pitch", 0.95);
  p.set("arc_spread", 0.3);
  p.set("max_view", 60);
  bool per = nb > 1 && r.coin(0.5);
  std::string nx, ny, sq;
  int bx = r.ri(3, 6), by = r.ri(bx == 3 ? 5 : 4, 6);
  for (int b = 0; b < nb; b++) {
    if (per) {
      bx = r.ri(3, 6);
      by = r.ri(bx == 3 ? 5 : 4, 6);
    }
    nx += N(bx) + " ";
    ny += N(by) + " ";
    sq += per ? S(0.5 / std::max(bx, by) * r.uni(0.8, 1.1)) + " " : "0.1 ";
  }
  p.set("nx", nx);
  p.set("ny", ny);
  p.set("sq", sq);
  p.set("per_board", per ? 1 : 0);
  if (r.coin(0.4)) {
    std::vector<int> idx;
    for (int i = 0; i < nb + 3; i++)
      idx.push_back(i);
    for (size_t i = idx.size(); i > 1; i--)
      std::swap(idx[i - 1], idx[r.ri(0, (int)i - 1)]);
    std::string s;
    const bool far = big.coin(0.15);
    for (int b = 0; b < nb; b++)
      s += N(idx[b] + (far ? 9 : 0)) + " ";
    p.set("bindex", s);
  }
  p.set("refine_corner", r.coin(0.8) ? 1 : 0);
  p.set("min_perc", r.uni(0.15, 0.5));
  p.set("intr", "exact");
  p.set("fix", 1);
  p.set("keypoints", "None");
}
// other image formats and directory names, files beside the images
void genFiles(Plan &p) {
  Rng r(p.u("scene_seed"), "files");
  if (r.coin(0.3))
    p.set("exts", r.pick(std::vector<std::string>{"bmp", "jpg", "jpeg", "tiff", "jp2", "png bmp", "bmp jpg png"}));
  if (r.coin(0.3))
    p.set("prefix", r.pick(std::vector<std::string>{"c", "view ", "cam.", "Kamera_0"}));
  if (r.coin(0.3))
    p.set("stray", 1);
}
// schedules of one run
void genSched(Plan &p, Rng &r, int run) {
  std::string k = "r" + N(run) + "_";
  p.set(k + "ncpu", r.pick(std::vector<int>{1, 2, 2, 3, 4, 8, 16}));
  p.set(k + "sched_seed", r.next() >> 1);
  double u = r.uni();
  p.set(k + "site_frac", u < 0.2 ? 0.0 : u < 0.6 ? r.uni(0.01, 0.1) : r.uni(0.2, 1));
  p.set(k + "site_p", r.pick(std::vector<double>{0.02, 0.1, 0.3}));
  p.set(k + "site_budget", r.pick(std::vector<int>{2, 8, 60}));
  p.set(k + "sync_p", r.pick(std::vector<double>{0, 0.1, 0.4, 0.8}));
  p.set(k + "spurious", r.pick(std::vector<double>{0, 0, 0.05, 0.2}));
  p.set(k + "starve", r.pick(std::vector<int>{0, 0, 1, 2}));
  p.set(k + "clock", r.ri(0, 3));
  p.set(k + "clock_base", r.ri(0, 2000000000));
}

void renderAll(const Scene &s, const Plan &p, const std::string &dir) {
  for (size_t c = 0; c < s.cams.size(); c++)
    for (size_t f = 0; f < s.frameIds.size(); f++) {
      std::string path = dir + framePath(s, (int)c, s.frameIds[f]).substr(s.imgDir.size());
      fs::create_directories(fs::path(path).parent_path());
      cv::Mat im = renderImage(s, (int)c, (int)f, p.u("scene_seed") + c * 1000 + f);
      cv::imwrite(path, im, {cv::IMWRITE_PNG_COMPRESSION, 1, cv::IMWRITE_JPEG_QUALITY, 98});
    }
  if (p.i("stray", 0)) // files that are no images beside the images
    for (size_t c = 0; c < s.cams.size(); c++)
      for (auto n : {"/!read me.txt", "/000000.txt", "/000001.json", "/.png.swp", "/Thumbs.db", "/zz.pngx"}) {
        std::string d = fs::path(dir + framePath(s, (int)c, 0).substr(s.imgDir.size())).parent_path().string();
        fs::create_directories(d);
        spew(d + n, "no image");
      }
}

// every reported point is a true one at its true place; cleanly visible boards are reported
void judgeDetection(const KpRes &k, const Scene &s, const Plan &p, Outcome &o, const std::set<std::pair<int, int>> &bad,
                    bool &opinion) {
  std::map<int, int> frameOf;
  for (size_t f = 0; f < s.frameIds.size(); f++)
    frameOf[s.frameIds[f]] = (int)f;
  std::set<Key> seen;
  double worst = 0;
  if (k.nbCamera != (int)s.cams.size()) {
    fail(o, "detected-cameras", "nb_camera " + N(k.nbCamera));
    return;
  }
  for (auto &c : k.cams) {
    bool allBad = true;
    for (size_t f = 0; f < s.frameIds.size(); f++)
      allBad &= bad.count({c.first, (int)f}) > 0;
    if (!allBad && (c.second.w != s.cams[c.first].m.w || c.second.h != s.cams[c.first].m.h))
      fail(o, "image-size", "camera " + N(c.first) + " image size " + N(c.second.w) + "x" + N(c.second.h));
    for (auto &it : c.second.items) {
      std::string who = "camera " + N(c.first) + " frame " + N(it.frame) + " board " + N(it.board);
      if (!frameOf.count(it.frame) || it.board < 0 || it.board >= (int)s.boards.size()) {
        fail(o, "detected-unknown", who);
        continue;
      }
      int f = frameOf[it.frame];
      if (!seen.insert(Key(c.first, f, it.board)).second) {
        fail(o, "detected-twice", who);
        continue;
      }
      if (!s.obs.count(Key(c.first, f, it.board))) {
        fail(o, "detected-invented", who + " is not visible");
        continue;
      }
      if (fs::path(it.path).filename().string() != fs::path(framePath(s, c.first, it.frame)).filename().string())
        fail(o, "detected-path", who + " has path " + it.path);
      const SimBoard &b = s.boards[it.board];
      Pose T = s.boardInCam(c.first, f, it.board);
      std::set<int> ids;
      double off = 0;
      for (size_t i = 0; i < it.ids.size(); i++) {
        Vec2 u;
        if (!ids.insert(it.ids[i]).second || it.ids[i] < 0 || it.ids[i] >= b.npts() ||
            !project(s.cams[c.first].m, T * b.pt(it.ids[i]), u)) {
          off = 1e9;
          break;
        }
        off = std::max(off, (u - Vec2(it.px[i].x, it.px[i].y)).norm());
      }
      worst = std::max(worst, off);
      // within a third of a square in the image
      Vec2 u0, u1;
      project(s.cams[c.first].m, T * b.pt(0), u0);
      project(s.cams[c.first].m, T * b.pt(1), u1);
      if (off > std::max(2.5, 0.3 * (u1 - u0).norm()))
        fail(o, "detected-place", who + " has a point off by " + S(off) + " px");
      opinion = true;
    }
  }
  o.worst["detection_px"] = std::max(o.worst["detection_px"], worst);
  // clean visibility: everything far inside, big enough, not oblique, no other board near
  const double minPerc = p.d("min_perc", 0.4);
  std::map<int, std::pair<int, int>> views; // board -> clean, missed ones
  for (auto &ob : s.obs) {
    int c = std::get<0>(ob.first), f = std::get<1>(ob.first), b = std::get<2>(ob.first);
    if (bad.count({c, f}))
      continue;
    const SimBoard &sb = s.boards[b];
    Pose T = s.boardInCam(c, f, b);
    bool clean = true;
    double minSide = 1e9;
    std::vector<cv::Point2f> quad;
    auto outer = [&](const SimBoard &q, const Pose &P, double m, std::vector<cv::Point2f> &v) {
      for (int i = 0; i < 4; i++) {
        double X = (i == 1 || i == 2) ? q.nx - 1 + m : -1 - m, Y = i >= 2 ? q.ny - 1 + m : -1 - m;
        Vec2 u;
        if (!project(s.cams[c].m, P * Vec3(X * q.sq, Y * q.sq, 0), u))
          return false;
        v.emplace_back((float)u.x(), (float)u.y());
      }
      return true;
    };
    clean &= outer(sb, T, 0.25, quad);
    if (!clean)
      continue;
    for (auto &q : quad)
      clean &= q.x > 12 && q.y > 12 && q.x < s.cams[c].m.w - 12 && q.y < s.cams[c].m.h - 12;
    for (int i = 0; i < 4; i++) {
      double n = (i % 2 == 0) ? sb.nx + 0.5 : sb.ny + 0.5;
      minSide = std::min(minSide, cv::norm(quad[i] - quad[(i + 1) % 4]) / n);
    }
    clean &= minSide > 34;
    Vec3 mid = T * Vec3((sb.nx - 2) * sb.sq / 2, (sb.ny - 2) * sb.sq / 2, 0);
    clean &= T.R.col(2).dot(mid) / mid.norm() > std::cos(40 * 3.14159265 / 180);
    for (size_t b2 = 0; b2 < s.boards.size() && clean; b2++)
      if ((int)b2 != b && s.obs.count(Key(c, f, (int)b2))) {
        std::vector<cv::Point2f> q2, inter;
        if (!outer(s.boards[b2], s.boardInCam(c, f, (int)b2), 0.6, q2)) {
          clean = false;
          break;
        }
        std::vector<cv::Point2f> h1, h2;
        cv::convexHull(quad, h1);
        cv::convexHull(q2, h2);
        clean &= cv::intersectConvexConvex(h1, h2, inter, true) <= 0;
      }
    if (!clean)
      continue;
    o.probes["clean-boards"]++;
    views[b].first++;
    if (seen.count(ob.first))
      continue;
    views[b].second++;
    // OpenCV loses a marker now and then; that is not what is judged
    if (p.prop != "C18" &&
        cornersFound(s, b, renderImage(s, c, f, p.u("scene_seed") + c * 1000 + f)) > std::max(0.6, minPerc + 0.05) * sb.npts() + 1)
      fail(o, "detection-missed", "camera " + N(c) + " frame " + N(s.frameIds[f]) + " board " + N(b) +
                                      " is cleanly visible but not reported");
    opinion = true;
  }
  // printed pages are not known to be right: never seen, though often visible
  if (p.prop == "C18")
    for (auto &v : views)
      if (v.second.first >= 2 && v.second.first == v.second.second)
        fail(o, "detection-missed", "board " + N(v.first) + " is cleanly visible in " + N(v.second.first) + " images but in none reported");
}

void noteSched(Outcome &o, const AppResult &r) {
  o.probes["preemptions"] += r.st.preemptions;
  if (r.st.threads > 1)
    o.probes["multi-threaded"]++;
  if (r.st.spurious)
    o.probes["spurious-wakeups"] += r.st.spurious;
}

// ---------------------------------------------------------------- C01
Plan genC01(uint64_t seed, const std::string &) {
  Plan p = start("C01", seed);
  Rng r(seed, "C01");
  genImg(p, r, 3);
  genRun(p, r);
  p.set("r0_ncpu", 1);
  p.set("r0_clock", 0);
  int n = 3;
  p.set("runs", n);
  for (int i = 1; i <= n; i++)
    genSched(p, r, i);
  if (r.coin(0.1)) // the number of processors is not known
    p.set("r1_ncpu", 0);
  if (r.coin(0.2)) // a worker cannot be started
    p.set("r2_create_fail", r.ri(1, 4));
  genFiles(p);
  return p;
}
Outcome runC01(const Plan &p) {
  Outcome o;
  Exec x(p, o);
  Scene s = buildScene(p);
  if (!anyObs(s))
    return o;
  Plan q = p;
  Config cfg;
  writeInputs(s, p, x.sc.dir, &cfg);
  renderAll(s, p, x.at("images"));
  AppResult ref = x.go(AppRun::DETECT);
  if (!mustSucceed(o, ref, "detection with one worker"))
    return o;
  std::string err, ref_bytes = slurp(x.at(std::string("simout/") + kKpFile));
  KpRes want = readKeypoints(x.at(std::string("simout/") + kKpFile), err);
  if (!err.empty()) {
    fail(o, "keypoints-unreadable", err);
    return o;
  }
  mixInto(o.hash, hashStr(ref_bytes));
  bool opinion = false;
  judgeDetection(want, s, p, o, {}, opinion);
  std::string sig;
  for (int k = 1; k <= (int)p.i("runs", 3); k++) {
    Config c = cfg;
    c.kv["save_path"] = "\"simout" + N(k) + "\"";
    writeConfig(c, x.at("c" + N(k) + ".yml"));
    AppResult r = x.go(AppRun::DETECT, "c" + N(k) + ".yml");
    noteSched(o, r);
    if (!o.inconclusive.empty())
      break;
    if (r.st.createFails) {
      o.probes["worker-not-started"]++;
      const bool ended = r.end == End::Crash && r.code == 6; // by std::terminate: not silent
      if (!ended && !mustEnd(o, r, "detection without a worker (schedule " + N(k) + ")"))
        return o;
      if (ended || r.end == End::Failure)
        continue;
    } else if (!mustSucceed(o, r, "detection (schedule " + N(k) + ")"))
      return o;
    KpRes got = readKeypoints(x.at("simout" + N(k) + "/" + kKpFile), err);
    std::string why;
    if (!err.empty())
      fail(o, "keypoints-unreadable", err);
    else if (!sameKp(want, got, &why))
      fail(o, "schedule-dependent", "schedule " + N(k) + ": " + why);
    x.hashTree(x.at("simout" + N(k)));
    sig += N((long)(r.st.interleaving >> 1)) + " ";
    if (!o.f.empty())
      return o;
  }
  if (opinion)
    o.sig = sig;
  return o;
}

// ---------------------------------------------------------------- C02
Plan genC02(uint64_t seed, const std::string &) {
  Plan p = start("C02", seed);
  Rng r(seed, "C02");
  genImg(p, r, 2);
  genRun(p, r);
  p.set("r0_ncpu", 1);
  p.set("r0_clock", 0);
  genSched(p, r, 1);
  genFiles(p);
  p.kv.erase("exts"); // the damage is made for png files
  int nc = (int)p.i("ncam"), nf = (int)p.i("nframes");
  double rate = r.pick(std::vector<double>{0.1, 0.3, 0.6});
  Rng e(seed, "C02lead");
  for (int c = 0; c < nc; c++) {
    bool good = true; // the first image of the camera, which has its size
    int lead = e.coin(0.25) ? e.ri(2, nf) : 0; // a camera that only started late, or never
    for (int f = 0; f < nf; f++) {
      bool first = f < lead || (f == 0 && r.coin(0.35));
      if (!first && !r.coin(rate))
        continue;
      if (f == 0)
        good = false;
      char path[64];
      std::snprintf(path, sizeof path, "%03d/%06d.png", c + 1, f);
      switch (r.ri(0, 6)) {
      case 6: // a thumbnail in place of the image
        if (!good) {
          p.add("bad " + N(c) + " " + N(f) + " zero");
          break;
        }
        p.add("bad " + N(c) + " " + N(f) + " tiny " + N(r.pick(std::vector<int>{1, 2, 3, 5, 9, 16, 40})) + " " +
              N(r.pick(std::vector<int>{1, 2, 3, 5, 9, 16, 40})));
        break;
      case 5: // a header that promises more pixels than can be
        p.add("bad " + N(c) + " " + N(f) + " huge " + N(r.ri(0, 1)));
        break;
      case 0:
        p.add("bad " + N(c) + " " + N(f) + " zero");
        break;
      case 1:
        p.add("bad " + N(c) + " " + N(f) + " trunc " + S(r.uni()));
        break;
      case 2:
        p.add("bad " + N(c) + " " + N(f) + " garbage");
        break;
      case 3: // cannot be opened, ever
        p.add("bad " + N(c) + " " + N(f) + " open");
        p.add("io 1 rfail " + std::string(path) + " 1 " + N(r.pick(std::vector<int>{5, 13, 2, 24})) + " 1");
        break;
      default: // one failing open
        p.add("bad " + N(c) + " " + N(f) + " once");
        p.add("io 1 rfail " + std::string(path) + " " + N(r.ri(1, 2)) + " 5 0");
      }
    }
  }
  return p;
}
// an image whose header was damaged so that its size is impossible
std::string hugeImage(std::string png, int bmp) {
  if (bmp) {
    auto u = [](uint32_t v, int n) {
      std::string t;
      for (; n > 0; n--, v >>= 8)
        t += (char)(v & 255);
      return t;
    };
    return "BM" + u(4000054, 4) + u(0, 4) + u(54, 4) + u(40, 4) + u(900000, 4) + u(800000, 4) + u(1, 2) + u(24, 2) + u(0, 4) +
           u(4000000, 4) + u(2835, 4) + u(2835, 4) + u(0, 8) + std::string(4000, 'x');
  }
  if (png.size() < 40)
    return "";
  for (int k = 16; k < 24; k++) // width and height
    png[k] = k % 4 == 1 ? 0x0d : 0;
  uint32_t c = 0xffffffffu;
  for (int k = 12; k < 29; k++) {
    c ^= (unsigned char)png[k];
    for (int b = 0; b < 8; b++)
      c = c & 1 ? 0xedb88320u ^ (c >> 1) : c >> 1;
  }
  c ^= 0xffffffffu;
  for (int b = 0; b < 4; b++)
    png[29 + b] = (char)(c >> (24 - 8 * b));
  return png;
}
Outcome runC02(const Plan &p) {
  Outcome o;
  Exec x(p, o);
  Scene s = buildScene(p);
  if (!anyObs(s))
    return o;
  Config cfg;
  writeInputs(s, p, x.sc.dir, &cfg);
  renderAll(s, p, x.at("images"));
  AppResult ref = x.go(AppRun::DETECT);
  if (!mustSucceed(o, ref, "detection without faults"))
    return o;
  std::string err;
  KpRes want = readKeypoints(x.at(std::string("simout/") + kKpFile), err);
  removeTree(x.at("simout"));
  std::set<std::pair<int, int>> bad, never;
  for (auto &w : p.itemsOf("bad")) {
    int c = std::stoi(w[1]), f = std::stoi(w[2]);
    bad.insert({c, f});
    std::string path = x.at("images") + framePath(s, c, f).substr(s.imgDir.size());
    if (w[3] == "zero") {
      spew(path, "");
      never.insert({c, f});
    } else if (w[3] == "garbage") {
      Rng g(p.u("scene_seed") + c * 100 + f);
      std::string t(400, 0);
      for (auto &ch : t)
        ch = (char)g.next();
      spew(path, t);
      never.insert({c, f});
    } else if (w[3] == "tiny") {
      cv::imwrite(path, cv::Mat(std::stoi(w[5]), std::stoi(w[4]), CV_8UC3, cv::Scalar(90, 120, 200)));
      never.insert({c, f});
    } else if (w[3] == "huge") {
      spew(path, hugeImage(slurp(path), std::stoi(w[4])));
      never.insert({c, f});
    } else if (w[3] == "trunc") {
      std::string t = slurp(path);
      size_t n = (size_t)(std::stod(w[4]) * t.size());
      t.resize(std::min(n, t.size() - 20));
      spew(path, t);
    } else if (w[3] == "open")
      never.insert({c, f});
  }
  countFaults(o, p);
  AppResult r = x.go(AppRun::DETECT);
  noteSched(o, r);
  if (!o.inconclusive.empty())
    return o;
  if (!mustSucceed(o, r, "detection with bad images"))
    return o;
  if (r.st.ioFired)
    o.probes["open-failures"] += r.st.ioFired;
  x.hashTree(x.at("simout"));
  KpRes got = readKeypoints(x.at(std::string("simout/") + kKpFile), err);
  if (!err.empty()) {
    fail(o, "keypoints-unreadable", err);
    return o;
  }
  // only the bad images' observations may change
  KpRes a = want, b = got;
  for (auto &c : a.cams)
    c.second.items.erase(std::remove_if(c.second.items.begin(), c.second.items.end(),
                                        [&](const KpRes::Item &i) { return bad.count({c.first, i.frame}) > 0; }),
                         c.second.items.end());
  for (auto &c : b.cams) {
    bool all = true;
    for (int f = 0; f < (int)s.frameIds.size(); f++)
      all &= bad.count({c.first, f}) > 0;
    if (all && a.cams.count(c.first)) { // nothing readable: the size is unknown
      c.second.w = a.cams[c.first].w;
      c.second.h = a.cams[c.first].h;
    }
    for (auto &i : c.second.items)
      if (never.count({c.first, i.frame}))
        fail(o, "unreadable-detected", "camera " + N(c.first) + " frame " + N(i.frame) + " cannot be read but has a board");
    c.second.items.erase(std::remove_if(c.second.items.begin(), c.second.items.end(),
                                        [&](const KpRes::Item &i) { return bad.count({c.first, i.frame}) > 0; }),
                         c.second.items.end());
  }
  std::string why;
  if (!sameKp(a, b, &why))
    fail(o, "others-affected", "with bad images: " + why);
  bool op = false;
  Outcome tmp;
  judgeDetection(got, s, p, tmp, bad, op);
  for (auto &f : tmp.f)
    if (f.cls != "detection-missed")
      o.f.push_back(f);
  if (!bad.empty()) {
    o.sig = N((long)(r.st.interleaving >> 1));
    for (auto &i : p.items)
      o.sig += i.rfind("bad", 0) == 0 ? " " + i : "";
  }
  return o;
}

// ---------------------------------------------------------------- C14
// an image that can be recognised: blocks of two grey levels
cv::Mat plainImage(const Scene &s, int c, int f) {
  const CamModel &m = s.cams[c].m;
  cv::Mat im(m.h, m.w, CV_8UC3);
  Rng r((uint64_t)c * 7919 + f * 31 + 17, "plain");
  std::vector<int> bits(32 * 32);
  for (auto &b : bits)
    b = r.coin(0.5);
  for (int y = 0; y < m.h; y++)
    for (int x = 0; x < m.w; x++) {
      int v = bits[((y / 24) % 32) * 32 + (x / 24) % 32] ? 185 : 65;
      im.at<cv::Vec3b>(y, x) = cv::Vec3b(v, v, v);
    }
  return im;
}
void plainImages(const Scene &s, const std::string &dir, const std::set<std::pair<int, int>> &skip) {
  for (auto &ob : s.obs) {
    int c = std::get<0>(ob.first), f = std::get<1>(ob.first);
    if (skip.count({c, f}))
      continue;
    std::string path = dir + "/" + framePath(s, c, s.frameIds[f]);
    if (fileExists(path))
      continue;
    fs::create_directories(fs::path(path).parent_path());
    cv::imwrite(path, plainImage(s, c, f), {cv::IMWRITE_PNG_COMPRESSION, 1});
  }
}
Plan genC14(uint64_t seed, const std::string &) {
  Plan p = start("C14", seed);
  Rng r(seed, "C14");
  genQuick(p, r);
  p.set("nframes", r.ri(6, 12));
  if (r.coin(0.3)) {
    genUnlinked(p, r);
    p.set("nframes", r.ri(10, 16));
    p.set("intr", "exact");
    p.set("fix", 1);
  }
  p.set("img_w", r.pick(std::vector<int>{320, 400}));
  p.set("noise", r.uni(0.02, 0.15));
  p.set("imgdir", "images");
  p.set("save_det", r.ri(0, 3) ? 1 : 0);
  p.set("save_repro", r.ri(0, 3) ? 1 : 0);
  if (!p.i("save_det") && !p.i("save_repro"))
    p.set("save_det", 1);
  genDropouts(p, r, 0.7, true);
  int nc = (int)p.i("ncam"), nf = (int)p.i("nframes");
  if (r.coin(0.75)) {
    double rate = r.pick(std::vector<double>{0.05, 0.2, 0.6});
    for (int c = 0; c < nc; c++)
      for (int f = 0; f < nf; f++)
        if (r.coin(rate))
          p.add("bad " + N(c) + " " + N(f) + " " +
                r.pick(std::vector<std::string>{"gone", "zero", "garbage", "open", "dir", "huge"}) + " " +
                N(r.pick(std::vector<int>{5, 13, 2})));
    if (r.coin(0.1))
      p.add("baddir " + N(r.ri(0, nc - 1)));
  }
  return p;
}
Outcome runC14(const Plan &p) {
  Outcome o;
  Exec x(p, o);
  Scene s = buildScene(p);
  if (!anyObs(s))
    return o;
  Config cfg;
  writeInputs(s, p, x.sc.dir, &cfg);
  plainImages(s, x.sc.dir);
  Config c = cfg;
  c.kv["save_detection"] = "0";
  c.kv["save_reprojection"] = "0";
  c.kv["save_path"] = "\"base\"";
  writeConfig(c, x.at("c0.yml"));
  AppResult base = x.go(AppRun::MAIN, "c0.yml");
  if (!mustSucceed(o, base, "calibration without overlays"))
    return o;
  auto want = treeHash(x.at("base"));
  std::set<std::pair<int, int>> bad;
  Plan q = p;
  for (auto &w : p.itemsOf("bad")) {
    int cc = std::stoi(w[1]), f = std::stoi(w[2]);
    if (cc >= (int)s.cams.size() || f >= (int)s.frameIds.size())
      continue;
    std::string path = x.at(framePath(s, cc, s.frameIds[f]));
    if (!fileExists(path))
      continue;
    bad.insert({cc, f});
    if (w[3] == "gone")
      fs::remove(path);
    else if (w[3] == "zero")
      spew(path, "");
    else if (w[3] == "huge")
      spew(path, hugeImage(slurp(path), std::stoi(w[4]) % 2));
    else if (w[3] == "garbage")
      spew(path, "not an image at all, but some text that is long enough to be read");
    else if (w[3] == "dir") {
      fs::remove(path);
      fs::create_directory(path);
    } else
      q.add("io 1 rfail " + framePath(s, cc, s.frameIds[f]) + " 1 " + w[4] + " 1");
  }
  for (auto &w : p.itemsOf("baddir")) {
    int cc = std::stoi(w[1]);
    for (size_t f = 0; f < s.frameIds.size(); f++)
      bad.insert({cc, (int)f});
    std::error_code ec;
    fs::remove_all(fs::path(x.at(framePath(s, cc, 0))).parent_path(), ec);
  }
  countFaults(o, p);
  Exec y(q, o);
  y.run = 1;
  copyTree(x.sc.dir, y.sc.dir);
  removeTree(y.at("base"));
  AppResult r = y.go(AppRun::MAIN);
  if (!mustSucceed(o, r, "calibration with overlays"))
    return o;
  auto got = treeHash(y.at("simout"));
  y.hashTree(y.at("simout"));
  for (auto &f : want) {
    auto it = got.find(f.first);
    if (it == got.end() || it->second != f.second) {
      fail(o, "result-changed", f.first + " changes when overlays are asked for");
      return o;
    }
  }
  std::string err;
  KpRes kp = readKeypoints(y.at(std::string("simout/") + kKpFile), err);
  std::map<std::pair<int, int>, std::vector<cv::Point2f>> pts;
  std::map<int, int> frameOf;
  for (size_t f = 0; f < s.frameIds.size(); f++)
    frameOf[s.frameIds[f]] = (int)f;
  for (auto &cm : kp.cams)
    for (auto &it : cm.second.items)
      if (frameOf.count(it.frame))
        for (auto &u : it.px)
          pts[{cm.first, frameOf[it.frame]}].push_back(u);
  std::set<std::string> expected;
  for (int kind = 0; kind < 2; kind++) {
    const char *dir = kind ? "Reprojection" : "Detection";
    if (!p.i(kind ? "save_repro" : "save_det", 0))
      continue;
    for (auto &e : pts) {
      if (bad.count(e.first) || e.second.empty())
        continue;
      int cc = e.first.first, f = e.first.second;
      char name[96];
      std::snprintf(name, sizeof name, "%s/%03d/%06d.jpg", dir, cc, s.frameIds[f]);
      expected.insert(name);
      if (!got.count(name)) {
        fail(o, "overlay-missing", std::string(name) + " is not written");
        continue;
      }
      cv::Mat im = cv::imread(y.at(std::string("simout/") + name)), src = plainImage(s, cc, f);
      if (im.empty() || im.size() != src.size()) {
        fail(o, "overlay-size", name);
        continue;
      }
      cv::Mat near = cv::Mat::zeros(src.size(), CV_8UC1);
      for (auto &u : e.second)
        cv::circle(near, cv::Point((int)u.x, (int)u.y), 14, cv::Scalar(255), cv::FILLED);
      double sum = 0;
      long n = 0;
      for (int yy = 0; yy < src.rows; yy++)
        for (int xx = 0; xx < src.cols; xx++)
          if (!near.at<uchar>(yy, xx)) {
            sum += std::abs((int)src.at<cv::Vec3b>(yy, xx)[1] - (int)im.at<cv::Vec3b>(yy, xx)[1]);
            n++;
          }
      if (n > 2000 && sum / n > 20)
        fail(o, "overlay-image", std::string(name) + " does not show the image of that camera and frame");
      int marked = 0;
      for (auto &u : e.second) {
        int xx = std::min(std::max(0, (int)u.x), src.cols - 1), yy = std::min(std::max(0, (int)u.y), src.rows - 1);
        cv::Vec3b a = src.at<cv::Vec3b>(yy, xx), b = im.at<cv::Vec3b>(yy, xx);
        int d = 0;
        for (int k = 0; k < 3; k++)
          d = std::max(d, std::abs((int)a[k] - (int)b[k]));
        marked += d > 30;
      }
      if (e.second.size() >= 10 && marked < 0.2 * e.second.size())
        fail(o, "overlay-marks", std::string(name) + " marks " + N(marked) + " of " + N((long)e.second.size()) + " keypoints");
      o.probes["overlays"]++;
    }
  }
  for (auto &g : got)
    if (g.first.find(".jpg") != std::string::npos && !expected.count(g.first)) {
      fail(o, "overlay-unexpected", g.first + " is written for an image without observations or unreadable");
      break;
    }
  o.sig = N((long)(hashStr(p.text()) >> 8));
  return o;
}

// ---------------------------------------------------------------- C17
Plan genC17(uint64_t seed, const std::string &) {
  Plan p = start("C17", seed);
  Rng r(seed, "C17");
  genImg(p, r, 3);
  p.set("nboard", std::max<int64_t>(2, p.i("nboard")));
  p.set("nframes", r.ri(3, 5));
  p.set("ncam", r.ri(1, 2));
  genRun(p, r);
  int nb = (int)p.i("nboard");
  // which settings are given per board
  bool num = r.coin(0.7), size = r.coin(0.7);
  std::string nx, ny, sq;
  int bx = r.ri(3, 6), by = r.ri(bx == 3 ? 5 : 4, 6);
  for (int b = 0; b < nb; b++) {
    if (num) {
      bx = r.ri(3, 6);
      by = r.ri(bx == 3 ? 5 : 4, 6);
    }
    nx += N(bx) + " ";
    ny += N(by) + " ";
    sq += size ? S(r.uni(0.08, 0.14)) + " " : "0.11 ";
  }
  p.set("nx", nx);
  p.set("ny", ny);
  p.set("sq", sq);
  p.set("per_board", num || size ? 1 : 0);
  p.set("per_num", num ? 1 : 0);
  p.set("per_size", size ? 1 : 0);
  p.set("per_res", r.ri(0, 1));
  std::vector<int> idx;
  for (int i = 0; i < nb + 3; i++)
    idx.push_back(i);
  for (size_t i = idx.size(); i > 1; i--)
    std::swap(idx[i - 1], idx[r.ri(0, (int)i - 1)]);
  std::string s;
  for (int b = 0; b < nb; b++)
    s += N(idx[b]) + " ";
  if (r.coin(0.75))
    p.set("bindex", s);
  else
    p.kv.erase("bindex");
  genSched(p, r, 0);
  genFiles(p);
  return p;
}
Outcome runC17(const Plan &p) {
  Outcome o;
  Exec x(p, o);
  Scene s = buildScene(p);
  if (!anyObs(s))
    return o;
  writeInputs(s, p, x.sc.dir);
  renderAll(s, p, x.at("images"));
  AppResult r = x.go(AppRun::DETECT);
  if (!o.inconclusive.empty() || !mustSucceed(o, r, "detection"))
    return o;
  std::string err;
  KpRes k = readKeypoints(x.at(std::string("simout/") + kKpFile), err);
  if (!err.empty()) {
    fail(o, "keypoints-unreadable", err);
    return o;
  }
  x.hashTree(x.at("simout"));
  bool op = false;
  judgeDetection(k, s, p, o, {}, op);
  if (!o.f.empty())
    return o;
  // the reconstruction from these keypoints
  Scene d = s;
  d.obs.clear();
  size_t n = 0;
  for (auto &c : k.cams)
    for (auto &it : c.second.items) {
      Ob ob;
      ob.ids = it.ids;
      ob.px = it.px;
      ob.outlier.assign(ob.ids.size(), 0);
      d.obs[Key(c.first, it.frame, it.board)] = ob;
      n++;
    }
  if (n < 3)
    return o;
  Plan q = p;
  q.set("keypoints", "kp2.yml");
  writeInputs(d, q, x.sc.dir);
  writeKeypoints(d, x.at("kp2.yml"));
  AppResult m = x.go(AppRun::MAIN);
  if (!mustSucceed(o, m, "calibration"))
    return o;
  Results R = readResults(x.at("simout"));
  Partition P = refPartition(d);
  P.clear = false; // dimensions and identities only
  Judge j;
  judgeObjects(R, d, P, true, j);
  finish(o, j);
  x.hashTree(x.at("simout"));
  o.sig = p.str("nx") + p.str("ny") + p.str("sq") + p.str("bindex") + p.str("per_num") + p.str("per_size") +
          N((long)(r.st.interleaving >> 1));
  return o;
}

// ---------------------------------------------------------------- C18
// The generator prints the boards, they are put into the scene, and the calibration looks for them.
Plan genC18(uint64_t seed, const std::string &) {
  Plan p = genC17(seed, "");
  p.prop = "C18";
  for (auto k : {"prefix", "exts", "stray"})
    p.kv.erase(k);
  Rng r(seed, "C18");
  p.set("nboard", r.ri(1, 4));
  p.set("nframes", r.ri(2, 4));
  p.set("ncam", 1);
  int nb = (int)p.i("nboard");
  const bool num = r.coin(0.6), size = r.coin(0.6);
  std::string nx, ny, sq, bi;
  int bx = r.ri(3, 7), by = r.ri(bx == 3 ? 5 : 4, 6);
  std::vector<int> idx;
  for (int i = 0; i < nb + 2; i++)
    idx.push_back(i);
  for (size_t i = idx.size(); i > 1; i--)
    std::swap(idx[i - 1], idx[r.ri(0, (int)i - 1)]);
  for (int b = 0; b < nb; b++) {
    if (num) {
      bx = r.ri(3, 7);
      by = r.ri(bx == 3 ? 5 : 4, 6);
    }
    nx += N(bx) + " ";
    ny += N(by) + " ";
    sq += size ? S(r.uni(0.08, 0.14)) + " " : "0.11 ";
    bi += N(idx[b]) + " ";
  }
  p.set("nx", nx);
  p.set("ny", ny);
  p.set("sq", sq);
  p.set("per_board", num || size ? 1 : 0);
  p.set("per_num", num ? 1 : 0);
  p.set("per_size", size ? 1 : 0);
  p.set("per_res", 0);
  p.kv.erase("bindex");
  if (r.coin(0.5))
    p.set("bindex", bi);
  p.set("res_list", r.coin(0.5) ? 1 : 0);
  p.set("res_seed", r.next() >> 1);
  if (r.coin(0.3))
    p.set("dots", r.pick(std::vector<int>{2, 3, 5, 8}));
  p.set("len", r.pick(std::vector<std::string>{"0.04 0.03", "1 0.75", "4 3", "100 75", "0.05 0.035"}));
  switch (r.ri(0, 7)) {
  case 0: // a board that cannot be created
    p.add("io 1 wfail charuco_board_ " + N(r.ri(1, nb)) + " " + N(r.pick(std::vector<int>{13, 28, 30, 24})) + " " + N(r.ri(0, 1)));
    break;
  case 1:
  case 2:
    p.add("at full " + S(r.uni()) + " " + N(r.pick(std::vector<int>{28, 5})) + " " + N(r.ri(0, 1)));
    break;
  case 3: // killed, then run again
    p.add("at crash " + S(r.uni()) + " 0 0");
    break;
  case 4:
    p.add("path " + r.pick(std::vector<std::string>{"file", "dir", "stale"}));
    break;
  default:
    break;
  }
  return p;
}
// a page printed with many dots, as fine as the others (its margin of 10 stays)
cv::Mat coarse(const cv::Mat &page, double f) {
  if (f >= 1 || page.cols < 60 || page.rows < 60)
    return page;
  cv::Mat in = page(cv::Rect(10, 10, page.cols - 20, page.rows - 20)), sm, out;
  cv::resize(in, sm, cv::Size((int)std::lround(in.cols * f), (int)std::lround(in.rows * f)), 0, 0, cv::INTER_AREA);
  cv::copyMakeBorder(sm, out, 10, 10, 10, 10, cv::BORDER_CONSTANT, cv::Scalar(255));
  return out;
}
std::string boardFile(int i) {
  char b[64];
  std::snprintf(b, sizeof b, "charuco_boards/charuco_board_%03d.bmp", i);
  return b;
}
Outcome runC18(const Plan &p0) {
  Outcome o;
  Plan p = p0;
  p.set("save_root", "charuco_boards");
  Exec x(p, o);
  Scene s = buildScene(p);
  if (!anyObs(s))
    return o;
  Config cfg;
  writeInputs(s, p, x.sc.dir, &cfg);
  // page sizes and number of boards
  int top = (int)s.boards.size() - 1;
  for (auto &b : s.boards)
    top = std::max(top, b.index);
  cfg.kv["number_board"] = N(top + 1);
  const int dots = std::max(1, (int)p.i("dots", 1)); // finer pages
  {
    Rng r(p.u("res_seed"), "pages");
    std::string lx, ly;
    int gx = 0, gy = 0;
    for (int i = 0; i <= top; i++) {
      int nx = s.perNum ? 9 : s.boards[0].nx, ny = s.perNum ? 7 : s.boards[0].ny;
      for (auto &b : s.boards)
        if (b.index == i) {
          nx = b.nx;
          ny = b.ny;
        }
      int px = r.ri(48, 66), ex = r.coin(0.5) ? r.ri(0, 150) : 0, ey = r.coin(0.5) ? r.ri(0, 150) : 0;
      lx += (i ? ", " : "") + N((nx * px + ex) * dots + 20);
      ly += (i ? ", " : "") + N((ny * px + ey) * dots + 20);
      gx = std::max(gx, nx * 54 * dots + 20);
      gy = std::max(gy, ny * 54 * dots + 20);
    }
    const bool lists = p.i("res_list", 0);
    cfg.kv["resolution_x"] = N(lists ? 90 : gx);
    cfg.kv["resolution_y"] = N(lists ? 90 : gy);
    cfg.kv["resolution_x_per_board"] = lists ? "[ " + lx + " ]" : "[ ]";
    cfg.kv["resolution_y_per_board"] = lists ? "[ " + ly + " ]" : "[ ]";
  }
  writeConfig(cfg, x.at("config.yml"));
  AppResult base = x.go(AppRun::GENERATE, "config.yml", "", false);
  if (!mustSucceed(o, base, "board generator"))
    return o;
  std::map<std::string, std::string> want;
  for (int i = 0; i <= top; i++) {
    const std::string f = boardFile(i);
    cv::Mat im = fileExists(x.at(f)) ? cv::imread(x.at(f), cv::IMREAD_GRAYSCALE) : cv::Mat();
    if (im.empty()) {
      fail(o, "board-missing", f + " is not written");
      return o;
    }
    want[f] = slurp(x.at(f));
    s.print[i] = coarse(im, 1.0 / dots);
  }
  x.hashTree(x.at("charuco_boards"));
  // once more, with what goes wrong when files are written
  if (!p.itemsOf("at").empty() || !p.itemsOf("io").empty() || !p.itemsOf("path").empty()) {
    countFaults(o, p);
    fs::rename(x.at("charuco_boards"), x.at("boards0"));
    bool blocked = false;
    for (auto &w : p.itemsOf("path")) {
      if (w[1] == "file") {
        spew(x.at("charuco_boards"), "in the way");
        blocked = true;
      } else if (w[1] == "dir") {
        fs::create_directories(x.at(boardFile(0)));
        blocked = true;
      } else
        for (auto &f : want) { // of an earlier run
          fs::create_directories(x.at("charuco_boards"));
          spew(x.at(f.first), f.second + std::string(5000, 'x'));
        }
    }
    Plan q = p;
    for (auto &w : p.itemsOf("at")) {
      long n = 1 + (long)(std::stod(w[2]) * (double)std::max<int64_t>(0, (int64_t)base.st.ioSteps - 1));
      q.add("io 1 " + w[1] + " - " + N(n) + " " + w[3] + " " + w[4]);
    }
    Exec y(q, o);
    y.run = 1;
    auto same = [&](const std::string &when) {
      for (auto &f : want)
        if (!fileExists(x.at(f.first)) || slurp(x.at(f.first)) != f.second) {
          fail(o, "board-incomplete", "the generator ended with success " + when + " but " + f.first + " is not the complete board");
          return false;
        }
      return true;
    };
    AppResult r = y.go(AppRun::GENERATE, "config.yml", x.sc.dir);
    if (r.st.ioFired)
      o.probes["write-fault-fired"] += r.st.ioFired;
    if (!o.inconclusive.empty())
      return o;
    if (r.end == End::CrashPoint)
      o.probes["killed"]++;
    else if (!mustEnd(o, r, "board generator with failing output"))
      return o;
    if (r.end == End::Success && !same("despite failing output"))
      return o;
    if (r.end == End::Failure)
      o.probes["failure-reported"]++;
    if (r.end != End::Success && !blocked) {
      AppResult again = y.go(AppRun::GENERATE, "config.yml", x.sc.dir, false);
      if (!mustSucceed(o, again, "board generator run again") || !same("when run again"))
        return o;
    }
  }
  // each printed page on its own: all of its points are found, and nothing else
  {
    int side = 0;
    for (auto &b : s.boards)
      side = std::max(side, (int)std::ceil(std::hypot(s.print[b.index].cols, s.print[b.index].rows)));
    const double zoom = 1.6;
    side = (int)(side * zoom) + 40;
    struct Page {
      cv::Mat A; // page -> image
      double pxs, ox, oy;
    };
    std::vector<Page> pages;
    const size_t photos = 4; // of each page; OpenCV loses a marker now and then
    Rng r(p.u("res_seed"), "sheets");
    fs::create_directories(x.at("pages/Cam_001"));
    for (size_t i = 0; i < photos * s.boards.size(); i++) {
      const size_t b = i / photos;
      const cv::Mat &pr = s.print[s.boards[b].index];
      Page g;
      g.pxs = std::min((pr.cols - 20.0) / s.boards[b].nx, (pr.rows - 20.0) / s.boards[b].ny);
      g.ox = (pr.cols - g.pxs * s.boards[b].nx) / 2 - 0.5;
      g.oy = (pr.rows - g.pxs * s.boards[b].ny) / 2 - 0.5;
      g.A = cv::getRotationMatrix2D(cv::Point2f(pr.cols / 2.f, pr.rows / 2.f), r.uni(0, 360), zoom * r.uni(0.85, 1));
      g.A.at<double>(0, 2) += side / 2.0 - pr.cols / 2.0;
      g.A.at<double>(1, 2) += side / 2.0 - pr.rows / 2.0;
      cv::Mat im, blur, col;
      cv::warpAffine(pr, im, g.A, cv::Size(side, side), cv::INTER_LINEAR, cv::BORDER_CONSTANT, cv::Scalar(255));
      cv::GaussianBlur(im, blur, cv::Size(3, 3), 0.7);
      cv::cvtColor(blur, col, cv::COLOR_GRAY2BGR);
      char name[64];
      std::snprintf(name, sizeof name, "pages/Cam_001/%06d.png", (int)i);
      cv::imwrite(x.at(name), col, {cv::IMWRITE_PNG_COMPRESSION, 1});
      pages.push_back(g);
    }
    Config c = cfg;
    c.kv["root_path"] = "\"pages\"";
    c.kv["save_path"] = "\"simpages\"";
    c.kv["refine_corner"] = "1";
    writeConfig(c, x.at("pages.yml"));
    AppResult d = x.go(AppRun::DETECT, "pages.yml", "", false);
    if (!o.inconclusive.empty() || !mustSucceed(o, d, "detection of the pages"))
      return o;
    std::string err;
    KpRes k = readKeypoints(x.at(std::string("simpages/") + kKpFile), err);
    if (!err.empty()) {
      fail(o, "keypoints-unreadable", err);
      return o;
    }
    std::vector<std::set<int>> found(s.boards.size());
    std::set<int> seen; // photographs
    for (auto &cm : k.cams)
      for (auto &it : cm.second.items) {
        std::string who = "board " + N(it.board) + " on the page of board " + N(it.frame / (int)photos);
        if (it.frame < 0 || it.board != it.frame / (int)photos || it.board < 0 || it.board >= (int)s.boards.size()) {
          fail(o, "page-invented", who + " is not there");
          continue;
        }
        const SimBoard &sb = s.boards[it.board];
        const Page &g = pages[it.frame];
        double off = 0;
        for (size_t i = 0; i < it.ids.size(); i++) {
          if (it.ids[i] < 0 || it.ids[i] >= sb.npts()) {
            off = 1e9;
            break;
          }
          double X = g.ox + g.pxs * (1 + it.ids[i] % (sb.nx - 1)), Y = g.oy + g.pxs * (1 + it.ids[i] / (sb.nx - 1));
          const double *A = g.A.ptr<double>(0), *B = g.A.ptr<double>(1);
          off = std::max(off, std::hypot(A[0] * X + A[1] * Y + A[2] - it.px[i].x, B[0] * X + B[1] * Y + B[2] - it.px[i].y));
        }
        o.worst["page_px"] = std::max(o.worst["page_px"], off);
        if (off > std::max(3.0, 0.25 * zoom * g.pxs))
          fail(o, "page-place", who + " has a point off by " + S(off) + " px");
        if (!seen.insert(it.frame).second)
          fail(o, "page-twice", "board " + N(it.board) + " is found more than once on its page");
        found[it.board].insert(it.ids.begin(), it.ids.end());
      }
    for (size_t b = 0; b < s.boards.size(); b++) {
      o.probes["pages"]++;
      o.worst["page_lost_points"] = std::max(o.worst["page_lost_points"], (double)s.boards[b].npts() - (double)found[b].size());
      if (found[b].size() < 0.6 * s.boards[b].npts())
        fail(o, "page-missed", "only " + N((long)found[b].size()) + " of " + N(s.boards[b].npts()) + " points of board " + N((long)b) +
                                   " are found on " + N((long)photos) + " photographs of its page");
    }
    x.hashTree(x.at("simpages"));
    if (!o.f.empty())
      return o;
  }
  // the calibration finds the printed boards
  renderAll(s, p, x.at("images"));
  AppResult d = x.go(AppRun::DETECT, "config.yml", "", false);
  if (!o.inconclusive.empty() || !mustSucceed(o, d, "detection of the printed boards"))
    return o;
  std::string err;
  KpRes k = readKeypoints(x.at(std::string("simout/") + kKpFile), err);
  if (!err.empty()) {
    fail(o, "keypoints-unreadable", err);
    return o;
  }
  x.hashTree(x.at("simout"));
  bool op = false;
  judgeDetection(k, s, p, o, {}, op);
  o.sig = p.str("nx") + p.str("ny") + p.str("bindex") + p.str("per_num") + p.str("per_size") + p.str("res_list") +
          N((long)(p.u("res_seed") & 0xffff));
  for (auto &i : p.items)
    o.sig += " " + i;
  return o;
}
