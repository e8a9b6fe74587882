// Properties about files: saving, resuming, damaged inputs, failing outputs, interrupted runs.

bool sameKp(const KpRes &a, const KpRes &b, std::string *why = nullptr) {
  auto no = [&](const std::string &w) {
    if (why)
      *why = w;
    return false;
  };
  if (a.nbCamera != b.nbCamera)
    return no("number of cameras");
  if (a.cams.size() != b.cams.size())
    return no("camera entries");
  for (auto &c : a.cams) {
    auto it = b.cams.find(c.first);
    if (it == b.cams.end())
      return no("camera " + N(c.first) + " missing");
    if (it->second.w != c.second.w || it->second.h != c.second.h)
      return no("camera " + N(c.first) + " image size " + N(c.second.w) + "x" + N(c.second.h) + " / " +
                N(it->second.w) + "x" + N(it->second.h));
    std::map<std::pair<int, int>, const KpRes::Item *> m;
    for (auto &x : it->second.items)
      if (!m.insert({{x.frame, x.board}, &x}).second)
        return no("camera " + N(c.first) + " frame " + N(x.frame) + " board " + N(x.board) + " twice");
    if (m.size() != c.second.items.size())
      return no("camera " + N(c.first) + " has " + N((long)c.second.items.size()) + " / " + N((long)m.size()) +
                " observations");
    for (auto &x : c.second.items) {
      auto k = m.find({x.frame, x.board});
      std::string who = "camera " + N(c.first) + " frame " + N(x.frame) + " board " + N(x.board);
      if (k == m.end())
        return no(who + " missing");
      const auto &y = *k->second;
      if (x.path != y.path)
        return no(who + " path " + x.path + " / " + y.path);
      if (x.ids != y.ids || x.px.size() != y.px.size())
        return no(who + " point identities");
      for (size_t i = 0; i < x.px.size(); i++)
        if (x.px[i].x != y.px[i].x || x.px[i].y != y.px[i].y)
          return no(who + " point " + N(x.ids[i]) + " coordinates");
    }
  }
  return true;
}

KpRes kpOf(const Scene &s) {
  KpRes k;
  k.nbCamera = (int)s.cams.size();
  for (size_t c = 0; c < s.cams.size(); c++) {
    auto &C = k.cams[(int)c];
    C.w = s.cams[c].m.w;
    C.h = s.cams[c].m.h;
  }
  for (auto &o : s.obs) {
    int f = s.frameIds[std::get<1>(o.first)], c = std::get<0>(o.first);
    k.cams[c].items.push_back({f, std::get<2>(o.first), framePath(s, c, f), o.second.ids, o.second.px});
  }
  return k;
}
std::string kpShape(const KpRes &k) {
  uint64_t h = 7;
  for (auto &c : k.cams)
    for (auto &x : c.second.items)
      mixInto(h, c.first * 1000003ull + x.frame * 101ull + x.board + x.ids.size() * 7919ull);
  return N((long)(h >> 8));
}
std::string firstDiff(const std::map<std::string, uint64_t> &a, const std::map<std::string, uint64_t> &b) {
  for (auto &x : a) {
    auto it = b.find(x.first);
    if (it == b.end())
      return x.first + " is missing";
    if (it->second != x.second)
      return x.first + " differs";
  }
  for (auto &x : b)
    if (!a.count(x.first))
      return x.first + " is extra";
  return "";
}
const char *kCamFile = "calibrated_cameras_data.yml";
const char *kKpFile = "detected_keypoints_data.yml";

// a scene that calibrates quickly (intrinsics given)
void genQuick(Plan &p, Rng &r) {
  genScene(p, r, "arc");
  p.set("nframes", r.ri(8, 16));
  p.set("noise", r.uni(0.05, 0.3));
  p.set("intr", "exact");
  p.set("fix", r.coin(0.7) ? 1 : 0);
  genRun(p, r);
}

// ---------------------------------------------------------------- C03
Plan genC03(uint64_t seed, const std::string &) {
  Plan p = start("C03", seed);
  Rng r(seed, "C03");
  if (r.coin(0.3)) {
    genUnlinked(p, r);
    p.set("nframes", r.ri(12, 30));
  } else
    genScene(p, r, r.pick(std::vector<std::string>{"arc", "fan", "ring"}));
  p.set("intr", "exact");
  p.set("fix", 1);
  genRun(p, r);
  Rng e(seed, "C03 more");
  if (e.coin(0.3)) { // cameras mounted upright
    p.set("img_w", e.pick(std::vector<int>{480, 768}));
    p.set("img_h", (int)(p.i("img_w") * 4 / 3));
  }
  genDropouts(p, r, 1, true);
  if (r.coin(0.5))
    p.set("frame_gap", r.pick(std::vector<int>{1, 5, 400, 20000}));
  p.set("imgdir", r.pick(std::vector<std::string>{"images", "/data/set 1/im#ages", "a: b/c", "rel/../x"}));
  if (r.coin(0.3))
    p.add("io 1 crash - " + N(r.ri(1, 6)) + " 5 0");
  if (r.coin(0.3))
    p.add("hist " + N(r.ri(1, 3)));
  p.set("calib", r.coin(0.4) ? 1 : 0);
  if (!p.i("calib") && r.coin(0.6)) {
    // boards of which a few points are seen
    p.set("min_perc", 0);
    int n = r.ri(1, 6);
    for (int k = 0; k < n; k++)
      p.add("few " + N(r.ri(0, (int)p.i("ncam") - 1)) + " " + N(r.ri(0, (int)p.i("nframes") - 1)) + " " +
            N(r.ri(0, (int)p.i("nboard") - 1)) + " " + N(r.ri(1, 6)));
  }
  if (e.coin(0.3))
    p.set("prefix", e.pick(std::vector<std::string>{"c", "view ", "cam.", "a#b: "}));
  if (e.coin(0.3))
    p.set("exts", e.pick(std::vector<std::string>{"bmp", "jpg tiff", "png bmp"}));
  return p;
}
Outcome runC03(const Plan &p) {
  Outcome o;
  Exec x(p, o);
  Scene s = buildScene(p);
  if (!anyObs(s))
    return o;
  writeInputs(s, p, x.sc.dir);
  // writeInputs sets the image directory of the configuration; the recorded paths are the scene's
  Config cfg;
  writeInputs(s, p, x.sc.dir, &cfg);
  KpRes want = kpOf(s);
  std::string prev = "kp.yml", lastBytes;
  int rounds = 2;
  for (auto &w : p.itemsOf("hist"))
    rounds += std::stoi(w[1]);
  for (int k = 0; k < rounds; k++) {
    Config c = cfg;
    std::string out = "out" + N(k);
    c.kv["keypoints_path"] = "\"" + prev + "\"";
    c.kv["save_path"] = "\"" + out + "\"";
    writeConfig(c, x.at("c" + N(k) + ".yml"));
    int run = x.run;
    AppResult r = x.go(AppRun::DETECT, "c" + N(k) + ".yml");
    if (r.end == End::CrashPoint) {
      o.probes["killed-while-saving"]++;
      r = x.go(AppRun::DETECT, "c" + N(k) + ".yml"); // start again
    }
    (void)run;
    if (!mustSucceed(o, r, "saving the keypoints"))
      return o;
    std::string file = x.at(out + "/" + kKpFile), err, why;
    KpRes got = readKeypoints(file, err);
    if (!err.empty()) {
      fail(o, "keypoints-unreadable", "round " + N(k) + ": " + err);
      return o;
    }
    if (!sameKp(want, got, &why)) {
      fail(o, "keypoints-changed", "after " + N(k + 1) + " save/load round(s): " + why);
      return o;
    }
    std::string bytes = slurp(file);
    if (k > 0 && bytes != lastBytes) {
      fail(o, "keypoints-file-changed", "saving the reloaded keypoints again gives another file (round " + N(k) + ")");
      return o;
    }
    lastBytes = bytes;
    mixInto(o.hash, hashStr(bytes));
    prev = out + "/" + kKpFile;
  }
  if (p.i("calib", 0)) {
    // the calibration from the saved file is the calibration from the original
    Config c = cfg;
    c.kv["save_path"] = "\"simA\"";
    writeConfig(c, x.at("ca.yml"));
    AppResult a = x.go(AppRun::MAIN, "ca.yml");
    c.kv["save_path"] = "\"simB\"";
    c.kv["keypoints_path"] = "\"" + prev + "\"";
    writeConfig(c, x.at("cb.yml"));
    AppResult b = x.go(AppRun::MAIN, "cb.yml");
    if (!mustSucceed(o, a, "calibration") || !mustSucceed(o, b, "calibration from saved keypoints"))
      return o;
    std::string d = firstDiff(treeHash(x.at("simA")), treeHash(x.at("simB")));
    if (!d.empty())
      fail(o, "resume-differs", "calibration resumed from the saved keypoints: " + d);
    o.probes["calibrated-twice"]++;
    x.hashTree(x.at("simA"));
  }
  countFaults(o, p);
  o.sig = kpShape(want) + " " + N((long)p.items.size()) + p.str("imgdir") + p.str("frame_gap", "0") + " " + N(rounds);
  return o;
}

// ---------------------------------------------------------------- C04 / C05
// text-level damage of a YAML file
bool damageText(std::string &t, const std::vector<std::string> &w, Outcome &o) {
  if (w[1] == "trunc") {
    size_t n = (size_t)(std::stod(w[2]) * (double)t.size());
    if (n >= t.size())
      n = t.size() - 1;
    t.resize(n);
    o.probes["truncated"]++;
    return true;
  }
  if (w[1] == "tail") {
    size_t n = std::stoul(w[2]);
    t.resize(n < t.size() ? t.size() - n : 0);
    o.probes["truncated"]++;
    return true;
  }
  if (w[1] == "line") { // cut at a line boundary
    std::vector<size_t> nl;
    for (size_t i = 0; i < t.size(); i++)
      if (t[i] == '\n')
        nl.push_back(i + 1);
    if (nl.empty())
      return false;
    t.resize(nl[std::min(nl.size() - 1, (size_t)(std::stod(w[2]) * nl.size()))]);
    o.probes["truncated"]++;
    return true;
  }
  if (w[1] == "cut") { // the file ends exactly before an entry
    // positions of the lines that start an entry (two levels)
    std::vector<size_t> pos;
    for (size_t i = 0; i < t.size();) {
      size_t e = t.find('\n', i);
      if (e == std::string::npos)
        e = t.size();
      std::string line = t.substr(i, e - i);
      size_t ind = line.find_first_not_of(' ');
      if (ind != std::string::npos && ind <= 3 && line.find(':') != std::string::npos && line[0] != '%')
        pos.push_back(i);
      i = e + 1;
    }
    if (pos.empty())
      return false;
    t.resize(pos[std::min(pos.size() - 1, (size_t)(std::stod(w[2]) * pos.size()))]);
    o.probes["truncated"]++;
    return true;
  }
  return false;
}

void writeKp(const KpRes &k, const std::string &file, const std::set<std::pair<int, std::string>> &omit,
             const std::set<int> &omitCam, const std::map<std::pair<int, std::string>, int> &pop) {
  cv::FileStorage fs(file, cv::FileStorage::WRITE);
  fs << "nb_camera" << k.nbCamera;
  for (auto &c : k.cams) {
    if (omitCam.count(c.first))
      continue;
    fs << "camera_" + std::to_string(c.first) << "{";
    auto has = [&](const char *n) { return !omit.count({c.first, n}); };
    auto cut = [&](const char *n, auto v) {
      auto it = pop.find({c.first, n});
      if (it != pop.end() && !v.empty())
        v.erase(v.begin() + (it->second % (int)v.size()));
      return v;
    };
    std::vector<int> fi, bi;
    std::vector<std::string> fp;
    std::vector<std::vector<cv::Point2f>> pts;
    std::vector<std::vector<int>> ids;
    for (auto &i : c.second.items) {
      fi.push_back(i.frame);
      bi.push_back(i.board);
      fp.push_back(i.path);
      pts.push_back(i.px);
      ids.push_back(i.ids);
    }
    auto itp = pop.find({c.first, "point"});
    if (itp != pop.end() && !pts.empty()) {
      auto &v = pts[itp->second % (int)pts.size()];
      if (!v.empty())
        v.pop_back();
    }
    if (has("img_width"))
      fs << "img_width" << c.second.w;
    if (has("img_height"))
      fs << "img_height" << c.second.h;
    if (has("frame_idxs"))
      fs << "frame_idxs" << cut("frame_idxs", fi);
    if (has("frame_paths"))
      fs << "frame_paths" << cut("frame_paths", fp);
    if (has("board_idxs"))
      fs << "board_idxs" << cut("board_idxs", bi);
    if (has("pts_2d"))
      fs << "pts_2d" << cut("pts_2d", pts);
    if (has("charuco_idxs"))
      fs << "charuco_idxs" << cut("charuco_idxs", ids);
    fs << "}";
  }
}

const std::vector<std::string> kKpKeys = {"img_width", "img_height", "frame_idxs", "frame_paths",
                                          "board_idxs", "pts_2d", "charuco_idxs"};
Plan genC04(uint64_t seed, const std::string &) {
  Plan p = start("C04", seed);
  Rng r(seed, "C04");
  genQuick(p, r);
  p.set("ncam", r.ri(1, 3));
  if (r.coin(0.2))
    genDropouts(p, r, 0.6, false);
  int nc = (int)p.i("ncam");
  p.set("imgdirs", r.coin(0.6) ? 1 : 0); // the image directories are there (as they are when there is a camera)
  switch (r.ri(0, 9)) {
  case 0:
  case 1:
    p.add("dmg trunc " + S(r.coin(0.15) ? 0.0 : r.uni()));
    break;
  case 2:
    p.add("dmg line " + S(r.uni()));
    break;
  case 3:
    p.add("dmg cut " + S(r.uni()));
    break;
  case 4:
    p.add("dmg tail " + N(r.ri(1, 60)));
    break;
  case 5: // killed while saving
    p.add("io 0 crash - " + N(r.ri(1, 12)) + " 5 0");
    break;
  case 6: // disk full while saving (space may come back)
    p.add("io 0 full - " + N(r.ri(1, 12)) + " 28 " + N(r.coin(0.6) ? 1 : 0));
    break;
  case 7:
    p.add("dmg cam " + N(r.ri(0, nc - 1)));
    break;
  case 8:
    p.add("dmg key " + N(r.ri(0, nc - 1)) + " " + r.pick(kKpKeys));
    break;
  default:
    p.add("dmg pop " + N(r.ri(0, nc - 1)) + " " +
          r.pick(std::vector<std::string>{"frame_idxs", "frame_paths", "board_idxs", "pts_2d", "charuco_idxs", "point"}) +
          " " + N(r.ri(0, 500)));
  }
  Rng e(seed, "C04 more");
  if (e.coin(0.12)) { // an index of something that does not exist
    p.items.clear();
    p.add("dmg index " + N(e.ri(0, nc - 1)) + " " + e.pick(std::vector<std::string>{"board", "corner", "corner"}) +
          " " + N(e.ri(0, 500)) + " " + N(e.pick(std::vector<int>{0, 0, 0, 1, 7, 1000, -1})));
  }
  return p;
}
// the calibration must refuse its damaged input
void mustRefuse(Exec &x, Outcome &o, const AppResult &r, const std::string &what, const std::string &dir = "simout",
                const std::string &camFile = kCamFile) {
  if (!mustEnd(o, r, "calibration with " + what))
    return;
  if (r.end == End::Success)
    fail(o, "damage-ignored", "calibration with " + what + " ended with success");
  else if (fileExists(x.at(dir + "/" + camFile)))
    fail(o, "result-written", "calibration with " + what + " wrote a result although it failed");
}
Outcome runC04(const Plan &p) {
  Outcome o;
  Exec x(p, o);
  Scene s = buildScene(p);
  if (!anyObs(s))
    return o;
  Config cfg;
  writeInputs(s, p, x.sc.dir, &cfg);
  KpRes want = kpOf(s);
  bool saved = !p.itemsOf("io").empty();
  // the program's own file
  Config c = cfg;
  c.kv["save_path"] = "\"simsave\"";
  writeConfig(c, x.at("c0.yml"));
  {
    Plan q = p;
    q.set("save_root", "simsave");
    Exec y(q, o);
    copyTree(x.sc.dir, y.sc.dir);
    AppResult r = y.go(AppRun::DETECT, "c0.yml");
    if (r.end == End::Hang || r.end == End::Crash) {
      mustEnd(o, r, "saving the keypoints");
      return o;
    }
    if (!saved && !mustSucceed(o, r, "saving the keypoints"))
      return o;
    if (r.end == End::CrashPoint)
      o.probes["killed-while-saving"]++;
    if (r.st.ioFired)
      o.probes["save-fault-fired"]++;
    x.run = y.run;
    if (!fileExists(y.at(std::string("simsave/") + kKpFile)))
      return o; // nothing to resume from
    spew(x.at("kp.yml"), slurp(y.at(std::string("simsave/") + kKpFile)));
  }
  std::string text = slurp(x.at("kp.yml"));
  std::set<std::pair<int, std::string>> omit;
  std::set<int> omitCam;
  std::map<std::pair<int, std::string>, int> pop;
  std::vector<std::string> index;
  bool rewrite = false, possible = true;
  std::string what = "a torn keypoints file";
  for (auto &w : p.itemsOf("dmg")) {
    if (w[1] == "cam") {
      omitCam.insert(std::stoi(w[2]));
      rewrite = true;
      what = "a keypoints file without camera " + w[2];
    } else if (w[1] == "key") {
      omit.insert({std::stoi(w[2]), w[3]});
      rewrite = true;
      what = "a keypoints file without " + w[3] + " of camera " + w[2];
    } else if (w[1] == "index") {
      index = w;
      rewrite = true;
      what = "a keypoints file naming a " + w[3] + " that does not exist, of camera " + w[2];
    } else if (w[1] == "pop") {
      pop[{std::stoi(w[2]), w[3]}] = std::stoi(w[4]);
      rewrite = true;
      what = "a keypoints file with one element of " + w[3] + " of camera " + w[2] + " missing";
    } else
      possible = damageText(text, w, o);
  }
  if (!possible)
    return o;
  if (rewrite) {
    std::string e;
    KpRes k = readKeypoints(x.at("kp.yml"), e);
    if (!index.empty()) {
      auto &items = k.cams[std::stoi(index[2])].items;
      if (items.empty())
        return o;
      auto &it = items[std::stoi(index[4]) % items.size()];
      const int by = std::stoi(index[5]);
      if (index[3] == "board")
        it.board = by < 0 ? -1 : 1000 + by;
      else if (it.ids.empty())
        return o;
      else // corners are numbered from 0
        it.ids[std::stoi(index[4]) % it.ids.size()] =
            by < 0 ? -1 : s.boards[it.board].npts() + by;
    }
    writeKp(k, x.at("kp.yml"), omit, omitCam, pop);
  } else
    spew(x.at("kp.yml"), text);
  // does anything of the content miss?
  std::string err;
  KpRes left = readKeypoints(x.at("kp.yml"), err);
  bool intact = err.empty() && sameKp(want, left);
  countFaults(o, p);
  if (p.i("imgdirs"))
    for (size_t c = 0; c < s.cams.size(); c++)
      fs::create_directories(x.at(fs::path(framePath(s, (int)c, 0)).parent_path().string()));
  AppResult r = x.go(AppRun::MAIN, "config.yml", "", false);
  x.hashTree(x.at("simout"));
  if (intact) {
    o.probes["not-damaged"]++;
    mustSucceed(o, r, "calibration with an undamaged keypoints file");
  } else {
    mustRefuse(x, o, r, what);
    o.sig = (rewrite ? p.items[0] : N((long)hashStr(slurp(x.at("kp.yml"))) >> 8)) + " " + N((long)s.cams.size());
  }
  return o;
}

Plan genC05(uint64_t seed, const std::string &) {
  Plan p = start("C05", seed);
  Rng r(seed, "C05");
  genQuick(p, r);
  p.set("ncam", r.ri(1, 4));
  int nc = (int)p.i("ncam");
  switch (r.ri(0, 9)) {
  case 0:
  case 1:
    p.add("dmg trunc " + S(r.uni()));
    break;
  case 2:
    p.add("dmg line " + S(r.uni()));
    break;
  case 3:
    p.add("dmg cut " + S(r.uni()));
    break;
  case 4:
    p.add("dmg gone " + r.pick(std::vector<std::string>{"file", "dir", "isdir", "empty"}));
    break;
  case 5:
    p.add("io 0 rfail cams.yml 1 " + N(r.pick(std::vector<int>{5, 13, 2, 24})) + " 1");
    break;
  case 6:
    p.add("dmg cam " + N(r.ri(0, nc - 1)));
    break;
  case 7:
    p.add("dmg key " + N(r.ri(0, nc - 1)) + " " +
          r.pick(std::vector<std::string>{"camera_matrix", "distortion_vector"}));
    break;
  default:
    p.add("dmg size " + N(r.ri(0, nc - 1)) + " " +
          r.pick(std::vector<std::string>{"camera_matrix", "distortion_vector"}) + " " + N(r.ri(0, 4)));
    break;
  case 9: // no number, or none that a camera can have
    p.add("dmg value " + N(r.ri(0, nc - 1)) + " " +
          r.pick(std::vector<std::string>{"fx nan", "fy nan", "cx nan", "cy inf", "fx inf", "d nan", "d inf", "fx 0", "fy 0",
                                          "fx -500"}) + " " + N(r.ri(0, 4)));
  }
  return p;
}
Outcome runC05(const Plan &p) {
  Outcome o;
  Exec x(p, o);
  Scene s = buildScene(p);
  if (!anyObs(s))
    return o;
  Config cfg;
  writeInputs(s, p, x.sc.dir, &cfg);
  Rng r0(p.u("scene_seed"), "intrinsics");
  auto models = perturbedModels(s, r0, 0);
  std::string file = x.at("cams.yml"), text = slurp(file), what = "a torn camera-parameter file";
  bool damaged = false;
  for (auto &w : p.itemsOf("dmg")) {
    if (w[1] == "gone") {
      what = "a missing camera-parameter file (" + w[2] + ")";
      damaged = true;
      fs::remove(file);
      if (w[2] == "dir") {
        cfg.kv["cam_params_path"] = "\"nowhere/cams.yml\"";
        writeConfig(cfg, x.at("config.yml"));
      } else if (w[2] == "isdir")
        fs::create_directory(file);
      else if (w[2] == "empty")
        spew(file, "");
    } else if (w[1] == "cam" || w[1] == "key" || w[1] == "size" || w[1] == "value") {
      int k = std::stoi(w[2]);
      if (k >= (int)models.size())
        continue;
      cv::FileStorage f(file, cv::FileStorage::WRITE);
      f << "nb_camera" << (int)models.size();
      for (size_t c = 0; c < models.size(); c++) {
        const CamModel &m = models[c];
        if (w[1] == "cam" && (int)c == k)
          continue;
        cv::Mat K = (cv::Mat_<double>(3, 3) << m.p[0], 0, m.p[2], 0, m.p[1], m.p[3], 0, 0, 1);
        cv::Mat d(1, m.np() - 4, CV_64F);
        for (int i = 4; i < m.np(); i++)
          d.at<double>(i - 4) = m.p[i];
        if (w[1] == "size" && (int)c == k) {
          int v = std::stoi(w[4]);
          if (w[3] == "camera_matrix")
            K = v % 2 ? K.rowRange(0, 2).clone() : K.colRange(0, 2).clone();
          else
            d = v == 4 ? d.colRange(0, d.cols - 1).clone()
                : v == 3 ? d.colRange(0, d.cols - 2).clone()
                : v == 2 ? cv::Mat(d.colRange(0, 1).clone())
                : v == 1 ? cv::Mat(d.rowRange(0, 0))
                         : cv::Mat(1, d.cols + (d.cols == 4 ? 1 : -1), CV_64F, cv::Scalar(0.001)); // of the other lens
        }
        if (w[1] == "value" && (int)c == k) {
          const double v = w[4] == "nan" ? std::nan("") : w[4] == "inf" ? HUGE_VAL : std::stod(w[4]);
          if (w[3] == "d")
            d.at<double>(std::stoi(w[5]) % d.cols) = v;
          else
            K.at<double>(w[3][1] == 'y', w[3][0] == 'c' ? 2 : w[3][1] == 'y') = v;
        }
        f << "camera_" + std::to_string(c) << "{";
        if (!(w[1] == "key" && (int)c == k && w[3] == "camera_matrix"))
          f << "camera_matrix" << K;
        if (!(w[1] == "key" && (int)c == k && w[3] == "distortion_vector"))
          f << "distortion_vector" << d;
        f << "distortion_type" << m.model << "img_width" << m.w << "img_height" << m.h << "}";
      }
      f.release();
      damaged = true;
      what = w[1] == "cam"  ? "a camera-parameter file without camera " + w[2]
             : w[1] == "key" ? "a camera-parameter file without " + w[3] + " of camera " + w[2]
             : w[1] == "value" ? "a " + w[4] + " as " + w[3] + " of camera " + w[2]
                             : "a mis-sized " + w[3] + " of camera " + w[2];
    } else if (damageText(text, w, o)) {
      spew(file, text);
      // complete for every camera?
      bool complete = true;
      try {
        cv::FileStorage f(file, cv::FileStorage::READ);
        complete = f.isOpened();
        for (size_t c = 0; c < models.size() && complete; c++) {
          cv::Mat K, d;
          auto n = f["camera_" + std::to_string(c)];
          complete = !n.empty() && n.isMap();
          if (!complete)
            break;
          n["camera_matrix"] >> K;
          n["distortion_vector"] >> d;
          complete = K.rows == 3 && K.cols == 3 && (int)d.total() == models[c].np() - 4;
          for (int i = 4; i < models[c].np() && complete; i++)
            complete = d.at<double>(i - 4) == models[c].p[i];
        }
      } catch (const std::exception &) {
        complete = false;
      }
      damaged |= !complete;
    }
  }
  if (!p.itemsOf("io").empty()) {
    damaged = true;
    what = "an unreadable camera-parameter file";
  }
  countFaults(o, p);
  AppResult r = x.go(AppRun::MAIN);
  x.hashTree(x.at("simout"));
  if (!damaged) {
    o.probes["not-damaged"]++;
    mustSucceed(o, r, "calibration with an undamaged camera-parameter file");
  } else {
    mustRefuse(x, o, r, what);
    o.sig = p.items.empty() ? "" : p.items[0] + " " + N((long)s.cams.size()) + p.str("models") + p.str("fix");
  }
  return o;
}

// ---------------------------------------------------------------- C06
void plainImages(const Scene &s, const std::string &dir, const std::set<std::pair<int, int>> &skip = {});
Plan genC06(uint64_t seed, const std::string &) {
  Plan p = start("C06", seed);
  Rng r(seed, "C06");
  genQuick(p, r);
  if (r.coin(0.3)) {
    genUnlinked(p, r);
    p.set("nframes", 20);
    p.set("intr", "exact");
    p.set("fix", 1);
  }
  if (r.coin(0.25))
    p.set("cam_file", "rig.yml");
  const std::vector<int> errs{13, 5, 28, 30, 24};
  Rng e(seed, "C06 more");
  if (e.coin(0.12)) { // the last of the data is lost when a file is closed
    p.add("io 1 cfail " +
          e.pick(std::vector<std::string>{p.str("cam_file", "").empty() ? kCamFile : "rig.yml", "calibrated_objects_data",
                                          "calibrated_objects_pose_data", "reprojection_error_data",
                                          "detected_keypoints_data"}) +
          " 1 " + N(e.pick(std::vector<int>{5, 28, 122})) + " 0");
    return p;
  }
  if (e.coin(0.15)) { // an overlay image cannot be created
    p.set("save_det", 1);
    p.set("save_repro", 1);
    p.set("with_images", 1);
    p.set("img_w", 320);
    p.set("clock_seed", e.next() >> 1); // the colours of the marks come from the clock
    p.add("io 1 wfail " + e.pick(std::vector<std::string>{"Detection/", "Reprojection/"}) + " " +
          N(e.ri(1, (int)(p.i("ncam") * p.i("nframes")))) + " " + N(e.pick(errs)) + " " + N(e.ri(0, 1)));
    return p;
  }
  switch (r.ri(0, 6)) {
  case 0:
  case 1: {
    std::string f = r.pick(std::vector<std::string>{p.str("cam_file", "").empty() ? kCamFile : "rig.yml",
                                                    "calibrated_objects_data", "calibrated_objects_pose_data",
                                                    "reprojection_error_data", "detected_keypoints_data"});
    p.add("io 1 wfail " + f + " 1 " + N(r.pick(errs)) + " " + N(r.ri(0, 1)));
    break;
  }
  case 2:
  case 3:
  case 4: // full at a fraction of all write steps, for good or temporarily
    p.add("at full " + S(r.uni()) + " 28 " + N(r.coin(0.5) ? 1 : 0));
    if (r.coin(0.3))
      p.add("at full " + S(r.uni()) + " 5 0");
    break;
  case 5:
    p.add("path " + r.pick(std::vector<std::string>{"file", "nested", "slash", "parentfile", "subdir"}));
    break;
  default:
    p.add("at full " + S(r.coin(0.5) ? 0.0 : 1.0) + " 28 1");
  }
  return p;
}
Outcome runC06(const Plan &p) {
  Outcome o;
  Exec x(p, o);
  Scene s = buildScene(p);
  if (!anyObs(s))
    return o;
  Config cfg;
  const std::string camFile = p.str("cam_file", "").empty() ? kCamFile : p.str("cam_file");
  writeInputs(s, p, x.sc.dir, &cfg);
  if (p.i("with_images", 0))
    plainImages(s, x.sc.dir);
  AppResult base = x.go(AppRun::MAIN, "config.yml", "", false);
  if (!mustSucceed(o, base, "calibration without faults"))
    return o;
  std::map<std::string, std::string> want;
  std::vector<std::string> files{camFile, kResultFiles[1], kResultFiles[2], kResultFiles[3], kResultFiles[4]};
  for (auto &f : files) {
    if (!fileExists(x.at("simout/" + f))) {
      fail(o, "file-missing", "calibration without faults ended with success but did not write " + f);
      return o;
    }
    want[f] = slurp(x.at("simout/" + f));
  }
  if (p.i("with_images", 0))
    for (auto &f : treeHash(x.at("simout")))
      if (!want.count(f.first) && !fs::is_directory(x.at("simout/" + f.first))) {
        files.push_back(f.first);
        want[f.first] = slurp(x.at("simout/" + f.first));
      }
  fs::rename(x.at("simout"), x.at("base"));
  std::string dir = "simout";
  Plan q = p;
  for (auto &w : p.itemsOf("path")) {
    if (w[1] == "file")
      spew(x.at("simout"), "in the way");
    else if (w[1] == "parentfile") {
      spew(x.at("blk"), "in the way");
      dir = "blk/simout";
    } else if (w[1] == "nested")
      dir = "simout/a b/c";
    else if (w[1] == "slash")
      dir = "simout/";
    else if (w[1] == "subdir") {
      cfg.kv["camera_params_file_name"] = "\"nowhere/rig.yml\"";
      files[0] = "nowhere/rig.yml";
      want[files[0]] = want[camFile];
    }
  }
  cfg.kv["save_path"] = "\"" + dir + "\"";
  q.set("save_root", dir.substr(0, dir.find('/')));
  writeConfig(cfg, x.at("config.yml"));
  for (auto &w : p.itemsOf("at")) {
    long n = 1 + (long)(std::stod(w[2]) * (double)std::max<int64_t>(0, (int64_t)base.st.ioSteps - 1));
    q.add("io 1 " + w[1] + " - " + N(n) + " " + w[3] + " " + w[4]);
  }
  Exec y(q, o);
  y.run = 1;
  copyTree(x.sc.dir, y.sc.dir);
  AppResult r = y.go(AppRun::MAIN);
  y.hashTree(y.sc.dir);
  countFaults(o, p);
  if (r.st.ioFired)
    o.probes["write-fault-fired"]++;
  if (!mustEnd(o, r, "calibration with failing output"))
    return o;
  if (r.end == End::Success) {
    o.probes["success-despite-fault"]++;
    for (auto &f : files) {
      std::string path = y.at(dir + (dir.back() == '/' ? "" : "/") + f);
      if (!fileExists(path)) {
        fail(o, "file-missing", "ended with success but " + f + " does not exist");
        break;
      }
      if (slurp(path) != want[f]) {
        fail(o, "file-incomplete", "ended with success but " + f + " is not the complete result");
        break;
      }
    }
  } else
    o.probes["failure-reported"]++;
  if (r.st.ioFired || !p.itemsOf("path").empty()) {
    o.sig = endName(r.end);
    for (auto &i : q.items)
      o.sig += " " + i;
  }
  return o;
}

// ---------------------------------------------------------------- C15
Plan genC15(uint64_t seed, const std::string &) {
  Plan p = start("C15", seed);
  Rng r(seed, "C15");
  genQuick(p, r);
  if (r.coin(0.3)) {
    genUnlinked(p, r);
    p.set("nframes", 20);
    p.set("intr", "exact");
    p.set("fix", 1);
  }
  if (r.coin(0.3)) {
    p.set("save_det", 1);
    p.set("save_repro", 1);
    p.set("with_images", 1);
    p.set("img_w", 320);
  }
  p.set("clock_seed", r.next() >> 1);
  int n = r.ri(1, 3);
  for (int i = 0; i < n; i++) {
    // prior run: same or other scene, complete or killed at a fraction of its steps, or failing to write
    p.add("prior " + N(i) + " " + (r.coin(0.6) ? "same" : "other") + " " +
          (r.coin(0.75) ? (r.coin(0.8) ? "crash" : "full") : "done") + " " + S(r.uni()));
  }
  Rng e(seed, "C15 more");
  if (e.coin(0.25)) { // an input lies where the result of the same name will be
    const bool kp = e.coin(0.6);
    p.set("inplace", kp ? kKpFile : kCamFile);
    p.set(kp ? "keypoints" : "cam_params", std::string("simout/") + (kp ? kKpFile : kCamFile));
    for (auto &i : p.items)
      if (i.rfind("prior ", 0) == 0 && i.find(" other ") != std::string::npos)
        i.replace(i.find(" other "), 7, " same ");
  }
  return p;
}
Outcome runC15(const Plan &p) {
  Outcome o;
  Exec x(p, o);
  Scene s = buildScene(p);
  if (!anyObs(s))
    return o;
  writeInputs(s, p, x.sc.dir);
  if (p.i("with_images", 0))
    plainImages(s, x.sc.dir);
  const std::string inplace = p.str("inplace", "");
  std::string given;
  auto place = [&]() {
    if (inplace.empty())
      return;
    given = slurp(x.at(inplace == kKpFile ? "kp.yml" : "cams.yml"));
    fs::create_directories(x.at("simout"));
    spew(x.at("simout/" + inplace), given);
  };
  place();
  AppResult base = x.go(AppRun::MAIN, "config.yml", "", false);
  if (!mustSucceed(o, base, "calibration in a fresh directory"))
    return o;
  auto want = treeHash(x.at("simout"));
  const std::string replaced = inplace.empty() ? "" : slurp(x.at("simout/" + inplace));
  removeTree(x.at("simout"));
  auto inputs = [&]() {
    auto m = treeHash(x.sc.dir);
    for (auto it = m.begin(); it != m.end();)
      it = it->first.rfind("simout", 0) == 0 || it->first.find("logfile") != std::string::npos ? m.erase(it)
                                                                                                 : std::next(it);
    return m;
  };
  int k = 0;
  auto untouched = [&](const std::map<std::string, uint64_t> &before, const std::string &when) {
    std::string d = firstDiff(before, inputs());
    if (!d.empty())
      fail(o, "input-touched", "input " + d + " after " + when);
    return d.empty();
  };
  for (auto &w : p.itemsOf("prior")) {
    k++;
    if (w[2] == "other") {
      Plan q = p;
      q.set("scene_seed", p.u("scene_seed") + 100 + k);
      q.set("nframes", p.i("nframes") + 3);
      Scene s2 = buildScene(q);
      if (!anyObs(s2))
        continue;
      writeInputs(s2, q, x.sc.dir);
    } else
      writeInputs(s, p, x.sc.dir);
    Plan q = p;
    q.items.clear();
    long n = 1 + (long)(std::stod(w[4]) * (double)std::max<int64_t>(0, (int64_t)base.st.ioSteps - 1));
    if (w[3] != "done")
      q.add("io 0 " + w[3] + " - " + N(n) + " 28 1");
    place();
    auto before = inputs();
    Exec y(q, o); // only its fault plan is used
    AppResult r = y.go(AppRun::MAIN, "config.yml", x.sc.dir);
    if (r.end == End::CrashPoint)
      o.probes["killed"]++;
    if (r.end == End::Crash || r.end == End::Hang) {
      mustEnd(o, r, "earlier run");
      return o;
    }
    if (!o.inconclusive.empty())
      return o;
    if (!untouched(before, "an earlier run"))
      return o;
    if (!inplace.empty()) {
      std::string now = slurp(x.at("simout/" + inplace));
      if (now != given && now != replaced) {
        fail(o, "input-destroyed", "a run that did not end left " + inplace +
                                       ", which it was given, neither as it was nor with the complete result");
        return o;
      }
      o.probes["in-place"]++;
    }
  }
  writeInputs(s, p, x.sc.dir);
  place();
  auto before = inputs();
  AppResult r = x.go(AppRun::MAIN, "config.yml", "", false);
  x.hashTree(x.at("simout"));
  countFaults(o, p);
  if (!mustSucceed(o, r, "calibration after earlier runs"))
    return o;
  untouched(before, "the run");
  auto got = treeHash(x.at("simout"));
  for (auto &f : want) {
    auto it = got.find(f.first);
    if (it == got.end()) {
      fail(o, "file-missing", f.first + " is not written when the directory was used before");
      break;
    }
    if (it->second != f.second) {
      fail(o, "result-differs", f.first + " differs from the run in a fresh directory");
      break;
    }
  }
  o.sig = p.str("scene_seed");
  for (auto &i : p.items)
    o.sig += " " + i;
  return o;
}

// ---------------------------------------------------------------- C16
Plan genC16(uint64_t seed, const std::string &) {
  Plan p = start("C16", seed);
  Rng r(seed, "C16");
  double u = r.uni();
  if (u < 0.2)
    genSeparated(p, r);
  else if (u < 0.45)
    genScene(p, r, "split");
  else if (u < 0.6)
    genUnlinked(p, r);
  else
    genScene(p, r, r.pick(std::vector<std::string>{"arc", "arc", "ring", "fan"}));
  Rng l(seed, "C16 long");
  if ((p.str("layout") == "arc" || p.str("layout") == "fan") && p.i("ncam") <= 3 && l.coin(0.25)) {
    p.set("nframes", l.ri(56, 75)); // enough views for every decision that depends on their number
    p.set("nb_iter", 15);
  }
  genRun(p, r);
  genIntr(p, r, p.str("layout") == "arc" && p.i("nframes") < 50 ? 0.15 : 0, 0.5);
  if (p.i("nframes") > 50 && p.i("ncam") <= 2 && p.i("nframes") * p.i("nboard") < 150 && l.coin(0.6)) {
    p.set("intr", "self"); // from a drawn subset of the views
    p.set("fix", 0);
  }
  genDropouts(p, r, 0.8, true);
  if (r.coin(0.3))
    genOutliers(p, r, 0.15, 0.2, r.ri(0, 2));
  p.set("r1_clock", r.ri(0, 3));
  p.set("r1_clock_base", r.ri(1, 100000000));
  p.set("r1_ncpu", r.ri(1, 16));
  p.set("heap1", r.next() >> 1);
  p.set("mem1", r.ri(1, 254));
  p.set("r2_clock", r.ri(0, 3));
  p.set("r2_ncpu", r.ri(1, 16));
  p.set("heap2", r.next() >> 1);
  p.set("mem2", r.ri(1, 254));
  Rng e(seed, "C16 more");
  for (int k = 1; k <= 2; k++)
    if (e.coin(0.3))
      p.set("r" + N(k) + "_short_p", e.uni(0.05, 0.6));
  return p;
}
Outcome runC16(const Plan &p) {
  Outcome o;
  Exec x(p, o);
  Scene s = buildScene(p);
  if (!anyObs(s))
    return o;
  writeInputs(s, p, x.sc.dir);
  Scratch other[3];
  copyTree(x.sc.dir, other[1].dir);
  copyTree(x.sc.dir, other[2].dir);
  AppResult a = x.go(AppRun::MAIN);
  auto ta = treeHash(x.at("simout"));
  x.hashTree(x.at("simout"));
  countFaults(o, p);
  if (!o.inconclusive.empty())
    return o;
  for (int k = 1; k <= 2; k++) {
    // k = 1: other build (fresh stack memory zeroed instead of patterned); k = 2: same build
    Plan q = p;
    q.set("mem", p.str("mem" + N(k), "170"));
    q.set("heap", p.str("heap" + N(k), "1"));
    const std::string &w = other[k].dir;
    AppResult b;
    if (k == 1 && !gOther.empty()) {
      spew(x.at("plan1"), q.text());
      std::string cmd = gOther + " one " + x.at("plan1") + " " + w + " 1 > " + x.at("one.txt") + " 2>/dev/null";
      int st = system(cmd.c_str());
      std::istringstream is(slurp(x.at("one.txt")));
      int e = -1;
      is >> e >> b.code >> b.st.randDraws;
      if (st != 0 || e < 0) {
        o.inconclusive = "other build did not run";
        return o;
      }
      b.end = (End)e;
      x.run++;
    } else {
      x.run = k;
      AppRun ar;
      ar.cwd = w;
      ar.rt = rtOf(q, k);
      ar.memFill = (int)q.i("mem");
      ar.heapSeed = q.u("heap");
      b = runApp(ar);
    }
    if (b.end == End::Budget || b.end == End::Unsupported || b.end == End::Wall) {
      o.inconclusive = endName(b.end);
      return o;
    }
    std::string who = k == 1 ? "zeroed memory, other clock and core count" : "other heap contents, clock and core count";
    if (b.end != a.end || (a.end == End::Failure && a.code != b.code)) {
      fail(o, "end-differs", std::string(endName(a.end)) + " becomes " + endName(b.end) + " with " + who);
      return o;
    }
    std::string d = firstDiff(ta, treeHash(w + "/simout"));
    if (!d.empty()) {
      fail(o, "result-differs", d + " with " + who);
      return o;
    }
    if (a.st.randDraws != b.st.randDraws) {
      fail(o, "draws-differ", N((long)a.st.randDraws) + " random draws become " + N((long)b.st.randDraws) + " with " + who);
      return o;
    }
  }
  if (a.end == End::Success)
    o.sig = partSig(s, refPartition(s), p) + p.str("scene_seed");
  return o;
}

// ---------------------------------------------------------------- C19
// Settings without which nothing can be calibrated, and what has to be there instead of them
bool neededKey(const Config &c, const std::string &k) {
  auto isEmptyList = [&](const std::string &l) {
    auto it = c.kv.find(l);
    return it == c.kv.end() || it->second == "[ ]";
  };
  if (k == "number_x_square" || k == "number_y_square")
    return isEmptyList("number_x_square_per_board");
  if (k == "square_size")
    return isEmptyList("square_size_per_board");
  if (k == "distortion_model")
    return isEmptyList("distortion_per_camera");
  if (k == "number_board")
    return isEmptyList("boards_index");
  return k == "number_camera" || k == "min_perc_pts" || k == "ransac_threshold" || k == "number_iterations" ||
         k == "length_square" || k == "length_marker";
}
std::string configText(const Config &c, uint64_t order, std::vector<std::pair<std::string, size_t>> *starts) {
  std::vector<std::string> keys;
  for (auto &x : c.kv)
    keys.push_back(x.first);
  Rng r(order, "order");
  for (size_t i = keys.size(); i > 1; i--)
    std::swap(keys[i - 1], keys[r.ri(0, (int)i - 1)]);
  std::string t = "%YAML:1.0\n---\n";
  for (auto &k : keys) {
    if (starts)
      starts->push_back({k, t.size()});
    t += k + ": " + c.kv.at(k) + "\n";
  }
  return t;
}
std::vector<std::string> splitList(const std::string &l) {
  std::vector<std::string> v;
  std::string cur;
  for (char ch : l) {
    if (ch == '[' || ch == ']' || ch == ' ')
      continue;
    if (ch == ',') {
      v.push_back(cur);
      cur.clear();
    } else
      cur += ch;
  }
  if (!cur.empty())
    v.push_back(cur);
  return v;
}
std::string joinList(const std::vector<std::string> &v) {
  std::string s = "[ ";
  for (size_t i = 0; i < v.size(); i++)
    s += (i ? ", " : "") + v[i];
  return s + " ]";
}
Plan genC19(uint64_t seed, const std::string &) {
  Plan p = start("C19", seed);
  Rng r(seed, "C19");
  genQuick(p, r);
  p.set("input_root", "config.yml");
  p.set("order", r.next() >> 1);
  p.set("imgdirs", r.coin(0.5) ? 1 : 0);
  if (r.coin(0.5))
    p.set("force_dist_list", 1);
  int nb = (int)p.i("nboard");
  if (!p.i("per_board", 0) && r.coin(0.4)) {
    p.set("per_board", 1); // lists of equal values
    p.set("per_num", r.ri(0, 1));
    p.set("per_size", r.ri(0, 1));
    p.set("per_res", r.ri(0, 1));
  }
  if (r.coin(0.1)) {
    p.set("fix", 0);
    p.set("intr", "pert");
    p.set("pert", 0.01);
  }
  switch (r.ri(0, 10)) {
  case 10: // no such file
    p.add("cfg name " + r.pick(std::vector<std::string>{"-", "absent.yml", "images", "images.yml"}));
    break;
  case 0:
  case 1:
    p.add("cfg drop " + r.pick(std::vector<std::string>{"number_camera", "number_board", "number_x_square", "number_y_square",
                                                        "square_size", "distortion_model", "min_perc_pts",
                                                        "ransac_threshold", "number_iterations", "length_square",
                                                        "length_marker"}));
    break;
  case 2: { // values that make no sense
    auto w = r.pick(std::vector<std::string>{"number_camera 0", "number_camera -2", "number_board 0", "number_board -1",
                                             "distortion_model 2", "distortion_model -1", "square_size 0",
                                             "square_size -0.1", "number_x_square 0", "number_y_square -3",
                                             "number_x_square 1"});
    p.add("cfg set " + w);
    break;
  }
  case 3: { // entries missing or wrong in a list
    auto l = r.pick(std::vector<std::string>{"distortion_per_camera", "distortion_per_camera", "number_x_square_per_board",
                                             "number_y_square_per_board", "square_size_per_board"});
    p.add("cfg short " + l + " " + N(r.ri(1, 3)));
    if (l == "distortion_per_camera")
      p.set("force_dist_list", 1);
    else {
      p.set("per_board", 1);
      p.set("per_num", 1);
      p.set("per_size", 1);
    }
    break;
  }
  case 4: {
    auto w = r.pick(std::vector<std::string>{"distortion_per_camera 2", "distortion_per_camera -1", "square_size_per_board 0",
                                             "boards_index -1", "number_x_square_per_board 1", "number_y_square_per_board 0",
                                             "square_size_per_board -0.07"});
    p.add("cfg entry " + w + " " + N(r.ri(0, 5)));
    p.set("force_dist_list", 1);
    p.set("per_board", 1);
    p.set("per_num", 1);
    p.set("per_size", 1);
    if (!p.has("bindex")) {
      std::string s;
      for (int b = 0; b < nb; b++)
        s += N(b) + " ";
      p.set("bindex", s);
    }
    break;
  }
  case 5:
  case 6: // a torn file
    p.add("cfg cut " + S(r.uni()));
    break;
  case 7: // cannot be opened (every time, or at one of the times it is read)
    p.add("io 1 rfail config.yml " + N(r.ri(1, 1 + nb)) + " " + N(r.pick(std::vector<int>{5, 13, 24, 2})) + " " + N(r.ri(0, 1)));
    break;
  default: // nothing wrong: settings that may be left out, entries nobody needs
    p.set("benign", 1);
    for (int k = r.ri(1, 4); k > 0; k--)
      if (r.coin(0.7))
        p.add("cfg drop " + r.pick(std::vector<std::string>{"resolution_x", "resolution_y", "resolution_x_per_board",
                                                            "resolution_y_per_board", "save_detection",
                                                            "save_reprojection", "camera_params_file_name"}));
      else
        p.add("cfg more " + r.pick(std::vector<std::string>{"distortion_per_camera", "per_board"}));
  }
  return p;
}
Outcome runC19(const Plan &p) {
  Outcome o;
  Exec x(p, o);
  Scene s = buildScene(p);
  if (!anyObs(s))
    return o;
  Config cfg;
  writeInputs(s, p, x.sc.dir, &cfg);
  if (p.i("imgdirs", 0))
    for (size_t c = 0; c < s.cams.size(); c++)
      fs::create_directories(fs::path(x.at(framePath(s, (int)c, 0))).parent_path());
  spew(x.at("config.yml"), configText(cfg, p.u("order"), nullptr));
  AppResult base = x.go(AppRun::MAIN, "config.yml", "", false);
  if (!mustSucceed(o, base, "calibration with the complete configuration"))
    return o;
  auto want = treeHash(x.at("simout"));
  removeTree(x.at("simout"));
  // what is done to the configuration
  int top = (int)s.boards.size() - 1;
  if (p.has("bindex")) {
    top = 0;
    for (auto &b : s.boards)
      top = std::max(top, b.index);
  }
  std::string why, text;
  std::vector<std::string> lost;
  for (auto &w : p.itemsOf("cfg")) {
    auto have = [&](const std::string &k) { return cfg.kv.count(k) > 0; };
    if (w[1] == "drop") {
      if (have(w[2]) && neededKey(cfg, w[2]))
        why = w[2] + " is missing";
      cfg.kv.erase(w[2]);
    } else if (w[1] == "set" && have(w[2]) && neededKey(cfg, w[2])) {
      cfg.kv[w[2]] = w[3];
      why = w[2] + " is " + w[3];
    } else if (w[1] == "short" && have(w[2])) {
      auto v = splitList(cfg.kv[w[2]]);
      int need = w[2] == "distortion_per_camera" ? (int)s.cams.size() : top + 1;
      int n = std::min<int>((int)v.size() - 1, need - std::stoi(w[3]));
      if (v.empty() || n < 1)
        continue;
      v.resize(n);
      cfg.kv[w[2]] = joinList(v);
      why = w[2] + " has " + N(n) + " of " + N(need) + " entries";
    } else if (w[1] == "entry" && have(w[2])) {
      auto v = splitList(cfg.kv[w[2]]);
      if (v.empty())
        continue;
      // an entry that is used
      size_t k = std::stoul(w[4]);
      if (w[2] == "distortion_per_camera")
        k %= s.cams.size();
      else if (w[2] == "boards_index")
        k %= v.size();
      else
        k = s.boards[k % s.boards.size()].index;
      if (k >= v.size())
        continue;
      v[k] = w[3];
      cfg.kv[w[2]] = joinList(v);
      why = "entry " + N((long)k) + " of " + w[2] + " is " + w[3];
    } else if (w[1] == "more") {
      for (auto &l : {"distortion_per_camera", "number_x_square_per_board", "number_y_square_per_board", "square_size_per_board"})
        if (have(l) && cfg.kv[l] != "[ ]" && (w[2] == l || (w[2] == "per_board" && l != std::string("distortion_per_camera")))) {
          auto v = splitList(cfg.kv[l]);
          v.push_back(v.back());
          cfg.kv[l] = joinList(v);
        }
    }
  }
  std::vector<std::pair<std::string, size_t>> starts;
  text = configText(cfg, p.u("order"), &starts);
  bool noVerdict = false;
  for (auto &w : p.itemsOf("cfg"))
    if (w[1] == "cut") {
      size_t n = (size_t)(std::stod(w[2]) * (double)text.size());
      if (n >= text.size())
        continue;
      noVerdict = true;
      Config left; // what is still there decides what is needed
      for (auto &k : starts)
        if (k.second < n)
          left.kv[k.first] = cfg.kv[k.first];
      for (auto &k : starts)
        if (k.second >= n && neededKey(left, k.first)) {
          why = k.first + " is missing in a torn file";
          noVerdict = false;
        }
      text.resize(n);
    }
  spew(x.at("config.yml"), text);
  countFaults(o, p);
  Exec y(p, o);
  y.run = 1;
  copyTree(x.sc.dir, y.sc.dir);
  std::string name = "config.yml";
  for (auto &w : p.itemsOf("cfg"))
    if (w[1] == "name") {
      name = w[2] == "-" ? "" : w[2];
      why = name.empty() ? "no configuration is named" : "the configuration is named " + name;
      y.sc.sub("images.yml");
    }
  AppResult r = y.go(AppRun::MAIN, name);
  y.hashTree(y.sc.dir);
  if (r.st.ioFired) {
    why = "the configuration cannot be opened";
    o.probes["open-failures"] += r.st.ioFired;
  }
  if (!o.inconclusive.empty())
    return o;
  if (!why.empty()) {
    if (!mustEnd(o, r, "calibration where " + why))
      return o;
    if (r.end == End::Success)
      fail(o, "not-refused", "calibration ends with success although " + why);
    else
      o.probes["refused"]++;
    for (auto &f : treeHash(y.at("simout")))
      if (f.first.find(".yml") != std::string::npos) {
        fail(o, "result-written", f.first + " is written although " + why);
        break;
      }
    o.sig = why;
  } else if (noVerdict) {
    mustEnd(o, r, "calibration with a torn configuration");
    o.sig = "cut " + N((long)text.size());
  } else if (p.i("benign", 0)) {
    if (!mustSucceed(o, r, "calibration without settings that may be left out"))
      return o;
    auto got = treeHash(y.at("simout"));
    for (auto &f : want)
      if (!got.count(f.first) || got[f.first] != f.second) {
        fail(o, "result-differs", f.first + " differs without settings that have no influence on it");
        break;
      }
    o.probes["benign"]++;
    o.sig = text;
  }
  return o;
}
