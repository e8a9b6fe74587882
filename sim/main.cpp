// mcsim: seeded simulated runs of MC-Calib.
//   worker <prop> <tier>      seeds on stdin -> one JSON line per run
//   gen <prop> <seed> <tier>  print the plan of a seed
//   run <plan>                run one plan, print JSON
//   min <plan> <out> <secs>   minimise a failing plan
//   one <plan> <dir> <run>    run the program once in <dir> (used across builds)
#include "props.h"
#include <opencv2/core.hpp>
#include <opencv2/core/utils/logger.hpp>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <unistd.h>

using namespace sim;
namespace {
std::string esc(const std::string &s) {
  std::string r;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      r += '\\';
      r += (char)c;
    } else if (c < 32 || c > 126) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      r += b;
    } else
      r += (char)c;
  }
  return r;
}
std::string json(const Plan &p, const Outcome &o, double wall) {
  std::ostringstream os;
  os.precision(9);
  os << "{\"prop\":\"" << p.prop << "\",\"seed\":" << p.seed << ",\"hash\":\"" << std::hex << o.hash << std::dec
     << "\",\"sig\":\"" << (o.sig.empty() ? "" : esc(std::to_string(hashStr(o.sig)))) << "\",\"inconclusive\":\""
     << esc(o.inconclusive) << "\",\"wall\":" << wall << ",\"fail\":[";
  bool first = true;
  for (auto &f : o.f) {
    os << (first ? "" : ",") << "[\"" << esc(f.cls) << "\",\"" << esc(f.detail) << "\"]";
    first = false;
  }
  os << "],\"probes\":{";
  first = true;
  for (auto &x : o.probes) {
    os << (first ? "" : ",") << "\"" << esc(x.first) << "\":" << x.second;
    first = false;
  }
  os << "},\"worst\":{";
  first = true;
  for (auto &x : o.worst) {
    os << (first ? "" : ",") << "\"" << esc(x.first) << "\":" << x.second;
    first = false;
  }
  std::map<std::string, int> kinds;
  for (auto &i : p.items)
    kinds[i.substr(0, i.find(' '))]++;
  os << "},\"items\":{";
  first = true;
  for (auto &x : kinds) {
    os << (first ? "" : ",") << "\"" << esc(x.first) << "\":" << x.second;
    first = false;
  }
  os << "},\"rt\":{\"runs\":" << totals.runs << ",\"points\":" << totals.points << ",\"switches\":" << totals.switches
     << ",\"preemptions\":" << totals.preemptions << ",\"threads\":" << totals.threads << ",\"draws\":" << totals.randDraws
     << ",\"clock_reads\":" << totals.clockReads << ",\"clock_jumps\":" << totals.clockJumps << ",\"io_steps\":" << totals.ioSteps
     << ",\"io_fired\":" << totals.ioFired << ",\"short_writes\":" << totals.shortWrites << ",\"spurious\":" << totals.spurious << ",\"sim_ns\":" << totals.simNs;
  for (auto &e : totals.ends)
    os << ",\"end_" << e.first << "\":" << e.second;
  os << "}}";
  totals = Totals();
  return os.str();
}
double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
Plan load(const std::string &f) {
  std::ifstream in(f);
  return Plan::parse(in);
}
std::string clsOf(const Outcome &o) { return o.f.empty() ? "" : o.f[0].cls; }
bool hasCls(const Outcome &o, const std::string &c) {
  for (auto &f : o.f)
    if (f.cls == c)
      return true;
  return false;
}
// removes items while the same class of violation persists
Plan minimise(Plan p, double budget, int &tried) {
  double t0 = now();
  Outcome base = runPlan(p);
  std::string cls = clsOf(base);
  if (cls.empty())
    return p;
  auto still = [&](const Plan &q) {
    tried++;
    return hasCls(runPlan(q), cls);
  };
  auto left = [&] { return now() - t0 < budget; };
  // an explicit schedule, if threads were scheduled
  bool any = false;
  for (auto &d : base.decisions)
    any |= !d.second.empty();
  if (any && !p.i("explicit", 0)) {
    Plan q = p;
    q.set("explicit", 1);
    for (auto &d : base.decisions)
      for (auto &x : d.second)
        q.add("dec " + std::to_string(d.first) + " " + std::to_string(x.first) + " " + std::to_string(x.second));
    if (still(q))
      p = q;
  }
  size_t chunk = std::max<size_t>(1, p.items.size() / 2);
  while (left() && !p.items.empty()) {
    bool any2 = false;
    for (size_t i = 0; i < p.items.size() && left();) {
      Plan q = p;
      size_t e = std::min(p.items.size(), i + chunk);
      q.items.erase(q.items.begin() + i, q.items.begin() + e);
      if (still(q)) {
        p = q;
        any2 = true;
      } else
        i += chunk;
    }
    if (chunk == 1 && !any2)
      break;
    chunk = std::max<size_t>(1, chunk / 2);
  }
  // simpler environment
  for (auto &kv : std::vector<std::pair<std::string, std::string>>{{"clock", "0"}, {"ncpu", "1"}, {"noise", "0.05"},
           {"unit", "1"}, {"frame_gap", "0"}, {"quat", "1"}, {"he", "0"}, {"nframes", "half"}}) {
    if (!left() || !p.has(kv.first) || p.str(kv.first) == kv.second)
      continue;
    Plan q = p;
    q.kv[kv.first] = kv.second == "half" ? std::to_string(std::max<int64_t>(3, p.i("nframes") / 2)) : kv.second;
    if (still(q))
      p = q;
  }
  return p;
}
} // namespace

int main(int argc, char **argv) {
  cv::setNumThreads(1);
  cv::utils::logging::setLogLevel(cv::utils::logging::LOG_LEVEL_SILENT);
  setenv("OPENBLAS_NUM_THREADS", "1", 1);
  setenv("OMP_NUM_THREADS", "1", 1);
  std::string mode = argc > 1 ? argv[1] : "";
  if (const char *o = getenv("MCSIM_OTHER"))
    setOtherBinary(o);
  try {
    if (mode == "props") {
      for (auto &s : propIds())
        std::puts(s.c_str());
      return 0;
    }
    if (mode == "gen" && argc >= 5) {
      std::fputs(genPlan(argv[2], std::stoull(argv[3]), argv[4]).text().c_str(), stdout);
      return 0;
    }
    if (mode == "run" && argc >= 3) {
      Plan p = load(argv[2]);
      double t = now();
      Outcome o = runPlan(p);
      std::puts(json(p, o, now() - t).c_str());
      return 0;
    }
    if (mode == "worker" && argc >= 4) {
      std::string line;
      while (std::getline(std::cin, line)) {
        Plan p = genPlan(argv[2], std::stoull(line), argv[3]);
        double t = now();
        Outcome o = runPlan(p);
        std::puts(json(p, o, now() - t).c_str());
        std::fflush(stdout);
      }
      return 0;
    }
    if (mode == "min" && argc >= 5) {
      Plan p = load(argv[2]);
      int tried = 0;
      size_t before = p.items.size();
      Plan q = minimise(p, std::stod(argv[4]), tried);
      Outcome o = runPlan(q);
      std::ofstream(argv[3]) << q.text();
      std::printf("{\"tried\":%d,\"items_before\":%zu,\"items_after\":%zu,\"cls\":\"%s\"}\n", tried, before, q.items.size(),
                  clsOf(o).c_str());
      return 0;
    }
    if (mode == "export" && argc >= 4) {
      exportScene(load(argv[2]), argv[3], argc > 4 && std::string(argv[4]) == "images");
      return 0;
    }
    if (mode == "one" && argc >= 5) {
      Plan p = load(argv[2]);
      int k = std::stoi(argv[4]);
      AppRun a = makeRun(p, k);
      a.cwd = argv[3];
      AppResult r = runApp(a);
      std::printf("%d %d %llu %llu %llu\n", (int)r.end, r.code, (unsigned long long)r.st.randDraws, (unsigned long long)r.st.allocs,
                  (unsigned long long)r.st.allocFired);
      return 0;
    }
  } catch (const std::exception &e) {
    std::fprintf(stderr, "mcsim: %s\n", e.what());
    return 3;
  }
  std::fprintf(stderr, "usage: mcsim props|gen|run|worker|min|one ...\n");
  return 2;
}
