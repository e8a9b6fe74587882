// Runs the real program (apps/calibrate) once, in a forked child under the simulator.
#pragma once
#include <functional>
#include <map>
#include <string>
#include <vector>

#include "simrt.h"

namespace sim {

enum class End {
  Success,     // main returned 0
  Failure,     // non-zero status or an uncaught exception (the program reports failure)
  Crash,       // signal, failed container check
  Hang,        // deadlock or CPU limit
  Budget,      // simulator step budget: no verdict
  CrashPoint,  // killed by the simulator at the planned point
  Unsupported, // simulator limitation: no verdict
  Wall         // blocked without using CPU: no verdict
};
const char *endName(End e);

struct AppRun {
  enum Mode { MAIN, DETECT, DETECT_SAVE, GENERATE } mode = MAIN;
  std::string cwd;            // directory the program runs in
  std::string config = "config.yml";
  RtConfig rt;
  int memFill = 0x55;         // M_PERTURB
  uint64_t heapSeed = 0;      // pre-fragment the heap (0: no)
  int cpuLimit = 120;
  int wallLimit = 400;
  bool keepLog = false;       // stdout/stderr to <cwd>/log.txt
};
struct AppResult {
  End end = End::Unsupported;
  int code = 0; // exit status or signal
  RtStats st;
  std::string what;
  double cpu = 0;
};
AppResult runApp(const AppRun &a);

// accumulated over all runs of this process
struct Totals {
  uint64_t runs = 0, points = 0, switches = 0, preemptions = 0, threads = 0, randDraws = 0,
           clockReads = 0, ioSteps = 0, ioFired = 0, shortWrites = 0, spurious = 0, createFails = 0, clockJumps = 0;
  int64_t simNs = 0;
  std::map<std::string, uint64_t> ends;
};
extern Totals totals;

// scratch space
struct Scratch {
  std::string dir;
  Scratch();
  ~Scratch();
  std::string sub(const std::string &name) const; // creates it
};
bool fileExists(const std::string &p);
std::string slurp(const std::string &p);
void spew(const std::string &p, const std::string &s);
void copyTree(const std::string &from, const std::string &to);
void removeTree(const std::string &p); // only below a scratch directory
// relative path -> content hash of every regular file
std::map<std::string, uint64_t> treeHash(const std::string &dir);

} // namespace sim
