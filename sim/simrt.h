// Deterministic runtime under which the real code runs: scheduler for real threads
// (one runs at a time, parked/released by a seeded scheduler), simulated clock,
// controlled random device, fault-injecting I/O layer.
#pragma once
#include <cstdint>
#include <map>
#include <string>
#include <vector>

namespace sim {

struct RtConfig {
  // scheduling
  unsigned ncpu = 4;         // what hardware_concurrency() reports
  bool explicitMode = false; // replay `decisions` instead of drawing
  uint64_t schedSeed = 1;
  double siteFrac = 0.0; // fraction of code sites enabled as preemption points
  double siteP = 0.0;    // probability to preempt at an enabled site
  int siteBudget = 3;    // only the first hits of a site are candidates
  double syncP = 0.0;    // probability to preempt at a synchronisation call
  double spuriousP = 0;  // spurious condition-variable wake-ups
  int starve = 0;        // number of low-weight (slow) workers
  int createFail = 0;    // n-th thread creation fails (0: none)
  std::map<uint64_t, int> decisions; // decision point -> choice
  uint64_t maxPoints = 400000000ull;
  // randomness
  uint64_t randSeed = 1;
  // clock: 0 steady, 1 frozen, 2 jumpy forward, 3 jumps backwards
  int clockMode = 0;
  int64_t clockBase = 1700000000ll;
  uint64_t clockSeed = 1;
  // I/O
  std::string saveRoot;  // writes below this path are counted as I/O steps
  std::string inputRoot; // opens for reading below this path are counted
  struct IoFault {
    std::string kind; // rfail, wfail, cfail, full, crash
    std::string path; // substring for rfail / wfail / cfail
    int nth = 1;      // n-th matching open (rfail, wfail), close (cfail) or I/O step (full, crash)
    int err = 5;
    bool sticky = false; // applies to nth and all later ones
    mutable int seen = 0;
    mutable int fired = 0;
  };
  std::vector<IoFault> faults;
  double shortP = 0; // probability that a write is interrupted or takes only a part of the data
  // memory: the n-th allocation (0: none) of the program, OpenCV or Ceres fails, and the following ones (1: only it)
  bool countAllocs = false;
  uint64_t allocFail = 0, allocLen = 1;
  uint64_t allocMin = 0; // of those with at least so many bytes
};

struct RtStats {
  uint64_t points = 0;       // decision points passed
  uint64_t switches = 0;     // context switches
  uint64_t preemptions = 0;  // involuntary ones
  uint64_t threads = 0;
  uint64_t sites = 0;        // distinct code sites seen with >1 live threads
  uint64_t interleaving = 0; // hash over (site, from, to) of every switch
  uint64_t randDraws = 0;
  uint64_t clockReads = 0;
  uint64_t spurious = 0;
  uint64_t createFails = 0;
  uint64_t clockJumps = 0;
  int64_t simNs = 0;
  uint64_t ioSteps = 0;
  uint64_t ioFired = 0;
  uint64_t shortWrites = 0;
  uint64_t allocs = 0, allocFired = 0;
  std::vector<std::pair<uint64_t, int>> decisions; // non-default choices made
};

extern RtConfig rt;
extern RtStats rtStats;

enum ExitCode {
  kExitDeadlock = 90,
  kExitBudget = 91,
  kExitUnsupported = 92,
  kExitCrashPoint = 93,
};

void rtBegin();          // start controlling this process (call in the child)
void rtEnd();            // stop
void rtArmIo(bool on);   // I/O faults active only while armed
extern void (*rtOnFatal)(int code); // called before _exit on deadlock/budget/crash

} // namespace sim
