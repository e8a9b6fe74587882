#include "app.h"
#include "prng.h"

#include "McCalib.hpp"

#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <malloc.h>
#include <sstream>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

int calibrate_main(int argc, char *argv[]);
int generate_main(int argc, char *argv[]);

// container checks of the code under test (-D_GLIBCXX_ASSERTIONS)
namespace std {
void __glibcxx_assert_fail(const char *, int, const char *, const char *) noexcept {
  _exit(94);
}
} // namespace std

namespace sim {

namespace fs = std::filesystem;
Totals totals;

const char *endName(End e) {
  switch (e) {
  case End::Success: return "success";
  case End::Failure: return "failure";
  case End::Crash: return "crash";
  case End::Hang: return "hang";
  case End::Budget: return "budget";
  case End::CrashPoint: return "crashpoint";
  case End::Unsupported: return "unsupported";
  case End::Wall: return "wall";
  }
  return "?";
}

namespace {
struct Shared {
  RtStats scalar; // (vector member unused)
  uint32_t ndec;
  uint64_t decPoint[1 << 16];
  int32_t decVal[1 << 16];
  char what[512];
};
Shared *gShared = nullptr;

void publish(int) {
  RtStats s = rtStats;
  gShared->ndec = 0;
  for (auto &d : rtStats.decisions) {
    if (gShared->ndec >= (1u << 16))
      break;
    gShared->decPoint[gShared->ndec] = d.first;
    gShared->decVal[gShared->ndec] = d.second;
    gShared->ndec++;
  }
  s.decisions.clear();
  std::memcpy((void *)&gShared->scalar, (void *)&s, offsetof(RtStats, decisions));
}

int childBody(const AppRun &a) {
  std::string cfg = a.config;
  int rc = 0;
  if (a.mode == AppRun::MAIN || a.mode == AppRun::GENERATE) {
    char prog[] = "calibrate";
    std::vector<char> arg(cfg.begin(), cfg.end());
    arg.push_back(0);
    const int argc = cfg.empty() ? 1 : 2; // without a name: called without arguments
    char *argv[] = {prog, cfg.empty() ? nullptr : arg.data(), nullptr};
    rc = a.mode == AppRun::MAIN ? calibrate_main(argc, argv) : generate_main(argc, argv);
  } else {
    McCalib::Calibration c{std::filesystem::path(cfg)};
    c.boardExtraction();
    c.saveDetectedKeypoints();
  }
  return rc;
}
} // namespace

AppResult runApp(const AppRun &a) {
  AppResult r;
  if (!gShared)
    gShared = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                             MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::memset((void *)&gShared->scalar, 0, offsetof(RtStats, decisions));
  gShared->ndec = 0;
  gShared->what[0] = 0;
  fflush(nullptr);
  pid_t pid = fork();
  if (pid < 0) {
    r.what = "fork";
    return r;
  }
  if (pid == 0) {
    setpgid(0, 0);
    if (chdir(a.cwd.c_str()))
      _exit(92);
    int fd = open(a.keepLog ? "log.txt" : "/dev/null", O_WRONLY | O_CREAT | O_TRUNC, 0644);
    dup2(fd, 1);
    dup2(fd, 2);
    int in = open("/dev/null", O_RDONLY);
    dup2(in, 0);
    struct rlimit rl;
    rl.rlim_cur = a.cpuLimit;
    rl.rlim_max = a.cpuLimit + 5;
    setrlimit(RLIMIT_CPU, &rl);
    rl.rlim_cur = rl.rlim_max = 6ull << 30;
    setrlimit(RLIMIT_AS, &rl);
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
    rl.rlim_cur = rl.rlim_max = 512ull << 20;
    setrlimit(RLIMIT_FSIZE, &rl);
    mallopt(M_PERTURB, a.memFill);
    if (a.heapSeed) {
      Rng h(a.heapSeed, "heap");
      std::vector<void *> v;
      for (int i = 0; i < 4000; i++)
        v.push_back(malloc(16 + h.next() % (h.coin(0.9) ? 400 : 9000)));
      for (size_t i = v.size(); i > 1; i--)
        std::swap(v[i - 1], v[h.next() % i]);
      for (size_t i = 0; i < v.size() * 3 / 4; i++)
        free(v[i]);
    }
    rt = a.rt;
    rtOnFatal = publish;
    rtBegin();
    rtArmIo(true);
    int rc = 86;
    try {
      rc = childBody(a);
    } catch (const std::exception &e) {
      rtArmIo(false);
      std::strncpy(gShared->what, e.what(), sizeof(gShared->what) - 1);
      rc = 86;
    } catch (...) {
      rc = 87;
    }
    rtArmIo(false);
    publish(0);
    rtEnd();
    fflush(nullptr);
    _exit(rc & 0xff);
  }
  // wait, watching the wall clock
  int st = 0;
  struct rusage ru;
  std::memset(&ru, 0, sizeof ru);
  struct timespec t0, t1;
  clock_gettime(CLOCK_MONOTONIC, &t0);
  bool wall = false;
  useconds_t nap = 500;
  for (;;) {
    pid_t w = wait4(pid, &st, WNOHANG, &ru);
    if (w == pid)
      break;
    if (w < 0 && errno != EINTR) {
      r.what = "wait";
      return r;
    }
    clock_gettime(CLOCK_MONOTONIC, &t1);
    if (t1.tv_sec - t0.tv_sec > a.wallLimit) {
      wall = true;
      kill(pid, SIGKILL);
      wait4(pid, &st, 0, &ru);
      break;
    }
    usleep(nap);
    if (nap < 5000)
      nap += 500;
  }
  r.cpu = ru.ru_utime.tv_sec + ru.ru_utime.tv_usec * 1e-6 + ru.ru_stime.tv_sec +
          ru.ru_stime.tv_usec * 1e-6;
  std::memcpy((void *)&r.st, (void *)&gShared->scalar, offsetof(RtStats, decisions));
  for (uint32_t i = 0; i < gShared->ndec; i++)
    r.st.decisions.emplace_back(gShared->decPoint[i], gShared->decVal[i]);
  r.what = gShared->what;
  if (wall)
    r.end = End::Wall;
  else if (WIFSIGNALED(st)) {
    r.code = WTERMSIG(st);
    if (r.code == SIGXCPU || (r.code == SIGKILL && r.cpu >= a.cpuLimit - 1))
      r.end = End::Hang;
    else if (r.code == SIGKILL)
      r.end = End::Wall; // ended from outside (memory watchdog): no verdict
    else
      r.end = End::Crash;
  } else {
    r.code = WEXITSTATUS(st);
    switch (r.code) {
    case 0: r.end = End::Success; break;
    case kExitDeadlock: r.end = End::Hang; break;
    case kExitBudget: r.end = End::Budget; break;
    case kExitUnsupported: r.end = End::Unsupported; break;
    case kExitCrashPoint: r.end = End::CrashPoint; break;
    case 94: r.end = End::Crash; break;
    default: r.end = End::Failure;
    }
  }
  totals.runs++;
  totals.ends[endName(r.end)]++;
  totals.points += r.st.points;
  totals.switches += r.st.switches;
  totals.preemptions += r.st.preemptions;
  totals.threads += r.st.threads;
  totals.randDraws += r.st.randDraws;
  totals.clockReads += r.st.clockReads;
  totals.ioSteps += r.st.ioSteps;
  totals.ioFired += r.st.ioFired;
  totals.shortWrites += r.st.shortWrites;
  totals.spurious += r.st.spurious;
  totals.createFails += r.st.createFails;
  totals.clockJumps += r.st.clockJumps;
  totals.simNs += r.st.simNs;
  return r;
}

Scratch::Scratch() {
  const char *t = getenv("TMPDIR");
  std::string s = std::string(t && *t ? t : "/tmp") + "/mcsim.XXXXXX";
  std::vector<char> b(s.begin(), s.end());
  b.push_back(0);
  if (!mkdtemp(b.data()))
    throw std::runtime_error("mkdtemp");
  dir = b.data();
}
Scratch::~Scratch() {
  std::error_code ec;
  if (getenv("MCSIM_KEEP"))
    return;
  if (dir.find("/mcsim.") != std::string::npos)
    fs::remove_all(dir, ec);
}
std::string Scratch::sub(const std::string &name) const {
  std::string p = dir + "/" + name;
  fs::create_directories(p);
  return p;
}
bool fileExists(const std::string &p) {
  std::error_code ec;
  return fs::exists(p, ec);
}
std::string slurp(const std::string &p) {
  std::ifstream f(p, std::ios::binary);
  std::stringstream ss;
  ss << f.rdbuf();
  return ss.str();
}
void spew(const std::string &p, const std::string &s) {
  std::ofstream f(p, std::ios::binary | std::ios::trunc);
  f << s;
}
void copyTree(const std::string &from, const std::string &to) {
  fs::create_directories(to);
  fs::copy(from, to, fs::copy_options::recursive | fs::copy_options::overwrite_existing);
}
void removeTree(const std::string &p) {
  if (p.find("/mcsim.") == std::string::npos)
    return;
  std::error_code ec;
  fs::remove_all(p, ec);
}
std::map<std::string, uint64_t> treeHash(const std::string &dir) {
  std::map<std::string, uint64_t> m;
  std::error_code ec;
  if (!fs::exists(dir, ec))
    return m;
  for (auto it = fs::recursive_directory_iterator(dir, ec); it != fs::recursive_directory_iterator();
       it.increment(ec)) {
    if (ec)
      break;
    if (it->is_regular_file(ec))
      m[fs::relative(it->path(), dir).string()] = hashStr(slurp(it->path().string()));
  }
  return m;
}

} // namespace sim
