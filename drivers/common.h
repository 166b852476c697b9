// Shared by the replay drivers: deterministic random generation, reporting of
// the failing case (also after a crash or a hang), and statistics.
#ifndef VERIF_COMMON_H_
#define VERIF_COMMON_H_
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#ifdef VERIF_TSAN
#include <sys/syscall.h>
#include <atomic>
#include <thread>
#endif

#include <functional>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace vd {

inline std::string& Prop() { static std::string p; return p; }
inline std::mt19937_64& Rng() { static std::mt19937_64 r; return r; }
inline uint64_t& Evals() { static uint64_t n = 0; return n; }
inline std::set<uint64_t>& Distinct() { static std::set<uint64_t> s; return s; }
inline std::vector<std::string>& Samples() { static std::vector<std::string> s; return s; }
inline std::string& Rule() { static std::string s; return s; }
inline double& Deadline() { static double d = 0; return d; }
inline uint64_t& Seed() { static uint64_t s = 1; return s; }

static char g_case[1 << 16];
static size_t g_case_len = 0;

inline double Now() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return ts.tv_sec + ts.tv_nsec * 1e-9;
}
inline bool TimeUp() { return Now() > Deadline(); }

inline int64_t R(int64_t lo, int64_t hi) {
  return lo + static_cast<int64_t>(Rng()() % static_cast<uint64_t>(hi - lo + 1));
}
inline bool Coin(int pct = 50) { return R(0, 99) < pct; }
template <class T>
const T& Pick(const std::vector<T>& v) { return v[R(0, v.size() - 1)]; }

// The case currently executed (kept where a signal handler can print it).
inline void CaseReset() { g_case_len = 0; g_case[0] = 0; }
inline void Case(const std::string& s) {
  size_t n = s.size();
  if (g_case_len + n + 2 > sizeof(g_case)) {
    // keep the tail
    size_t keep = sizeof(g_case) / 2;
    memmove(g_case, g_case + g_case_len - keep, keep);
    g_case_len = keep;
    if (n > sizeof(g_case) / 4) n = sizeof(g_case) / 4;
  }
  memcpy(g_case + g_case_len, s.data(), n);
  g_case_len += n;
  g_case[g_case_len++] = '\n';
  g_case[g_case_len] = 0;
}

inline void Stats() {
  printf("EVALUATIONS %llu\nDISTINCT %llu\n", (unsigned long long)Evals(), (unsigned long long)Distinct().size());
  printf("RULE %s\n", Rule().c_str());
  for (auto& s : Samples()) {
    std::string t;
    for (char c : s) t += (c == '\n') ? std::string(" | ") : std::string(1, c);
    printf("SAMPLE %s\n", t.substr(0, 600).c_str());
  }
  fflush(stdout);
}

// Reports a violation of the property under test and ends the run.
inline void Fail(const std::string& what) {
  printf("FAIL %s\n", what.c_str());
  printf("CASE-BEGIN\n%sCASE-END\n", g_case);
  Stats();
  fflush(stdout);
  _exit(1);
}

inline void OnSignal(int sig) {
  char buf[128];
  int n = snprintf(buf, sizeof buf, "FAIL %s (signal %d)\nCASE-BEGIN\n",
                   sig == SIGALRM ? "the call did not return" : "the code under test crashed", sig);
  (void)!write(1, buf, n);
  (void)!write(1, g_case, g_case_len);
  (void)!write(1, "CASE-END\n", 9);
  _exit(1);
}

#ifdef VERIF_TSAN
// no library calls: ThreadSanitizer may hold its own locks
__attribute__((no_sanitize("thread"))) inline void FailRaw(const char* what) {
  size_t n = 0;
  while (what[n]) n++;
  syscall(SYS_write, 1, "FAIL ", 5);
  syscall(SYS_write, 1, what, n);
  syscall(SYS_write, 1, "\nCASE-BEGIN\n", 12);
  syscall(SYS_write, 1, g_case, g_case_len);
  syscall(SYS_write, 1, "CASE-END\n", 9);
  syscall(SYS_exit_group, 1);
}
// ThreadSanitizer delays signals while a thread waits for a mutex
inline std::atomic<int64_t>& ArmedUntil() { static std::atomic<int64_t> t{0}; return t; }
__attribute__((no_sanitize("thread"))) inline void Watch() {
  for (;;) {
    usleep(100000);
    int64_t t = ArmedUntil().load(std::memory_order_relaxed);
    if (t && Now() > t) {
      FailRaw("the call did not return");
    }
  }
}
inline void Arm(int seconds = 30) {
  static bool started = (std::thread(Watch).detach(), true);
  (void)started;
  ArmedUntil().store(static_cast<int64_t>(Now() + seconds), std::memory_order_relaxed);
}
#else
inline void Arm(int seconds = 30) { alarm(seconds); }
#endif

// One evaluated case; `key` identifies it, `nontrivial` by the driver's rule.
inline void Evaluated(uint64_t key, bool nontrivial) {
  ++Evals();
  if (nontrivial && Distinct().size() < 2000000) Distinct().insert(key);
  if (Samples().size() < 3 && nontrivial) Samples().push_back(std::string(g_case, g_case_len > 1200 ? 1200 : g_case_len));
}

inline uint64_t Hash(const std::string& s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  return h;
}
inline uint64_t CaseHash() { return Hash(std::string(g_case, g_case_len)); }

template <class... A>
std::string Str(const A&... a) {
  std::ostringstream o;
  o.precision(17);
  (void)std::initializer_list<int>{(o << a, 0)...};
  return o.str();
}

// argv: property seconds seed
inline void Init(int argc, char** argv) {
  Prop() = argc > 1 ? argv[1] : "";
  Deadline() = Now() + (argc > 2 ? atof(argv[2]) : 5);
  Seed() = argc > 3 ? strtoull(argv[3], nullptr, 10) : 1;
  Rng().seed(Seed());
  static char stk[1 << 17];
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = stk;
  ss.ss_size = sizeof stk;
  sigaltstack(&ss, nullptr);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = OnSignal;
  sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGALRM, SIGTRAP}) sigaction(s, &sa, nullptr);
}

#define VCHECK(cond, what)                      \
  do {                                          \
    if (!(cond)) { std::ostringstream vo_; vo_.precision(17); vo_ << what; ::vd::Fail(vo_.str()); } \
  } while (0)

}  // namespace vd
#endif
