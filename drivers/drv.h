// shared by the native drivers: argument parsing, reporting, a small generator
#ifndef DRV_H
#define DRV_H
#include <cinttypes>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <cstring>
#include <unistd.h>
#include <map>
#include <set>
#include <string>
#include <vector>

struct Drv {
  bool thorough = false;
  uint64_t seed = 1;
  std::vector<int64_t> hints;
  std::map<std::string, long> counts;
  int fails = 0;
  int samples = 0;
  std::set<size_t> seen;
  void args(int argc, char **argv) {
    if (argc > 1)
      thorough = std::string(argv[1]) == "thorough";
    if (argc > 2)
      seed = strtoull(argv[2], nullptr, 10);
    for (int i = 3; i < argc; i++)
      hints.push_back(strtoll(argv[i], nullptr, 10));
    s = seed * 0x9E3779B97F4A7C15ull + 12345;
    for (int g : {SIGALRM, SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL})
      signal(g, on_signal);
    setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
  }
  uint64_t s = 1;
  uint64_t next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int64_t below(int64_t n) { return n <= 0 ? 0 : (int64_t)(next() % (uint64_t)n); }
  int64_t range(int64_t a, int64_t b) { return a + below(b - a + 1); }
  bool chance(int a, int b) { return below(b) < a; }
  void count(const std::string &k, long n = 1) { counts[k] += n; }
  // a case is non-trivial (caller decides) and new
  void nontrivial(const std::string &key) {
    size_t h = std::hash<std::string>()(key);
    if (seen.insert(h).second)
      counts["nontrivial"]++;
  }
  void sample(const std::string &x) {
    if (samples++ < 6)
      printf("SAMPLE %s\n", x.c_str());
  }
  void fail(const std::string &x) {
    if (fails++ < 20)
      printf("FAIL %s\n", x.c_str());
    if (fails >= 20)
      finish();
  }
  // remember the case at hand: reported if the code under test crashes or hangs
  void at(const std::string &x) {
    snprintf(cur(), 4000, "%s", x.c_str());
    alarm(60);
  }
  static char *cur() {
    static char buf[4096] = "?";
    return buf;
  }
  static void on_signal(int sig) {
    char b[4300];
    int n = snprintf(b, sizeof b, "\nFAIL %s at input: %s\n", sig == SIGALRM ? "HANG (60 s)" : sig == SIGABRT ? "ASSERTION/ABORT" : "CRASH", cur());
    if (write(1, b, n)) {}
    _exit(1);
  }
  int finish() {
    for (auto &c : counts)
      printf("COUNT %s %ld\n", c.first.c_str(), c.second);
    fflush(stdout);
    _Exit(fails ? 1 : 0);
  }
  long n(long quick, long deep) { return thorough ? deep : quick; }
};

inline std::string S(int64_t x) {
  if (x == INT64_MIN) return "-inf";
  if (x == INT64_MAX) return "+inf";
  return std::to_string(x);
}
#endif
