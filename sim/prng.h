// Small splittable PRNG: every random choice of a run is a pure function of (seed, stream label).
#pragma once
#include <cmath>
#include <cstdint>
#include <string>
#include <vector>

namespace sim {

inline uint64_t mix64(uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}
inline uint64_t hashStr(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) {
    h ^= c;
    h *= 1099511628211ull;
  }
  return h;
}

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(mix64(seed)) {}
  Rng(uint64_t seed, const std::string &label)
      : s(mix64(seed ^ mix64(hashStr(label)))) {}
  uint64_t next() {
    s += 0x9e3779b97f4a7c15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  // uniform in [0,1)
  double uni() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
  double uni(double a, double b) { return a + (b - a) * uni(); }
  // inclusive
  int ri(int a, int b) { return a + int(next() % uint64_t(b - a + 1)); }
  bool coin(double p) { return uni() < p; }
  double gauss() {
    double u1 = uni(), u2 = uni();
    if (u1 < 1e-300)
      u1 = 1e-300;
    return std::sqrt(-2 * std::log(u1)) * std::cos(6.283185307179586 * u2);
  }
  template <class T> const T &pick(const std::vector<T> &v) {
    return v[next() % v.size()];
  }
};

} // namespace sim
