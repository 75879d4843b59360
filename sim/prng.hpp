// Single source of randomness of the simulator: SplitMix64 stream seeded from one integer.
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <initializer_list>
#include <vector>
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 0) : s(seed * 0x9E3779B97F4A7C15ULL + 0x1234567ULL) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }          // inclusive
  double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
  double uniform(double a, double b) { return a + (b - a) * unit(); }
  double logu(double a, double b) { return std::exp(uniform(std::log(a), std::log(b))); }
  bool chance(double p) { return unit() < p; }
  template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  int weighted(const std::vector<int>& w) {
    int t = 0; for (int x : w) t += x;
    int r = (int)below((uint64_t)t);
    for (size_t i = 0; i < w.size(); i++) { r -= w[i]; if (r < 0) return (int)i; }
    return 0;
  }
};
inline uint64_t mix(uint64_t h, uint64_t v) {
  h ^= v + 0x9E3779B97F4A7C15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 32);
}
inline uint64_t bits(double d) { uint64_t u; if (d != d) return 0x7ff8000000000000ULL; if (d == 0) d = 0; std::memcpy(&u, &d, 8); return u; }
