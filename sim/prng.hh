// Seeded PRNG (splitmix64 / xoshiro256**): the only source of choice in the simulator.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
namespace sim {
  inline std::uint64_t splitmix(std::uint64_t &x) {
    std::uint64_t z = (x += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  inline std::uint64_t mix(std::uint64_t a, std::uint64_t b) {
    std::uint64_t s = a ^ (b * 0xd6e8feb86659fd93ULL);
    splitmix(s);
    return splitmix(s);
  }
  class Prng {
    std::uint64_t s[4];
    static std::uint64_t rotl(std::uint64_t x, int k) { return (x << k) | (x >> (64 - k)); }
  public:
    explicit Prng(std::uint64_t seed = 1) { for (auto &v: s) v = splitmix(seed); }
    std::uint64_t next() {
      const std::uint64_t r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17;
      s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45);
      return r;
    }
    // uniform in [0, n)
    std::uint64_t below(std::uint64_t n) { return n == 0 ? 0 : next() % n; }
    int range(int lo, int hi) { return lo + int(below(std::uint64_t(hi - lo + 1))); }
    bool chance(int num, int den) { return int(below(std::uint64_t(den))) < num; }
    template<class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
  };
}
