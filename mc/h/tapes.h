// Every random tape of a computation: with the shim generator each byte drawn is a choice of 0..p-1.
#ifndef VERIF_TAPES_H
#define VERIF_TAPES_H
#include <map>
#include "mc.h"
#include "scl/prg.h"
struct Tapes {
  verif::Seed seed{}; unsigned char raw[16];
  Tapes() { for (int i = 0; i < 16; ++i) raw[i] = seed[i] = (unsigned char)(0xA0 + i); }
  // fn(draws) is called once per tape. Generators with another seed than ours are predictable and yield constants.
  template <class F> uint64_t all(unsigned p, F&& fn, int cap = 16) {
    mc::Chooser ch; uint64_t n = 0; std::map<uint64_t, unsigned char> m; int draws = 0;
    verif::prg_fn() = [&](uint64_t, const verif::Seed& s, uint64_t pos, unsigned char* d, std::size_t k) {
      for (std::size_t i = 0; i < k; ++i) { if (s != seed) { d[i] = (unsigned char)((pos + i) * 3 % p); continue; }
        auto it = m.find(pos + i); if (it == m.end()) { if (++draws > cap) throw std::runtime_error("more randomness than expected"); it = m.emplace(pos + i, (unsigned char)ch.choose((int)p)).first; } d[i] = it->second; } };
    do { ch.begin(); m.clear(); draws = 0; verif::prg_instances() = 0; scl::PRG prg(raw); fn(prg, draws); ++n; } while (ch.next());
    verif::prg_fn() = nullptr; return n;
  }
};
// Reference arithmetic over GF(p) on integers.
struct RefF { long p; long md(long a) const { a %= p; return a < 0 ? a + p : a; } long pw(long a, long e) const { long r = 1; a = md(a); for (; e; e >>= 1) { if (e & 1) r = r * a % p; a = a * a % p; } return r; } long inv(long a) const { return pw(a, p - 2); }
  // value at x of the polynomial through (xs[i], ys[i])
  long lag(const std::vector<long>& xs, const std::vector<long>& ys, long x) const { long z = 0; for (size_t j = 0; j < xs.size(); ++j) { long n = 1, d = 1; for (size_t m = 0; m < xs.size(); ++m) if (m != j) { n = n * md(x - xs[m]) % p; d = d * md(xs[j] - xs[m]) % p; } z = (z + ys[j] * n % p * inv(d)) % p; } return z; } };
#endif
