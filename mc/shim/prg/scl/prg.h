// Replaces scl/prg.h: the same interface, with the output decided by the harness.
#ifndef _SCL_PRG_H
#define _SCL_PRG_H
#include <array>
#include <cstdint>
#include <cstring>
#include <functional>
#include <memory>
#include <stdexcept>
#include <vector>
#ifndef PRG_NONCE
#define PRG_NONCE 0x0123456789ABCDEF
#endif
#ifndef PRG_INITIAL_COUNTER
#define PRG_INITIAL_COUNTER 0
#endif
namespace verif {
using Seed = std::array<unsigned char, 16>;
// instance number (in order of construction since prg_reset), seed, bytes produced before, destination, size
using PrgFn = std::function<void(uint64_t, const Seed&, uint64_t, unsigned char*, std::size_t)>;
inline PrgFn& prg_fn() { static PrgFn f; return f; }
inline uint64_t& prg_instances() { static uint64_t n = 0; return n; }
// bookkeeping of the harness: no access of the code under test
__attribute__((noinline, no_sanitize("thread"))) inline uint64_t prg_next() { return prg_instances()++; }
}
namespace scl {
class PRG {
 public:
  static constexpr std::size_t BlockSize() { return 16; }
  static constexpr std::size_t SeedSize() { return 16; }
  PRG() { mSeed.fill(0); mInst = verif::prg_next(); }
  PRG(const unsigned char* seed) { std::memcpy(mSeed.data(), seed, 16); mInst = verif::prg_next(); }
  void Reset() { mPos = 0; }
  void Next(unsigned char* d, std::size_t n) { if (!n) return; if (verif::prg_fn()) verif::prg_fn()(mInst, mSeed, mPos, d, n); else std::memset(d, 0, n); mPos += n; }
  void Next(std::vector<unsigned char>& d) { Next(d.data(), d.size()); }
  void Next(std::vector<unsigned char>& d, std::size_t n) { if (d.size() < n) throw std::invalid_argument("requested more randomness than dest.size()"); Next(d.data(), n); }
  std::vector<unsigned char> Next(std::size_t n) { std::vector<unsigned char> v(n); Next(v.data(), n); return v; }
  const unsigned char* Seed() const { return mSeed.data(); }
  long Counter() const { return PRG_INITIAL_COUNTER + (long)((mPos + 15) / 16); }
 private:
  verif::Seed mSeed;
  uint64_t mInst, mPos = 0;
};
}
#endif
