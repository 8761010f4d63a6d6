// Dual numbers v + w*e over GF(2^31-1) with e*e = 0, as a Field parameter of scl::details::FF. Stored as v in the low and
// w in the high 32 bits.
#ifndef VERIF_DUAL_H
#define VERIF_DUAL_H
#include <cstdint>
#include <cstring>
#include <stdexcept>
#include <string>
#include "scl/math/ff.h"
#include "scl/math/str.h"
struct Dual {
  using ValueType = uint64_t;
  constexpr static const char* kName = "Dual";
  constexpr static const std::size_t kByteSize = 8;
  constexpr static const std::size_t kBitSize = 64;
  static constexpr uint64_t Q = (1ull << 31) - 1;
  static constexpr uint64_t pk(uint64_t v, uint64_t w) { return (v % Q) | ((w % Q) << 32); }
  static constexpr uint64_t lo(uint64_t x) { return x & 0xffffffffu; }
  static constexpr uint64_t hi(uint64_t x) { return x >> 32; }
  static constexpr ValueType FromInt(int v) { long r = v % (long)Q; return pk((uint64_t)(r < 0 ? r + (long)Q : r), 0); }
  static void Add(ValueType& t, const ValueType& v) { t = pk(lo(t) + lo(v), hi(t) + hi(v)); }
  static void Subtract(ValueType& t, const ValueType& v) { t = pk(lo(t) + Q - lo(v), hi(t) + Q - hi(v)); }
  static void Multiply(ValueType& t, const ValueType& v) { t = pk(lo(t) * lo(v), lo(t) * hi(v) % Q + hi(t) * lo(v) % Q); }
  static void Negate(ValueType& t) { t = pk(Q - lo(t), Q - hi(t)); }
  static void Invert(ValueType& t) {
    if (lo(t) == 0) throw std::logic_error("0 not invertible modulo prime");
    uint64_t a = lo(t), r = 1; for (uint64_t e = Q - 2; e; e >>= 1) { if (e & 1) r = r * a % Q; a = a * a % Q; }
    t = pk(r, (Q - hi(t)) * (r * r % Q));
  }
  static bool Equal(const ValueType& a, const ValueType& b) { return a == b; }
  static void ToBytes(unsigned char* d, const ValueType& s) { memcpy(d, &s, 8); }
  static void FromBytes(ValueType& d, const unsigned char* s) { uint64_t x; memcpy(&x, s, 8); d = pk(lo(x), hi(x)); }
  static void FromString(ValueType& d, const std::string& s, enum scl::NumberBase) { d = FromInt(std::stoi(s)); }
  static std::string ToString(const ValueType& v) { return std::to_string(lo(v)) + "+" + std::to_string(hi(v)) + "e"; }
};
#endif
