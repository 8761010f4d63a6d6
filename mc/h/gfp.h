// A prime field GF(P), P < 256, as a Field parameter of scl::details::FF.
#ifndef VERIF_GFP_H
#define VERIF_GFP_H
#include <cstdint>
#include <stdexcept>
#include <string>
#include "scl/math/ff.h"
#include "scl/math/str.h"
template <unsigned P> struct GFp {
  using ValueType = unsigned char;
  constexpr static const char* kName = "GFp";
  constexpr static const std::size_t kByteSize = 1;
  constexpr static const std::size_t kBitSize = 8;
  static constexpr ValueType FromInt(int v) { int r = v % (int)P; return (ValueType)(r < 0 ? r + (int)P : r); }
  static void Add(ValueType& t, const ValueType& v) { t = (ValueType)((unsigned(t) + v) % P); }
  static void Subtract(ValueType& t, const ValueType& v) { t = (ValueType)((unsigned(t) + P - v) % P); }
  static void Multiply(ValueType& t, const ValueType& v) { t = (ValueType)((unsigned(t) * v) % P); }
  static void Negate(ValueType& t) { t = (ValueType)((P - t) % P); }
  struct Inv { unsigned char t[P]; constexpr Inv() : t() { for (unsigned a = 1; a < P; ++a) for (unsigned b = 1; b < P; ++b) if (a * b % P == 1) t[a] = (unsigned char)b; } };
  static void Invert(ValueType& t) { static constexpr Inv inv; if (t == 0) throw std::logic_error("0 not invertible modulo prime"); t = inv.t[t]; }
  static bool Equal(const ValueType& a, const ValueType& b) { return a == b; }
  static void ToBytes(unsigned char* d, const ValueType& s) { *d = s; }
  static void FromBytes(ValueType& d, const unsigned char* s) { d = (ValueType)(*s % P); }
  static void FromString(ValueType& d, const std::string& s, enum scl::NumberBase) { d = FromInt(std::stoi(s)); }
  static std::string ToString(const ValueType& v) { return std::to_string(unsigned(v)); }
};
template <unsigned P> using GF = scl::details::FF<8, GFp<P>>;
template <class F> inline unsigned U(const F& f) { unsigned char b[F::ByteSize()]; f.Write(b); return b[0]; }
#endif
