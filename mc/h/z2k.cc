// C10: Z_{2^K} for every K in 1..128 against 128-bit integer arithmetic.
#include "mc.h"
#include "scl/math/z2k.h"
#include <memory>
#include <set>
#include <utility>
using mc::fmt;
typedef unsigned __int128 u128; typedef uint64_t u64;
#ifndef KLO
#define KLO 1
#define KHI 128
#endif
namespace {
std::string S(u128 v) { if (!v) return "0"; std::string s; while (v) { s.insert(s.begin(), char('0' + int(v % 10))); v /= 10; } return s; }
template <size_t K> struct Z { static u128 mask() { return K == 128 ? ~(u128)0 : (((u128)1 << (K % 128)) - 1); } };
// The operations of one Z2k<K>, behind function pointers so that the driver is compiled once.
struct El { alignas(16) unsigned char raw[16]; };
struct Ops {
  size_t K, bytes, bits, sbits;
  void (*ctor)(El&, u128); void (*zero)(El&); void (*read)(El&, const unsigned char*); void (*write)(const El&, unsigned char*);
  void (*bin)(El& r, const El& a, const El& b, int op); void (*inp)(El& a, const El& b, int op); void (*neg)(El& r, const El& a, int how); void (*inv)(El& r, const El& a, int how);
  unsigned (*lsb)(const El&); int (*cmp)(const El&, const El&); std::string (*str)(const El&);
};
template <size_t K> struct I {
  using T = scl::Z2k<K>; using V = typename T::ValueType;
  static_assert(sizeof(T) <= 16 && std::is_trivially_copyable<T>::value, "");
  static T& t(El& e) { return *reinterpret_cast<T*>(e.raw); } static const T& t(const El& e) { return *reinterpret_cast<const T*>(e.raw); }
  static void ctor(El& e, u128 v) { new (e.raw) T((V)v); } static void zero(El& e) { new (e.raw) T(); }
  static void read(El& e, const unsigned char* p) { new (e.raw) T(T::Read(p)); } static void write(const El& e, unsigned char* p) { t(e).Write(p); }
  static void bin(El& r, const El& a, const El& b, int op) { switch (op) { case 0: t(r) = t(a) + t(b); break; case 1: t(r) = t(a) - t(b); break; case 2: t(r) = t(a) * t(b); break; default: t(r) = t(a) / t(b); } }
  static void inp(El& a, const El& b, int op) { switch (op) { case 0: t(a) += t(b); break; case 1: t(a) -= t(b); break; case 2: t(a) *= t(b); break; default: t(a) /= t(b); } }
  static void neg(El& r, const El& a, int how) { switch (how) { case 0: t(r) = t(a); t(r).Negate(); break; case 1: t(r) = t(a).Negated(); break; default: t(r) = -t(a); } }
  static void inv(El& r, const El& a, int how) { if (how) { t(r) = t(a); t(r).Invert(); } else t(r) = t(a).Inverse(); }
  static unsigned lsb(const El& a) { return t(a).Lsb(); }
  static int cmp(const El& a, const El& b) { return (t(a) == t(b)) | (t(a) != t(b)) << 1 | t(a).Equal(t(b)) << 2; }
  static std::string str(const El& a) { return t(a).ToString(); }
  static Ops ops() { return {K, T::ByteSize(), T::BitSize(), T::SpecifiedBitSize(), ctor, zero, read, write, bin, inp, neg, inv, lsb, cmp, str}; }
};
u128 val(const Ops& o, const El& e) { std::unique_ptr<unsigned char[]> b(new unsigned char[o.bytes]); memset(b.get(), 0xEE, o.bytes); o.write(e, b.get()); u128 v = 0; memcpy(&v, b.get(), o.bytes); return v; }
void run(mc::Ctx& c, const Ops& O) {
  const size_t K = O.K; const u128 M = K == 128 ? ~(u128)0 : (((u128)1 << (K % 128)) - 1);
  auto Kk = [K](const char* w) { return fmt("z2k/%s/K=%zu", w, K); };
  auto ctor = [&](u128 v) { El e; O.ctor(e, v); return e; };
  auto V = [&](const El& e) { return val(O, e); };
  if (O.bytes != (K + 7) / 8 || O.bits != K || O.sbits != K) c.fail(Kk("sizes"), "ByteSize/BitSize");
  std::set<u128> s; auto put = [&](u128 v) { s.insert(v & M); };
  if (K <= 6) for (unsigned v = 0; v < (1u << K); ++v) put(v);
  else {
    for (size_t i = 0; i < K; ++i) if (c.thorough || i < 4 || i + 4 > K || i % 8 == 0 || i % 8 == 7) { put((u128)1 << i); put(((u128)1 << i) + 1); put(((u128)1 << i) - 1); put(~((u128)1 << i)); }
    for (u64 v : {0ull, 1ull, 2ull, 3ull, 5ull, 6ull, 7ull, 11ull, 13ull, 255ull, 0x5555555555555555ull, 0x123456789abcdefull, ~0ull}) { put(v); put(((u128)v << 64) | v); put(((u128)v << 64) | 1); put(~(u128)v); }
  }
  std::vector<u128> A(s.begin(), s.end());
  { El z; O.zero(z); if (V(z) != 0) c.fail(Kk("default"), "Z2k() != 0"); }
  for (u128 a : A) {
    c.one();
    for (u128 hi : {(u128)0, ~M}) {      // raw constructor values beyond 2^K denote the residue
      El x = ctor(a | hi), r, y; c.ops(9);
      if (V(x) != a) c.fail(Kk("construct"), S(a));
      if (O.str(x) != S(a)) c.fail(Kk("tostring"), S(a) + " printed " + O.str(x));
      if (O.lsb(x) != (unsigned)(a & 1)) c.fail(Kk("lsb"), S(a));
      for (int h = 0; h < 3; ++h) { O.neg(r, x, h); if (V(r) != (((u128)0 - a) & M) || V(x) != a) c.fail(Kk("negate"), S(a) + fmt(" form %d", h)); }
      y = x; O.inp(y, y, 0); if (V(y) != ((a + a) & M)) c.fail(Kk("alias-add"), S(a));
      y = x; O.inp(y, y, 1); if (V(y) != 0) c.fail(Kk("alias-sub"), S(a));
      y = x; O.inp(y, y, 2); if (V(y) != ((a * a) & M)) c.fail(Kk("alias-mul"), S(a));
      for (int h = 0; h < 2; ++h) {
        O.zero(r); std::string m; int o = mc::outcome_of([&] { O.inv(r, x, h); }, &m);
        if (a & 1) {
          if (o) c.fail(Kk("inverse-throws"), S(a) + ": " + m);
          else if (((V(r) * a) & M) != (1 & M)) c.fail(Kk("inverse"), "inverse of " + S(a) + " modulo 2^K came out as " + S(V(r)));
          c.outcome((u64)V(r));
        } else if (o != 1) c.fail(Kk("inverse-even"), "inverting even " + S(a) + " did not throw");
      }
      if (a & 1) { y = x; O.inp(y, y, 3); if (V(y) != (1 & M)) c.fail(Kk("alias-div"), S(a) + "/itself = " + S(V(y))); }
      else { El three = ctor(3); if (mc::outcome_of([&] { O.inp(three, x, 3); }) != 1) c.fail(Kk("div-even"), S(a)); }
    }
    // reading touches exactly ByteSize bytes, at any alignment, and drops bits above K
    for (int off : {0, 1, 3}) for (int top = 0; top < 2; ++top) {
      size_t n = O.bytes; std::unique_ptr<unsigned char[]> b(new unsigned char[n + off]); memset(b.get(), 0xAB, n + off);
      u128 e = a | (top ? ~M : 0); memcpy(b.get() + off, &e, n);
      El x; O.read(x, b.get() + off); c.ops();
      if (V(x) != a) c.fail(Kk("read"), S(a) + " read back as " + S(V(x)));
      std::unique_ptr<unsigned char[]> w(new unsigned char[n + 8 + off]); memset(w.get(), 0x5A, n + 8 + off);
      O.write(x, w.get() + off); c.ops(); u128 back = 0; memcpy(&back, w.get() + off, n);
      if (back != a) c.fail(Kk("write"), S(a));
      for (int k = 0; k < off; ++k) if (w[k] != 0x5A) c.fail(Kk("write-before"), S(a));
      for (int k = 0; k < 8; ++k) if (w[off + n + k] != 0x5A) c.fail(Kk("write-beyond"), S(a));
    }
  }
  El one = ctor(1), z; O.zero(z);
  for (u128 a : A) for (u128 b : A) {
    c.cases(); c.ops(4); c.checked(4);
    El x = ctor(a), y = ctor(b), xs, r, w; O.bin(xs, x, one, 1); O.inp(xs, one, 0);   // left operand un-normalised, as earlier arithmetic leaves it
    static const char* nm[] = {"add", "sub", "mul"}; u128 ex[] = {(a + b) & M, (a - b) & M, (a * b) & M};
    for (int op = 0; op < 3; ++op) {
      O.zero(r); O.bin(r, xs, y, op); if (V(r) != ex[op]) c.fail(Kk(nm[op]), S(a) + "," + S(b) + " -> " + S(V(r)));
      w = xs; O.inp(w, y, op); if (V(w) != ex[op] || V(y) != b || V(xs) != a) c.fail(Kk(nm[op]) + "/in-place", S(a) + "," + S(b));
    }
    int eq = a == b ? 5 : 2;
    if (O.cmp(xs, y) != eq || O.cmp(x, y) != eq || O.cmp(y, xs) != eq) c.fail(Kk("equal"), S(a) + "==" + S(b));
    O.zero(r); O.bin(r, x, y, 1); if ((O.cmp(r, z) == 5) != (a == b)) c.fail(Kk("equal-zero"), S(a) + "-" + S(b));
    if (b & 1) { c.ops(); O.bin(r, x, y, 3); if (((V(r) * b) & M) != a) c.fail(Kk("div"), S(a) + "/" + S(b) + " = " + S(V(r))); }
  }
  c.count("K covered");
}
template <size_t... Is> std::vector<Ops> table(std::index_sequence<Is...>) { return {I<KLO + Is>::ops()...}; }
}
MC_SECTION(z2k, 4, 8) { auto t = table(std::make_index_sequence<KHI - KLO + 1>{}); for (size_t i = 0; i < t.size(); ++i) if ((int)(i % c.shards) == c.shard) run(c, t[i]); }
