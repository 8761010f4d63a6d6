// C09: the two real prime fields against integer arithmetic modulo p (reference in 128-bit / schoolbook 256-bit).
#include "mc.h"
#include "scl/math/ff.h"
#include <set>
using mc::fmt;
typedef unsigned __int128 u128; typedef __int128 i128; typedef uint64_t u64;
namespace {
std::string S(u128 v) { if (!v) return "0"; std::string s; while (v) { s.insert(s.begin(), char('0' + int(v % 10))); v /= 10; } return s; }
template <unsigned B> struct R;   // reference
template <> struct R<61> { static u128 p() { return ((u128)1 << 61) - 1; } static u128 mul(u128 a, u128 b) { return a * b % p(); } };
template <> struct R<127> {
  static u128 p() { return ((u128)1 << 127) - 1; }
  static u128 add(u128 a, u128 b) { u128 r = p() - b; return a >= r ? a - r : a + b; }
  static u128 mul(u128 a, u128 b) {   // double-and-add with overflow-free modular addition, 8 bits at a time
    u128 r = 0;
    for (int i = 127; i >= 0; --i) { r = add(r, r); if ((b >> i) & 1) r = add(r, a); }
    return r;
  }
};
template <unsigned B> u128 radd(u128 a, u128 b) { u128 p = R<B>::p(); u128 r = p - b; return a >= r ? a - r : a + b; }
template <unsigned B> u128 rneg(u128 a) { return a ? R<B>::p() - a : 0; }
template <unsigned B> u128 rpow(u128 a, u128 e) { u128 r = 1; while (e) { if (e & 1) r = R<B>::mul(r, a); a = R<B>::mul(a, a); e >>= 1; } return r; }

template <unsigned B> using F = scl::FF<B>;
template <unsigned B> F<B> mk(u128 v) { alignas(16) unsigned char b[16]; memset(b, 0, 16); memcpy(b, &v, F<B>::ByteSize()); return F<B>::Read(b); }
template <unsigned B> u128 val(const F<B>& f) { alignas(16) unsigned char b[16]; memset(b, 0, 16); f.Write(b); u128 v = 0; memcpy(&v, b, F<B>::ByteSize()); return v; }

// Values with all combinations of structurally interesting limbs.
template <unsigned B> std::vector<u128> alphabet(bool thorough) {
  std::set<u128> s; u128 p = R<B>::p();
  auto put = [&](u128 v) { s.insert(v % p); };
  for (unsigned i = 0; i < B; ++i) { u128 x = (u128)1 << i; for (int d = -1; d <= 1; ++d) { put(x + (u128)(i128)d + (d < 0 && x == 0 ? p : 0)); put(p - x + (u128)(i128)d); } }
  for (int d = 0; d <= 8; ++d) { put(d); put(p - 1 - d); put(p / 2 + d); put(p / 3 + d); put(p / 2 - d); }
  std::vector<u64> limb = {0, 1, 2, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull, ~0ull - 1, 0x5555555555555555ull, 0xaaaaaaaaaaaaaaaaull, 0x123456789abcdef0ull};
  if (B == 127) { for (u64 h : limb) for (u64 l : limb) put(((u128)h << 64) | l); }
  else for (u64 h : limb) { put(h); for (u64 l : limb) put(((u128)(h << 32)) ^ l); }
  if (thorough) { u64 x = 0x9E3779B97F4A7C15ull; for (int i = 0; i < (B == 127 ? 300 : 600); ++i) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; u64 y = x * 0xd1342543de82ef95ull; put(((u128)x << 64) | y); } }
  return {s.begin(), s.end()};
}
template <unsigned B> void unary(mc::Ctx& c) {
  u128 p = R<B>::p(); auto A = alphabet<B>(c.thorough);
  auto K = [](const char* w) { return fmt("field%u/%s", B, w); };
  for (u128 a : A) {
    c.one();
    F<B> x = mk<B>(a);
    if (val<B>(x) != a) c.fail(K("read"), S(a));
    if (x.ToString() != S(a)) c.fail(K("tostring"), S(a) + " printed " + x.ToString());
    F<B> n = x; n.Negate(); c.ops(3);
    if (val<B>(n) != rneg<B>(a)) c.fail(K("negate"), S(a));
    F<B> n2 = x.Negated(); if (val<B>(n2) != rneg<B>(a) || val<B>(x) != a) c.fail(K("negated"), S(a));
    F<B> n3 = -x; if (val<B>(n3) != rneg<B>(a)) c.fail(K("unary-minus"), S(a));
    // aliasing
    F<B> y = x; y += y; if (val<B>(y) != radd<B>(a, a)) c.fail(K("alias-add"), S(a));
    y = x; y -= y; if (val<B>(y) != 0) c.fail(K("alias-sub"), S(a));
    y = x; y *= y; if (val<B>(y) != R<B>::mul(a, a)) c.fail(K("alias-mul"), S(a));
    c.ops(3);
    std::string m; F<B> inv;
    int o = mc::outcome_of([&] { inv = x.Inverse(); }, &m); c.ops();
    if (a == 0) { if (o != 1) c.fail(K("inverse-zero"), "Inverse() of 0 did not throw");
      y = x; if (mc::outcome_of([&] { y.Invert(); }) != 1) c.fail(K("invert-zero"), "Invert() of 0 did not throw");
      y = F<B>(1); if (mc::outcome_of([&] { y /= x; }) != 1) c.fail(K("div-zero"), "1/0 did not throw"); }
    else {
      if (o != 0) c.fail(K("inverse-throws"), S(a) + ": " + m);
      else {
        u128 r = rpow<B>(a, p - 2);
        if (val<B>(inv) != r) c.fail(K("inverse"), "1/" + S(a) + " = " + S(val<B>(inv)) + " expected " + S(r));
        y = x; y.Invert(); if (val<B>(y) != r) c.fail(K("invert"), S(a));
        y = x; y /= y; if (val<B>(y) != 1) c.fail(K("alias-div"), S(a));
        c.ops(2);
      }
      c.outcome((u64)val<B>(inv));
    }
    // two encodings of the same residue are one element
    u128 top = B == 61 ? (((u128)1 << 64) - 1) : ~(u128)0;
    for (u128 e = a; ; e += p) {
      F<B> z = mk<B>(e); c.ops();
      if (val<B>(z) != a || !(z == x) || z != x || z.ToString() != x.ToString()) c.fail(K("read-noncanonical"), S(e) + " read as " + S(val<B>(z)));
      if (top - e < p) break;
    }
  }
  if (F<B>::ByteSize() != (B == 61 ? 8 : 16) || F<B>::BitSize() != B) c.fail(K("sizes"), "ByteSize/BitSize");
  c.sample(fmt("field %u: %zu operand values", B, A.size()));
}
template <unsigned B> void ints(mc::Ctx& c) {
  u128 p = R<B>::p(); auto K = [](const char* w) { return fmt("field%u/%s", B, w); };
  auto one = [&](int v) {
    c.one();
    u128 r = v >= 0 ? (u128)v : p - (u128)(-(i128)v);
    if (val<B>(F<B>(v)) != r) c.fail(K("from-int"), fmt("FF(%d) = %s", v, S(val<B>(F<B>(v))).c_str()));
  };
  for (int v = -70000; v <= 70000; ++v) one(v);
  for (int s = 0; s < 31; ++s) for (int d = -40; d <= 40; ++d) { long long x = (1ll << s) + d; if (x <= INT32_MAX) one((int)x); if (-x >= INT32_MIN) one((int)-x); }
  for (long long d = 0; d < 3000; ++d) { one((int)(INT32_MAX - d)); one((int)(INT32_MIN + d)); }
  if (val<B>(F<B>()) != 0) c.fail(K("default"), "FF() != 0");
}
template <unsigned B> void binary(mc::Ctx& c) {
  auto A = alphabet<B>(c.thorough); u128 p = R<B>::p();
  auto K = [](const char* w) { return fmt("field%u/%s", B, w); };
  std::vector<u128> inv(A.size());
  for (size_t i = 0; i < A.size(); ++i) if ((int)(i % c.shards) == c.shard) {
    u128 a = A[i]; F<B> x = mk<B>(a);
    for (size_t j = 0; j < A.size(); ++j) {
      u128 b = A[j]; F<B> y = mk<B>(b); c.cases(); c.ops(4); c.checked(4);
      u128 s = val<B>(x + y), d = val<B>(x - y), m = val<B>(x * y);
      if (s != radd<B>(a, b)) c.fail(K("add"), S(a) + " + " + S(b) + " = " + S(s));
      if (d != radd<B>(a, rneg<B>(b))) c.fail(K("sub"), S(a) + " - " + S(b) + " = " + S(d));
      u128 rm = R<B>::mul(a, b);
      if (m != rm) c.fail(K("mul"), S(a) + " * " + S(b) + " = " + S(m) + " expected " + S(rm));
      if ((x == y) != (a == b) || (x != y) != (a != b) || x.Equal(y) != (a == b)) c.fail(K("equal"), S(a) + " == " + S(b));
      F<B> z = x; z += y; if (val<B>(z) != s || &(z += y) != &z) c.fail(K("add-in-place"), S(a));
      z = x; z -= y; if (val<B>(z) != d) c.fail(K("sub-in-place"), S(a));
      z = x; z *= y; if (val<B>(z) != m) c.fail(K("mul-in-place"), S(a));
      if (val<B>(x) != a || val<B>(y) != b) c.fail(K("operand-modified"), S(a) + "," + S(b));
      if (b && (j % 7 == i % 7)) { c.ops();
        u128 q = val<B>(x / y); if (R<B>::mul(q, b) != a || q >= p) c.fail(K("div"), S(a) + " / " + S(b) + " = " + S(q)); }
      c.outcome((u64)m);
    }
  }
}
}
MC_SECTION(unary61) { unary<61>(c); }
MC_SECTION(unary127) { unary<127>(c); }
MC_SECTION(ints61) { ints<61>(c); }
MC_SECTION(ints127) { ints<127>(c); }
MC_SECTION(binary61, 2, 8) { binary<61>(c); }
MC_SECTION(binary127, 6, 8) { binary<127>(c); }
