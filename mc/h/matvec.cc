// C12: vectors and matrices against index-by-index definitions, over all shapes and contents within bounds.
#include "mc.h"
#include "gfp.h"
#include "scl/math.h"
using mc::fmt;
typedef std::vector<int> IV;
namespace {
template <class T> struct R;   // element ring under test: integers modulo `m()`
template <unsigned P> struct R<GF<P>> { static int m() { return P; } static GF<P> mk(int v) { return GF<P>(v); } static int val(const GF<P>& e) { return (int)U(e); } static const char* n() { return "GF"; } };
template <size_t K> struct R<scl::Z2k<K>> { static int m() { return 1 << K; } static scl::Z2k<K> mk(int v) { return scl::Z2k<K>((typename scl::Z2k<K>::ValueType)v); } static int val(const scl::Z2k<K>& e) { unsigned char b[1]; e.Write(b); return b[0]; } static const char* n() { return "Z2k"; } };
template <> struct R<scl::FF<61>> { static int m() { return 101; } static scl::FF<61> mk(int v) { return scl::FF<61>(v); } static int val(const scl::FF<61>& e) { unsigned char b[8]; e.Write(b); uint64_t v; memcpy(&v, b, 8); return v < 2000000 ? (int)v : -1; } static const char* n() { return "FF61"; } };

template <class T> scl::Vec<T> V(const IV& x) { std::vector<T> e; for (int v : x) e.push_back(R<T>::mk(v)); return scl::Vec<T>(e); }
template <class T> IV G(const scl::Vec<T>& v) { IV r; for (size_t i = 0; i < v.Size(); ++i) r.push_back(R<T>::val(v[i])); return r; }
template <class T> scl::Mat<T> M(int r, int c, const IV& x) { scl::Mat<T> m(r, c); for (int i = 0; i < r; ++i) for (int j = 0; j < c; ++j) m(i, j) = R<T>::mk(x[i * c + j]); return m; }
template <class T> IV G(const scl::Mat<T>& m) { IV r; for (size_t i = 0; i < m.Rows(); ++i) for (size_t j = 0; j < m.Cols(); ++j) r.push_back(R<T>::val(m(i, j))); return r; }
IV digits(long k, int n, int p) { IV r(n); for (int i = 0; i < n; ++i) { r[i] = k % p; k /= p; } return r; }
long ipow(long b, int e) { long r = 1; while (e--) r *= b; return r; }
// Contents: everything when small, otherwise unit vectors, dense patterns and the zero object.
std::vector<IV> contents(int n, int p, long cap) {
  std::vector<IV> o; if (n == 0) { o.push_back({}); return o; }
  double tot = 1; for (int i = 0; i < n; ++i) tot *= p;
  if (tot <= cap) { for (long k = 0; k < (long)tot; ++k) o.push_back(digits(k, n, p)); return o; }
  o.push_back(IV(n, 0)); for (int i = 0; i < n; ++i) { IV u(n, 0); u[i] = 1; o.push_back(u); if (i % 2) { u[i] = p - 1; o.push_back(u); } }
  for (int s = 1; s <= 4; ++s) { IV d(n); for (int i = 0; i < n; ++i) d[i] = (i * s + s * s + (i * i) / 3) % p; o.push_back(d); } o.push_back(IV(n, p - 1));
  return o;
}
template <class T> void vecs(mc::Ctx& c, int maxn, long cap) {
  int p = R<T>::m(); std::string N = std::string("/") + R<T>::n();
  auto mod = [p](long v) { return (int)(((v % p) + p) % p); };
  auto md = [&](IV v) { for (auto& x : v) x = mod(x); return v; };
  auto norm = [&](IV v) { if (p == 101) return v; return md(v); };
  (void)norm;
  for (int n = 0; n <= maxn; ++n) { auto C = contents(n, p, cap); for (auto& a : C) {
    auto x = V<T>(a); c.one(); c.ops(8);
    long sum = 0; for (int v : a) sum += v;
    if (p != 101 ? R<T>::val(x.Sum()) != mod(sum) : R<T>::val(x.Sum()) != sum) c.fail("vec/sum" + N, mc::join(a));
    for (int s : {0, 1, 2, p - 1}) { auto sc = R<T>::mk(s); IV e; for (int v : a) e.push_back(p == 101 ? v * s : mod((long)v * s)); auto y = x.ScalarMultiply(sc); if (G<T>(y) != e || G<T>(x) != a) c.fail("vec/scalar" + N, mc::join(a)); auto z = x; auto& zr = z.ScalarMultiplyInPlace(sc); if (G<T>(z) != e || &zr != &z) c.fail("vec/scalar-in-place" + N, mc::join(a)); }
    if (n) { auto r = x.ToRowMatrix(), k = x.ToColumnMatrix(); if (r.Rows() != 1 || (int)r.Cols() != n || G<T>(r) != a || (int)k.Rows() != n || k.Cols() != 1 || G<T>(k) != a) c.fail("vec/to-matrix" + N, mc::join(a)); }
    IV it, rit; for (auto& e : x) it.push_back(R<T>::val(e)); for (auto i = x.rbegin(); i != x.rend(); ++i) rit.insert(rit.begin(), R<T>::val(*i)); const auto& cx = x; IV cit; for (auto i = cx.cbegin(); i != cx.cend(); ++i) cit.push_back(R<T>::val(*i)); IV crit; for (auto i = cx.crbegin(); i != cx.crend(); ++i) crit.insert(crit.begin(), R<T>::val(*i));
    if (it != a || rit != a || cit != a || crit != a || (int)x.Size() != n) c.fail("vec/iterate" + N, mc::join(a));
    scl::Vec<T> em; em.Reserve(n); for (int v : a) em.Emplace(R<T>::mk(v)); scl::Vec<T> rg(x.begin(), x.end()); if (!em.Equals(x) || !rg.Equals(x) || !scl::Vec<T>(x.ToStlVector()).Equals(x)) c.fail("vec/construct" + N, mc::join(a));
    { std::string s = n ? "[" : "[ EMPTY_VECTOR ]"; for (int i = 0; i < n; ++i) s += std::to_string(a[i]) + (i + 1 < n ? ", " : "]"); if (x.ToString() != s) c.fail("vec/tostring" + N, x.ToString() + " for " + s); }
    auto y = x; y.AddInPlace(y); IV e; for (int v : a) e.push_back(p == 101 ? 2 * v : mod(2 * v)); if (G<T>(y) != e) c.fail("vec/self-add" + N, mc::join(a));
    y = x; y.SubtractInPlace(y); if (G<T>(y) != IV(n, 0)) c.fail("vec/self-sub" + N, mc::join(a));
    y = x; y.MultiplyEntryWiseInPlace(y); e.clear(); for (int v : a) e.push_back(p == 101 ? v * v : mod(v * v)); if (G<T>(y) != e) c.fail("vec/self-mul" + N, mc::join(a));
    for (auto& b : C) {
      c.cases(); c.ops(8); c.checked(); auto w = V<T>(b); IV ea, es, ee; long dot = 0; for (int i = 0; i < n; ++i) { ea.push_back(p == 101 ? a[i] + b[i] : mod(a[i] + b[i])); es.push_back(mod(a[i] - b[i])); ee.push_back(p == 101 ? a[i] * b[i] : mod(a[i] * b[i])); dot += a[i] * b[i]; }
      if (G<T>(x.Add(w)) != ea) c.fail("vec/add" + N, mc::join(a) + " + " + mc::join(b));
      auto d = x.Subtract(w); if (p == 101 ? !d.Add(w).Equals(x) : G<T>(d) != es) c.fail("vec/sub" + N, mc::join(a) + " - " + mc::join(b));
      if (G<T>(x.MultiplyEntryWise(w)) != ee) c.fail("vec/mul" + N, mc::join(a) + " * " + mc::join(b));
      if (R<T>::val(x.Dot(w)) != (p == 101 ? dot : mod(dot))) c.fail("vec/dot" + N, mc::join(a) + " . " + mc::join(b));
      if (x.Equals(w) != (a == b)) c.fail("vec/equals" + N, mc::join(a) + " == " + mc::join(b));
      auto t = x; if (!t.AddInPlace(w).Equals(x.Add(w))) c.fail("vec/add-in-place" + N, mc::join(a)); t = x; if (!t.SubtractInPlace(w).Equals(d)) c.fail("vec/sub-in-place" + N, mc::join(a)); t = x; if (!t.MultiplyEntryWiseInPlace(w).Equals(x.MultiplyEntryWise(w))) c.fail("vec/mul-in-place" + N, mc::join(a));
      if (G<T>(x) != a || G<T>(w) != b) c.fail("vec/operand-modified" + N, mc::join(a));
      c.outcome(dot);
    }
    for (int m = 0; m <= maxn; ++m) if (m != n) { auto w = V<T>(IV(m, 1)); auto t = x; std::string D = fmt("sizes %d and %d", n, m); c.ops(8);
      if (mc::outcome_of([&] { x.Add(w); }) != 1) c.fail("vec/mismatch-add" + N, D); if (mc::outcome_of([&] { x.Subtract(w); }) != 1) c.fail("vec/mismatch-sub" + N, D); if (mc::outcome_of([&] { x.MultiplyEntryWise(w); }) != 1) c.fail("vec/mismatch-mul" + N, D); if (mc::outcome_of([&] { x.Dot(w); }) != 1) c.fail("vec/mismatch-dot" + N, D);
      if (mc::outcome_of([&] { t.AddInPlace(w); }) != 1) c.fail("vec/mismatch-add-in-place" + N, D); if (mc::outcome_of([&] { t.SubtractInPlace(w); }) != 1) c.fail("vec/mismatch-sub-in-place" + N, D); if (mc::outcome_of([&] { t.MultiplyEntryWiseInPlace(w); }) != 1) c.fail("vec/mismatch-mul-in-place" + N, D);
      if (x.Equals(w)) c.fail("vec/mismatch-equals" + N, D); if (!t.Equals(x)) c.fail("vec/mismatch-modified" + N, D); }
    if (c.fails.size() > 30) return;
  } }
}
template <class T> void mats(mc::Ctx& c, int maxd, long cap, long mulcap) {
  int p = R<T>::m(); std::string N = std::string("/") + R<T>::n(); bool big = p == 101;
  auto mod = [p, big](long v) { return big ? (int)v : (int)(((v % p) + p) % p); };
  for (int r = 1; r <= maxd; ++r) for (int k = 1; k <= maxd; ++k) {
    auto C = contents(r * k, p, cap); std::string sh = fmt("%dx%d ", r, k);
    for (size_t ai = 0; ai < C.size(); ++ai) { auto& a = C[ai]; auto x = M<T>(r, k, a); c.one(); c.ops(10); std::string D = sh + mc::join(a);
      if ((int)x.Rows() != r || (int)x.Cols() != k || x.IsSquare() != (r == k)) c.fail("mat/shape" + N, D);
      { std::vector<T> e; for (int v : a) e.push_back(R<T>::mk(v)); auto f = scl::Mat<T>::FromVector(r, k, e); if (!f.Equals(x) || G<T>(f) != a) c.fail("mat/from-vector" + N, D); if (mc::outcome_of([&] { scl::Mat<T>::FromVector(r, k + 1, e); }) != 1) c.fail("mat/from-vector-mismatch" + N, D); }
      auto t = x.Transpose(); bool ok = (int)t.Rows() == k && (int)t.Cols() == r; for (int i = 0; ok && i < r; ++i) for (int j = 0; j < k; ++j) ok &= R<T>::val(t(j, i)) == a[i * k + j]; if (!ok || !t.Transpose().Equals(x)) c.fail("mat/transpose" + N, D);
      bool id = r == k; for (int i = 0; id && i < r; ++i) for (int j = 0; j < k; ++j) id &= a[i * k + j] == (i == j); if (x.IsIdentity() != id) c.fail("mat/is-identity" + N, D);
      for (int s : {0, 1, 2, p - 1}) { IV e; for (int v : a) e.push_back(mod((long)v * s)); auto y = x.ScalarMultiply(R<T>::mk(s)); auto z = x; if (G<T>(y) != e || !z.ScalarMultiplyInPlace(R<T>::mk(s)).Equals(y) || G<T>(x) != a) c.fail("mat/scalar" + N, D); }
      for (int rr = 1; rr <= r * k + 1; ++rr) for (int cc = 1; cc <= r * k + 1; ++cc) { auto y = x; int o = mc::outcome_of([&] { y.Resize(rr, cc); }); if (rr * cc == r * k ? (o != 0 || (int)y.Rows() != rr || (int)y.Cols() != cc || G<T>(y) != a) : (o != 1 || !y.Equals(x))) c.fail("mat/resize" + N, D + fmt(" to %dx%d", rr, cc)); }
      auto y = x; y.AddInPlace(y); IV e; for (int v : a) e.push_back(mod(2 * v)); if (G<T>(y) != e) c.fail("mat/self-add" + N, D); y = x; y.SubtractInPlace(y); if (G<T>(y) != IV(r * k, 0)) c.fail("mat/self-sub" + N, D); y = x; y.MultiplyEntryWiseInPlace(y); e.clear(); for (int v : a) e.push_back(mod(v * v)); if (G<T>(y) != e) c.fail("mat/self-mul" + N, D);
      { std::string s = x.ToString(); IV got; std::string num; int rows = 0; for (char ch : s) { if (ch == '[') rows++; if (ch >= '0' && ch <= '9') num += ch; else if (!num.empty()) { got.push_back(std::stoi(num)); num.clear(); } } if (got != a || rows != r) c.fail("mat/tostring" + N, D + " printed " + s); }
      for (auto& b : C) { auto w = M<T>(r, k, b); c.cases(); c.ops(7); c.checked(); IV ea, ee; for (int i = 0; i < r * k; ++i) { ea.push_back(mod(a[i] + b[i])); ee.push_back(mod(a[i] * b[i])); } std::string DD = D + " with " + mc::join(b);
        auto A = x.Add(w); auto S = x.Subtract(w); auto E = x.MultiplyEntryWise(w); if (G<T>(A) != ea) c.fail("mat/add" + N, DD); if (!S.Add(w).Equals(x)) c.fail("mat/sub" + N, DD); if (!big) { IV es; for (int i = 0; i < r * k; ++i) es.push_back(mod(a[i] - b[i])); if (G<T>(S) != es) c.fail("mat/sub" + N, DD); } if (G<T>(E) != ee) c.fail("mat/mul-entry-wise" + N, DD);
        auto q = x; if (!q.AddInPlace(w).Equals(A)) c.fail("mat/add-in-place" + N, DD); q = x; if (!q.SubtractInPlace(w).Equals(S)) c.fail("mat/sub-in-place" + N, DD); q = x; if (!q.MultiplyEntryWiseInPlace(w).Equals(E)) c.fail("mat/mul-in-place" + N, DD);
        if (x.Equals(w) != (a == b)) c.fail("mat/equals" + N, DD); if (G<T>(x) != a || G<T>(w) != b) c.fail("mat/operand-modified" + N, DD); }
      if (ai < 4) for (int r2 = 1; r2 <= maxd; ++r2) for (int k2 = 1; k2 <= maxd; ++k2) { auto w = M<T>(r2, k2, IV(r2 * k2, 1)); auto q = x; c.ops(4); std::string DD = sh + fmt("with %dx%d", r2, k2); bool same = r == r2 && k == k2;
        if (mc::outcome_of([&] { q.AddInPlace(w); }) != (same ? 0 : 1) || mc::outcome_of([&] { x.Add(w); }) != (same ? 0 : 1)) c.fail("mat/mismatch-add" + N, DD); q = x; if (mc::outcome_of([&] { q.SubtractInPlace(w); }) != (same ? 0 : 1) || mc::outcome_of([&] { x.Subtract(w); }) != (same ? 0 : 1)) c.fail("mat/mismatch-sub" + N, DD); q = x;
        if (mc::outcome_of([&] { q.MultiplyEntryWiseInPlace(w); }) != (same ? 0 : 1) || mc::outcome_of([&] { x.MultiplyEntryWise(w); }) != (same ? 0 : 1)) c.fail("mat/mismatch-mul" + N, DD); if (mc::outcome_of([&] { x.Multiply(w); }) != (k == r2 ? 0 : 1)) c.fail("mat/mismatch-product" + N, DD); if (!same && x.Equals(w)) c.fail("mat/mismatch-equals" + N, DD); }
      if (c.fails.size() > 30) return;
    }
    // products: bilinear, so all pairs of units determine them; small shapes exhaustively besides
    for (int m = 1; m <= maxd; ++m) { auto A = contents(r * k, p, mulcap), B = contents(k * m, p, mulcap); for (auto& a : A) for (auto& b : B) { c.one(); auto x = M<T>(r, k, a), w = M<T>(k, m, b); IV e(r * m, 0); for (int i = 0; i < r; ++i) for (int j = 0; j < m; ++j) { long s = 0; for (int q = 0; q < k; ++q) s += a[i * k + q] * b[q * m + j]; e[i * m + j] = mod(s); } auto z = x.Multiply(w); c.outcome(mc::mix(e[0], e[e.size() - 1])); if ((int)z.Rows() != r || (int)z.Cols() != m || G<T>(z) != e) c.fail("mat/product" + N, sh + fmt("times %dx%d: ", k, m) + mc::join(a) + " by " + mc::join(b)); if (G<T>(x) != a || G<T>(w) != b) c.fail("mat/product-modifies" + N, sh); } }
  }
  for (int n = 1; n <= 6; ++n) { auto I = scl::Mat<T>::Identity(n); bool ok = (int)I.Rows() == n && (int)I.Cols() == n; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) ok &= R<T>::val(I(i, j)) == (i == j); c.one(); if (!ok || !I.IsIdentity()) c.fail("mat/identity" + N, fmt("%d", n)); scl::Mat<T> z(n); if (G<T>(z) != IV(n * n, 0) || z.IsIdentity()) c.fail("mat/zero" + N, fmt("%d", n)); for (int m = 1; m <= 6; ++m) { scl::Mat<T> w(n, m); if (w.IsIdentity()) c.fail("mat/zero-identity" + N, ""); if (n != m) { for (int i = 0; i < std::min(n, m); ++i) w(i, i) = T(1); if (w.IsIdentity()) c.fail("mat/rect-identity" + N, fmt("%dx%d", n, m)); } } }
  for (int n = 0; n < 3; ++n) { c.one(); if (mc::outcome_of([&] { scl::Mat<T> z(0, n); }) != 1 || mc::outcome_of([&] { scl::Mat<T> z(n, 0); }) != 1) c.fail("mat/empty-accepted" + N, fmt("%d", n)); }
  { scl::Mat<T> z; if (z.Rows() || z.Cols()) c.fail("mat/default" + N, ""); if (z.ToString() != "[ EMPTY_MATRIX ]") c.fail("mat/empty-tostring" + N, ""); }
}
// Long vectors and big matrices over the real element types, with values of full width; every entry against the scalar operations.
template <class T> T el(int pat, size_t i, size_t n) {
  unsigned char b[32]; for (int k = 0; k < 32; k += 8) { uint64_t r = mc::mix(pat * 131 + k, i); memcpy(b + k, &r, 8); }
  switch (pat) { case 0: return T() - T(1); case 1: return T::Read(b); case 2: return i % 2 ? T() : T() - T(1); case 3: return i + 1 == n ? T(1) : T(); case 4: return i == 0 ? T(5) : T(); case 5: return T((int)i + 1); default: return T(); }
}
template <class T> void wide(mc::Ctx& c, std::vector<int> lens, std::vector<int> dims, const char* tn) {
  std::string N = std::string("/wide/") + tn; constexpr int P = 7;
  auto mkv = [&](int n, int pat) { std::vector<T> e; for (int i = 0; i < n; ++i) e.push_back(el<T>(pat, i, n)); return e; };
  auto is = [&](const scl::Vec<T>& v, const std::vector<T>& e) { if (v.Size() != e.size()) return false; for (size_t i = 0; i < e.size(); ++i) if (!(v[i] == e[i])) return false; return true; };
  for (int n : lens) for (int a = 0; a < P; ++a) { auto A = mkv(n, a); scl::Vec<T> x(A); c.one(); std::string D = fmt("%d entries, pattern %d", n, a);
    T sum; for (auto& e : A) sum += e; if (!(x.Sum() == sum)) c.fail("vec/sum" + N, D);
    { std::string s = n ? "[" : "[ EMPTY_VECTOR ]"; for (int i = 0; i < n; ++i) s += A[i].ToString() + (i + 1 < n ? ", " : "]"); if (x.ToString() != s) c.fail("vec/tostring" + N, D); }
    for (int sp : {0, 1, 5}) { T sc = el<T>(sp, 1, 9); auto e = A; for (auto& v : e) v = v * sc; auto y = x; if (!is(x.ScalarMultiply(sc), e) || !is(y.ScalarMultiplyInPlace(sc), e)) c.fail("vec/scalar" + N, D); }
    auto y = x; for (int i = 0; i < n; ++i) { auto w = x; w[i] = w[i] + T(1); if (w.Equals(x) || x.Equals(w)) c.fail("vec/equals" + N, D + fmt(", differing in entry %d", i)); } if (!y.Equals(x)) c.fail("vec/equals" + N, D);
    for (int m : {n - 1, n + 1}) if (m >= 0) { scl::Vec<T> w(m); if (mc::outcome_of([&] { x.Add(w); }) != 1 || mc::outcome_of([&] { x.Dot(w); }) != 1 || x.Equals(w)) c.fail("vec/mismatch" + N, D); }
    for (int b = 0; b < P; ++b) { auto B = mkv(n, b); scl::Vec<T> w(B); c.cases(); c.ops(7); c.checked(); auto ea = A, es = A, em = A; T dot; for (int i = 0; i < n; ++i) { ea[i] = A[i] + B[i]; es[i] = A[i] - B[i]; em[i] = A[i] * B[i]; dot += em[i]; } std::string DD = D + fmt(" with pattern %d", b);
      if (!is(x.Add(w), ea)) c.fail("vec/add" + N, DD); if (!is(x.Subtract(w), es)) c.fail("vec/sub" + N, DD); if (!is(x.MultiplyEntryWise(w), em)) c.fail("vec/mul" + N, DD); if (!(x.Dot(w) == dot)) c.fail("vec/dot" + N, DD);
      y = x; if (!is(y.AddInPlace(w), ea)) c.fail("vec/add-in-place" + N, DD); y = x; if (!is(y.SubtractInPlace(w), es)) c.fail("vec/sub-in-place" + N, DD); y = x; if (!is(y.MultiplyEntryWiseInPlace(w), em)) c.fail("vec/mul-in-place" + N, DD); } }
  auto mkm = [&](int r, int k, int pat) { scl::Mat<T> m(r, k); for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) m(i, j) = el<T>(pat, i * k + j, r * k); return m; };
  auto eq = [&](const scl::Mat<T>& x, int r, int k, auto f) { if ((int)x.Rows() != r || (int)x.Cols() != k) return false; for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) if (!(x(i, j) == f(i, j))) return false; return true; };
  size_t idx = 0; for (int r : dims) for (int k : dims) if (idx++ % c.shards == c.shard) for (int a : {0, 1, 3, 5}) { auto x = mkm(r, k, a); c.one(); std::string D = fmt("%dx%d, pattern %d", r, k, a);
    if (!eq(x.Transpose(), k, r, [&](int i, int j) { return x(j, i); })) c.fail("mat/transpose" + N, D);
    T sc = el<T>(1, 77, 0); auto y = x; if (!eq(x.ScalarMultiply(sc), r, k, [&](int i, int j) { return x(i, j) * sc; }) || !y.ScalarMultiplyInPlace(sc).Equals(x.ScalarMultiply(sc))) c.fail("mat/scalar" + N, D);
    for (int rr = 1; rr <= r * k; ++rr) if (r * k % rr == 0) { y = x; int kk = r * k / rr; y.Resize(rr, kk); if (!eq(y, rr, kk, [&](int i, int j) { int q = i * kk + j; return x(q / k, q % k); })) c.fail("mat/resize" + N, D + fmt(" to %dx%d", rr, kk)); }
    for (int i = 0; i < r; ++i) for (int j = 0; j < k; ++j) { y = x; y(i, j) = y(i, j) + T(1); if (y.Equals(x)) c.fail("mat/equals" + N, D + fmt(", differing in (%d, %d)", i, j)); }
    if (r == k && !a) { auto I = scl::Mat<T>::Identity(r); if (!I.IsIdentity() || !eq(I, r, r, [&](int i, int j) { return i == j ? T(1) : T(); })) c.fail("mat/identity" + N, D); for (int i = 0; i < r; ++i) for (int j = 0; j < r; ++j) { y = I; y(i, j) = y(i, j) + T(1); if (y.IsIdentity()) c.fail("mat/is-identity" + N, D + fmt(", changed at (%d, %d)", i, j)); y(i, j) = T() - T(1); if (y.IsIdentity()) c.fail("mat/is-identity" + N, D); } }
    if (x.IsIdentity() && !(r == 1 && k == 1)) c.fail("mat/is-identity" + N, D);
    for (int b : {0, 1, 2}) { auto w = mkm(r, k, b); c.cases(); c.ops(6); c.checked(); auto A = x.Add(w), S = x.Subtract(w), E = x.MultiplyEntryWise(w); if (!eq(A, r, k, [&](int i, int j) { return x(i, j) + w(i, j); })) c.fail("mat/add" + N, D); if (!eq(S, r, k, [&](int i, int j) { return x(i, j) - w(i, j); })) c.fail("mat/sub" + N, D); if (!eq(E, r, k, [&](int i, int j) { return x(i, j) * w(i, j); })) c.fail("mat/mul-entry-wise" + N, D);
      y = x; if (!y.AddInPlace(w).Equals(A)) c.fail("mat/add-in-place" + N, D); y = x; if (!y.SubtractInPlace(w).Equals(S)) c.fail("mat/sub-in-place" + N, D); y = x; if (!y.MultiplyEntryWiseInPlace(w).Equals(E)) c.fail("mat/mul-in-place" + N, D); }
    for (int m : {1, 2, 5, 8, 9, 17}) { auto w = mkm(k, m, 1); c.cases(); c.ops(); if (!eq(x.Multiply(w), r, m, [&](int i, int j) { T s; for (int q = 0; q < k; ++q) s += x(i, q) * w(q, j); return s; })) c.fail("mat/product" + N, D + fmt(" times %dx%d", k, m)); if (k != 3 && mc::outcome_of([&] { x.Multiply(mkm(3, m, 1)); }) != 1) c.fail("mat/mismatch-product" + N, D); } }
}
// Random vectors and matrices take the documented number of elements from the generator, in range.
template <class T> void rnd(mc::Ctx& c) {
  std::string N = std::string("/") + R<T>::n();
  for (int n = 0; n <= 12; ++n) for (unsigned mask = 0; mask < (n <= 8 ? 1u << n : 1u); ++mask) { c.one(); scl::PRG g, h; auto v = scl::Vec<T>::PartialRandom(n, [mask](size_t i) { return (mask >> i & 1) != 0; }, g); if ((int)v.Size() != n) c.fail("rnd/size" + N, ""); for (int i = 0; i < n; ++i) { if (mask >> i & 1) { if (!(v[i] == T::Random(h))) c.fail("rnd/selected" + N, fmt("n=%d mask=%u entry %d", n, mask, i)); } else if (!(v[i] == T())) c.fail("rnd/unselected" + N, fmt("n=%d mask=%u entry %d", n, mask, i)); } if (g.Counter() != h.Counter()) c.fail("rnd/consumption" + N, fmt("n=%d mask=%u", n, mask)); }
  for (int r = 1; r <= 4; ++r) for (int k = 1; k <= 4; ++k) { c.one(); scl::PRG g, h; auto m = scl::Mat<T>::Random(r, k, g); if ((int)m.Rows() != r || (int)m.Cols() != k) c.fail("rnd/mat-shape" + N, ""); auto m2 = scl::Mat<T>::Random(r, k, g); auto h2 = scl::Mat<T>::Random(r, k, h); if (!h2.Equals(m)) c.fail("rnd/mat-deterministic" + N, ""); if (r * k > 6 && m2.Equals(m)) c.fail("rnd/mat-repeats" + N, ""); auto v = scl::Vec<T>::Random(r * k + 20, g), v2 = scl::Vec<T>::Random(r * k + 20, g); if (v.Equals(v2)) c.fail("rnd/vec-repeats" + N, ""); }
}
}
MC_SECTION(vec_gf3) { vecs<GF<3>>(c, c.q(5, 6), c.q(243, 729)); } MC_SECTION(vec_gf7) { vecs<GF<7>>(c, 3, 400); } MC_SECTION(vec_z8) { vecs<scl::Z2k<3>>(c, 3, 512); } MC_SECTION(vec_ff61) { vecs<scl::FF<61>>(c, 9, 200); }
MC_SECTION(mat_gf3) { mats<GF<3>>(c, 3, c.q(81, 729), c.q(81, 729)); } MC_SECTION(mat_gf2) { mats<GF<2>>(c, c.q(3, 4), c.q(512, 512), 64); } MC_SECTION(mat_z4) { mats<scl::Z2k<2>>(c, 3, c.q(256, 256), 64); } MC_SECTION(mat_ff61) { mats<scl::FF<61>>(c, 5, 101, 60); }
MC_SECTION(rnd) { rnd<scl::FF<61>>(c); rnd<GF<251>>(c); rnd<scl::Z2k<8>>(c); }
namespace { template <class T> void wide_all(mc::Ctx& c, const char* n) { wide<T>(c, c.thorough ? std::vector<int>{7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 129, 255, 256, 257, 300, 1000} : std::vector<int>{7, 8, 9, 16, 17, 31, 33, 64, 65, 130, 257}, c.thorough ? std::vector<int>{1, 2, 3, 5, 6, 7, 8, 9, 12, 15, 16, 17, 20, 33} : std::vector<int>{1, 2, 5, 6, 7, 8, 9, 16, 17}, n); } }
MC_SECTION(wide_ff61, 2, 4) { wide_all<scl::FF<61>>(c, "FF61"); } MC_SECTION(wide_ff127, 2, 4) { wide_all<scl::FF<127>>(c, "FF127"); }
MC_SECTION(wide_z64, 1, 4) { wide_all<scl::Z2k<64>>(c, "Z2k<64>"); } MC_SECTION(wide_z100, 1, 4) { wide_all<scl::Z2k<100>>(c, "Z2k<100>"); } MC_SECTION(wide_gf251, 1, 4) { wide_all<GF<251>>(c, "GF<251>"); }
