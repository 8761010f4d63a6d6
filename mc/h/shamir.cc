// C16: Shamir and additive sharings: reconstruction, detection, correction.
#include "mc.h"
#include "gfp.h"
#include "tapes.h"
#include "scl/math.h"
#include "scl/ss/additive.h"
#include "scl/ss/shamir.h"
using mc::fmt; typedef std::vector<long> V;
namespace {
template <class T> scl::Vec<T> mk(const V& a) { scl::Vec<T> v(a.size()); for (size_t i = 0; i < a.size(); ++i) v[i] = T((int)a[i]); return v; }
template <class T> V get(const scl::Vec<T>& v) { V r; for (size_t i = 0; i < v.Size(); ++i) r.push_back(U(v[i])); return r; }
template <class F> void tuples(long p, int n, F f) { V a(n, 0); for (;;) { f(a); int i = 0; for (; i < n; ++i) { if (++a[i] < p) break; a[i] = 0; } if (i == n) return; } }
bool distinct(const V& a) { for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < i; ++j) if (a[i] == a[j]) return false; return true; }
long evp(long p, const V& co, long x) { long v = 0; for (size_t i = co.size(); i--;) v = (v * x + co[i]) % p; return v; }
V canon(int n) { V a; for (int i = 1; i <= n; ++i) a.push_back(i); return a; }
template <class F> int code(F f, std::string* m) { try { f(); return 0; } catch (const std::invalid_argument& e) { *m = e.what(); return 2; } catch (const std::logic_error& e) { *m = e.what(); return 1; } catch (const std::exception& e) { *m = e.what(); return 3; } }

// Every secret and tape: t+1 shares in any order, any position.
template <unsigned p> void share(mc::Ctx& c, int t, int n) {
  using T = GF<p>; RefF R{p}; Tapes tp; if (n >= (int)p) return;
  for (long s0 = 0; s0 < (long)p; ++s0) { uint64_t draws = 0; uint64_t N = tp.all(p, [&](scl::PRG& prg, int& dr) { c.cases(); c.checked(); c.ops(2); if (c.fails.size() > 10) return; auto sh = scl::CreateShamirShares(T((int)s0), n, t, prg); draws = dr; V s = get(sh), al = canon(n); std::string d = fmt("p=%u t=%d n=%d secret %ld shares ", p, t, n, s0) + mc::join(s); if ((int)s.size() != n) { c.fail("shamir/count", d); return; } if (n <= t) return;
      V xs(al.begin(), al.begin() + t + 1), ys(s.begin(), s.begin() + t + 1); if (R.lag(xs, ys, 0) != s0) c.fail("shamir/secret", d); for (int i = t + 1; i < n; ++i) if (R.lag(xs, ys, i + 1) != s[i]) c.fail("shamir/degree", d); if (U(scl::ReconstructShamirPassive(sh, t)) != (unsigned)s0) c.fail("shamir/passive", d);
      // any t+1 of the shares, in increasing and decreasing order, at every position
      for (int m = 0; m < (1 << n); ++m) { if (__builtin_popcount(m) != t + 1) continue; V a, y; for (int i = 0; i < n; ++i) if (m >> i & 1) a.push_back(i + 1), y.push_back(s[i]); for (int o = 0; o < 2; ++o) { auto Y = mk<T>(y), A = mk<T>(a); for (long x = 0; x < (long)p; ++x) { c.ops(); if (U(scl::ReconstructShamirPassive(Y, A, T((int)x), t)) != (unsigned)R.lag(xs, ys, x)) c.fail("shamir/any-subset", d + " subset " + mc::join(a) + fmt(" at %ld", x)); } std::reverse(a.begin(), a.end()); std::reverse(y.begin(), y.end()); } }
      if (n >= 2 * t + 1) { if (U(scl::ReconstructShamir(sh, t)) != (unsigned)s0) c.fail("shamir/detect-consistent", d); for (long x = 0; x < (long)p; ++x) if (U(scl::ReconstructShamir(sh, mk<T>(al), T((int)x), t)) != (unsigned)R.lag(xs, ys, x)) c.fail("shamir/detect-position", d); }
      if (n >= 3 * t + 1 && U(scl::ReconstructShamirRobust(sh, t)) != (unsigned)s0) c.fail("shamir/robust-consistent", d); });
    (void)N; }
}
template <unsigned p> void additive(mc::Ctx& c, int n) { using T = GF<p>; Tapes tp; for (long s0 = 0; s0 < (long)p; ++s0) tp.all(p, [&](scl::PRG& prg, int&) { c.one(); auto sh = scl::CreateAdditiveShares(T((int)s0), n, prg); long s = 0; for (long x : get(sh)) s += x; if ((int)sh.Size() != n || s % (long)p != s0 || U(scl::ReconstructAdditive(sh)) != (unsigned)s0) c.fail("additive/sum", fmt("p=%u n=%d secret=%ld", p, n, s0)); }); }
// Detection: every word.
template <unsigned p> void detect(mc::Ctx& c, int t, int n, const std::vector<V>& alphas) {
  using T = GF<p>; RefF R{p}; long k = 0;
  for (auto& al : alphas) { auto A = mk<T>(al); tuples(p, n, [&](const V& y) { if (k++ % c.shards != c.shard || c.fails.size() > 10) return; c.cases(); c.checked(); V xs(al.begin(), al.begin() + t + 1), ys(y.begin(), y.begin() + t + 1); bool ok = true; for (int i = t + 1; i < n; ++i) ok &= R.lag(xs, ys, al[i]) == y[i];
      auto Y = mk<T>(y); std::string m, d = fmt("p=%u t=%d alphas ", p, t) + mc::join(al) + " shares " + mc::join(y); for (long x : {0L, (long)p - 1}) { long got = -1; c.ops(); int o = code([&] { got = U(scl::ReconstructShamir(Y, A, T((int)x), t)); }, &m); c.outcome(o); if (ok ? (o != 0 || got != R.lag(xs, ys, x)) : o != 1) c.fail(ok ? "shamir/detect/consistent" : "shamir/detect/missed", d + fmt(" gave outcome %d value %ld", o, got)); } }); }
}
// Correction: one word against brute force over all polynomials of degree <= t.
template <unsigned p> void robust1(mc::Ctx& c, int t, const V& al, const V& y, const std::vector<V>& polys) {
  using T = GF<p>; int n = 3 * t + 1; c.cases(); c.checked(); c.ops(); const V* best = nullptr; int hits = 0;
  for (auto& f : polys) { int e = 0; for (int i = 0; i < n && e <= t; ++i) e += evp(p, f, al[i]) != y[i]; if (e <= t) { best = &f; ++hits; } }
  std::string d = fmt("p=%u t=%d alphas ", p, t) + mc::join(al) + " shares " + mc::join(y), m; std::vector<scl::details::Polynomial<T>> pe; auto Y = mk<T>(y), A = mk<T>(al);
  int o = code([&] { auto x = scl::ReconstructShamirRobust(Y, A, t); pe = {x[0], x[1]}; }, &m); c.outcome(o * 2 + !!best);
  if (!best) { if (o != 1) c.fail("shamir/robust/accepted", d + fmt(" outcome %d ", o) + (pe.empty() ? m : pe[0].ToString())); return; }
  if (o) { c.fail("shamir/robust/refused", d + " " + m); return; }
  for (int x = 0; x < (int)p; ++x) if (U(pe[0].Evaluate(T(x))) != (unsigned)evp(p, *best, x)) { c.fail("shamir/robust/wrong", d + " -> " + pe[0].ToString()); return; }
  if ((int)pe[0].Degree() > t) c.fail("shamir/robust/degree", d); for (int i = 0; i < n; ++i) { bool err = evp(p, *best, al[i]) != y[i]; if (err && U(pe[1].Evaluate(T((int)al[i]))) != 0) c.fail("shamir/robust/locator", d + " locator " + pe[1].ToString()); }
}
template <unsigned p> std::vector<V> polys(int t) { std::vector<V> r; tuples(p, t + 1, [&](const V& a) { r.push_back(a); }); return r; }
template <unsigned p> void robust_all(mc::Ctx& c, int t, const std::vector<V>& alphas) { auto P = polys<p>(t); long k = 0; for (auto& al : alphas) tuples(p, 3 * t + 1, [&](const V& y) { if (k++ % c.shards == c.shard && c.fails.size() < 10) robust1<p>(c, t, al, y, P); }); }
// All error patterns of weight <= w around the given polynomials.
template <unsigned p> void robust_err(mc::Ctx& c, int t, int w, const V& al, const std::vector<V>& base) {
  auto P = polys<p>(t); int n = 3 * t + 1; long k = 0; for (auto& f : base) { V y0; for (int i = 0; i < n; ++i) y0.push_back(evp(p, f, al[i])); for (int m = 0; m < (1 << n); ++m) { if (__builtin_popcount(m) > w) continue; std::vector<int> pos; for (int i = 0; i < n; ++i) if (m >> i & 1) pos.push_back(i); tuples(p - 1, (int)pos.size(), [&](const V& e) { if (k++ % c.shards != c.shard || c.fails.size() > 10) return; V y = y0; for (size_t i = 0; i < pos.size(); ++i) y[pos[i]] = (y[pos[i]] + e[i] + 1) % p; robust1<p>(c, t, al, y, P); }); } }
}
template <unsigned p> std::vector<V> some_alphas(int n, int all) { std::vector<V> r; tuples(p, n, [&](const V& a) { if (distinct(a) && (all == 2 || (all == 1 && std::is_sorted(a.begin(), a.end())))) r.push_back(a); }); if (!all) r = {canon(n)}; return r; }
}
MC_SECTION(share5) { for (int t = 1; t <= 3; ++t) for (int n = 1; n <= 4; ++n) share<5>(c, t, n); }
MC_SECTION(share7, 4, 4) { int k = 0; for (int t = 1; t <= c.q(3, 4); ++t) for (int n = 3; n <= 6; ++n) if (k++ % c.shards == c.shard) share<7>(c, t, n); }
MC_SECTION(share11, 1, 4) { int k = 0; for (int t = 1; t <= 2; ++t) for (int n = 5; n <= c.q(7, 8); ++n) if (k++ % c.shards == c.shard) share<11>(c, t, n); }
MC_SECTION(additive) { for (int n = 1; n <= 5; ++n) additive<5>(c, n); for (int n = 1; n <= 4; ++n) additive<7>(c, n); additive<2>(c, 9); }
MC_SECTION(detect5, 4, 4) { for (int n = 3; n <= 4; ++n) detect<5>(c, 1, n, some_alphas<5>(n, 1)); detect<5>(c, 1, 3, some_alphas<5>(3, 2)); detect<5>(c, 1, 5, some_alphas<5>(5, 1)); detect<5>(c, 2, 5, some_alphas<5>(5, 1)); }
MC_SECTION(detect7, 8, 8) { detect<7>(c, 1, 3, some_alphas<7>(3, 2)); detect<7>(c, 1, 4, some_alphas<7>(4, 1)); detect<7>(c, 2, 5, some_alphas<7>(5, 0)); detect<7>(c, 2, 6, some_alphas<7>(6, 0)); }
MC_SECTION(robust_t0) { robust_all<5>(c, 0, some_alphas<5>(1, 2)); }
MC_SECTION(robust_t1, 8, 8) { robust_all<5>(c, 1, some_alphas<5>(4, 2)); robust_all<7>(c, 1, some_alphas<7>(4, c.q(1, 2))); robust_all<11>(c, 1, {canon(4)}); }
MC_SECTION(robust_t2, 8, 8) { std::vector<V> b = {{0, 0, 0}, {3, 0, 0}, {1, 2, 3}}; robust_err<7>(c, 2, 3, {0, 1, 2, 3, 4, 5, 6}, b); if (c.thorough) { robust_all<7>(c, 2, {{0, 1, 2, 3, 4, 5, 6}}); robust_err<11>(c, 2, 3, canon(7), b); robust_err<11>(c, 2, 3, {4, 9, 2, 0, 7, 10, 1}, b); } else robust_err<11>(c, 2, 2, canon(7), b); }
MC_SECTION(robust_t3, 8, 8) { robust_err<11>(c, 3, 2, canon(10), {{1, 0, 0, 5}, {0, 0, 0, 0}}); if (c.thorough) robust_err<13>(c, 3, 3, canon(10), {{7, 1, 2, 3}}); }
MC_SECTION(extra_shares) {   // more shares than 3t+1: the first 3t+1 count
  using T = GF<11>; V f = {5, 3}; for (int extra = 0; extra < 4; ++extra) for (int pos = 0; pos < 4 + extra; ++pos) for (int e = 0; e < 11; ++e) { V y; for (int i = 1; i <= 4 + extra; ++i) y.push_back(evp(11, f, i)); y[pos] = (y[pos] + e) % 11; c.one(); std::string m; long got = -1; int o = code([&] { got = U(scl::ReconstructShamirRobust(mk<T>(y), 1)); }, &m); if (o || got != 5) c.fail("shamir/robust/extra", mc::join(y)); } }
MC_SECTION(large) { using T = scl::FF<61>; Tapes tp; verif::prg_fn() = [](uint64_t, const verif::Seed&, uint64_t pos, unsigned char* d, size_t k) { for (size_t i = 0; i < k; ++i) d[i] = (unsigned char)(mc::mix(99, pos + i) >> 11); };
  for (int t = 1; t <= 4; ++t) for (int n = t + 1; n <= 3 * t + 2; ++n) { scl::PRG g(tp.raw); T s = T(-5) - T(n); auto sh = scl::CreateShamirShares(s, n, t, g); c.one(); std::string d = fmt("t=%d n=%d", t, n); if (!(scl::ReconstructShamirPassive(sh, t) == s)) c.fail("shamir/large/passive", d); if (n >= 2 * t + 1 && !(scl::ReconstructShamir(sh, t) == s)) c.fail("shamir/large/detect", d);
    for (int i = 0; i < n && n >= 2 * t + 1; ++i) { auto b = sh; b[i] += T(1); c.one(); std::string m; if (code([&] { scl::ReconstructShamir(b, t); }, &m) != 1) c.fail("shamir/large/missed", d + fmt(" share %d", i)); }
    if (n >= 3 * t + 1) for (int mask = 0; mask < (1 << (3 * t + 1)); ++mask) { int w = __builtin_popcount(mask); if (w > t + 1 || (t > 3 && w > 2)) continue; auto b = sh; for (int i = 0; i < 3 * t + 1; ++i) if (mask >> i & 1) b[i] += T(i * 77 + 1) * T(-3); c.one(); std::string m; T got; int o = code([&] { got = scl::ReconstructShamirRobust(b, t); }, &m); if (w <= t ? (o || !(got == s)) : o != 1) c.fail("shamir/large/robust", d + fmt(" errors at mask %x outcome %d", mask, o)); } }
  verif::prg_fn() = nullptr; }
namespace {
// Larger thresholds over the real fields: shares taken in rotated and reversed order, every single altered share, error patterns of every weight.
template <class T> void larger(mc::Ctx& c, const char* nm) {
  Tapes tp; verif::prg_fn() = [](uint64_t, const verif::Seed&, uint64_t pos, unsigned char* d, size_t k) { for (size_t i = 0; i < k; ++i) d[i] = (unsigned char)(mc::mix(98, pos + i) >> 11); };
  std::vector<int> Ts{3, 5, 6, 7, 8, 9, 10}; if (c.thorough) for (int t : {11, 12, 15, 16, 17, 20}) Ts.push_back(t); size_t idx = 0;
  for (int t : Ts) for (int n : {t + 1, t + 2, 2 * t, 2 * t + 1, 2 * t + 2, 3 * t, 3 * t + 1, 3 * t + 4}) { if (idx++ % c.shards != c.shard) continue; scl::PRG g(tp.raw); T s = T(-5) - T(n); auto sh = scl::CreateShamirShares(s, n, t, g); c.one(); std::string d = fmt("%s t=%d n=%d", nm, t, n), m; if ((int)sh.Size() != n) c.fail("shamir/larger/size", d); if (!(scl::ReconstructShamirPassive(sh, t) == s)) c.fail("shamir/larger/passive", d);
    for (int rot : {0, 1, n / 2, n - t - 1}) for (int rev = 0; rev < 2; ++rev) { scl::Vec<T> A(n), Y(n); for (int i = 0; i < n; ++i) { int k = (i + rot) % n; if (rev) k = n - 1 - k; A[i] = T(k + 1); Y[i] = sh[k]; } c.one(); std::string dd = d + fmt(" rotated by %d%s", rot, rev ? ", reversed" : ""); c.ops(3); if (!(scl::ReconstructShamirPassive(Y, A, T(0), t) == s)) c.fail("shamir/larger/passive-points", dd); for (int k = 0; k < n; k += 1 + n / 5) if (!(scl::ReconstructShamirPassive(Y, A, T(k + 1), t) == sh[k])) c.fail("shamir/larger/position", dd);
      if (n >= 2 * t + 1) { T got; if (code([&] { got = scl::ReconstructShamir(Y, A, T(0), t); }, &m) || !(got == s)) c.fail("shamir/larger/detect-points", dd); for (int i = 0; i < n; ++i) for (int e : {1, -1}) { auto B = Y; B[i] += T(e); c.one(); if (code([&] { scl::ReconstructShamir(B, A, T(0), t); }, &m) != 1) c.fail("shamir/larger/missed", dd + fmt(", share %d altered", i)); if (e == 1 && !rev) { B[(i + 1) % n] -= T(1); if (code([&] { scl::ReconstructShamir(B, A, T(0), t); }, &m) != 1) c.fail("shamir/larger/missed", dd + fmt(", shares %d and the next altered", i)); } } } 
      if (n >= 3 * t + 1 && (rot != n / 2 || c.thorough)) for (int w : {0, 1, t / 2, t - 1, t, t + 1}) for (int pat = 0; pat < 4; ++pat) { if (w == 0 && pat) continue; auto B = Y; int N = 3 * t + 1; for (int i = 0; i < w; ++i) { int k = pat == 0 ? i : pat == 1 ? N - 1 - i : pat == 2 ? 3 * i % N : 2 * i + 1; B[k] = pat == 3 ? B[k] + T(1) : T(i * 77 + 1) * T(-3) * T(1 << 30); } c.one(); c.ops(); T got; int o = code([&] { got = scl::ReconstructShamirRobust(B, A, t)[0].Evaluate(T(0)); }, &m); if (w <= t ? (o || !(got == s)) : o != 1) c.fail("shamir/larger/robust", dd + fmt(", %d errors, pattern %d: outcome %d", w, pat, o)); } } }
  for (int n : {6, 7, 8, 9, 16, 17, 33, 64, 65, 129, 257, 300}) { if (idx++ % c.shards != c.shard) continue; scl::PRG g(tp.raw); c.one(); T s = T(-9); auto sh = scl::CreateAdditiveShares(s, n, g); T sum; for (auto& x : sh) sum += x; if ((int)sh.Size() != n || !(sum == s) || !(scl::ReconstructAdditive(sh) == s)) c.fail("additive/larger", fmt("%s n=%d", nm, n)); for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) if (sh[i] == sh[j]) c.fail("additive/larger-equal", fmt("%s n=%d: shares %d and %d", nm, n, i, j)); }
  verif::prg_fn() = nullptr; }
}
MC_SECTION(larger_ff61, 4, 8) { larger<scl::FF<61>>(c, "FF61"); } MC_SECTION(larger_ff127, 4, 8) { larger<scl::FF<127>>(c, "FF127"); }
MC_SECTION(errors) { using T = GF<7>; Tapes tp; scl::PRG prg(tp.raw); std::string m;
  for (int n = 0; n < 5; ++n) { c.one(); if (code([&] { scl::CreateShamirShares(T(3), n, 0, prg); }, &m) == 0) c.fail("shamir/reject-zero-threshold", ""); }
  c.one(); if (code([&] { scl::CreateAdditiveShares(T(3), 0, prg); }, &m) == 0) c.fail("additive/reject-zero", "");
  for (int t = 1; t <= 2; ++t) for (int s = 0; s <= 7; ++s) for (int a = 0; a <= 6; ++a) { auto S = mk<T>(V(s, 0)); auto A = mk<T>(canon(a)); c.one(); auto chk = [&](const char* k, int need, int o) { bool want = s >= need && a >= need; if (want != (o == 0) || (!want && o != 2)) c.fail(k, fmt("t=%d shares=%d points=%d outcome %d ", t, s, a, o) + m); };
      chk("shamir/reject/passive", t + 1, code([&] { scl::ReconstructShamirPassive(S, A, T(0), t); }, &m)); chk("shamir/reject/detect", 2 * t + 1, code([&] { scl::ReconstructShamir(S, A, T(0), t); }, &m)); if (a < 7) chk("shamir/reject/robust", 3 * t + 1, code([&] { scl::ReconstructShamirRobust(S, A, t); }, &m)); }
  for (int n = 0; n < 7; ++n) { c.one(); if (get(scl::CanonicalAlphas<T>(n)) != canon(n)) c.fail("shamir/alphas", ""); } }
