// C15: packed sharings and polynomials in evaluation form.
#include "mc.h"
#include "gfp.h"
#include "tapes.h"
#include "scl/math.h"
#include "scl/ss/evpoly.h"
#include "scl/ss/packed.h"
using mc::fmt; typedef std::vector<long> V;
namespace {
using namespace scl::details;
template <class T> scl::Vec<T> mk(const V& a) { scl::Vec<T> v(a.size()); for (size_t i = 0; i < a.size(); ++i) v[i] = T((int)a[i]); return v; }
template <class T> V get(const scl::Vec<T>& v) { V r; for (size_t i = 0; i < v.Size(); ++i) r.push_back(U(v[i])); return r; }
template <class F> void tuples(long p, int n, F f) { V a(n, 0); for (;;) { f(a); int i = 0; for (; i < n; ++i) { if (++a[i] < p) break; a[i] = 0; } if (i == n) return; } }
bool distinct(const V& a) { for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < i; ++j) if (a[i] == a[j]) return false; return true; }
template <unsigned p> void ev(mc::Ctx& c, int m, bool sorted) {
  using T = GF<p>; using Ev = EvPolynomial<T>; RefF R{p}; long k = 0;
  tuples(p, m, [&](const V& xs) { if (!distinct(xs)) return; if (sorted && !std::is_sorted(xs.begin(), xs.end()) && !std::is_sorted(xs.rbegin(), xs.rend())) return; if (k++ % c.shards != c.shard) return; if (c.fails.size() > 10) return;
    tuples(p, m, [&](const V& ys) { c.cases(); c.checked(); auto X = mk<T>(xs), Y = mk<T>(ys); Ev f(X, Y); std::string d = fmt("p=%u x=", p) + mc::join(xs) + " y=" + mc::join(ys); V want; scl::Vec<T> all; bool zero = true; for (long x = 0; x < (long)p; ++x) { want.push_back(R.lag(xs, ys, x)); all.Emplace(T((int)x)); zero &= !want.back(); }
      c.ops(p); for (long x = 0; x < (long)p; ++x) if (U(f.Evaluate(T((int)x))) != (unsigned)want[x]) { c.fail("evpoly/evaluate", d + fmt(" at %ld", x)); break; }
      if (get(f.Evaluate(all)) != want) c.fail("evpoly/evaluate-list", d); if (f.Degree() != xs.size() - 1) c.fail("evpoly/degree", d); if (f.IsZero() != zero) c.fail("evpoly/zero", d);
      if (get(f.GetX()) != xs || get(f.GetY()) != ys || U(f.GetFirstPoint()) != (unsigned)xs[0]) c.fail("evpoly/points", d); for (size_t i = 0; i < ys.size(); ++i) if (U(f[i]) != (unsigned)ys[i]) c.fail("evpoly/index", d);
      V y2(m); for (int i = 0; i < m; ++i) y2[i] = (ys[(i + 1) % m] * 2 + i + 1) % p; Ev g(X, mk<T>(y2)); auto s = f.Add(g), t = f.Subtract(g); V S(m), D(m); for (int i = 0; i < m; ++i) S[i] = (ys[i] + y2[i]) % p, D[i] = (ys[i] + p - y2[i]) % p; if (get(s.GetX()) != xs || get(s.GetY()) != S) c.fail("evpoly/add", d); if (get(t.GetX()) != xs || get(t.GetY()) != D) c.fail("evpoly/subtract", d); });
  });
}
template <unsigned p> void starts(mc::Ctx& c, int m) {
  using T = GF<p>; using Ev = EvPolynomial<T>; RefF R{p};
  tuples(p, m, [&](const V& ys) { for (long st = 0; st < (long)p; ++st) { c.one(); V xs; for (int i = 0; i < m; ++i) xs.push_back((st + i) % p); Ev f(T((int)st), mk<T>(ys)); if (get(f.GetX()) != xs || get(f.GetY()) != ys) c.fail("evpoly/start", mc::join(ys)); long x = (st + m) % p; if (U(f.Evaluate(T((int)x))) != (unsigned)R.lag(xs, ys, x)) c.fail("evpoly/start-evaluate", mc::join(ys)); if (st == 0) { Ev g(mk<T>(ys)); if (get(g.GetX()) != xs || get(g.GetY()) != ys) c.fail("evpoly/from-zero", mc::join(ys)); } } });
  Ev z; if (!z.IsZero() || z.Degree() != 0) c.fail("evpoly/default", ""); for (long k = 0; k < (long)p; ++k) { Ev f(T((int)k)); for (long x = 0; x < (long)p; ++x) if (U(f.Evaluate(T((int)x))) != (unsigned)k) c.fail("evpoly/constant", fmt("%ld", k)); if (f.IsZero() != (k == 0)) c.fail("evpoly/constant-zero", ""); }
}
template <class F> void rejects(mc::Ctx& c, const char* key, F f) { c.one(); std::string m; int o = mc::outcome_of(f, &m); if (o != 1) c.fail(key, fmt("outcome %d ", o) + m); }

// All secrets, all tapes. Positions of the secrets: 0,-1,...
template <unsigned p> void packed(mc::Ctx& c, int k, int d, int n) {
  using T = GF<p>; RefF R{p}; Tapes tp; if (k > d + 1 || n + k > (int)p || d + 1 > n) return; std::string cfg = fmt("p=%u k=%d degree=%d n=%d ", p, k, d, n);
  V pos; for (int i = 0; i < k; ++i) pos.push_back((p - i) % p);
  tuples(p, k, [&](const V& sec) { if (c.fails.size() > 10) return; std::vector<V> kept;
    tp.all(p, [&](scl::PRG& prg, int&) { c.cases(); c.checked(); c.ops(3); auto f = EvPolyFromSecretsAndDegree(mk<T>(sec), d, prg); auto sh = SharesFromEvPoly(f, n); std::string dd = cfg + "secrets " + mc::join(sec) + " shares " + mc::join(get(sh)); V s = get(sh);
      if ((int)f.Degree() != d) c.fail("packed/degree", dd); if ((int)s.size() != n) { c.fail("packed/count", dd); return; }
      // the first d+1 shares determine a polynomial of degree d: it must give the remaining shares and the secrets
      V xs, ys; for (int i = 0; i <= d; ++i) xs.push_back(i + 1), ys.push_back(s[i]); for (int i = d + 1; i < n; ++i) if (R.lag(xs, ys, i + 1) != s[i]) c.fail("packed/shares-not-on-polynomial", dd); for (int i = 0; i < k; ++i) if (R.lag(xs, ys, pos[i]) != sec[i]) c.fail("packed/secret-position", dd);
      for (int m = d + 1; m <= n; ++m) { scl::Vec<T> pre(sh.begin(), sh.begin() + m); c.ops(); if (get(SecretsFromSharesAndLength(pre, k)) != sec) c.fail("packed/reconstruct", dd + fmt(" from %d", m)); if (get(SecretsFromPointsAndShares(mk<T>(pos), pre)) != sec) c.fail("packed/reconstruct-points", dd); if (U(SecretFromShares(pre)) != (unsigned)sec[0]) c.fail("packed/reconstruct-one", dd); for (int i = 0; i < k; ++i) if (U(SecretFromPointAndShares(T((int)pos[i]), pre)) != (unsigned)sec[i]) c.fail("packed/reconstruct-at", dd); if (get(EvPolyFromShares(pre).GetY()) != V(s.begin(), s.begin() + m)) c.fail("packed/from-shares", dd); }
      // a second sharing: sums and products
      V sec2(k); for (int i = 0; i < k; ++i) sec2[i] = (sec[k - 1 - i] * 3 + 1 + i) % p; V co(d + 1 - k); for (size_t i = 0; i < co.size(); ++i) co[i] = (2 + 5 * i) % p; V x2, y2; for (int i = 0; i < k; ++i) x2.push_back(pos[i]), y2.push_back(sec2[i]); for (size_t i = 0; i < co.size(); ++i) x2.push_back(i + 1), y2.push_back(co[i]); V s2; for (int i = 1; i <= n; ++i) s2.push_back(R.lag(x2, y2, i)); auto sh2 = mk<T>(s2);
      V su(k), pr(k); for (int i = 0; i < k; ++i) su[i] = (sec[i] + sec2[i]) % p, pr[i] = sec[i] * sec2[i] % p; if (get(SecretsFromSharesAndLength(sh.Add(sh2), k)) != su) c.fail("packed/sum", dd); if (2 * d + 1 <= n && get(SecretsFromSharesAndLength(sh.MultiplyEntryWise(sh2), k)) != pr) c.fail("packed/product", dd);
    }); });
}
template <unsigned p> void single(mc::Ctx& c, int d, int n) {
  using T = GF<p>; RefF R{p}; Tapes tp; if (d + 1 > n || n >= (int)p) return;
  for (long x = d + 1; x <= (long)p; ++x) for (long s0 = 0; s0 < (long)p; ++s0) tp.all(p, [&](scl::PRG& prg, int&) { c.cases(); c.checked(); c.ops(2); long xx = x % p; auto f = EvPolyFromSecretAndPointAndDegree(T((int)s0), T((int)xx), d, prg); auto sh = SharesFromEvPoly(f, n); V s = get(sh); std::string dd = fmt("p=%u degree=%d secret %ld at %ld shares ", p, d, s0, xx) + mc::join(s); if ((int)f.Degree() != d) c.fail("packed/single/degree", dd); V xs, ys; for (int i = 0; i <= d; ++i) xs.push_back(i + 1), ys.push_back(s[i]); if (R.lag(xs, ys, xx) != s0) c.fail("packed/single/secret", dd); for (int i = d + 1; i < n; ++i) if (R.lag(xs, ys, i + 1) != s[i]) c.fail("packed/single/degree-of-shares", dd); if (U(SecretFromPointAndShares(T((int)xx), sh)) != (unsigned)s0) c.fail("packed/single/reconstruct", dd); });
  for (long s0 = 0; s0 < (long)p; ++s0) tp.all(p, [&](scl::PRG& prg, int&) { c.one(); auto f = EvPolyFromSecretAndDegree(T((int)s0), d, prg); auto sh = SharesFromEvPoly(f, n); if ((int)f.Degree() != d || U(SecretFromShares(sh)) != (unsigned)s0) c.fail("packed/single/at-zero", fmt("p=%u degree=%d secret=%ld", p, d, s0)); });
}
template <unsigned p> void points(mc::Ctx& c, int m) {   // secrets at any distinct points
  using T = GF<p>; Tapes tp; tuples(p, m, [&](const V& xs) { if (!distinct(xs)) return; for (int k = 0; k <= m; ++k) tuples(p, k, [&](const V& sec) { tp.all(p, [&](scl::PRG& prg, int&) { c.one(); auto f = EvPolyFromSecretsAndPoints(mk<T>(sec), mk<T>(xs), prg); std::string d = fmt("p=%u points ", p) + mc::join(xs) + " secrets " + mc::join(sec); if (get(f.GetX()) != xs || (int)f.Degree() != m - 1) c.fail("packed/points", d); for (int i = 0; i < k; ++i) if (U(f.Evaluate(T((int)xs[i]))) != (unsigned)sec[i]) c.fail("packed/points-secret", d); }); }); });
}
}
MC_SECTION(evpoly5, 4, 4) { for (int m = 1; m <= 4; ++m) ev<5>(c, m, m == 4 && !c.thorough); }
MC_SECTION(evpoly7, 4, 8) { for (int m = 1; m <= 3; ++m) ev<7>(c, m, m > 2); if (c.thorough) ev<7>(c, 4, true); }
MC_SECTION(evpoly_start) { for (int m = 1; m <= 4; ++m) starts<5>(c, m); for (int m = 1; m <= 3; ++m) starts<7>(c, m); }
MC_SECTION(packed5, 1, 1) { for (int n = 1; n <= 4; ++n) for (int k = 1; k <= 4; ++k) for (int d = 0; d < n; ++d) packed<5>(c, k, d, n); }
MC_SECTION(packed7, 6, 6) { int i = 0; for (int n = 1; n <= 6; ++n) for (int k = 1; k <= 4; ++k) for (int d = 0; d < n && d <= c.q(3, 5); ++d) if (i++ % c.shards == c.shard) packed<7>(c, k, d, n); }
MC_SECTION(packed11, 6, 8) { int i = 0; for (int n = 3; n <= 9; ++n) for (int k = 1; k <= 4; ++k) for (int d = 1; d < n && d <= c.q(3, 3); ++d) if (i++ % c.shards == c.shard) packed<11>(c, k, d, n); }
MC_SECTION(single) { for (int d = 0; d <= 3; ++d) for (int n = d + 1; n <= 4; ++n) single<5>(c, d, n); for (int d = 0; d <= 3; ++d) single<7>(c, d, 6); single<7>(c, 1, 3); }
MC_SECTION(points) { for (int m = 1; m <= 3; ++m) points<5>(c, m); points<3>(c, 3); }
MC_SECTION(large) {   // real field sizes: every (k, degree, n), dense pseudo-random words
  using T = scl::FF<61>; Tapes tp; verif::prg_fn() = [](uint64_t, const verif::Seed&, uint64_t pos, unsigned char* d, size_t k) { for (size_t i = 0; i < k; ++i) d[i] = (unsigned char)(mc::mix(77, pos + i) >> 11); };
  for (int k = 1; k <= 6; ++k) for (int d = k - 1; d <= 12; ++d) for (int n = d + 1; n <= 2 * d + 1; ++n) { scl::PRG g(tp.raw); scl::Vec<T> s(k), z(k); for (int i = 0; i < k; ++i) s[i] = T(-1 - i * 7), z[i] = T(1 << 30) * T(1 << 29) + T(i); auto f = SharesFromEvPoly(EvPolyFromSecretsAndDegree(s, d, g), n), h = SharesFromEvPoly(EvPolyFromSecretsAndDegree(z, d, g), n); c.one(); std::string dd = fmt("k=%d degree=%d n=%d", k, d, n); if (!SecretsFromSharesAndLength(f, k).Equals(s)) c.fail("packed/large/reconstruct", dd); if (!SecretsFromSharesAndLength(f.Add(h), k).Equals(s.Add(z))) c.fail("packed/large/sum", dd); if (n == 2 * d + 1 && !SecretsFromSharesAndLength(f.MultiplyEntryWise(h), k).Equals(s.MultiplyEntryWise(z))) c.fail("packed/large/product", dd); scl::Vec<T> pre(f.begin(), f.begin() + d + 1); if (!SharesFromEvPoly(EvPolyFromShares(pre), n).Equals(f)) c.fail("packed/large/degree", dd); }
  verif::prg_fn() = nullptr; }
namespace {
template <class T> void larger(mc::Ctx& c, const char* nm) {
  Tapes tp; verif::prg_fn() = [](uint64_t, const verif::Seed&, uint64_t pos, unsigned char* d, size_t k) { for (size_t i = 0; i < k; ++i) d[i] = (unsigned char)(mc::mix(78, pos + i) >> 11); };
  std::vector<int> K{1, 2, 4, 7, 8, 9, 16, 17}, D{8, 13, 15, 16, 17, 24, 31, 33}; if (c.thorough) { for (int k : {3, 5, 6, 12, 32, 33}) K.push_back(k); for (int d : {9, 10, 20, 32, 48, 64}) D.push_back(d); } size_t idx = 0;
  for (int k : K) { auto DD = D; DD.push_back(k - 1); DD.push_back(k); for (int d : DD) { if (d < k - 1 || idx++ % c.shards != c.shard) continue; for (int pat = 0; pat < 3; ++pat) for (int n : {d + 1, d + 2, 2 * d, 2 * d + 1}) { if (n <= d) continue; scl::PRG g(tp.raw); scl::Vec<T> s(k), z(k); for (int i = 0; i < k; ++i) s[i] = pat == 0 ? T(-1 - i * 7) : pat == 1 ? T(i == k - 1) : T(9), z[i] = T(1 << 30) * T(1 << 29) + T(i);
      auto F = EvPolyFromSecretsAndDegree(s, d, g), H = EvPolyFromSecretsAndDegree(z, d, g); auto f = SharesFromEvPoly(F, n), h = SharesFromEvPoly(H, n); c.one(); c.ops(9); std::string dd = fmt("%s k=%d degree=%d n=%d secrets %d", nm, k, d, n, pat);
      if ((int)f.Size() != n) c.fail("packed/larger/size", dd); if (!SecretsFromSharesAndLength(f, k).Equals(s)) c.fail("packed/larger/reconstruct", dd); if (!SecretsFromSharesAndLength(f.Add(h), k).Equals(s.Add(z))) c.fail("packed/larger/sum", dd); if (!SecretsFromSharesAndLength(f.Subtract(h), k).Equals(s.Subtract(z))) c.fail("packed/larger/difference", dd); if (!SecretsFromSharesAndLength(f.ScalarMultiply(T(-3)), k).Equals(s.ScalarMultiply(T(-3)))) c.fail("packed/larger/scaled", dd); if (n == 2 * d + 1 && !SecretsFromSharesAndLength(f.MultiplyEntryWise(h), k).Equals(s.MultiplyEntryWise(z))) c.fail("packed/larger/product", dd);
      scl::Vec<T> pre(f.begin(), f.begin() + d + 1); if (!SharesFromEvPoly(EvPolyFromShares(pre), n).Equals(f)) c.fail("packed/larger/degree", dd); bool rnd = d < k || f.Equals(h) == false; (void)rnd;
      // the polynomial behind the shares: sum, difference and product as polynomials
      for (int x : {-40, 0, 1, 7}) { T X(x); c.ops(4); T a = F.Evaluate(X), b = H.Evaluate(X); if (!(F.Add(H).Evaluate(X) == a + b) || !(F.Subtract(H).Evaluate(X) == a - b)) c.fail("evpoly/larger/sum", dd); } } } }
  // evaluation-form polynomials with known coefficients
  for (int m : {1, 2, 5, 8, 9, 16, 17, 24, 33}) { scl::Vec<T> co(m), X(m), Y(m); for (int i = 0; i < m; ++i) { unsigned char b[32]; for (int q = 0; q < 32; q += 8) { uint64_t r = mc::mix(m * 9 + q, i); memcpy(b + q, &r, 8); } co[i] = T::Read(b); X[i] = i % 2 ? T(-3 * i) : T(2 * i + 1) * T(1 << 20); } auto ev = [&](T x) { T v; for (int i = m; i-- > 0;) v = v * x + co[i]; return v; };
    for (int i = 0; i < m; ++i) Y[i] = ev(X[i]); scl::details::EvPolynomial<T> f(X, Y); c.one(); for (int x = -20; x < 20; ++x) { c.ops(); if (!(f.Evaluate(T(x)) == ev(T(x)))) c.fail("evpoly/larger/evaluate", fmt("%s %d points at %d", nm, m, x)); } for (int i = 0; i < m; ++i) if (!(f.Evaluate(X[i]) == Y[i])) c.fail("evpoly/larger/node", fmt("%s %d points", nm, m)); }
  verif::prg_fn() = nullptr; }
}
MC_SECTION(larger_ff61, 3, 4) { larger<scl::FF<61>>(c, "FF61"); } MC_SECTION(larger_ff127, 3, 4) { larger<scl::FF<127>>(c, "FF127"); }
MC_SECTION(errors) {
  using T = GF<7>; using Ev = EvPolynomial<T>; Tapes tp; scl::PRG prg(tp.raw);
  for (int a = 0; a < 5; ++a) for (int b = 0; b < 5; ++b) if (a != b || a == 0) rejects(c, "evpoly/reject-sizes", [&] { Ev f(mk<T>(V(a, 1)), mk<T>(V(b, 1))); });
  rejects(c, "evpoly/reject-empty", [&] { Ev f(T(3), scl::Vec<T>()); }); rejects(c, "evpoly/reject-empty2", [&] { Ev f((scl::Vec<T>())); });
  std::vector<V> X; for (int m = 1; m <= 3; ++m) tuples(4, m, [&](const V& x) { if (distinct(x)) X.push_back(x); });
  for (auto& x : X) for (auto& y : X) { Ev f(mk<T>(x), mk<T>(x)), g(mk<T>(y), mk<T>(y)); if (x == y) continue; rejects(c, "evpoly/reject-add", [&] { f.Add(g); }); rejects(c, "evpoly/reject-subtract", [&] { f.Subtract(g); }); }
  for (int k = 0; k < 6; ++k) for (int m = 0; m < k; ++m) { rejects(c, "packed/reject-too-many-secrets", [&] { EvPolyFromSecretsAndPoints(scl::Vec<T>(k), scl::Vec<T>(m), prg); }); if (m > 0) rejects(c, "packed/reject-degree", [&] { EvPolyFromSecretsAndDegree(scl::Vec<T>(k), m - 1, prg); }); }
  rejects(c, "packed/reject-no-shares", [&] { SecretsFromSharesAndLength(scl::Vec<T>(), 2); }); rejects(c, "packed/reject-no-points", [&] { EvPolyFromSecretsAndPoints(scl::Vec<T>(), scl::Vec<T>(), prg); });
}
