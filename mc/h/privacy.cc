// C17: the distribution of every unauthorised set of shares, over every random tape, is uniform and the same for every secret.
#include <map>
#include "mc.h"
#include "gfp.h"
#include "tapes.h"
#include "scl/math.h"
#include "scl/ss/additive.h"
#include "scl/ss/packed.h"
#include "scl/ss/shamir.h"
using mc::fmt; typedef std::vector<long> V;
namespace {
template <class T> scl::Vec<T> mk(const V& a) { scl::Vec<T> v(a.size()); for (size_t i = 0; i < a.size(); ++i) v[i] = T((int)a[i]); return v; }
template <class T> V get(const scl::Vec<T>& v) { V r; for (size_t i = 0; i < v.Size(); ++i) r.push_back(U(v[i])); return r; }
template <class F> void tuples(long p, int n, F f) { V a(n, 0); for (;;) { f(a); int i = 0; for (; i < n; ++i) { if (++a[i] < p) break; a[i] = 0; } if (i == n) return; } }
// shares: one entry per tape with its number of draws. Every set of m positions must be uniform over GF(p)^m.
void uniform(mc::Ctx& c, unsigned p, const std::vector<std::pair<V, int>>& runs, int n, int m, const std::string& key, const std::string& d) {
  int D = 0; for (auto& r : runs) D = std::max(D, r.second); std::vector<uint64_t> pw(D + m + 2, 1); for (size_t i = 1; i < pw.size(); ++i) pw[i] = pw[i - 1] * p; uint64_t total = pw[D];
  for (int S = 0; S < (1 << n); ++S) { if (__builtin_popcount(S) != m) continue; std::vector<uint64_t> h(pw[m], 0); for (auto& r : runs) { uint64_t ix = 0; for (int i = 0; i < n; ++i) if (S >> i & 1) ix = ix * p + r.first[i]; h[ix] += pw[D - r.second]; } c.ops(); c.checked(); bool ok = total % pw[m] == 0; for (auto x : h) ok &= x * pw[m] == total; if (!ok) { c.fail(key, d + fmt(" coalition %x of %d: not uniform (%zu possible views)", S, n, (size_t)std::count_if(h.begin(), h.end(), [](uint64_t x) { return x > 0; }))); return; } }
}
template <unsigned p, class F> std::vector<std::pair<V, int>> collect(mc::Ctx& c, F f) { Tapes tp; std::vector<std::pair<V, int>> r; tp.all(p, [&](scl::PRG& g, int& dr) { V s = f(g); c.cases(); c.ops(); r.push_back({s, 0}); r.back().second = dr; }); return r; }
// m: size of coalitions; a smaller coalition follows from a larger one.
template <unsigned p> void shamir(mc::Ctx& c, int t, int n) { using T = GF<p>; if (t > n) return; for (long s = 0; s < (long)p; ++s) { auto r = collect<p>(c, [&](scl::PRG& g) { return get(scl::CreateShamirShares(T((int)s), n, t, g)); }); uniform(c, p, r, n, t, "privacy/shamir", fmt("p=%u t=%d n=%d secret=%ld", p, t, n, s)); } }
template <unsigned p> void shamirpts(mc::Ctx& c, int t, const V& al) { using T = GF<p>; for (long s = 0; s < (long)p; ++s) { auto r = collect<p>(c, [&](scl::PRG& g) { return get(scl::CreateShamirShares(scl::details::CreateShamirSharePolynomial(T((int)s), t, g), mk<T>(al))); }); uniform(c, p, r, (int)al.size(), t, "privacy/shamir-points", fmt("p=%u t=%d secret=%ld points ", p, t, s) + mc::join(al)); } }
template <unsigned p> void add(mc::Ctx& c, int n) { using T = GF<p>; for (long s = 0; s < (long)p; ++s) { auto r = collect<p>(c, [&](scl::PRG& g) { return get(scl::CreateAdditiveShares(T((int)s), n, g)); }); uniform(c, p, r, n, n - 1, "privacy/additive", fmt("p=%u n=%d secret=%ld", p, n, s)); } }
template <unsigned p> void packed(mc::Ctx& c, int k, int d, int n) { using T = GF<p>; using namespace scl::details; if (k > d + 1 || n + k > (int)p || d + 1 - k > n) return; tuples(p, k, [&](const V& sec) { if (c.fails.size() > 5) return; auto r = collect<p>(c, [&](scl::PRG& g) { return get(SharesFromEvPoly(EvPolyFromSecretsAndDegree(mk<T>(sec), d, g), n)); }); uniform(c, p, r, n, d + 1 - k, "privacy/packed", fmt("p=%u k=%d degree=%d n=%d secrets ", p, k, d, n) + mc::join(sec)); }); }
template <unsigned p> void single(mc::Ctx& c, int d, int n) { using T = GF<p>; using namespace scl::details; for (long x = std::max(d, n) + 1; x <= (long)p; ++x) for (long s = 0; s < (long)p; ++s) { auto r = collect<p>(c, [&](scl::PRG& g) { return get(SharesFromEvPoly(EvPolyFromSecretAndPointAndDegree(T((int)s), T((int)(x % p)), d, g), n)); }); uniform(c, p, r, n, std::min(d, n), "privacy/single-at-point", fmt("p=%u degree=%d n=%d position=%ld secret=%ld", p, d, n, x, s)); if (x == (long)p) { auto q = collect<p>(c, [&](scl::PRG& g) { return get(SharesFromEvPoly(EvPolyFromSecretAndDegree(T((int)s), d, g), n)); }); uniform(c, p, q, n, std::min(d, n), "privacy/single", fmt("p=%u degree=%d n=%d secret=%ld", p, d, n, s)); } } }
template <unsigned p> void points(mc::Ctx& c, int m, int k) { using T = GF<p>; using namespace scl::details; tuples(p, m, [&](const V& xs) { for (size_t i = 0; i < xs.size(); ++i) for (size_t j = 0; j < i; ++j) if (xs[i] == xs[j]) return; V others; for (long x = 0; x < (long)p; ++x) if (std::find(xs.begin(), xs.begin() + k, x) == xs.begin() + k) others.push_back(x); tuples(p, k, [&](const V& sec) { if (c.fails.size() > 5) return; auto r = collect<p>(c, [&](scl::PRG& g) { return get(EvPolyFromSecretsAndPoints(mk<T>(sec), mk<T>(xs), g).Evaluate(mk<T>(others))); }); uniform(c, p, r, (int)others.size(), m - k, "privacy/points", fmt("p=%u points ", p) + mc::join(xs) + " secrets " + mc::join(sec)); }); }); }
}
MC_SECTION(shamir) { for (int t = 1; t <= 3; ++t) for (int n = 1; n <= 4; ++n) ::shamir<5>(c, t, n); for (int t = 1; t <= 4; ++t) for (int n = 1; n <= 6; ++n) ::shamir<7>(c, t, n); for (int t = 1; t <= 3; ++t) ::shamir<11>(c, t, 7); ::shamir<3>(c, 1, 2); ::shamir<3>(c, 2, 2); }
MC_SECTION(shamir_points) { shamirpts<7>(c, 2, {6, 3, 1, 5}); shamirpts<7>(c, 1, {2, 4}); shamirpts<5>(c, 3, {4, 1, 3, 2}); shamirpts<11>(c, 2, {10, 3, 7, 1, 9}); }
MC_SECTION(additive) { for (int n = 1; n <= 5; ++n) add<5>(c, n); for (int n = 1; n <= 4; ++n) add<7>(c, n); for (int n = 1; n <= 9; ++n) add<2>(c, n); for (int n = 1; n <= 8; ++n) add<3>(c, n); }
MC_SECTION(packed) { for (int k = 1; k <= 3; ++k) for (int d = 0; d <= 4; ++d) for (int n = 1; n <= 4; ++n) ::packed<5>(c, k, d, n); for (int k = 1; k <= 3; ++k) for (int d = 0; d <= 4; ++d) for (int n = 2; n <= 6; ++n) ::packed<7>(c, k, d, n); for (int k = 2; k <= 3; ++k) for (int d = k; d <= 3; ++d) ::packed<11>(c, k, d, 7); }
MC_SECTION(single) { for (int d = 0; d <= 3; ++d) for (int n = 1; n <= 4; ++n) ::single<5>(c, d, n); for (int d = 0; d <= 3; ++d) for (int n = 2; n <= 6; n += 2) ::single<7>(c, d, n); }
MC_SECTION(points) { ::points<5>(c, 1, 0); ::points<5>(c, 2, 1); ::points<5>(c, 3, 1); ::points<5>(c, 3, 2); ::points<5>(c, 2, 2); { ::points<5>(c, 4, 2); ::points<5>(c, 4, 1); ::points<7>(c, 3, 2); } }
MC_SECTION(vectors) {   // the routines the schemes draw from
  using T = GF<3>; for (int n = 1; n <= 7; ++n) { auto r = collect<3>(c, [&](scl::PRG& g) { return get(scl::Vec<T>::Random(n, g)); }); uniform(c, 3, r, n, n, "privacy/vec-random", fmt("n=%d", n)); }
  for (int n = 1; n <= 6; ++n) for (int mask = 0; mask < (1 << n); ++mask) { int m = __builtin_popcount(mask); auto r = collect<3>(c, [&](scl::PRG& g) { auto v = get(scl::Vec<T>::PartialRandom(n, [&](size_t i) { return mask >> i & 1; }, g)); V a; for (int i = 0; i < n; ++i) { if (mask >> i & 1) a.push_back(v[i]); else if (v[i]) c.fail("privacy/partial-random-zero", fmt("n=%d mask %x", n, mask)); } return a; }); uniform(c, 3, r, m, m, "privacy/vec-partial-random", fmt("n=%d mask=%x", n, mask)); }
  for (int n = 1; n <= 3; ++n) for (int m = 1; m <= 3; ++m) if (n * m <= 6) { auto r = collect<3>(c, [&](scl::PRG& g) { auto M = scl::Mat<T>::Random(n, m, g); V a; for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) a.push_back(U(M(i, j))); return a; }); uniform(c, 3, r, n * m, n * m, "privacy/mat-random", fmt("%dx%d", n, m)); }
  auto r = collect<5>(c, [&](scl::PRG& g) { auto a = GF<5>::Random(g), b = GF<5>::Random(g); return V{(long)U(a), (long)U(b)}; }); uniform(c, 5, r, 2, 2, "privacy/element", "");
}
MC_SECTION(consecutive) {   // two sharings from one generator are independent of each other
  for (long s = 0; s < 5; ++s) { using T = GF<5>; auto r = collect<5>(c, [&](scl::PRG& g) { auto a = get(scl::CreateShamirShares(T((int)s), 3, 1, g)), b = get(scl::CreateShamirShares(T((int)s), 3, 1, g)); return V{a[0], b[0]}; }); uniform(c, 5, r, 2, 2, "privacy/consecutive-shamir", fmt("secret %ld", s)); auto q = collect<5>(c, [&](scl::PRG& g) { using namespace scl::details; auto a = get(SharesFromEvPoly(EvPolyFromSecretsAndDegree(mk<T>({s, 1}), 2, g), 3)), b = get(SharesFromEvPoly(EvPolyFromSecretsAndDegree(mk<T>({s, 1}), 2, g), 3)); return V{a[1], b[1]}; }); uniform(c, 5, q, 2, 2, "privacy/consecutive-packed", fmt("secret %ld", s)); }
}
// larger thresholds: the shares are affine in the draws; run on every unit tape, a coalition's shares are uniform whatever the
// secret when its rows have full rank. Coalitions: all of them when there are at most 500 (thorough: 1500), otherwise all progressions around the circle.
namespace {
long rank(std::vector<V> m, long p) { RefF R{p}; long r = 0; if (m.empty()) return 0; size_t W = m[0].size(); for (size_t col = 0; col < W && r < (long)m.size(); ++col) { size_t q = r; while (q < m.size() && !m[q][col]) ++q; if (q == m.size()) continue; std::swap(m[q], m[r]); long iv = R.inv(m[r][col]); for (size_t x = r + 1; x < m.size(); ++x) if (m[x][col]) { long f = m[x][col] * iv % p; for (size_t y = col; y < W; ++y) m[x][y] = ((m[x][y] - f * m[r][y]) % p + p) % p; } ++r; } return r; }
template <class F> void affine(mc::Ctx& c, int n, int m, const std::string& key, const std::string& d, F f) {
  constexpr unsigned p = 251; Tapes tp; std::map<uint64_t, unsigned char> over; int fill = 0; std::vector<uint64_t> pos; bool rec = false, fresh = false; c.note(d);
  verif::prg_fn() = [&](uint64_t, const verif::Seed& s, uint64_t at, unsigned char* o, std::size_t k) { for (size_t i = 0; i < k; ++i) { if (s != tp.seed) { o[i] = 0; continue; } if (rec && std::find(pos.begin(), pos.end(), at + i) == pos.end()) pos.push_back(at + i); auto it = over.find(at + i); o[i] = it != over.end() ? it->second : fill ? (unsigned char)(mc::mix(fill, at + i) % p) : 0; if (!rec && std::find(pos.begin(), pos.end(), at + i) == pos.end()) fresh = true; } };
  auto run = [&](int sec) { c.one(); scl::PRG g(tp.raw); return get(f(GF<p>(sec), g)); };
  rec = true; V base = run(0); rec = false; std::vector<V> col; for (auto x : pos) { over.clear(); over[x] = 1; V v = run(0); for (int i = 0; i < n; ++i) v[i] = (v[i] + p - base[i]) % p; col.push_back(v); } over.clear();
  for (int sec : {0, 1, 77}) { V b = run(sec); for (fill = 1; fill <= 2; ++fill) { V v = run(sec); for (int i = 0; i < n; ++i) { long w = b[i]; for (size_t j = 0; j < pos.size(); ++j) w += (long)(mc::mix(fill, pos[j]) % p) * col[j][i]; if (w % p != v[i]) { c.fail(key + "-affine", d); fill = 9; break; } } } fill = 0; }
  if (fresh) c.fail(key + "-affine", d + ": draws depend on the draws");
  uint64_t sets = 0; auto look = [&](const std::vector<int>& S) { ++sets; c.checked(); std::vector<V> rows; for (int i : S) { V r; for (auto& x : col) r.push_back(x[i]); rows.push_back(r); } if (rank(rows, p) != (long)S.size()) { c.fail(key, d + " positions " + mc::join(S)); return false; } return true; };
  double comb = 1; for (int i = 0; i < m; ++i) comb = comb * (n - i) / (i + 1); bool ok = true;
  if (comb <= c.q(500, 1500)) { std::vector<int> S(m); std::function<void(int, int)> go = [&](int i, int from) { if (!ok) return; if (i == m) { ok = look(S); return; } for (int x = from; x + m - i <= n; ++x) { S[i] = x; go(i + 1, x + 1); } }; go(0, 0); }
  else for (int st = 1; st < n && st < c.q(4, 8) && ok; ++st) if (std::__gcd(st, n) == 1) for (int a = 0; a < n && ok; ++a) { std::vector<int> S; for (int i = 0; i < m; ++i) S.push_back((a + i * st) % n); ok = look(S); }
  c.count("coalitions", sets); c.outcome(mc::mix(col.size(), sets)); c.sample(d); verif::prg_fn() = nullptr;
}
}
MC_SECTION(thresholds, 8, 8) {
  using T = GF<251>; using namespace scl::details; int k_ = 0; auto mine = [&] { return k_++ % c.shards == c.shard && c.fails.size() < 6; };
  for (int t = 1; t <= c.q(20, 40); ++t) for (int n : {t, t + 1, 2 * t + 1, 3 * t + 1}) if ((c.thorough || t < 8 || t % 3 == 0 || n == t + 1) && mine()) affine(c, n, t, "privacy/shamir", fmt("p=251 t=%d n=%d", t, n), [&](T s, scl::PRG& g) { return scl::CreateShamirShares(s, n, t, g); });
  for (int n = 2; n <= c.q(24, 64); ++n) if (mine()) affine(c, n, n - 1, "privacy/additive", fmt("p=251 n=%d", n), [&](T s, scl::PRG& g) { return scl::CreateAdditiveShares(s, n, g); });
  for (int k = 1; k <= c.q(5, 12); ++k) for (int d = k; d <= c.q(12, 30); ++d) for (int n : {d + 1, 2 * d + 1}) if (mine()) affine(c, n, d + 1 - k, "privacy/packed", fmt("p=251 k=%d degree=%d n=%d", k, d, n), [&](T s, scl::PRG& g) { scl::Vec<T> z(k); for (int i = 0; i < k; ++i) z[i] = s * T(i + 1); return SharesFromEvPoly(EvPolyFromSecretsAndDegree(z, d, g), n); });
  for (int d = 1; d <= c.q(16, 40); ++d) for (int n : {d + 1, 2 * d + 1}) { if (!c.thorough && d > 8 && n > d + 1) continue; if (mine()) affine(c, n, d, "privacy/single-at-zero", fmt("p=251 degree=%d n=%d", d, n), [&](T s, scl::PRG& g) { return SharesFromEvPoly(EvPolyFromSecretAndDegree(s, d, g), n); });
    for (int x : {0, 1, 3}) if (mine()) affine(c, n, d, "privacy/single", fmt("p=251 degree=%d n=%d at %d", d, n, -x), [&](T s, scl::PRG& g) { return SharesFromEvPoly(EvPolyFromSecretAndPointAndDegree(s, T(-x), d, g), n); }); }
}
