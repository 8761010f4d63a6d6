// C13: row reduction and linear systems, exhaustively over all matrices of small shapes.
#include "mc.h"
#include "gfp.h"
#include "scl/math.h"
#include "scl/math/la.h"
using mc::fmt;
typedef std::vector<std::vector<int>> IM;
namespace {
std::string P(const IM& m) { std::string s; for (auto& r : m) s += "[" + mc::join(r) + "]"; return s; }
int inv(int a, int p) { for (int b = 1; b < p; ++b) if (a * b % p == 1) return b; return 0; }
// Reference: Gauss-Jordan, column by column on a copy, written from the definition.
IM rref(IM a, int p, std::vector<int>& piv) {
  piv.clear(); size_t r = 0; for (size_t c = 0; !a.empty() && c < a[0].size() && r < a.size(); ++c) { size_t k = r; while (k < a.size() && !a[k][c]) ++k; if (k == a.size()) continue; std::swap(a[k], a[r]); int iv = inv(a[r][c], p); for (auto& x : a[r]) x = x * iv % p; for (size_t i = 0; i < a.size(); ++i) if (i != r && a[i][c]) { int f = a[i][c]; for (size_t j = 0; j < a[0].size(); ++j) a[i][j] = ((a[i][j] - f * a[r][j]) % p + p * p) % p; } piv.push_back((int)c); ++r; }
  return a;
}
template <unsigned p> scl::Mat<GF<p>> M(const IM& a) { scl::Mat<GF<p>> m(a.size(), a[0].size()); for (size_t i = 0; i < a.size(); ++i) for (size_t j = 0; j < a[0].size(); ++j) m(i, j) = GF<p>(a[i][j]); return m; }
template <class T> IM G(const scl::Mat<T>& m) { IM a(m.Rows(), std::vector<int>(m.Cols())); for (size_t i = 0; i < m.Rows(); ++i) for (size_t j = 0; j < m.Cols(); ++j) a[i][j] = (int)U(m(i, j)); return a; }
template <unsigned p> void one(mc::Ctx& c, const IM& a) {   // a is the augmented matrix [A | b]
  using T = GF<p>; size_t n = a.size(), m = a[0].size(); std::vector<int> piv; c.cases(); c.checked();
  IM want = rref(a, p, piv); auto A = M<p>(a); scl::details::RowReduceInPlace(A); c.ops();
  auto got = G(A); if (got != want) { c.fail(fmt("la/rref/%zux%zu", n, m), fmt("p=%u ", p) + P(a) + " reduced to " + P(got)); }
  if (m < 2) return;
  bool consistent = piv.empty() || piv.back() != (int)m - 1; size_t rank = 0; for (int x : piv) rank += x < (int)m - 1;
  auto RA = M<p>(want); c.ops(2);
  if (scl::details::HasSolution(RA, false) != consistent) c.fail(fmt("la/has-solution/%zux%zu", n, m), fmt("p=%u ", p) + P(want));
  bool unique = consistent && rank == m - 1;
  if (scl::details::HasSolution(RA, true) != unique) c.fail(fmt("la/has-unique-solution/%zux%zu", n, m), fmt("p=%u ", p) + P(want));
  scl::Mat<T> C(n, m - 1); scl::Vec<T> b(n), x(m - 1); for (size_t i = 0; i < n; ++i) { for (size_t j = 0; j + 1 < m; ++j) C(i, j) = T(a[i][j]); b[i] = T(a[i][m - 1]); }
  auto C0 = C; auto b0 = b; bool ok = scl::details::SolveLinearSystem(x, C, b); c.ops();
  if (!C.Equals(C0) || !b.Equals(b0)) c.fail("la/solve-modifies", P(a));
  c.outcome(ok * 2 + unique);
  if (ok != unique) c.fail(fmt("la/solve-verdict/%zux%zu", n, m), fmt("p=%u ", p) + P(a) + (ok ? " reported as uniquely solvable" : " reported as not uniquely solvable"));
  else if (ok) { bool good = x.Size() == m - 1; for (size_t i = 0; good && i < n; ++i) { T s; for (size_t j = 0; j + 1 < m; ++j) s += C(i, j) * x[j]; good &= s == b[i]; } if (!good) c.fail(fmt("la/solve-value/%zux%zu", n, m), fmt("p=%u ", p) + P(a) + " gave " + x.ToString()); }
  if (consistent) {
    c.ops(); auto y = scl::details::ExtractSolution(RA); bool good = y.Size() == m - 1;
    for (size_t i = 0; good && i < n; ++i) { T s; for (size_t j = 0; j + 1 < m; ++j) s += RA(i, j) * y[j]; good &= s == RA(i, m - 1); }
    bool prefix = true; for (size_t j = 0; j < piv.size(); ++j) prefix &= piv[j] == (int)j;
    // Free variables: wrong in general (known finding, witnessed in section free_variables below); a system whose
    // pivots are the first variables must still be satisfied by what is returned.
    if (prefix && !good) c.fail(fmt(unique ? "la/extract/unique/%zux%zu" : "la/extract/leading-pivots/%zux%zu", n, m), fmt("p=%u ", p) + P(want) + " gave " + y.ToString());
  }
}
template <unsigned p> void all(mc::Ctx& c, int n, int m) { long tot = 1; for (int i = 0; i < n * m; ++i) tot *= p; for (long k = c.shard; k < tot; k += c.shards) { IM a(n, std::vector<int>(m)); long q = k; for (auto& r : a) for (auto& x : r) { x = q % p; q /= p; } one<p>(c, a); if (c.fails.size() > 20) return; } c.count("matrices", tot / c.shards); }
// Larger square systems A = P*L*U with every pivot pattern: every permutation and every subset of zero pivots.
template <unsigned p> void structured(mc::Ctx& c, int n) {
  std::vector<int> perm(n); for (int i = 0; i < n; ++i) perm[i] = i;
  do for (unsigned z = 0; z < (1u << n); ++z) for (int var = 0; var < 3; ++var) { IM a(n, std::vector<int>(n + 1, 0)), L(n, std::vector<int>(n, 0)), Um = L; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { if (j < i) L[i][j] = (i * 3 + j * 5 + var) % p; if (i == j) L[i][j] = 1; if (j > i) Um[i][j] = (i * 2 + j * 7 + var * 3) % p; if (i == j) Um[i][j] = z >> i & 1 ? 0 : 1 + (i + var) % (p - 1); }
      for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { int s = 0; for (int k = 0; k < n; ++k) s += L[i][k] * Um[k][j]; a[perm[i]][j] = s % p; } a[perm[i]][n] = (i * 11 + var * 4) % p; } one<p>(c, a); if (c.fails.size() > 20) return; }
  while (std::next_permutation(perm.begin(), perm.end()));
}
}
namespace {
// Larger systems of every shape listed: L * (echelon matrix with a chosen set of pivot columns), rows permuted.
template <unsigned p> void shapes(mc::Ctx& c, const std::vector<int>& dims) {
  size_t idx = 0; for (int n : dims) for (int m : dims) { if (idx++ % c.shards != c.shard) continue; ++m; int top = std::min(n, m);
    std::vector<std::vector<int>> sets; for (int r = 0; r <= top; ++r) { std::vector<int> s; for (int i = 0; i < r; ++i) s.push_back(i); sets.push_back(s); for (int i = 0; i < r; ++i) s[i] = m - r + i; sets.push_back(s); s.clear(); for (int i = 0; i < r && 2 * i < m; ++i) s.push_back(2 * i); sets.push_back(s); s.clear(); for (int i = 0; i + 1 < r && i + 1 < m - 1; ++i) s.push_back(i); s.push_back(m - 1); sets.push_back(s); for (int g = 0; g < r && r < m; g += 1 + r / 4) { s.clear(); for (int i = 0; i < r; ++i) s.push_back(i + (i >= g)); sets.push_back(s); } }
    for (auto& s : sets) for (int var = 0; var < c.q(2, 4); ++var) { if ((int)s.size() > top) continue; IM E(n, std::vector<int>(m, 0)), a = E; auto rnd = [&](int i, int j, int t) { return (int)((mc::mix(var * 77 + t, i * 1000 + j) >> 13) % p); };
      for (size_t i = 0; i < s.size(); ++i) for (int j = s[i]; j < m; ++j) E[i][j] = j == s[i] ? 1 + rnd(i, j, 1) % (p - 1) : rnd(i, j, 2);
      for (int i = 0; i < n; ++i) for (int j = 0; j < m; ++j) { long v = 0; for (int k = 0; k < n; ++k) { int l = k == i ? 1 : k < i ? (var & 1 ? rnd(i, k, 3) : 0) : 0; v += (long)l * E[k][j]; } int row = var & 2 ? i : var == 1 ? n - 1 - i : (i + n / 2) % n; a[row][j] = (int)(v % p); }
      one<p>(c, a); if (c.fails.size() > 20) return; } --m; }
}
// The real fields: invertible systems with a chosen solution, and singular variants (a repeated row, with and without a contradiction).
template <class F> void fields(mc::Ctx& c, const std::vector<int>& dims, const char* nm) {
  for (int n : dims) for (int var = 0; var < 4; ++var) { auto el = [&](int i, int j) { unsigned char b[16]; for (int k = 0; k < 16; k += 8) { uint64_t r = mc::mix(var * 31 + k, i * 1000 + j); memcpy(b + k, &r, 8); } return var == 0 ? (i == j ? F() - F(1) : i + 1 == j ? F(3) : F()) : var == 3 ? (i + j == n - 1 ? F(2) : i + j < n - 1 ? F() : F() - F(7)) : F::Read(b); };
    scl::Mat<F> A(n, n); scl::Vec<F> b(n), x(n), want(n); for (int i = 0; i < n; ++i) { want[i] = el(i + 5, 999); for (int j = 0; j < n; ++j) A(i, j) = el(i, j); } for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) b[i] += A(i, j) * want[j];
    c.one(); c.ops(2); std::string D = fmt("%s n=%d variant %d", nm, n, var); if (!scl::details::SolveLinearSystem(x, A, b) || !x.Equals(want)) c.fail("la/solve-field", D + " A=" + A.ToString() + " x=" + x.ToString() + " want " + want.ToString()); scl::Mat<F> B(n, 1); for (int i = 0; i < n; ++i) B(i, 0) = b[i]; auto G = scl::details::CreateAugmentedMatrix(A, B); scl::details::RowReduceInPlace(G); bool ok = true; for (int i = 0; i < n; ++i) for (int j = 0; j <= n; ++j) ok &= G(i, j) == (j == n ? want[i] : i == j ? F(1) : F()); if (!ok) c.fail("la/rref-field", D);
    if (n > 1) for (int bad = 0; bad < 2; ++bad) for (int row : {0, n / 2, n - 2}) { if (row == n - 1) continue; auto A2 = A; auto b2 = b; for (int j = 0; j < n; ++j) A2(n - 1, j) = A(row, j) * F(3); b2[n - 1] = b[row] * F(3) + F(bad); c.one(); c.ops(2); if (scl::details::SolveLinearSystem(x, A2, b2)) c.fail("la/solve-field-singular", D); for (int i = 0; i < n; ++i) B(i, 0) = b2[i]; auto H = scl::details::CreateAugmentedMatrix(A2, B); scl::details::RowReduceInPlace(H); if (scl::details::HasSolution(H, false) != !bad) c.fail("la/has-solution-field", D + fmt(" contradiction=%d", bad)); if (scl::details::HasSolution(H, true)) c.fail("la/has-unique-solution-field", D); } }
}
}
MC_SECTION(shapes, 8, 8) { std::vector<int> d{1, 2, 3, 5, 7, 8, 9, 10}; if (c.thorough) for (int x : {4, 6, 12, 16, 17, 20}) d.push_back(x); shapes<2>(c, d); shapes<7>(c, d); shapes<251>(c, d); }
MC_SECTION(fields) { std::vector<int> d{1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 20}; if (c.thorough) for (int x : {31, 33, 50}) d.push_back(x); fields<scl::FF<61>>(c, d, "FF61"); fields<scl::FF<127>>(c, d, "FF127"); }
MC_SECTION(gf2, 4, 8) { for (int n = 1; n <= 4; ++n) for (int m = 1; m <= 5; ++m) if (n * m <= c.q(16, 20)) all<2>(c, n, m); all<2>(c, 2, 7); all<2>(c, 7, 2); all<2>(c, 5, 3); all<2>(c, 3, 5); }
MC_SECTION(gf3, 4, 8) { for (int n = 1; n <= 3; ++n) for (int m = 1; m <= 4; ++m) if (n * m <= c.q(9, 12)) all<3>(c, n, m); all<3>(c, 4, 2); all<3>(c, 2, 5); }
MC_SECTION(gf5, 1, 8) { all<5>(c, 1, 3); all<5>(c, 2, 2); all<5>(c, 2, 3); all<5>(c, 3, 2); if (c.thorough) { all<5>(c, 3, 3); all<5>(c, 2, 4); } }
MC_SECTION(gf7, 1, 8) { all<7>(c, 1, 2); all<7>(c, 2, 2); all<7>(c, 2, 3); all<7>(c, 3, 2); }
MC_SECTION(structured, 1, 1) { structured<5>(c, 4); structured<13>(c, c.q(4, 5)); structured<251>(c, 4); }
// Documented behaviour on free variables (satisfies the system, free variables one), on two fixed inputs.
MC_SECTION(free_variables) { auto w = [&](const char* key, const IM& a, std::vector<int> free) { constexpr unsigned p = 7; auto A = M<p>(a); auto y = scl::details::ExtractSolution(A); c.one(); bool good = y.Size() + 1 == a[0].size(); for (auto& r : a) { int s = 0; for (size_t j = 0; good && j + 1 < r.size(); ++j) s += r[j] * (int)U(y[j]); good &= s % (int)p == r.back(); } for (int f : free) good &= y[f] == GF<p>(1); if (!good) c.fail(key, "GF(7) " + P(a) + " gave " + y.ToString()); };
  w("la/extract/free-variables/[1,3,1,2][0,0,1,4][0,0,0,0]", {{1, 3, 1, 2}, {0, 0, 1, 4}, {0, 0, 0, 0}}, {1}); w("la/extract/free-variables/[1,2,3]", {{1, 2, 3}}, {1}); }
MC_SECTION(errors) { using T = GF<7>; c.one(); for (int n = 1; n < 4; ++n) for (int k = 0; k < 5; ++k) if (k != n) { scl::Mat<T> A(n, n); scl::Vec<T> b(k), x(n); c.one(); if (mc::outcome_of([&] { scl::details::SolveLinearSystem(x, A, b); }) != 1) c.fail("la/solve-mismatch", fmt("%d rows, %d values", n, k)); }
  for (int n = 1; n < 4; ++n) for (int m = 1; m < 4; ++m) for (int k = 1; k < 4; ++k) { scl::Mat<T> A(n, m), B(n, k); for (int i = 0; i < n; ++i) { for (int j = 0; j < m; ++j) A(i, j) = T(i * m + j); for (int j = 0; j < k; ++j) B(i, j) = T(3 + i * k + 2 * j); } auto g = scl::details::CreateAugmentedMatrix(A, B); bool ok = (int)g.Rows() == n && (int)g.Cols() == m + k; for (int i = 0; ok && i < n; ++i) for (int j = 0; j < m + k; ++j) ok &= g(i, j) == (j < m ? A(i, j) : B(i, j - m)); c.one(); if (!ok) c.fail("la/augment", fmt("%dx%d + %dx%d", n, m, n, k)); } }
