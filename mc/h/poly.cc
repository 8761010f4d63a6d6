// C14: polynomial arithmetic, all pairs up to a degree over small fields, structured ones over the large fields.
#include "mc.h"
#include "gfp.h"
#include "scl/math.h"
#include "scl/ss/poly.h"
using mc::fmt;
typedef std::vector<long> IP;
namespace {
int inv(long a, long p) { for (int b = 1; b < p; ++b) if (a * b % p == 1) return b; return 0; }
IP norm(IP a) { while (a.size() > 1 && !a.back()) a.pop_back(); if (a.empty()) a.push_back(0); return a; }
template <unsigned p> scl::details::Polynomial<GF<p>> mk(const IP& a) { scl::Vec<GF<p>> v(a.size()); for (size_t i = 0; i < a.size(); ++i) v[i] = GF<p>((int)a[i]); return scl::details::Polynomial<GF<p>>::Create(v); }
template <class T> IP get(const scl::details::Polynomial<T>& f) { IP r(f.Degree() + 1); for (size_t i = 0; i <= f.Degree(); ++i) r[i] = U(f[i]); return r; }
template <unsigned p> void same(mc::Ctx& c, const char* key, const scl::details::Polynomial<GF<p>>& f, const IP& want, const std::string& d) { c.ops(); IP w = norm(want), g = get(f); if (g != w) c.fail(key, fmt("p=%u ", p) + d + " gave " + mc::join(g) + " want " + mc::join(w)); }
template <unsigned p> std::vector<IP> polys(int len) { std::vector<IP> r; long tot = 1; for (int i = 0; i < len; ++i) tot *= p; for (long k = 0; k < tot; ++k) { IP a(len); long q = k; for (auto& x : a) { x = q % p; q /= p; } r.push_back(a); } return r; }
template <unsigned p> void unary(mc::Ctx& c, int len) {
  using T = GF<p>; using Po = scl::details::Polynomial<T>;
  for (int L = 0; L <= len; ++L) for (auto& a : polys<p>(L)) { c.cases(); c.checked(); std::string d = mc::join(a); auto f = mk<p>(a); IP n = norm(a); same<p>(c, "poly/create", f, a, d);
    if (f.Degree() != n.size() - 1) c.fail("poly/degree", d); if (U(f.LeadingTerm()) != (unsigned)n.back()) c.fail("poly/leading", d); if (U(f.ConstantTerm()) != (unsigned)n[0]) c.fail("poly/constant", d); if (f.IsZero() != (n.size() == 1 && !n[0])) c.fail("poly/zero", d);
    for (unsigned x = 0; x < p; ++x) { long v = 0, xp = 1; for (long k : n) { v += k * xp; xp = xp * x % p; } c.ops(); if (U(f.Evaluate(T((int)x))) != (unsigned)(v % p)) c.fail("poly/evaluate", fmt("p=%u ", p) + d + fmt(" at %u", x)); }
    std::string s = "g(y) = " + std::to_string(n[0]); for (size_t i = 1; i < n.size(); ++i) { s += " + " + std::to_string(n[i]) + "y"; if (i > 1) s += "^" + std::to_string(i); }
    if (f.ToString("g", "y") != s) c.fail("poly/string", d + " -> " + f.ToString("g", "y"));
    std::ostringstream os; os << f; if (os.str() != f.ToString()) c.fail("poly/stream", d);
    for (int L2 = (int)a.size() + 1; L2 < (int)a.size() + 3; ++L2) { IP b = a; b.resize(L2, 0); same<p>(c, "poly/create-leading-zeros", mk<p>(b), a, d); } }
  Po z; if (!z.IsZero() || z.Degree() != 0) c.fail("poly/default", ""); for (unsigned k = 0; k < p; ++k) { Po f{T((int)k)}; same<p>(c, "poly/constant-constructor", f, IP{(long)k}, ""); }
}
template <unsigned p> void one(mc::Ctx& c, const IP& a, const IP& b, const scl::details::Polynomial<GF<p>>& f) { auto g = mk<p>(b); std::string d = "(" + mc::join(a) + ") (" + mc::join(b) + ")"; c.cases(); c.checked();
      size_t n = std::max(a.size(), b.size()); IP s(n, 0), t(n, 0), m(a.size() + b.size() - 1, 0); for (size_t k = 0; k < a.size(); ++k) s[k] += a[k], t[k] += a[k]; for (size_t k = 0; k < b.size(); ++k) s[k] += b[k], t[k] += p - b[k]; for (auto& x : s) x %= p; for (auto& x : t) x %= p; for (size_t k = 0; k < a.size(); ++k) for (size_t l = 0; l < b.size(); ++l) m[k + l] = (m[k + l] + a[k] * b[l]) % p;
      same<p>(c, "poly/add", f.Add(g), s, d); same<p>(c, "poly/subtract", f.Subtract(g), t, d); same<p>(c, "poly/multiply", f.Multiply(g), m, d);
      IP nb = norm(b); bool zero = nb.size() == 1 && !nb[0]; std::vector<IP> qr; std::string msg; c.ops();
      int o = mc::outcome_of([&] { auto x = f.Divide(g); qr = {get(x[0]), get(x[1])}; }, &msg);
      if (zero) { if (o != 1) c.fail("poly/divide-by-zero", d); }
      else if (o) c.fail("poly/divide-throws", d + msg);
      else { IP r = norm(a), q(1, 0); int iv = inv(nb.back(), p); if (r.size() >= nb.size()) q.assign(r.size() - nb.size() + 1, 0); while (r.size() >= nb.size() && !(r.size() == 1 && !r[0])) { size_t sh = r.size() - nb.size(); long k = r.back() * iv % p; q[sh] = k; for (size_t l = 0; l < nb.size(); ++l) r[l + sh] = ((r[l + sh] - k * nb[l]) % (long)p + p) % p; r = norm(r); } if (qr[0] != norm(q)) c.fail("poly/quotient", fmt("p=%u ", p) + d + " gave " + mc::join(qr[0])); if (qr[1] != norm(r)) c.fail("poly/remainder", fmt("p=%u ", p) + d + " gave " + mc::join(qr[1])); }
      if (get(f) != norm(a) || get(g) != norm(b)) c.fail("poly/operand-modified", d); }
template <unsigned p> void pairs(mc::Ctx& c, int la, int lb) {
  auto A = polys<p>(la), B = polys<p>(lb);
  for (size_t i = c.shard; i < A.size(); i += c.shards) { auto f = mk<p>(A[i]); for (auto& b : B) one<p>(c, A[i], b, f); }
}
// Long operands: every pair of patterns (one term, all ones, leading and constant term only, dense, high zeros, gaps) of every listed length.
template <unsigned p> void lengthy(mc::Ctx& c, const std::vector<int>& lens) {
  std::vector<IP> A; for (int n : lens) for (int v = 0; v < 7; ++v) { IP a(n, 0); for (int i = 0; i < n; ++i) { long r = (long)(mc::mix(7 * n + v, i) >> 9) % (long)p; a[i] = v == 0 ? i == n - 1 : v == 1 ? 1 : v == 2 ? (i == n - 1 || !i ? (long)p - 1 : 0) : v == 3 ? r : v == 4 ? (i < n / 2 ? r : 0) : v == 5 ? (i % 8 ? 0 : r) : (i >= n / 2 ? r : 0); } A.push_back(a); }
  for (size_t i = c.shard; i < A.size(); i += c.shards) { auto f = mk<p>(A[i]); same<p>(c, "poly/create", f, A[i], "long"); IP n = norm(A[i]); std::string s = "f(x) = " + std::to_string(n[0]); for (size_t k = 1; k < n.size(); ++k) { s += " + " + std::to_string(n[k]) + "x"; if (k > 1) s += "^" + std::to_string(k); } if (f.ToString() != s) c.fail("poly/string", f.ToString() + " want " + s); for (unsigned x = 0; x < p && x < 9; ++x) { long v = 0, xp = 1; for (long k : n) { v = (v + k * xp) % p; xp = xp * x % p; } c.ops(); if (U(f.Evaluate(GF<p>((int)x))) != (unsigned)v) c.fail("poly/evaluate", fmt("p=%u %d coefficients at %u", p, (int)n.size(), x)); }
    for (auto& b : A) { one<p>(c, A[i], b, f); } }
}
// Over the large fields: identities for every pair of sparse/dense patterns of every degree.
template <class F> void big(mc::Ctx& c, int deg) {
  std::vector<scl::details::Polynomial<F>> P; for (int d = 0; d <= deg; ++d) for (int v = 0; v < 6; ++v) { scl::Vec<F> a(d + 1); for (int i = 0; i <= d; ++i) a[i] = v == 0 ? F(i == d) : v == 1 ? F(1) : v == 2 ? F(-1) : v == 3 ? F((i + 1) * 2654435761u % 2147483647) * F(i + 12345) * F(d + 99999) : v == 4 ? (i == d || i == 0 ? F(-i - 1) : F(0)) : F(i % 2 ? -1 : 1); P.push_back(scl::details::Polynomial<F>::Create(a)); }
  for (auto& f : P) for (auto& g : P) { c.cases(); c.checked(); c.ops(5); auto s = f.Add(g), m = f.Multiply(g), t = f.Subtract(g);
      std::string d = f.ToString() + " / " + g.ToString(); if (m.Degree() != f.Degree() + g.Degree() && !f.IsZero() && !g.IsZero()) c.fail("poly/big/multiply-degree", d);
      for (int x = -3; x <= 12; ++x) { F X = x > 8 ? F(x) * F(1 << 30) * F(1 << 30) : F(x); F a = f.Evaluate(X), b = g.Evaluate(X); if (!(s.Evaluate(X) == a + b)) c.fail("poly/big/add", d); if (!(t.Evaluate(X) == a - b)) c.fail("poly/big/subtract", d); if (!(m.Evaluate(X) == a * b)) c.fail("poly/big/multiply", d);
        F h, xp(1); for (size_t i = 0; i <= f.Degree(); ++i) { h += f[i] * xp; xp *= X; } if (!(h == a)) c.fail("poly/big/evaluate", d); }
      auto qr = f.Divide(g); auto back = g.Multiply(qr[0]).Add(qr[1]); bool eq = back.Degree() == f.Degree(); for (size_t i = 0; eq && i <= f.Degree(); ++i) eq = back[i] == f[i]; if (!eq) c.fail("poly/big/divide", d); if (!(qr[1].Degree() < g.Degree() || qr[1].IsZero())) c.fail("poly/big/remainder-degree", d); }
}
}
MC_SECTION(unary) { unary<2>(c, 7); unary<3>(c, 5); unary<5>(c, 4); unary<7>(c, 4); unary<13>(c, 2); }
MC_SECTION(pairs2, 1, 8) { for (int a = 1; a <= c.q(6, 8); ++a) for (int b = 1; b <= c.q(6, 7); ++b) pairs<2>(c, a, b); }
MC_SECTION(pairs3, 4, 8) { for (int a = 1; a <= 5; ++a) for (int b = 1; b <= 4; ++b) pairs<3>(c, a, b); if (c.thorough) { pairs<3>(c, 6, 5); pairs<3>(c, 7, 3); } }
MC_SECTION(pairs5, 4, 8) { for (int a = 1; a <= 4; ++a) for (int b = 1; b <= 3; ++b) pairs<5>(c, a, b); if (c.thorough) { pairs<5>(c, 4, 4); pairs<5>(c, 5, 3); } }
MC_SECTION(pairs7, 4, 8) { for (int a = 1; a <= 3; ++a) for (int b = 1; b <= 3; ++b) pairs<7>(c, a, b); pairs<7>(c, 4, 2); if (c.thorough) pairs<7>(c, 4, 3); }
MC_SECTION(big61) { big<scl::FF<61>>(c, c.q(6, 12)); }
MC_SECTION(big127) { big<scl::FF<127>>(c, c.q(6, 12)); }
MC_SECTION(lengthy, 4, 8) { std::vector<int> l{1, 2, 3, 7, 8, 9, 10, 15, 16, 17, 31, 33}; if (c.thorough) for (int n : {63, 64, 65, 100, 129, 257}) l.push_back(n); lengthy<2>(c, l); lengthy<7>(c, l); lengthy<251>(c, l); }
