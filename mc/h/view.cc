// C30: what any t parties see is independent of the other parties' inputs, given the coalition's own inputs and outputs.
// The real protocols run over dual numbers, so one run per honest draw and per honest input gives the exact derivative of
// every message in that direction. At a generic point, the view is independent of the inputs (given the outputs) only if
// every direction of the inputs that leaves the coalition's outputs alone lies in the span of the honest draws' directions.
#include "h/tpc.h"
using namespace tpc;
namespace {
using Row = std::vector<uint64_t>;
constexpr uint64_t E = 1ull << 32, LO = 0xffffffffu;
void addmul(Row& r, const Row& p, uint64_t f) { for (size_t x = 0; x < r.size(); ++x) r[x] = (r[x] + f * p[x]) % P; }
// incremental elimination
struct Span { std::vector<Row> b; std::vector<size_t> piv;
  bool add(Row r) { for (size_t i = 0; i < b.size(); ++i) if (r[piv[i]]) addmul(r, b[i], P - r[piv[i]]);
    size_t c = 0; while (c < r.size() && !r[c]) ++c; if (c == r.size()) return false;
    uint64_t iv = inv(r[c]); for (auto& x : r) x = x * iv % P; b.push_back(r); piv.push_back(c); return true; }
  size_t size() const { return b.size(); } };
struct View { std::vector<std::vector<Row>> m; Vals out; };   // m[from][to]: the derivatives of the messages
template <class F> View runWith(int n, F f) { View v; auto r = f(); v.m.resize(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { Row x = r->net.sent(i, j); for (auto& e : x) e >>= 32; v.m[i].push_back(x); } v.out = r->outputs(); return v; }
// derivatives of the outputs in the clear
Vals evalDual(const Desc& d, const Vals& in) {
  std::vector<FF> w; std::vector<int> ctr(d.clients); Vals r(d.clients);
  for (auto& o : d.ops) { if (o.k == 'I') w.push_back(mk(in[o.a][ctr[o.a]++])); else if (o.k == '+') w.push_back(w[o.a] + w[o.b]); else if (o.k == '*') w.push_back(w[o.a] * w[o.b]); else if (o.k == 'O') r[o.a].push_back(val(w[o.b])); }
  return r;
}
// run: (inputs) -> View, with the tape's overrides in force
template <class R> void decide(mc::Ctx& c, const Desc& d, int n, int t, Tape& tape, R run, const std::string& where) {
  c.note(where); std::string msg;
  int rc = mc::outcome_of([&] {
    Vals in = generic(d, 3); tape.over.clear(); tape.drawn.clear(); tape.reused = false; tape.record = true; View base = run(in); tape.record = false; auto ks = tape.drawn; c.one();
    for (auto& a : base.m) for (auto& b : a) for (auto x : b) if (x) { c.fail("harness", where + "derivative without a direction"); return; }
    if (base.out != evalDual(d, in)) { c.fail("value", where + "wrong outputs"); return; }
    std::vector<View> R_; for (auto& k : ks) { tape.over.clear(); tape.over[k] = tape.at(k) | E; R_.push_back(run(in)); c.one(); if (R_.back().out != base.out) { c.fail("value", where + "an output depends on a random draw"); return; } }
    tape.over.clear(); struct X { int owner; View v; Vals out; }; std::vector<X> xs;
    for (int i = 0; i < d.clients; ++i) for (size_t j = 0; j < in[i].size(); ++j) { Vals q = in; q[i][j] |= E; View v = run(q); Vals o = evalDual(d, q); c.one(); if (v.out != o) { c.fail("value", where + "wrong derivative of an output"); return; } for (auto& r : o) for (auto& x : r) x >>= 32; xs.push_back({i, v, o}); }
    c.count("draws", ks.size()); c.count("directions", ks.size() + xs.size());
    std::vector<int> T; std::function<void(int)> sub_ = [&](int from) {
      if ((int)T.size() == t) {
        c.count("coalitions"); auto bad = [&](int i) { return std::find(T.begin(), T.end(), i) != T.end(); };
        auto view = [&](const View& v) { Row r; for (int i = 0; i < n; ++i) if (!bad(i)) for (int q : T) r.insert(r.end(), v.m[i][q].begin(), v.m[i][q].end()); return r; };
        Span s; for (size_t i = 0; i < ks.size(); ++i) if (!bad((int)ks[i][0])) s.add(view(R_[i]));
        size_t r0 = s.size(); Span o; size_t nh = 0, W = 0;
        for (auto& x : xs) if (!bad(x.owner)) { ++nh; Row r; for (int q : T) r.insert(r.end(), x.out[q].begin(), x.out[q].end()); W = r.size(); if (W) o.add(r); s.add(view(x.v)); }
        size_t learn = s.size() - r0; c.checked(1); c.outcome(mc::mix(mc::mix(r0, learn), nh));
        if (learn > o.size()) c.fail("leak", where + mc::fmt("parties {%s} learn %zu independent values about the other parties' %zu inputs; their outputs reveal %zu", mc::join(T).c_str(), learn, nh, o.size()));
        return; }
      for (int i = from; i < n; ++i) { T.push_back(i); sub_(i + 1); T.pop_back(); } };
    sub_(0);
  }, &msg);
  if (rc) c.fail("throws", where + msg);
  c.sample(where);
}
void tpc_(mc::Ctx& c, const Desc& d, int n, int t, int k, Tape& tape) {
  decide(c, d, n, t, tape, [&](const Vals& in) { return runWith(n, [&] { auto p = std::make_unique<TP>(d, n, t, k, tape); p->corr(); p->fi(); p->fd(); p->inputs(in); p->online(); return p; }); }, mc::fmt("TurboPack n=%d t=%d k=%d circuit %s: ", n, t, k, d.str().c_str()));
}
void dnc_(mc::Ctx& c, const Desc& d, int n, int t, Tape& tape) {
  decide(c, d, n, t, tape, [&](const Vals& in) { return runWith(n, [&] { auto p = std::make_unique<DN>(d, n, t, 2, tape); p->prep(); p->fd(); p->inputs(in); p->online(); return p; }); }, mc::fmt("DN07 n=%d t=%d circuit %s: ", n, t, d.str().c_str()));
}
// inputs of one or several owners, up to `ops` gates, outputs to one or several owners
void shape(mc::Chooser& ch, Desc& d, int n, int ops, bool ordered) {
  d.clients = n; int ni = 1 + ch.choose(2); static const int own[][2] = {{0, 0}, {0, 1}, {2, 0}, {2, 2}}; int oi = ch.choose(ni == 1 ? 2 : 4);
  for (int i = 0; i < ni; ++i) d.ops.push_back({'I', ni == 1 ? (oi ? n - 1 : 0) : own[oi][i] % n, 0});
  genOps(ch, d, ch.choose(ops + 1), ordered, true);
  int pat = ch.choose(3), nw = nwires(d); d.closeEarly = pat != 1;
  if (pat == 0) for (int w = 0; w < nw; ++w) d.ops.push_back({'O', w % n, w}); else if (pat == 1) d.ops.push_back({'O', 0, nw - 1}); else d.ops.push_back({'O', n - 1, nw - 1});
}
// wider circuits: several batches per layer, several layers, inputs of everyone
Desc wide(int n, int w, int layers, int out) {
  Desc d; d.clients = n; for (int i = 0; i < w; ++i) d.ops.push_back({'I', i % n, 0}); int lo = 0;
  for (int l = 0; l < layers; ++l) { if (l) d.ops.push_back({'L', 0, 0}); for (int i = 0; i < w; ++i) d.ops.push_back({'*', lo + i, lo + (i + 1) % w}); lo += w; }
  d.ops.push_back({'+', lo, lo + w - 1}); d.ops.push_back({'O', out, lo + w}); if (out != n - 1) d.ops.push_back({'O', n - 1, lo});
  return d;
}
}
MC_SECTION(turbopack, 8, 8) {
  Tape tape; tape.install();
  c.explore([&](mc::Chooser& ch) {
    static const int cfg[][3] = {{4, 1, 2}, {5, 2, 2}, {6, 1, 3}}; int ci = ch.choose(c.q(2, 3)); int n = cfg[ci][0], t = cfg[ci][1], k = cfg[ci][2]; tape.base = 1 + ch.choose(c.q(1, 2));
    Desc d; shape(ch, d, n, ci == 0 ? c.q(2, 3) : c.q(1, 2), c.thorough && ci == 0); tpc_(c, d, n, t, k, tape);
  }, 1 << 30, 6);
}
MC_SECTION(turbopack_wide, 8, 8) {
  Tape tape; tape.install();
  c.explore([&](mc::Chooser& ch) {
    static const int cfg[][3] = {{4, 1, 2}, {5, 2, 2}, {6, 1, 3}, {7, 2, 3}}; int ci = ch.choose(4); int n = cfg[ci][0], t = cfg[ci][1], k = cfg[ci][2]; tape.base = 1;
    int w = 2 + ch.choose(c.q(2, 4)), l = 1 + ch.choose(c.q(3, 4)), o = ch.choose(2) ? n - 1 : 0; if (!c.thorough && n >= 6 && (w > 2 || l > 2)) throw mc::Prune{};
    tpc_(c, wide(n, w, l, o), n, t, k, tape);
  }, 1 << 30, 4);
}
MC_SECTION(dn07, 8, 8) {
  Tape tape; tape.install();
  c.explore([&](mc::Chooser& ch) {
    static const int cfg[][2] = {{3, 1}, {4, 1}, {5, 2}, {6, 2}}; int ci = ch.choose(c.q(3, 4)); int n = cfg[ci][0], t = cfg[ci][1]; tape.base = 1 + ch.choose(c.q(1, 2));
    Desc d; shape(ch, d, n, ci < 2 ? c.q(2, 3) : c.q(1, 2), c.thorough); dnc_(c, d, n, t, tape);
  }, 1 << 30, 6);
}
MC_SECTION(dn07_wide, 8, 8) {
  Tape tape; tape.install();
  c.explore([&](mc::Chooser& ch) {
    static const int cfg[][2] = {{3, 1}, {4, 1}, {5, 2}, {7, 3}}; int ci = ch.choose(4); int n = cfg[ci][0], t = cfg[ci][1]; tape.base = 1;
    int w = 2 + ch.choose(c.q(3, 5)), l = 1 + ch.choose(c.q(3, 4)), o = ch.choose(2) ? n - 1 : 0; dnc_(c, wide(n, w, l, o), n, t, tape);
  }, 1 << 30, 4);
}
