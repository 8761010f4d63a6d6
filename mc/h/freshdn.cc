// C06, the DN07 baseline: the input masks and double sharings are jointly uniform whatever any t dealers deal, no double
// sharing serves two multiplications, and what the parties reveal before the outputs is masked by values no t parties know.
// Over dual numbers, at the all-zero tape with zero inputs, the derivative of every message along a draw is exact: the
// products of shares vanish, so the multiplication messages are the double sharings themselves.
#include "h/tpc.h"
using namespace tpc;
namespace {
using Row = std::vector<uint64_t>;
constexpr uint64_t E = 1ull << 32;
struct Span { std::vector<Row> b; std::vector<size_t> piv;
  void add(Row r) { for (size_t i = 0; i < b.size(); ++i) if (r[piv[i]]) { uint64_t f = P - r[piv[i]]; for (size_t x = 0; x < r.size(); ++x) r[x] = (r[x] + f * b[i][x]) % P; }
    size_t c = 0; while (c < r.size() && !r[c]) ++c; if (c == r.size()) return; uint64_t iv = inv(r[c]); for (auto& x : r) x = x * iv % P; b.push_back(r); piv.push_back(c); }
  size_t size() const { return b.size(); } };
struct Img { std::vector<std::vector<Row>> dealt; Row pre, all; };   // dealt[from][to]; revealed before the outputs; revealed at all
Row flat(const Net& net, bool& value) { Row r; for (int i = 0; i < net.n; ++i) for (int j = 0; j < net.n; ++j) for (auto v : net.sent(i, j)) { if (v & (E - 1)) value = true; r.push_back(v >> 32); } return r; }
Img run(const Desc& d, int n, int t, Tape& tape, bool& value) {
  DN p(d, n, t, 2, tape); Img o; p.prep(); o.dealt.resize(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { Row x = p.net.sent(i, j); for (auto& v : x) { if (v & (E - 1)) value = true; v >>= 32; } o.dealt[i].push_back(x); }
  p.net.clearLog(); p.fd(); Vals z = generic(d); for (auto& r : z) for (auto& x : r) x = 0; p.inputs(z);
  p.all([](tp::DN07& c) { c.InputPartiesSendOwners(); }); p.all([](tp::DN07& c) { c.InputOwnersReceiveAndSendParties(); }); p.all([](tp::DN07& c) { c.InputPartiesReceive(); });
  for (size_t l = 0; l < p.depth; ++l) { p.all([&](tp::DN07& c) { c.MultPartiesSendP1(l); }); p.all([&](tp::DN07& c) { c.MultP1ReceivesAndSendsParties(l); }); p.all([&](tp::DN07& c) { c.MultPartiesReceive(l); }); }
  o.pre = flat(p.net, value); p.all([](tp::DN07& c) { c.OutputPartiesSendOwners(); }); p.all([](tp::DN07& c) { c.OutputOwnersReceive(); }); o.all = flat(p.net, value); return o;
}
// w inputs, layers of w multiplications each, every wire opened
Desc wide(int n, int w, int m, int layers) {
  Desc d; d.clients = n; for (int i = 0; i < w; ++i) d.ops.push_back({'I', i % n, 0}); int lo = 0, W = w;
  for (int l = 0; l < layers; ++l) { if (l) d.ops.push_back({'L', 0, 0}); for (int i = 0; i < m; ++i) d.ops.push_back({'*', lo + i % W, lo + (i + 1) % W}); lo += W; W = m; }
  int nw = nwires(d); for (int x = 0; x < nw; ++x) d.ops.push_back({'O', x % n, x});
  return d;
}
}
MC_SECTION(dn07_ranks, 8, 8) {
  Tape tape; tape.install(); tape.base = 0;
  c.explore([&](mc::Chooser& ch) {
    static const int cfg[][2] = {{1, 0}, {3, 1}, {4, 1}, {5, 2}, {7, 3}}; int ci = ch.choose(5), n = cfg[ci][0], t = cfg[ci][1];
    int w = 1 + ch.choose(c.q(4, 6)), m = 1 + ch.choose(c.q(4, 6)), L = ch.choose(c.q(4, 5)); if (!L && m > 1) throw mc::Prune{}; if (!c.thorough && n >= 5 && m * L > 8) throw mc::Prune{};
    Desc d = wide(n, w, m, L); size_t nI = w, nM = d.count('*'); std::string where = mc::fmt("n=%d t=%d %d inputs, %d layers of %d multiplications: ", n, t, w, L, L ? m : 0); c.note(where); std::string msg; bool value = false;
    int rc = mc::outcome_of([&] {
      tape.over.clear(); tape.drawn.clear(); tape.reused = false; tape.record = true; Img z = run(d, n, t, tape, value); tape.record = false; auto ks = tape.drawn; c.one(); c.count("draws", ks.size());
      if (tape.reused) c.fail("draw-reused", where + "one party's generator produced the same output twice");
      for (auto v : z.all) if (v) { c.fail("harness", where + "derivative without a direction"); return; }
      std::vector<Img> img; for (auto& k : ks) { tape.over.clear(); tape.over[k] = E; img.push_back(run(d, n, t, tape, value)); c.one(); } tape.over.clear();
      if (value) { c.fail("value", where + "a message of the all-zero run is not zero"); return; }
      std::vector<int> T; std::function<void(int)> sub_ = [&](int from) {
        if ((int)T.size() == t) {
          c.checked(1); Span full, view, both; std::string Ts = mc::join(T);
          for (size_t i = 0; i < ks.size(); ++i) { if (std::find(T.begin(), T.end(), (int)ks[i][0]) != T.end()) continue; full.add(img[i].all); Row v; for (int s = 0; s < n; ++s) for (int q : T) v.insert(v.end(), img[i].dealt[s][q].begin(), img[i].dealt[s][q].end()); if (!v.empty()) view.add(v); v.insert(v.end(), img[i].pre.begin(), img[i].pre.end()); both.add(v); }
          size_t want = nI * (t + 1) + nM * (3 * t + 1), priv = nI + nM * (t + 1); c.outcome(mc::mix(full.size(), view.size()));
          if (full.size() != want) c.fail("not-uniform", where + mc::fmt("dealers {%s} corrupted: %zu independent values in the sharings used where %zu are needed", Ts.c_str(), full.size(), want));
          if (both.size() != view.size() + priv) c.fail("not-private", where + mc::fmt("to parties {%s} the %zu revealed values are masked by %zu unknown values", Ts.c_str(), priv, both.size() - view.size()));
          return; }
        for (int i = from; i < n; ++i) { T.push_back(i); sub_(i + 1); T.pop_back(); } };
      sub_(0);
    }, &msg);
    if (rc) c.fail("throws", where + msg);
    c.sample(where);
  }, 1 << 30, 4);
}
