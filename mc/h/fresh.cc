// C06: the masks, triple factors, product messages and zero sharings are jointly uniform given the tapes of any t dealers,
// and the masks and factors are independent of everything dealt to any t parties. The preprocessing is linear in the
// honest dealers' draws (up to the products): it is run on every unit tape and the images' ranks decide uniformity.
#include "h/corr.h"
using namespace tpc;
namespace {
using Row = std::vector<uint64_t>;
struct Images { Row lin, view, secret; };   // view: per (from,to) messages are kept separately below
struct Out { Row lin; Row M; Row secret; std::vector<std::vector<Row>> dealt; };
Out run(int n, int t, int k, int nI, int nM, int nIO, Tape& tape) {
  Corr r(n, t, k, nI, nM, nIO, tape); Out o; r.deal(); o.dealt.resize(n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) o.dealt[i].push_back(r.net.sent(i, j));
  r.net.clearLog(); r.all([](tp::Correlator& x) { x.GenProdPartiesSendP1(); }); for (int i = 0; i < n; ++i) for (auto v : r.net.sent(i, 0)) o.M.push_back(v);
  r.all([](tp::Correlator& x) { x.GenProdP1ReceivesAndSends(); }); r.all([](tp::Correlator& x) { x.GenProdPartiesReceive(); }); r.map();
  for (int j = 0; j < nI; ++j) o.secret.push_back(deg(r.ind(j), n - k).at(0));
  for (int b = 0; b < nM; ++b) { auto A = deg(r.A(b), n - k), B = deg(r.B(b), n - k); for (int x = 0; x < k; ++x) { o.secret.push_back(A.at(-x)); o.secret.push_back(B.at(-x)); } }
  o.lin = o.secret; for (int b = 0; b < nM; ++b) for (int w = 1; w <= 3; ++w) for (auto v : r.O(b, w)) o.lin.push_back(v); for (int j = 0; j < nIO; ++j) for (auto v : r.Z(j)) o.lin.push_back(v);
  return o;
}
// rank over GF(P) of a set of columns given as rows
size_t rankOf(std::vector<Row> m) { size_t r = 0; if (m.empty()) return 0; size_t W = m[0].size(); for (size_t c = 0; c < W && r < m.size(); ++c) { size_t p = r; while (p < m.size() && !m[p][c]) ++p; if (p == m.size()) continue; std::swap(m[p], m[r]); uint64_t iv = inv(m[r][c]); for (size_t x = c; x < W; ++x) m[r][x] = mul(m[r][x], iv); for (size_t q = r + 1; q < m.size(); ++q) if (m[q][c]) { uint64_t f = m[q][c]; for (size_t x = c; x < W; ++x) if (m[r][x]) m[q][x] = sub(m[q][x], mul(f, m[r][x])); } ++r; } return r; }
void decide(mc::Ctx& c, int n, int t, int k, int nI, int nM, int nIO) {
  Tape tape; tape.install(); tape.base = 0; auto where = [&] { return mc::fmt("n=%d t=%d k=%d masks=%d multbatches=%d iobatches=%d: ", n, t, k, nI, nM, nIO); }; c.note(where()); c.one(); std::string msg;
  int rc = mc::outcome_of([&] {
    tape.record = true; Out z = run(n, t, k, nI, nM, nIO, tape); tape.record = false; auto ks = tape.drawn;
    if (tape.reused) c.fail("draw-reused", where() + "one party's generator produced the same output twice");
    for (auto v : z.lin) if (v) { c.fail("not-linear", where() + "non-zero output for the all-zero tape"); break; }
    uint64_t half = inv(2); std::vector<Out> img; c.count("draws", ks.size());
    for (auto& key : ks) { tape.over.clear(); tape.over[key] = 1; Out a = run(n, t, k, nI, nM, nIO, tape); tape.over[key] = P - 1; Out b = run(n, t, k, nI, nM, nIO, tape); for (size_t i = 0; i < a.M.size(); ++i) a.M[i] = mul(half, sub(a.M[i], b.M[i])); for (size_t i = 0; i < a.lin.size(); ++i) if (add(a.lin[i], b.lin[i])) { c.fail("not-linear", where()); break; } c.one(); img.push_back(a); }
    // additivity of the images (conformance of the linear description)
    for (size_t i = 0; i + 1 < ks.size(); ++i) { size_t j = c.thorough || i % 4 == 0 ? (i * 7 + 3) % ks.size() : i + 1; if (i == j) continue; tape.over.clear(); tape.over[ks[i]] = 1; tape.over[ks[j]] = 2; Out a = run(n, t, k, nI, nM, nIO, tape); c.one(); for (size_t x = 0; x < a.lin.size(); ++x) if (a.lin[x] != add(img[i].lin[x], mul(2, img[j].lin[x]))) { c.fail("not-linear", where()); break; } }
    size_t want = nI + 2 * nM * k + (size_t)nM * k * n + (size_t)(3 * nM + nIO) * (n - k);
    std::vector<int> T; std::function<void(int)> sub_ = [&](int from) {
      if ((int)T.size() == t) {
        c.one(); std::vector<Row> full, view, both; std::string Ts = mc::join(T);
        for (size_t i = 0; i < ks.size(); ++i) { if (std::find(T.begin(), T.end(), (int)ks[i][0]) != T.end()) continue; Row r = img[i].lin; r.insert(r.end(), img[i].M.begin(), img[i].M.end()); full.push_back(r); Row v; for (int s = 0; s < n; ++s) for (int q : T) v.insert(v.end(), img[i].dealt[s][q].begin(), img[i].dealt[s][q].end()); view.push_back(v); v.insert(v.end(), img[i].secret.begin(), img[i].secret.end()); both.push_back(v); }
        size_t r = rankOf(full); if (r != want) c.fail("not-uniform", where() + mc::fmt("dealers {%s} corrupted: %zu independent values handed out where %zu are needed", Ts.c_str(), r, want));
        size_t rv = rankOf(view), rb = rankOf(both), ns = nI + 2 * nM * k; if (rb != rv + ns) c.fail("not-private", where() + mc::fmt("parties {%s} know %zu of the %zu masks and factors", Ts.c_str(), ns - (rb - rv), ns));
        c.outcome(mc::mix(r, rv)); return; }
      for (int i = from; i < n; ++i) { T.push_back(i); sub_(i + 1); T.pop_back(); } };
    sub_(0);
  }, &msg);
  if (rc) c.fail("throws", where() + msg);
  c.sample(where());
}
}
MC_SECTION(ranks, 8, 8) {
  c.explore([&](mc::Chooser& ch) {
    int k = 1 + ch.choose(c.q(3, 4)), t = ch.choose(k == 1 ? 1 : 2 * k - 1), n = t + 2 * k - 1; if (n + k > (int)P) throw mc::Prune{};
    int nI, nM, nIO; if (k <= 2) { nI = 1 + ch.choose(2 * t + 3); nM = 1 + ch.choose(2); nIO = 1 + ch.choose(4); } else { static const int am[][3] = {{1, 1, 2}, {5, 2, 4}, {9, 1, 1}}; auto* a = am[ch.choose(k == 4 ? 1 : c.q(1, 3))]; nI = a[0]; nM = a[1]; nIO = a[2]; }
    decide(c, n, t, k, nI, nM, nIO);
  }, 1 << 30, 4);
}
// many masks and batches: whatever is handed out late is as fresh as what is handed out first
MC_SECTION(more, 8, 8) {
  c.explore([&](mc::Chooser& ch) {
    static const int cfg[][3] = {{3, 0, 2}, {4, 1, 2}, {5, 2, 2}, {1, 0, 1}}; auto* f = cfg[ch.choose(4)]; int n = f[0], t = f[1], k = f[2], which = ch.choose(3), x = 3 + ch.choose(c.q(8, 22)); if (n + k > (int)P) throw mc::Prune{};
    decide(c, n, t, k, which == 1 ? 4 * x : 1, which == 0 ? x : 1, which == 2 ? 3 * x : 1);
  }, 1 << 30, 3);
}
