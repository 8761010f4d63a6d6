// C03: the whole DN07 baseline, lock-step, for every circuit/layout/input/tape within bounds.
#include "h/tpc.h"
using namespace tpc;
namespace {
// dummy: -1 real preprocessing, otherwise the constant (0: the argument-less form)
void run(mc::Ctx& c, const Desc& d, int n, int t, int k, const Vals& in, Tape& tape, const std::string& tag, int dummy = -1) {
  Vals want = d.eval(in), got; std::string msg; c.note(tag + " " + d.str()); size_t left = 0;
  int rc = mc::outcome_of([&] { DN p(d, n, t, k, tape); if (dummy < 0) p.prep(); else for (auto& x : p.p) dummy ? x->DummyPrep(mk(dummy)) : x->DummyPrep(); p.fd(); p.inputs(in); p.online(); got = p.outputs(); left = p.net.pending(); }, &msg);
  c.one(); c.ops(d.ops.size());
  auto w = [&] { return mc::fmt("n=%d t=%d circuit %s inputs %s: ", n, t, d.str().c_str(), show(in).c_str()); };
  if (rc) c.fail(tag + "-throws", w() + "protocol failed: " + msg);
  else if (got != want) c.fail(tag + "-value", w() + "outputs " + show(got) + " expected " + show(want));
  else if (left) c.fail(tag + "-unconsumed", w() + mc::fmt("%zu bytes never received", left));
  uint64_t h = 1; for (auto& r : want) for (auto x : r) h = mc::mix(h, x); c.outcome(h); c.sample(w() + show(want));
}
}
#if defined(TP_P) && TP_P == 7
MC_SECTION(circuits, 8, 8) {
  Tape tape; tape.install();
  c.explore([&](mc::Chooser& ch) {
    static const int cfg[][2] = {{3, 1}, {5, 2}, {4, 1}, {1, 0}}; int ci = ch.choose(4); int n = cfg[ci][0], t = cfg[ci][1];
    Desc d; d.clients = n; int ni = 1 + ch.choose(2); static const int own[][2] = {{0, 0}, {0, 1}, {2, 0}, {2, 2}}; int oi = ch.choose(n == 1 ? 1 : ni == 1 ? 2 : 4);
    for (int i = 0; i < ni; ++i) d.ops.push_back({'I', ni == 1 ? (oi ? n - 1 : 0) : own[oi][i], 0});
    int maxOps = ci <= 1 ? 3 : c.q(2, 3); genOps(ch, d, ch.choose(maxOps + 1), c.thorough || ci == 0, true);
    int pat = ch.choose(3), nw = nwires(d); d.closeEarly = pat != 1;
    if (pat == 0) for (int w = 0; w < nw; ++w) d.ops.push_back({'O', w % n, w});
    else if (pat == 1) for (int w = nw - 1; w >= 0; --w) d.ops.push_back({'O', n > 1, w});
    else d.ops.push_back({'O', n - 1, nw - 1});
    run(c, d, n, t, 1 + pat, generic(d), tape, "circuit", pat == 2 ? 0 : -1);
  }, 1 << 30, 7);
}
MC_SECTION(inputs, 4, 4) {
  Tape tape; tape.install();
  c.explore([&](mc::Chooser& ch) {
    int t = 1 + ch.choose(2), n = 2 * t + 1 + ch.choose(2); Desc d; d.clients = n; int which = ch.choose(4), dummy = ch.choose(4) - 1;
    static const std::vector<Op> cs[] = {
      {{'I', 0, 0}, {'I', 1, 0}, {'*', 0, 1}, {'O', 0, 2}, {'O', 2, 2}},
      {{'I', 1, 0}, {'I', 1, 0}, {'I', 2, 0}, {'+', 0, 1}, {'*', 3, 2}, {'*', 3, 3}, {'L', 0, 0}, {'*', 4, 5}, {'O', 2, 6}, {'O', 0, 4}, {'O', 2, 0}},
      {{'I', 2, 0}, {'*', 0, 0}, {'L', 0, 0}, {'*', 1, 0}, {'L', 0, 0}, {'*', 2, 1}, {'O', 1, 3}},
      {{'I', 0, 0}, {'I', 0, 0}, {'I', 0, 0}, {'*', 0, 1}, {'*', 1, 2}, {'*', 2, 0}, {'+', 3, 4}, {'+', 6, 5}, {'+', 7, 7}, {'O', 0, 8}, {'O', 1, 7}, {'O', 1, 6}, {'O', 1, 3}} };
    d.ops = cs[which]; run(c, d, n, t, 2, allInputs(ch, d), tape, "inputs", dummy);
  }, 1 << 30, 4);
}
MC_SECTION(tapes, 8, 8) {
  Tape tape; tape.install();
  c.explore([&](mc::Chooser& ch) {
    int ci = ch.choose(3); int n = 3 + ci, t = (n - 1) / 2; Desc d; d.clients = n;
    d.ops = {{'I', 0, 0}, {'I', 1, 0}, {'*', 0, 1}, {'+', 2, 0}, {'*', 3, 1}, {'O', 2, 2}, {'O', 0, 3}, {'O', 1, 4}}; d.ops.insert(d.ops.begin() + 4, {'L', 0, 0});
    tape.base = ch.choose(4); tape.over.clear(); tape.drawn.clear(); tape.record = true;
    Vals in = generic(d, tape.base);
    run(c, d, n, t, 1, in, tape, "tape"); tape.record = false; auto ks = tape.drawn; c.count("draws", ks.size());
    int a = ch.choose((int)ks.size());
    for (uint64_t v = 0; v < P; ++v) { tape.over.clear(); tape.over[ks[a]] = v; run(c, d, n, t, 1, in, tape, "tape");
      if ((c.thorough || ci == 0) && v == 1) for (size_t b = a + 1; b < ks.size(); ++b) for (uint64_t u : {1, 3}) { tape.over[ks[b]] = u; run(c, d, n, t, 1, in, tape, "tape"); tape.over.erase(ks[b]); } }
    tape.over.clear();
  }, 1 << 30, 3);
}
#endif
#if defined(TP_P) && TP_P != 7
MC_SECTION(layouts, 8, 8) {
  Tape tape; tape.install();
  c.explore([&](mc::Chooser& ch) {
    int t = ch.choose(c.q(4, 6)), n = 2 * t + 1 + ch.choose(3); if (n + 1 > (int)P) throw mc::Prune{};
    int dummy = ch.choose(3) - 1; Desc d; d.clients = n; int mode = ch.choose(4), k = 1 + mode % 3;
    auto fill = [&](const std::vector<int>& nin, const std::vector<int>& muls, const std::vector<int>& nout) {
      for (int i = 0; i < n; ++i) for (int j = 0; j < nin[i]; ++j) d.ops.push_back({'I', i, 0});
      int ni = nwires(d); if (!ni) { d.ops.push_back({'I', n - 1, 0}); ni = 1; }
      std::vector<int> cur; for (int i = 0; i < ni; ++i) cur.push_back(i); int next = ni; unsigned s = 0;
      for (size_t l = 0; l < muls.size(); ++l) { if (l) d.ops.push_back({'L', 0, 0}); std::vector<int> nw; d.ops.push_back({'+', cur[0], cur.back()}); cur.push_back(next++);
        for (int m = 0; m < muls[l]; ++m) { int a = cur[(s * 7 + 3) % cur.size()], b = cur[(s * 5 + 1) % cur.size()]; s++; d.ops.push_back({'*', a, b}); nw.push_back(next++); } for (int x : nw) cur.push_back(x); }
      for (int i = 0; i < n; ++i) for (int j = 0; j < nout[i]; ++j) d.ops.push_back({'O', i, cur[(cur.size() - 1 - (i + j * n) % cur.size())]});
    };
    std::vector<int> a(n, 0), o(n, 0); int m1 = 2 * t + 4;
    if (mode == 0) { a[0] = 1; a[n - 1] += 1; o[0] = 2; int L = 1 + ch.choose(3); std::vector<int> m; for (int l = 0; l < L; ++l) m.push_back(ch.choose(L == 1 ? m1 : 3)); fill(a, m, o); }
    else if (mode == 1) { int who = ch.choose(n); a[who] = ch.choose(m1); a[(who + 1) % n] += ch.choose(3); o[n / 2] = 1; fill(a, {t + 1, 1}, o); }
    else if (mode == 2) { int who = ch.choose(n); o[who] = ch.choose(4); o[(who + 1) % n] += ch.choose(3); a[n / 2] = 2; fill(a, {t, t + 1}, o); }
    else { int m = ch.choose(n); for (int i = 0; i < n; ++i) { a[i] = (i + m) % 3; o[i] = (i * 2 + m) % 3; } fill(a, {2 * t + 1, 0, t}, o); }
    d.closeEarly = mode != 2; tape.base = 1 + mode;
    run(c, d, n, t, k, generic(d, mode), tape, mc::fmt("layout%d", mode), dummy < 0 ? -1 : dummy * 5);
  }, 1 << 30, 5);
}
MC_SECTION(params) {
  c.explore([&](mc::Chooser& ch) {
    int n = ch.choose(14), t = ch.choose(14); c.one();
    int rc = mc::outcome_of([&] { tp::DN07 p(n, t); });
    if ((n > 2 * t) != (rc == 0)) c.fail("params", mc::fmt("n=%d t=%d: %s", n, t, rc ? "rejected" : "accepted"));
  });
}
#endif
#if !defined(TP_P)
MC_SECTION(big, 8, 8) {
  Tape tape; tape.install(); static const int cfg[][2] = {{3, 1}, {5, 2}, {7, 1}, {4, 0}, {10, 4}, {12, 5}, {16, 7}, {21, 10}, {33, 16}, {20, 3}, {41, 20}};
  c.explore([&](mc::Chooser& ch) { int ci = ch.choose(c.q(9, 11)), n = cfg[ci][0], t = cfg[ci][1], sh = ch.choose(5), dummy = ch.choose(3) - 1; tape.base = 1 + ch.choose(c.q(2, 4)); Desc d = bigDesc(n, sh, tape.base);
    run(c, d, n, t, 1 + sh, generic(d, sh), tape, "big", dummy < 0 ? -1 : dummy * 5); }, 1 << 30, 3);
}
MC_SECTION(benchmark, 4, 8) {
  Tape tape; tape.install();
  c.explore([&](mc::Chooser& ch) {
    int n = std::vector<int>{5, 9, 13, 17, 21}[ch.choose(c.q(3, 5))], t = (n - 1) / 2, k = (t + 2) / 2; int depth = 1 + ch.choose(3), width = 2 * (1 + ch.choose(t + 1)); tape.base = 1 + ch.choose(c.q(2, 6));
    tp::CircuitConfig cf; cf.n_parties = n; cf.inp_gates.assign(n, 0); cf.inp_gates[0] = 2; cf.out_gates.assign(n, 0); cf.out_gates[0] = 2; cf.width = width; cf.depth = depth; cf.batch_size = k;
    Net net(n); std::vector<std::shared_ptr<tp::Circuit>> cs; std::vector<std::shared_ptr<tp::DN07>> ps; std::string msg; size_t left = 0; c.one(); uint64_t o0 = 0, o1 = 0;
    int rc = mc::outcome_of([&] {
      for (int i = 0; i < n; ++i) { tape.cur = i; cs.push_back(std::make_shared<tp::Circuit>(tp::Circuit::FromConfig(cf))); cs[i]->SetNetwork(net.net[i], i); ps.push_back(std::make_shared<tp::DN07>(n, t)); ps[i]->SetCircuit(*cs[i]); }
      auto all = [&](auto f) { for (int i = 0; i < n; ++i) { tape.cur = i; f(*ps[i]); } };
      all([](tp::DN07& c) { c.PrepPartiesSend(); }); all([](tp::DN07& c) { c.PrepPartiesReceive(); }); all([](tp::DN07& c) { c.FDMapPrepToGates(); }); all([](tp::DN07& c) { c.FDMultPartiesSendP1(); }); all([](tp::DN07& c) { c.FDMultP1Receives(); });
      std::vector<FF> in{mk(0432432), mk(P - 5)}; ps[0]->GetCircuit().SetInputs(in);
      all([](tp::DN07& c) { c.InputPartiesSendOwners(); }); all([](tp::DN07& c) { c.InputOwnersReceiveAndSendParties(); }); all([](tp::DN07& c) { c.InputPartiesReceive(); });
      for (int l = 0; l < depth; ++l) { all([&](tp::DN07& c) { c.MultPartiesSendP1(l); }); all([&](tp::DN07& c) { c.MultP1Receives(l); }); all([&](tp::DN07& c) { c.MultP1SendsParties(l); }); all([&](tp::DN07& c) { c.MultPartiesReceive(l); }); }
      all([](tp::DN07& c) { c.OutputPartiesSendOwners(); }); all([](tp::DN07& c) { c.OutputOwnersReceive(); });
      o0 = val(ps[0]->GetOutput(0, 0)); o1 = val(ps[0]->GetOutput(0, 1)); left = net.pending();
    }, &msg);
    std::string w = mc::fmt("benchmark circuit N=%d width=%d depth=%d: ", n, width, depth);
    std::vector<uint64_t> r{0432432, P - 5}, x(width); for (int i = 0; i < width; ++i) x[i] = mul(r[i % 2], add(r[0], r[1]));
    for (int l = 1; l < depth; ++l) { auto y = x; for (int i = 0; i < width; ++i) y[i] = mul(x[i], add(x[i & ~1], x[i | 1])); x = y; }
    if (rc) c.fail("benchmark-throws", w + msg); else if (o0 != x[0] || o1 != x[1]) c.fail("benchmark-value", w + "output differs from the reference value"); else if (left) c.fail("benchmark-unconsumed", w + "bytes left");
    c.outcome(x[0]);
  }, 1 << 30, 3);
}
#endif
