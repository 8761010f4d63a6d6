// C01: the whole TurboPack protocol, lock-step, for every circuit/layout/input/tape within bounds.
#include "h/tpc.h"
using namespace tpc;
namespace {
void run(mc::Ctx& c, const Desc& d, int n, int t, int k, const Vals& in, Tape& tape, const std::string& tag) {
  Vals want = d.eval(in), got; std::string msg; c.note(tag + " " + d.str()); size_t left = 0;
  int rc = mc::outcome_of([&] { TP p(d, n, t, k, tape); p.corr(); p.fi(); p.fd(); p.inputs(in); p.online(); got = p.outputs(); left = p.net.pending(); }, &msg);
  c.one(); c.ops(d.ops.size());
  auto w = [&] { return mc::fmt("n=%d t=%d k=%d circuit %s inputs %s: ", n, t, k, d.str().c_str(), show(in).c_str()); };
  if (rc) c.fail(tag + "-throws", w() + "protocol failed: " + msg);
  else if (got != want) c.fail(tag + "-value", w() + "outputs " + show(got) + " expected " + show(want));
  else if (left) c.fail(tag + "-unconsumed", w() + mc::fmt("%zu bytes never received", left));
  uint64_t h = 1; for (auto& r : want) for (auto x : r) h = mc::mix(h, x); c.outcome(h); c.sample(w() + show(want));
}
#if !defined(TP_P)
constexpr int PS[][3] = {{3, 1, 2}};
#endif
}
#if defined(TP_P) && TP_P == 7
// every circuit of up to three gates on up to three inputs
MC_SECTION(circuits, 8, 8) {
  Tape tape; tape.install();
  c.explore([&](mc::Chooser& ch) {
    static const int cfg[][3] = {{4, 1, 2}, {3, 0, 2}, {5, 2, 2}}; int ci = ch.choose(c.q(2, 3)); int n = cfg[ci][0], t = cfg[ci][1], k = cfg[ci][2];
    Desc d; d.clients = n; int ni = 1 + ch.choose(2); static const int own[][2] = {{0, 0}, {0, 1}, {2, 0}, {2, 2}}; int oi = ch.choose(ni == 1 ? 2 : 4);
    for (int i = 0; i < ni; ++i) d.ops.push_back({'I', ni == 1 ? (oi ? n - 1 : 0) : own[oi][i], 0});
    int maxOps = c.q(ci == 0 ? 3 : 2, 3); genOps(ch, d, ch.choose(maxOps + 1), c.thorough || ci == 0, true);
    int pat = ch.choose(3), nw = nwires(d); d.closeEarly = pat != 1;
    if (pat == 0) for (int w = 0; w < nw; ++w) d.ops.push_back({'O', w % n, w});
    else if (pat == 1) for (int w = nw - 1; w >= 0; --w) d.ops.push_back({'O', 1, w});
    else d.ops.push_back({'O', n - 1, nw - 1});
    run(c, d, n, t, k, generic(d), tape, "circuit");
  }, 1 << 30, 7);
}
// every input assignment of a few circuits, and every tape that differs in one (thorough: two) draws from a base tape
MC_SECTION(inputs, 4, 4) {
  Tape tape; tape.install();
  c.explore([&](mc::Chooser& ch) {
    int n = 3 + ch.choose(3), t = n - 3, k = 2; Desc d; d.clients = n; int which = ch.choose(4);
    static const std::vector<Op> cs[] = {
      {{'I', 0, 0}, {'I', 1, 0}, {'*', 0, 1}, {'O', 0, 2}, {'O', 2, 2}},
      {{'I', 1, 0}, {'I', 1, 0}, {'I', 2, 0}, {'+', 0, 1}, {'*', 3, 2}, {'*', 3, 3}, {'L', 0, 0}, {'*', 4, 5}, {'O', 2, 6}, {'O', 0, 4}, {'O', 2, 0}},
      {{'I', 2, 0}, {'*', 0, 0}, {'L', 0, 0}, {'*', 1, 0}, {'L', 0, 0}, {'*', 2, 1}, {'O', 1, 3}},
      {{'I', 0, 0}, {'I', 0, 0}, {'I', 0, 0}, {'*', 0, 1}, {'*', 1, 2}, {'*', 2, 0}, {'+', 3, 4}, {'+', 6, 5}, {'+', 7, 7}, {'O', 0, 8}, {'O', 1, 7}, {'O', 1, 6}, {'O', 1, 3}} };
    d.ops = cs[which]; run(c, d, n, t, k, allInputs(ch, d), tape, "inputs");
  }, 1 << 30, 4);
}
MC_SECTION(tapes, 8, 8) {
  Tape tape; tape.install();
  c.explore([&](mc::Chooser& ch) {
    int ci = ch.choose(3); int n = ci == 0 ? 4 : ci == 1 ? 5 : 3, t = n - 3, k = 2; Desc d; d.clients = n;
    d.ops = {{'I', 0, 0}, {'I', 1, 0}, {'*', 0, 1}, {'+', 2, 0}, {'O', 2, 2}, {'O', 0, 3}};
    tape.base = ch.choose(4); tape.over.clear(); tape.drawn.clear(); tape.record = true;
    Vals in = generic(d, tape.base);
    run(c, d, n, t, k, in, tape, "tape"); tape.record = false; auto ks = tape.drawn; c.count("draws", ks.size());
    int bound = c.thorough && ci != 1 && tape.base < 2 ? 2 : 1; int a = ch.choose((int)ks.size());
    for (uint64_t v = 0; v < P; ++v) { tape.over.clear(); tape.over[ks[a]] = v; run(c, d, n, t, k, in, tape, "tape");
      if (bound == 2 && v == 1) for (size_t b = a + 1; b < ks.size(); ++b) for (uint64_t u : {1, 3}) { tape.over[ks[b]] = u; run(c, d, n, t, k, in, tape, "tape"); tape.over.erase(ks[b]); } }
    tape.over.clear();
  }, 1 << 30, 3);
}
#endif
#if defined(TP_P) && TP_P != 7
// every admissible (n,t,k) with k<=4, every number of inputs, gates and outputs around the batch boundaries
MC_SECTION(layouts, 8, 8) {
  Tape tape; tape.install();
  c.explore([&](mc::Chooser& ch) {
    int k = 1 + ch.choose(4); if (k == 4 && !c.thorough) { } int t = ch.choose(k == 1 ? 1 : 2 * k - 1), n = t + 2 * k - 1;
    if (n + k > (int)P) throw mc::Prune{};
    Desc d; d.clients = n; int mode = ch.choose(4);
    auto fill = [&](const std::vector<int>& nin, const std::vector<int>& muls, const std::vector<int>& nout) {
      for (int i = 0; i < n; ++i) for (int j = 0; j < nin[i]; ++j) d.ops.push_back({'I', i, 0});
      int ni = nwires(d); if (!ni) { d.ops.push_back({'I', n - 1, 0}); ni = 1; }
      std::vector<int> cur; for (int i = 0; i < ni; ++i) cur.push_back(i); int next = ni; unsigned s = 0;
      for (size_t l = 0; l < muls.size(); ++l) { if (l) d.ops.push_back({'L', 0, 0}); std::vector<int> nw; d.ops.push_back({'+', cur[0], cur.back()}); cur.push_back(next++);
        for (int m = 0; m < muls[l]; ++m) { int a = cur[(s * 7 + 3) % cur.size()], b = cur[(s * 5 + 1) % cur.size()]; s++; d.ops.push_back({'*', a, b}); nw.push_back(next++); } for (int x : nw) cur.push_back(x); }
      for (int i = 0; i < n; ++i) for (int j = 0; j < nout[i]; ++j) d.ops.push_back({'O', i, cur[(cur.size() - 1 - (i + j * n) % cur.size())]});
    };
    std::vector<int> a(n, 0), o(n, 0);
    if (mode == 0) { a[0] = 1; a[n - 1] += 1; o[0] = 2; int L = 1 + ch.choose(3); std::vector<int> m; for (int l = 0; l < L; ++l) m.push_back(ch.choose(L == 3 ? std::min(k + 2, 3) : 2 * k + 2)); fill(a, m, o); }
    else if (mode == 1) { int who = ch.choose(n); a[who] = ch.choose(2 * k + 2); a[(who + 1) % n] += ch.choose(k + 2); o[n / 2] = 1; fill(a, {k + 1, 1}, o); }
    else if (mode == 2) { int who = ch.choose(n); o[who] = ch.choose(2 * k + 2); o[(who + 1) % n] += ch.choose(k + 2); a[n / 2] = 2; fill(a, {k, k + 1}, o); }
    else { int m = ch.choose(n); for (int i = 0; i < n; ++i) { a[i] = (i + m) % (k + 2); o[i] = (i * 2 + m) % (k + 2); } fill(a, {2 * k + 1, 0, k}, o); }
    d.closeEarly = mode != 2; tape.base = 1 + mode;
    run(c, d, n, t, k, generic(d, mode), tape, mc::fmt("layout%d", mode));
  }, 1 << 30, 4);
}
// parameters outside the admissible set are rejected
MC_SECTION(params) {
  Tape tape; tape.install();
  c.explore([&](mc::Chooser& ch) {
    int k = 1 + ch.choose(3), n = 1 + ch.choose(9), t = ch.choose(9); Desc d; d.clients = n; d.ops = {{'I', 0, 0}, {'*', 0, 0}, {'O', 0, 1}};
    bool ok = n == t + 2 * k - 1 && n > 2 * t; std::string msg; c.one();
    int rc = mc::outcome_of([&] { TP p(d, n, t, k, tape); p.corr(); }, &msg);
    if (ok != (rc == 0)) c.fail("params", mc::fmt("n=%d t=%d k=%d: %s", n, t, k, rc ? msg.c_str() : "accepted"));
  });
}
#endif
#if !defined(TP_P)
// large circuits and many parties over the shipped field
MC_SECTION(big, 8, 8) {
  Tape tape; tape.install(); static const int cfg[][2] = {{4, 2}, {3, 2}, {5, 2}, {5, 3}, {8, 3}, {10, 4}, {12, 5}, {16, 5}, {11, 6}, {21, 6}, {20, 10}, {33, 9}, {40, 20}};
  c.explore([&](mc::Chooser& ch) { int ci = ch.choose(c.q(11, 13)), n = cfg[ci][0], k = cfg[ci][1], t = n - 2 * k + 1, sh = ch.choose(5); tape.base = 1 + ch.choose(c.q(2, 4)); Desc d = bigDesc(n, sh, ci); run(c, d, n, t, k, generic(d, sh), tape, "big"); }, 1 << 30, 2);
}
// the shipped field and the benchmark's parameters
MC_SECTION(benchmark, 8, 8) {
  Tape tape; tape.install();
  c.explore([&](mc::Chooser& ch) {
    int n = std::vector<int>{5, 9, 13, 17, 21}[ch.choose(c.q(3, 5))], t = (n - 1) / 2, k = (t + 2) / 2; int depth = 1 + ch.choose(3), width = 2 * (1 + ch.choose(k + 1)); tape.base = 1 + ch.choose(c.q(2, 6));
    tp::CircuitConfig cf; cf.n_parties = n; cf.inp_gates.assign(n, 0); cf.inp_gates[0] = 2; cf.out_gates.assign(n, 0); cf.out_gates[0] = 2; cf.width = width; cf.depth = depth; cf.batch_size = k;
    Net net(n); std::vector<std::shared_ptr<tp::Circuit>> cs; std::vector<FF> want, got; std::string msg; size_t left = 0; c.one();
    int rc = mc::outcome_of([&] {
      for (int i = 0; i < n; ++i) { tape.cur = i; cs.push_back(std::make_shared<tp::Circuit>(tp::Circuit::FromConfig(cf))); cs[i]->SetNetwork(net.net[i], i); cs[i]->GenCorrelator(); cs[i]->SetThreshold(t); }
      auto all = [&](auto f) { for (int i = 0; i < n; ++i) { tape.cur = i; f(*cs[i]); } };
      all([](tp::Circuit& c) { c.FIPrepSend(); }); all([](tp::Circuit& c) { c.FIPrepRecv(); }); all([](tp::Circuit& c) { c.GenProdPartiesSendP1(); }); all([](tp::Circuit& c) { c.GenProdP1ReceivesAndSends(); }); all([](tp::Circuit& c) { c.GenProdPartiesReceive(); });
      all([](tp::Circuit& c) { c.MapCorrToCircuit(); }); all([](tp::Circuit& c) { c.PrepMultPartiesSendP1(); }); all([](tp::Circuit& c) { c.PrepMultP1ReceivesAndSends(); }); all([](tp::Circuit& c) { c.PrepIOPartiesSendOwner(); }); all([](tp::Circuit& c) { c.PrepMultPartiesReceive(); }); all([](tp::Circuit& c) { c.PrepIOOwnerReceives(); });
      std::vector<FF> in{mk(0432432), mk(P - 5)}; cs[0]->SetClearInputsFlat(in); want = cs[0]->GetClearOutputsFlat(); cs[0]->SetInputs(in);
      all([](tp::Circuit& c) { c.InputOwnerSendsP1(); }); all([](tp::Circuit& c) { c.InputP1Receives(); });
      for (int l = 0; l < depth; ++l) { all([&](tp::Circuit& c) { c.MultP1Sends(l); }); all([&](tp::Circuit& c) { c.MultPartiesReceive(l); }); all([&](tp::Circuit& c) { c.MultPartiesSend(l); }); all([&](tp::Circuit& c) { c.MultP1Receives(l); }); }
      all([](tp::Circuit& c) { c.OutputP1SendsMu(); }); all([](tp::Circuit& c) { c.OutputOwnerReceivesMu(); });
      got = cs[0]->GetOutputs(); left = net.pending();
    }, &msg);
    std::string w = mc::fmt("benchmark circuit N=%d width=%d depth=%d: ", n, width, depth);
    // reference
    std::vector<uint64_t> r{0432432, P - 5}, x(width); for (int i = 0; i < width; ++i) x[i] = mul(r[i % 2], add(r[0], r[1]));
    for (int l = 1; l < depth; ++l) { auto y = x; for (int i = 0; i < width; ++i) y[i] = mul(x[i], add(x[i & ~1], x[i | 1])); x = y; }
    if (rc) c.fail("benchmark-throws", w + msg);
    else if (want.size() != 2 || val(want[0]) != x[0] || val(want[1]) != x[1 % width]) c.fail("benchmark-clear", w + "cleartext evaluation differs from the reference");
    else if (!(got == want)) c.fail("benchmark-value", w + "output differs from the cleartext value");
    else if (left) c.fail("benchmark-unconsumed", w + "bytes left");
    c.outcome(x[0]);
  }, 1 << 30, 3);
}
#endif
