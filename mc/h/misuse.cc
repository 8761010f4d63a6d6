// C28: misuse is reported by an exception and leaves objects usable; correct use is not.
// Operation sequences on gates, batches and circuits against a model of what is available.
#include "h/tpc.h"
using namespace tpc;
namespace {
enum Kind { MU, LAMBDA, INDV, DN, CLEAR };
const char* KN[] = {"mu", "lambda", "indvshr", "dn07", "clear"};
const char* GN[] = {"input x", "input y", "mult m=x*y", "add s=x+m", "output o=s", "add u=s+y"};
// the world: x, y inputs; m = x*y; s = x+m; o = output of s; u = s+y
struct World {
  std::shared_ptr<tp::InputGate> x = std::make_shared<tp::InputGate>(0), y = std::make_shared<tp::InputGate>(1); std::shared_ptr<tp::MultGate> m = std::make_shared<tp::MultGate>(x, y);
  std::shared_ptr<tp::AddGate> s = std::make_shared<tp::AddGate>(x, m); std::shared_ptr<tp::OutputGate> o = std::make_shared<tp::OutputGate>(1, s); std::shared_ptr<tp::AddGate> u = std::make_shared<tp::AddGate>(s, y);
  bool have[5][3] = {};
  tp::Gate* g(int i) { tp::Gate* a[] = {x.get(), y.get(), m.get(), s.get(), o.get(), u.get()}; return a[i]; }
  static uint64_t leaf(int kind, int l) { return (kind * 3 + l + 2) % P; }
  void set(int kind, int l) { FF v = mk(leaf(kind, l)); have[kind][l] = true;
    switch (kind) { case MU: g(l)->_SetDummyMu(v); break; case LAMBDA: if (l < 2) (l ? y : x)->SetLambda(v); else m->SetDummyLambda(v); break; case INDV: if (l < 2) (l ? y : x)->SetIndvShrLambda(v); else m->SetIndvShrLambda(v); break; case DN: g(l)->SetDn07Share(v); break; case CLEAR: (l ? y : x)->ClearInput(v); break; } }
  FF get(int kind, int i) { switch (kind) { case MU: return g(i)->GetMu(); case LAMBDA: return g(i)->GetDummyLambda(); case INDV: return g(i)->GetIndvShrLambda(); case DN: return g(i)->GetDn07Share(); default: return g(i)->GetClear(); } }
  bool avail(int k, int i) { bool X = have[k][0], Y = have[k][1], M = k == CLEAR ? X && Y : have[k][2]; switch (i) { case 0: return X; case 1: return Y; case 2: return M; case 3: case 4: return X && M; default: return X && M && Y; } }
  uint64_t want(int k, int i) { uint64_t X = leaf(k, 0), Y = leaf(k, 1), M = k == CLEAR ? mul(X, Y) : leaf(k, 2); switch (i) { case 0: return X; case 1: return Y; case 2: return M; case 3: case 4: return add(X, M); default: return add(add(X, M), Y); } }
};
bool step(mc::Ctx& c, World& w, int k, int i, std::string& tr) {
  uint64_t v = 0; std::string msg; int rc = mc::outcome_of([&] { v = val(w.get(k, i)); }, &msg); c.one();
  if (w.avail(k, i)) { if (rc) { c.fail(mc::fmt("gate-%s-spurious", KN[k]), tr + ": " + GN[i] + " throws although available: " + msg); return false; } if (v != w.want(k, i)) { c.fail(mc::fmt("gate-%s-value", KN[k]), tr + ": " + GN[i] + mc::fmt(" is %lu expected %lu", (unsigned long)v, (unsigned long)w.want(k, i))); return false; } }
  else if (rc != 1) { c.fail(mc::fmt("gate-%s-silent", KN[k]), tr + ": " + GN[i] + (rc ? " throws something that is not an exception" : " returns a value that is not available")); return false; }
  c.outcome(mc::mix(k * 6 + i, v * 4 + rc)); return true;
}
void seqs(mc::Ctx& c, mc::Chooser& ch, int depth, const std::vector<int>& kinds) {
  World w; std::string tr; std::vector<std::pair<int, int>> ops; for (int k : kinds) { for (int l = 0; l < (k == CLEAR ? 2 : 3); ++l) ops.push_back({k, l}); for (int i = 0; i < 6; ++i) ops.push_back({k, 10 + i}); }
  for (int d = 0; d < depth; ++d) { auto [k, o] = ops[ch.choose((int)ops.size())]; c.ops(1);
    if (o < 10) { tr += mc::fmt(" set-%s(%s)", KN[k], GN[o]); w.set(k, o); } else { tr += mc::fmt(" get-%s(%s)", KN[k], GN[o - 10]); if (!step(c, w, k, o - 10, tr)) return; } }
  for (int k = 0; k < 5; ++k) for (int i = 5; i >= 0; --i) if (!step(c, w, k, i, tr)) return;
  // afterwards everything can still be completed
  for (int k = 0; k < 5; ++k) for (int l = 0; l < (k == CLEAR ? 2 : 3); ++l) if (!w.have[k][l]) w.set(k, l);
  tr += " then all set"; for (int k = 0; k < 5; ++k) for (int i = 5; i >= 0; --i) if (!step(c, w, k, i, tr)) return;
  c.sample(tr);
}
}
MC_SECTION(gates, 8, 8) {
  c.explore([&](mc::Chooser& ch) { int k = ch.choose(5); seqs(c, ch, c.q(4, 6), {k}); }, 1 << 30, 2);
}
MC_SECTION(kinds, 8, 8) {
  c.explore([&](mc::Chooser& ch) { seqs(c, ch, c.q(2, 3), {0, 1, 2, 3, 4}); }, 1 << 30, 1);
}
// batches: every sequence of appends (right and wrong owner) and preprocessing attempts
namespace {
template <class B, class Mk, class Get> void batch(mc::Ctx& c, mc::Chooser& ch, const char* name, int k, int depth, B& b, Mk mkGate, Get get, bool owned, std::function<void(int)> prep) {
  std::vector<std::shared_ptr<tp::Gate>> have; std::string tr = mc::fmt("%s of %d:", name, k); c.note(tr);
  for (int d = 0; d < depth; ++d) {
    int op = ch.choose(owned ? 4 : 3); c.ops(1); c.one(); std::string msg; int rc; bool ok;
    if (op == 0 || op == 3) { auto g = mkGate(op == 3); ok = (int)have.size() < k && op == 0; tr += op ? " append-foreign" : " append"; rc = mc::outcome_of([&] { b.Append(g); }, &msg); if (rc == 0) have.push_back(g); }
    else { ok = (int)have.size() == k; tr += op == 1 ? " prep" : " prep0"; rc = mc::outcome_of([&] { prep(op); }, &msg); }
    if (ok && rc) { c.fail(std::string(name) + "-spurious", tr + " throws: " + msg); return; } if (!ok && rc != 1) { c.fail(std::string(name) + "-silent", tr + " is accepted"); return; }
    if (b.HasRoom() != ((int)have.size() < k)) { c.fail(std::string(name) + "-room", tr); return; }
    for (size_t i = 0; i < have.size(); ++i) if (get(i) != have[i]) { c.fail(std::string(name) + "-content", tr); return; }
    c.outcome(have.size() * 8 + op * 2 + rc);
  }
  c.sample(tr);
}
}
MC_SECTION(batches, 4, 4) {
  c.explore([&](mc::Chooser& ch) {
    int k = 1 + ch.choose(c.q(3, 4)), which = ch.choose(3), depth = c.q(k + 3, k + 4); Net net(3);
    if (which == 0) { tp::InputBatch b(1, k); b.SetNetwork(net.net[0], 0); batch(c, ch, "inputbatch", k, depth, b, [&](bool f) { return std::make_shared<tp::InputGate>(f ? 2 : 1); }, [&](size_t i) -> std::shared_ptr<tp::Gate> { return b.GetInputGate(i); }, true, [&](int o) { o == 1 ? b._DummyPrep(mk(3)) : b._DummyPrep(); }); }
    else if (which == 1) { tp::OutputBatch b(0, k); b.SetNetwork(net.net[0], 0); batch(c, ch, "outputbatch", k, depth, b, [&](bool f) { return std::make_shared<tp::OutputGate>((std::size_t)(f ? 1 : 0)); }, [&](size_t i) -> std::shared_ptr<tp::Gate> { return b.GetOutputGate(i); }, true, [&](int o) { o == 1 ? b._DummyPrep(mk(3)) : b._DummyPrep(); }); }
    else { tp::MultBatch b(k); b.SetNetwork(net.net[0], 0); auto x = std::make_shared<tp::InputGate>(0); batch(c, ch, "multbatch", k, depth, b, [&](bool) { return std::make_shared<tp::MultGate>(x, x); }, [&](size_t i) -> std::shared_ptr<tp::Gate> { return b.GetMultGate(i); }, false, [&](int o) { o == 1 ? b._DummyPrep(mk(3), mk(2), mk(1)) : b._DummyPrep(); }); }
  }, 1 << 30, 3);
}
// layers only ever hold complete batches, with neutral padding
MC_SECTION(layers) {
  c.explore([&](mc::Chooser& ch) {
    int k = 1 + ch.choose(4), n = ch.choose(2 * k + 2), which = ch.choose(3); bool close = ch.flag(); int nb = std::max(1, (n + k - 1) / k); Net net(3); c.one(); std::string w = mc::fmt("layer kind %d, %d gates, batch %d, close %d: ", which, n, k, close), msg; c.note(w);
    auto pad = [&](tp::Gate& g) { if (!g.IsPadding()) c.fail("pad-flag", w); if (val(g.GetMu()) || val(g.GetDummyLambda()) || val(g.GetIndvShrLambda()) || val(g.GetClear())) c.fail("pad-value", w); };
    auto go = [&](auto& l, auto mkg, auto get, auto foreign, auto prep) {
      std::vector<std::shared_ptr<tp::Gate>> have; int rc = mc::outcome_of([&] { for (int i = 0; i < n; ++i) { auto g = mkg(); l.Append(g); have.push_back(g); } }, &msg); if (rc) { c.fail("layer-append", w + msg); return; }
      if (foreign) { c.one(); if (mc::outcome_of([&] { foreign(); }) != 1) c.fail("layer-foreign", w + "a gate of another owner is accepted"); if ((int)l.GetSize() != nb && !(n % k == 0 && n && (int)l.GetSize() == nb + 1)) c.fail("layer-foreign-state", w); }
      bool full = n % k == 0 && n > 0;
      if (close) { rc = mc::outcome_of([&] { l.Close(); }, &msg); if (rc) { c.fail("layer-close", w + msg); return; } }
      if ((int)l.GetSize() != nb) { c.fail("layer-size", w); return; }
      for (int i = 0; i < nb * k; ++i) { if (i < n) { if (get(i / k, i % k) != have[i]) c.fail("layer-content", w); if (have[i]->IsPadding()) c.fail("layer-padflag", w); } else if (close) pad(*get(i / k, i % k)); }
      l.SetNetwork(net.net[0], 0); rc = mc::outcome_of([&] { prep(); }, &msg); c.one(); bool ok = close || full; if (ok ? rc != 0 : rc != 1) c.fail(ok ? "layer-prep-spurious" : "layer-prep-silent", w + (rc ? msg : "incomplete batch accepted"));
      if (!ok) { l.Close(); rc = mc::outcome_of([&] { prep(); }, &msg); if (rc) c.fail("layer-prep-after", w + msg); }
      c.outcome(w.size() * 100 + nb);
    };
    if (which == 0) { tp::InputLayer l(1, k); go(l, [] { return std::make_shared<tp::InputGate>(1); }, [&](int b, int i) -> std::shared_ptr<tp::Gate> { return l.GetInputBatch(b)->GetInputGate(i); }, std::function<void()>(n % k == 0 && n ? std::function<void()>() : [&] { l.Append(std::make_shared<tp::InputGate>(0)); }), [&] { l._DummyPrep(); }); }
    else if (which == 1) { tp::OutputLayer l(1, k); go(l, [] { return std::make_shared<tp::OutputGate>((std::size_t)1); }, [&](int b, int i) -> std::shared_ptr<tp::Gate> { return l.GetOutputBatch(b)->GetOutputGate(i); }, std::function<void()>(n % k == 0 && n ? std::function<void()>() : [&] { l.Append(std::make_shared<tp::OutputGate>((std::size_t)0)); }), [&] { l._DummyPrep(); }); }
    else { tp::MultLayer l(k); auto x = std::make_shared<tp::InputGate>(1); go(l, [&] { return std::make_shared<tp::MultGate>(x, x); }, [&](int b, int i) -> std::shared_ptr<tp::Gate> { return l.GetMultBatch(b)->GetMultGate(i); }, std::function<void()>(), [&] { l._DummyPrep(); }); }
  });
}
// circuits: every sequence of set-up calls up to a depth, then the whole evaluation still works
MC_SECTION(circuit, 8, 8) {
  Tape tape; tape.install();
  c.explore([&](mc::Chooser& ch) {
    int n = 3 + ch.choose(2), k = 2, t = n - 3; Net net(n); tp::Circuit C(n, k); auto x = C.Input(0), y = C.Input(1); C.Input(0); C.CloseInputs(); auto m = C.Mult(x, y); auto s = C.Add(m, C.GetInputGate(0, 1)); C.LastLayer(); C.Output(1, s); C.Output(0, m);
    bool closed = false, net_ = false, corr = false; int evald = 0; std::string tr = mc::fmt("n=%d:", n); c.note(tr);
    Vals in(n); in[0] = {2, 3}; in[1] = {4};
    auto clearIn = [&](const Vals& v) { std::vector<std::vector<FF>> r; for (auto& x : v) r.push_back(ffs(x)); C.SetClearInputs(r); };
    auto want = [&] { return std::vector<uint64_t>{add(mul(2, 4), 3), mul(2, 4)}; };
    for (int d = 0; d < c.q(5, 6); ++d) {
      int op = ch.choose(13); bool ok = true; std::string msg; int rc = 0; c.ops(1); c.one();
      auto doit = [&](auto f) { rc = mc::outcome_of(f, &msg); };
      switch (op) {
        case 0: if (closed) throw mc::Prune{}; tr += " CloseOutputs"; doit([&] { C.CloseOutputs(); }); closed = true; break;
        case 1: tr += " SetNetwork"; ok = closed; doit([&] { C.SetNetwork(net.net[0], 0); }); net_ = net_ || ok; break;
        case 2: if (corr) throw mc::Prune{}; tr += " GenCorrelator"; ok = net_; doit([&] { C.GenCorrelator(); }); corr = ok; break;
        case 3: case 4: case 5: { if (!corr) throw mc::Prune{}; int tt = op == 3 ? t : op == 4 ? t + 1 : t - 1; tr += mc::fmt(" SetThreshold(%d)", tt); ok = op == 3; doit([&] { C.SetThreshold((size_t)tt); }); break; }
        case 6: tr += " SetClearInputs"; doit([&] { clearIn(in); }); evald = 1; break;
        case 7: { tr += " SetClearInputs(client missing)"; ok = false; Vals v = in; v.pop_back(); doit([&] { clearIn(v); }); break; }
        case 8: { tr += " SetClearInputs(input missing)"; ok = false; Vals v = in; v[1].clear(); doit([&] { clearIn(v); }); break; }
        case 9: { tr += " SetClearInputs(input too many)"; ok = false; Vals v = in; v[2].push_back(1); doit([&] { clearIn(v); }); break; }
        case 10: tr += " GetClearOutputs"; ok = evald || false; if (!evald) { for (int i = 0; i < 3; ++i) if (C.GetInputGate(i)->IsEvaluated()) throw mc::Prune{}; } doit([&] { auto o = C.GetClearOutputs(); auto w = want(); if (val(o[1][0]) != w[0] || val(o[0][0]) != w[1]) c.fail("circuit-clear-value", tr); }); break;
        case 11: { if (!net_) throw mc::Prune{}; int cnt = ch.choose(4); tr += mc::fmt(" SetInputs(%d)", cnt); ok = cnt == 2; doit([&] { C.SetInputs(std::vector<FF>(cnt, FF(1))); }); break; }
        case 12: tr += " GetMu"; ok = false; doit([&] { (void)m->GetMu(); }); break;
      }
      if (ok && rc) { c.fail("circuit-spurious", tr + " throws: " + msg); return; } if (!ok && rc != 1) { c.fail("circuit-silent", tr + " is accepted"); return; }
      c.outcome(mc::mix(op, closed * 4 + net_ * 2 + corr) * 4 + rc);
    }
    // everything still works
    std::string msg; int rc = mc::outcome_of([&] {
      if (!closed) C.CloseOutputs(); C.SetNetwork(net.net[0], 0); clearIn(in); auto o = C.GetClearOutputs(); auto w = want(); if (val(o[1][0]) != w[0] || val(o[0][0]) != w[1]) c.fail("circuit-after-clear", tr);
      std::vector<std::shared_ptr<tp::Circuit>> cs; std::vector<tp::Circuit*> all{&C};
      for (int i = 1; i < n; ++i) { auto q = std::make_shared<tp::Circuit>(n, k); auto a = q->Input(0), b = q->Input(1); q->Input(0); q->CloseInputs(); auto mm = q->Mult(a, b); auto ss = q->Add(mm, q->GetInputGate(0, 1)); q->LastLayer(); q->Output(1, ss); q->Output(0, mm); q->CloseOutputs(); q->SetNetwork(net.net[i], i); cs.push_back(q); all.push_back(q.get()); }
      for (auto q : all) { q->_DummyPrep(mk(5)); } for (int i = 0; i < n; ++i) all[i]->SetInputs(ffs(in[i]));
      for (auto q : all) q->InputOwnerSendsP1(); for (auto q : all) q->InputP1Receives(); for (auto q : all) q->MultP1Sends(0); for (auto q : all) q->MultPartiesReceive(0); for (auto q : all) q->MultPartiesSend(0); for (auto q : all) q->MultP1Receives(0); for (auto q : all) q->OutputP1SendsMu(); for (auto q : all) q->OutputOwnerReceivesMu();
      if (val(all[1]->GetOutputs()[0]) != w[0] || val(all[0]->GetOutputs()[0]) != w[1]) c.fail("circuit-after-value", tr);
    }, &msg); c.one();
    if (rc) c.fail("circuit-after", tr + " then a correct run throws: " + msg);
    c.sample(tr);
  }, 1 << 30, 2);
}
// parameters of the protocols
MC_SECTION(params) {
  Tape tape; tape.install();
  c.explore([&](mc::Chooser& ch) {
    int n = 1 + ch.choose(9), t = ch.choose(10), k = 1 + ch.choose(4), m = 1 + ch.choose(9); std::string w = mc::fmt("n=%d t=%d k=%d network of %d: ", n, t, k, m), msg; c.one();
    Desc d; d.clients = 1; d.ops = {{'I', 0, 0}, {'*', 0, 0}, {'O', 0, 1}};
    if (k == 1) { // DN07
      std::shared_ptr<tp::DN07> p; int rc = mc::outcome_of([&] { p = std::make_shared<tp::DN07>(n, t); }, &msg); bool ok = n > 2 * t; if (ok ? rc != 0 : rc != 1) { c.fail("dn07-params", w + msg); return; } if (rc) return;
      Net net(m); auto b = build(d, 1); rc = mc::outcome_of([&] { p->SetCircuit(*b.c); }, &msg); if (rc != 1) c.fail("dn07-circuit-without-network", w + (rc ? "not an exception" : "accepted"));
      b.c->SetNetwork(net.net[0], 0); rc = mc::outcome_of([&] { p->SetCircuit(*b.c); }, &msg); ok = n == m; if (ok ? rc != 0 : rc != 1) { c.fail("dn07-circuit", w + (rc ? msg : "a circuit for another number of parties is accepted")); return; }
      if (!ok) { Net net2(n); auto b2 = build(d, 1); b2.c->SetNetwork(net2.net[0], 0); rc = mc::outcome_of([&] { p->SetCircuit(*b2.c); for (int i = 0; i < 3; ++i) if (mc::outcome_of([&] { p->SetInputs(std::vector<FF>(i, FF(1))); }) != (i == 1 ? 0 : 1)) c.fail("dn07-inputs", w + mc::fmt("%d inputs", i)); }, &msg); if (rc) c.fail("dn07-after", w + msg); }
    } else if (m == 1) {
      Net net(n); auto b = build(d, k); b.c->SetNetwork(net.net[0], 0); b.c->GenCorrelator(); bool ok = n == t + 2 * (k - 1) + 1 && n > 2 * t; int rc = mc::outcome_of([&] { b.c->SetThreshold(t); }, &msg); if (ok ? rc != 0 : rc != 1) c.fail("threshold", w + (rc ? msg : "accepted"));
    }
    c.outcome(n * 100 + t);
  }, 1 << 30, 2);
}
