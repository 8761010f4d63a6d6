// C07: trusted (dummy) preprocessing in all its forms, followed by the real online phase.
#include "h/tpc.h"
using namespace tpc;
namespace {
// masks of every wire, given those of the input and multiplication wires
std::vector<uint64_t> masks(const Desc& d, const std::vector<uint64_t>& settable) {
  std::vector<uint64_t> w; size_t s = 0; for (auto& o : d.ops) { if (o.k == 'I' || o.k == '*') w.push_back(settable[s++]); else if (o.k == '+') w.push_back(add(w[o.a], w[o.b])); } return w;
}
const char* FORM[] = {"_DummyPrep()", "_DummyPrep(mask)", "SetDummyLambdas(mask)", "per-wire masks", "PopulateDummyCorrelator(mask)", "PopulateDummyCorrelator()", "GenIndShrsDummy(mask)"};
// settable: mask of each input/multiplication wire in creation order (only form 3 uses all of them)
void run(mc::Ctx& c, const Desc& d, int n, int k, int form, std::vector<uint64_t> settable, const Vals& in, Tape& tape, const std::string& tag, bool wires = true) {
  size_t ns = d.count('I') + d.count('*'); uint64_t l0 = settable.empty() ? 0 : settable[0];
  if (form == 0 || form == 5) l0 = 0;
  if (form != 3) settable.assign(ns, l0);
  auto lam = masks(d, settable); Vals want = d.eval(in), got; auto vals = d.wires(in);
  auto where = [&] { return mc::fmt("n=%d k=%d %s masks %s circuit %s inputs %s: ", n, k, FORM[form], mc::join(settable).c_str(), d.str().c_str(), show(in).c_str()); };
  c.note(tag + " " + FORM[form] + " " + d.str()); c.one(); c.ops(d.ops.size()); std::string msg;
  int rc = mc::outcome_of([&] {
    TP p(d, n, 0, k, tape);
    for (int i = 0; i < n; ++i) { tape.cur = i; auto& C = *p.b[i].c;
      if (form == 0) C._DummyPrep(); else if (form == 1) C._DummyPrep(mk(l0)); else if (form == 2) { C.SetDummyLambdas(mk(l0)); C.PopulateDummyLambdas(); C.PrepFromDummyLambdas(); }
      else if (form == 3) { size_t s = 0, a = 0, m = 0; for (auto& o : d.ops) { if (o.k == 'I') p.b[i].in[a++]->SetLambda(mk(settable[s++])); else if (o.k == '*') p.b[i].mu[m++]->SetDummyLambda(mk(settable[s++])); } C.PopulateDummyLambdas(); C.PrepFromDummyLambdas(); }
      else { C.GenCorrelator(); if (form == 4) C.PopulateDummyCorrelator(mk(l0)); else if (form == 5) C.PopulateDummyCorrelator(); else { C.GenIndShrsDummy(mk(l0)); C.GenMultBatchDummy(); C.GenIOBatchDummy(); } } }
    if (form >= 4) p.fd();
    if (form >= 1 && form <= 3 && wires) for (int i = 0; i < n; ++i) {   // trusted masks: sums and copies
      size_t o = 0; for (size_t w = 0; w < lam.size(); ++w) if (val(p.b[i].w[w]->GetDummyLambda()) != lam[w]) { c.fail(tag + "-mask", where() + mc::fmt("party %d has mask %lu on wire %zu, expected %lu", i, (unsigned long)val(p.b[i].w[w]->GetDummyLambda()), w, (unsigned long)lam[w])); return; }
      for (auto& op : d.ops) if (op.k == 'O') { if (val(p.b[i].out[o]->GetDummyLambda()) != lam[op.b]) { c.fail(tag + "-mask-output", where() + mc::fmt("party %d output %zu", i, o)); return; } o++; } }
    if (form >= 4) for (int i = 0; i < n; ++i) {   // owners learn their masks
      size_t x = 0, o = 0, w = 0; for (auto& op : d.ops) { if (op.k == 'I') { if (op.a == i && val(p.b[i].in[x]->GetDummyLambda()) != lam[w]) { c.fail(tag + "-owner-mask", where() + mc::fmt("input %zu", x)); return; } x++; }
        if (op.k == 'O') { if (op.a == i && val(p.b[i].out[o]->GetDummyLambda()) != lam[op.b]) { c.fail(tag + "-owner-mask-output", where() + mc::fmt("output %zu", o)); return; } o++; } if (op.k == 'I' || op.k == '*' || op.k == '+') w++; } }
    p.inputs(in); p.online(); got = p.outputs();
    if (p.net.pending()) c.fail(tag + "-unconsumed", where() + mc::fmt("%zu bytes never received", p.net.pending()));
    if (wires) { for (size_t w = 0; w < lam.size(); ++w) { uint64_t m = val(p.b[0].w[w]->GetMu()), e = sub(vals[w], lam[w]); if (m != e) { c.fail(tag + "-mu", where() + mc::fmt("the first party has %lu on wire %zu, expected %lu", (unsigned long)m, w, (unsigned long)e)); return; } }
      size_t o = 0; for (auto& op : d.ops) if (op.k == 'O') { if (val(p.b[0].out[o]->GetMu()) != sub(vals[op.b], lam[op.b])) { c.fail(tag + "-mu-output", where() + mc::fmt("output %zu", o)); return; } o++; } }
  }, &msg);
  if (rc) c.fail(tag + "-throws", where() + msg); else if (got != want) c.fail(tag + "-value", where() + "outputs " + show(got) + " expected " + show(want));
  uint64_t h = form; for (auto& r : want) for (auto x : r) h = mc::mix(h, x); c.outcome(h); c.sample(where() + show(want));
}
std::vector<uint64_t> genericMasks(size_t n, int salt) { std::vector<uint64_t> v; for (size_t i = 0; i < n; ++i) v.push_back(strong(salt * 100 + i) % P); return v; }
// individual shares: sums and copies
void indv(mc::Ctx& c, const Desc& d, int n, int k, std::vector<std::vector<uint64_t>> shr, Tape& tape) {
  c.one(); auto where = [&] { return mc::fmt("n=%d k=%d circuit %s: ", n, k, d.str().c_str()); }; std::string msg;
  int rc = mc::outcome_of([&] { TP p(d, n, 0, k, tape);
    for (int i = 0; i < n; ++i) { size_t s = 0, a = 0, m = 0; for (auto& o : d.ops) { if (o.k == 'I') p.b[i].in[a++]->SetIndvShrLambda(mk(shr[i][s++])); else if (o.k == '*') p.b[i].mu[m++]->SetIndvShrLambda(mk(shr[i][s++])); }
      auto want = masks(d, shr[i]); for (size_t w = want.size(); w-- > 0;) if (val(p.b[i].w[w]->GetIndvShrLambda()) != want[w]) { c.fail("indv-wire", where() + mc::fmt("party %d wire %zu", i, w)); return; }
      size_t o = 0; for (auto& op : d.ops) if (op.k == 'O') { if (val(p.b[i].out[o]->GetIndvShrLambda()) != want[op.b]) { c.fail("indv-output", where() + mc::fmt("party %d output %zu", i, o)); return; } o++; } } }, &msg);
  if (rc) c.fail("indv-throws", where() + msg);
}
}
#if defined(TP_P) && TP_P == 7
MC_SECTION(circuits, 8, 8) {
  Tape tape; tape.install();
  c.explore([&](mc::Chooser& ch) {
    static const int cfg[][2] = {{3, 2}, {4, 2}, {2, 1}, {5, 2}}; int ci = ch.choose(c.q(3, 4)), n = cfg[ci][0], k = cfg[ci][1];
    Desc d; d.clients = n; int ni = 1 + ch.choose(2); static const int own[][2] = {{0, 0}, {0, 1}, {1, 0}, {1, 1}}; int oi = ch.choose(ni == 1 ? 2 : 4);
    for (int i = 0; i < ni; ++i) d.ops.push_back({'I', ni == 1 ? (oi ? n - 1 : 0) : own[oi][i], 0});
    genOps(ch, d, ch.choose(c.q(3, 4)), true, true);
    int pat = ch.choose(2), nw = nwires(d); d.closeEarly = pat;
    if (pat == 0) for (int w = 0; w < nw; ++w) d.ops.push_back({'O', w % n, w}); else for (int w = nw - 1; w >= 0; --w) d.ops.push_back({'O', 1, w});
    auto m = genericMasks(d.count('I') + d.count('*'), 1); if (!m[0]) m[0] = 3;
    for (int f = 0; f < 7; ++f) run(c, d, n, k, f, m, generic(d), tape, mc::fmt("form%d", f));
    std::vector<std::vector<uint64_t>> shr; for (int i = 0; i < n; ++i) shr.push_back(genericMasks(m.size(), i + 2)); indv(c, d, n, k, shr, tape);
  }, 1 << 30, 7);
}
// every assignment of masks and inputs of a few circuits
static const std::vector<Op> CS[] = {
  {{'I', 0, 0}, {'I', 1, 0}, {'*', 0, 1}, {'O', 0, 2}, {'O', 2, 2}},
  {{'I', 2, 0}, {'*', 0, 0}, {'L', 0, 0}, {'*', 1, 0}, {'O', 1, 2}, {'O', 0, 1}},
  {{'I', 2, 0}, {'I', 1, 0}, {'+', 0, 1}, {'*', 2, 2}, {'+', 3, 2}, {'O', 2, 4}, {'O', 0, 2}},
  {{'I', 1, 0}, {'*', 0, 0}, {'*', 0, 0}, {'+', 1, 2}, {'O', 0, 3}, {'O', 1, 0}} };
MC_SECTION(masks, 8, 8) {
  Tape tape; tape.install();
  c.explore([&](mc::Chooser& ch) {
    Desc d; int n = 3 + ch.choose(c.q(1, 2)), k = 2; d.clients = n; d.ops = CS[ch.choose(4)]; std::vector<uint64_t> m; for (int i = 0; i < d.count('I') + d.count('*'); ++i) m.push_back(ch.choose((int)P));
    if (c.thorough) { Vals in = allInputs(ch, d); run(c, d, n, k, 3, m, in, tape, "masks"); } else { for (int s = 0; s < 3; ++s) run(c, d, n, k, 3, m, s ? generic(d, s) : Vals(generic(d)), tape, "masks"); }
  }, 1 << 30, 4);
}
MC_SECTION(constants, 8, 8) {
  Tape tape; tape.install();
  c.explore([&](mc::Chooser& ch) {
    Desc d; int n = 3 + ch.choose(2), k = 2; d.clients = n; d.ops = CS[ch.choose(4)]; int f = ch.choose(6); if (f >= 3) ++f; std::vector<uint64_t> m{f == 0 || f == 5 ? 0 : (uint64_t)ch.choose((int)P)};
    run(c, d, n, k, f, m, allInputs(ch, d), tape, mc::fmt("form%d", f));
  }, 1 << 30, 4);
}
#else
MC_SECTION(layouts, 8, 8) {
  Tape tape; tape.install();
  c.explore([&](mc::Chooser& ch) {
    int k = 1 + ch.choose(c.q(3, 4)), n = 2 * k - 1 + ch.choose(c.thorough ? (k == 1 ? 3 : k + 1) : 2); if (n + k > (int)std::min<uint64_t>(P, 1000)) throw mc::Prune{};
    Desc d; d.clients = n; int ni = 0; int who = c.thorough ? ch.choose(n) : (n - 1) * ch.choose(2), a = ch.choose(c.q(k + 2, 2 * k + 2)); for (int j = 0; j < a; ++j) { d.ops.push_back({'I', who, 0}); ni++; } d.ops.push_back({'I', n - 1, 0}); ni++;
    int L = 1 + ch.choose(2), w = ni; for (int l = 0; l < L; ++l) { if (l) d.ops.push_back({'L', 0, 0}); int w0 = w; d.ops.push_back({'+', 0, w0 - 1}); w++; int x = ch.choose(L == 1 ? 2 * k + 2 : c.q(3, k + 2)); for (int j = 0; j < x; ++j) { d.ops.push_back({'*', (j * 3 + l) % w0, (j * 5 + 1) % w0}); w++; } }
    int o = ch.choose(k + 2); int own = ch.choose(2) ? 0 : n - 1; for (int j = 0; j < o; ++j) d.ops.push_back({'O', own, w - 1 - (j * 2) % w}); if (o) d.ops.push_back({'O', n / 2, 0});
    auto m = genericMasks(d.count('I') + d.count('*'), n); if (!m[0]) m[0] = 5; for (int f = 0; f < 7; ++f) run(c, d, n, k, f, m, generic(d, 2), tape, mc::fmt("layout-form%d", f));
  }, 1 << 30, 5);
}
// single batches and layers, with trusted masks and given masked values
MC_SECTION(batches, 4, 4) {
  Tape tape; tape.install();
  c.explore([&](mc::Chooser& ch) {
    int k = 1 + ch.choose(c.q(3, 4)), n = 2 * k - 1 + ch.choose(3); if (n + k > (int)std::min<uint64_t>(P, 1000)) throw mc::Prune{}; int gates = 1 + ch.choose(2 * k), form = ch.choose(3), owner = ch.choose(n);
    Net net(n); std::string msg; c.one(); auto where = [&] { return mc::fmt("n=%d k=%d gates=%d form=%d owner=%d: ", n, k, gates, form, owner); }; c.note(where());
    auto G = [&](int s, int i) { return strong(s * 1000 + i + 7) % P; };
    int nb = (gates + k - 1) / k;
    int rc = mc::outcome_of([&] {
      std::vector<tp::InputLayer> il; std::vector<tp::OutputLayer> ol; std::vector<tp::MultLayer> ml; std::vector<std::vector<std::shared_ptr<tp::InputGate>>> in(n); std::vector<std::vector<std::shared_ptr<tp::MultGate>>> mu(n); std::vector<std::vector<std::shared_ptr<tp::OutputGate>>> out(n);
      for (int i = 0; i < n; ++i) { il.emplace_back(owner, k); ol.emplace_back(owner, k); ml.emplace_back(k); }
      for (int i = 0; i < n; ++i) { tape.cur = i;
        for (int g = 0; g < gates; ++g) { auto a = std::make_shared<tp::InputGate>(owner); in[i].push_back(a); il[i].Append(a); a->SetLambda(mk(form == 1 ? G(1, 0) : G(1, g))); if (i == 0) a->_SetDummyMu(mk(G(2, g))); }
        for (int g = 0; g < gates; ++g) { auto m = std::make_shared<tp::MultGate>(in[i][g], in[i][(g + 1) % gates]); mu[i].push_back(m); ml[i].Append(m); m->SetDummyLambda(mk(form == 1 ? G(3, 0) : G(3, g))); auto o = std::make_shared<tp::OutputGate>(owner, m); out[i].push_back(o); ol[i].Append(o); }
        il[i].Close(); ol[i].Close(); ml[i].Close(); il[i].SetNetwork(net.net[i], i); ol[i].SetNetwork(net.net[i], i); ml[i].SetNetwork(net.net[i], i);
        if (form == 0) { il[i].PrepFromDummyLambdas(); ol[i].PrepFromDummyLambdas(); ml[i].PrepFromDummyLambdas(); }
        else if (form == 1) { il[i]._DummyPrep(mk(G(1, 0))); ol[i]._DummyPrep(mk(G(3, 0))); ml[i]._DummyPrep(mk(G(1, 0)), mk(G(1, 0)), mk(G(3, 0))); }
        else { il[i]._DummyPrep(); ol[i]._DummyPrep(); ml[i]._DummyPrep(); } }
      if ((int)ml[0].GetSize() != nb || (int)il[0].GetSize() != nb || (int)ol[0].GetSize() != nb) { c.fail("layer-batches", where()); return; }
      auto L = [&](int s, int g) { return form == 2 ? 0 : form == 1 ? G(s, 0) : G(s, g); };
      // packed masks of the input and output batches
      for (int b = 0; b < nb; ++b) { std::vector<uint64_t> si, so; for (int i = 0; i < n; ++i) { si.push_back(val(il[i].GetInputBatch(b)->GetPackedShrLambda())); so.push_back(val(ol[i].GetOutputBatch(b)->GetPackedShrLambda())); }
        auto A = deg(si, k - 1), B = deg(so, k - 1); if (!A.ok || !B.ok) c.fail("packed-degree", where() + mc::fmt("batch %d", b));
        for (int j = 0; j < k; ++j) { int g = b * k + j; if (g >= gates && form == 1) continue; uint64_t ei = g < gates ? L(1, g) : 0, eo = g < gates ? L(3, g) : 0; if (A.at(-j) != ei) c.fail("packed-input", where() + mc::fmt("batch %d position %d", b, j)); if (B.at(-j) != eo) c.fail("packed-output", where() + mc::fmt("batch %d position %d", b, j)); } }
      // multiplication
      bool whole = ch.flag();
      if (whole) { for (int i = 0; i < n; ++i) ml[i].P1Sends(); for (int i = 0; i < n; ++i) ml[i].PartiesReceive(); for (int i = 0; i < n; ++i) ml[i].PartiesSend(); for (int i = 0; i < n; ++i) ml[i].P1Receives(); }
      else for (int b = nb; b-- > 0;) { for (int i = 0; i < n; ++i) ml[i].GetMultBatch(b)->P1Sends(); for (int i = 0; i < n; ++i) ml[i].GetMultBatch(b)->PartiesReceive(); for (int i = 0; i < n; ++i) ml[i].GetMultBatch(b)->PartiesSend(); for (int i = 0; i < n; ++i) ml[i].GetMultBatch(b)->P1Receives(); }
      for (int g = 0; g < gates; ++g) { uint64_t e = sub(mul(add(G(2, g), L(1, g)), add(G(2, (g + 1) % gates), L(1, (g + 1) % gates))), L(3, g)); c.one(); if (val(mu[0][g]->GetMu()) != e) { c.fail("batch-mu", where() + mc::fmt("gate %d", g)); return; } if (val(out[0][g]->GetMu()) != e) { c.fail("batch-mu-output", where()); return; } c.outcome(e + 1); }
      if (net.pending()) c.fail("batch-unconsumed", where());
    }, &msg);
    if (rc) c.fail("batch-throws", where() + msg);
  }, 1 << 30, 3);
}
#ifndef TP_P
MC_SECTION(big, 8, 8) {
  Tape tape; tape.install(); static const int cfg[][2] = {{4, 2}, {3, 2}, {5, 3}, {8, 3}, {10, 4}, {16, 5}, {11, 6}, {21, 6}, {33, 9}, {40, 20}};
  c.explore([&](mc::Chooser& ch) { int ci = ch.choose(c.q(8, 10)), n = cfg[ci][0], k = cfg[ci][1], f = ch.choose(7); tape.base = 1; Desc d = bigDesc(n, ch.choose(5), ci + f); run(c, d, n, k, f, genericMasks(d.count('I') + d.count('*'), n), generic(d, 2), tape, mc::fmt("big-form%d", f)); }, 1 << 30, 3);
}
#endif
#endif
