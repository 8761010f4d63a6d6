// C08: construction, metrics and cleartext evaluation of circuits.
#include "h/tpc.h"
using namespace tpc;
namespace {
std::vector<std::vector<FF>> vv(const Vals& v) { std::vector<std::vector<FF>> r; for (auto& x : v) r.push_back(ffs(x)); return r; }
uint64_t up(uint64_t a, uint64_t k) { return std::max<uint64_t>(1, (a + k - 1) / k); }
// two evaluations with different inputs, first through the per-client interface, then the flat one
void check(mc::Ctx& c, const Desc& d, int k, const Vals& in, const Vals& in2, const std::string& tag) {
  auto where = [&] { return mc::fmt("k=%d circuit %s inputs %s: ", k, d.str().c_str(), show(in).c_str()); };
  c.one(); c.ops(d.ops.size() + 10);
  std::string msg; int rc = mc::outcome_of([&] {
    Built b = build(d, k); auto& C = *b.c;
    // shape
    std::vector<int> ni(d.clients), no(d.clients); std::vector<int> width(1, 0); int size = 0;
    for (auto& o : d.ops) { if (o.k == 'I') ni[o.a]++; if (o.k == 'O') no[o.a]++; if (o.k == 'L') width.push_back(0); if (o.k == '*') { width.back()++; size++; } }
    uint64_t bi = 0, bo = 0, bm = 0; for (int x : ni) bi += up(x, k); for (int x : no) bo += up(x, k); for (int x : width) bm += up(x, k);
    auto eq = [&](const char* what, uint64_t got, uint64_t want) { c.one(); if (got != want) c.fail(tag + "-" + what, where() + mc::fmt("%s is %lu, expected %lu", what, (unsigned long)got, (unsigned long)want)); };
    eq("inputs", C.GetNInputs(), std::accumulate(ni.begin(), ni.end(), 0)); eq("outputs", C.GetNOutputs(), std::accumulate(no.begin(), no.end(), 0)); eq("size", C.GetSize(), size);
    eq("depth", C.GetDepth(), width.size()); eq("width", C.GetWidth(), *std::max_element(width.begin(), width.end()));
    eq("inputbatches", C.GetNInputBatches(), bi); eq("outputbatches", C.GetNOutputBatches(), bo); eq("multbatches", C.GetNMultBatches(), bm);
    // fetching
    { std::vector<int> ci(d.clients), co(d.clients); int gi = 0, go = 0, l = 0, m = 0, mi = 0;
      for (auto& o : d.ops) {
        if (o.k == 'I') { if (C.GetInputGate(o.a, ci[o.a]) != b.in[gi] || C.GetInputGate(gi) != b.in[gi] || b.in[gi]->GetOwner() != (size_t)o.a) c.fail(tag + "-fetch-input", where()); ci[o.a]++; gi++; }
        if (o.k == 'O') { if (C.GetOutputGate(o.a, co[o.a]) != b.out[go] || C.GetOutputGate(go) != b.out[go] || b.out[go]->GetOwner() != (size_t)o.a) c.fail(tag + "-fetch-output", where()); co[o.a]++; go++; }
        if (o.k == 'L') { l++; m = 0; }
        if (o.k == '*') { if (C.GetMultGate(l, m) != b.mu[mi]) c.fail(tag + "-fetch-mult", where()); m++; mi++; } } }
    for (int round = 0; round < 2; ++round) {
      const Vals& x = round ? in2 : in; Vals want = d.eval(x);
      if (round == 0) C.SetClearInputs(vv(x)); else { std::vector<uint64_t> flat; for (auto& r : x) for (auto y : r) flat.push_back(y); C.SetClearInputsFlat(ffs(flat)); }
      auto go = C.GetClearOutputs(); Vals got(d.clients); if ((int)go.size() != d.clients) { c.fail(tag + "-clients", where()); return; }
      for (int i = 0; i < d.clients; ++i) for (auto& f : go[i]) got[i].push_back(val(f));
      c.one(); if (got != want) c.fail(tag + (round ? "-reevaluate" : "-value"), where() + (round ? "after new inputs " + show(in2) : "") + " outputs " + show(got) + " expected " + show(want));
      std::vector<uint64_t> flat, wflat; for (auto& f : C.GetClearOutputsFlat()) flat.push_back(val(f)); auto w = d.wires(x); for (auto& o : d.ops) if (o.k == 'O') wflat.push_back(w[o.b]);
      c.one(); if (flat != wflat) c.fail(tag + (round ? "-reevaluate-flat" : "-flat"), where() + mc::join(flat) + " expected " + mc::join(wflat));
      for (size_t i = 0; i < w.size(); ++i) if (val(b.w[i]->GetClear()) != w[i]) c.fail(tag + (round ? "-reevaluate-wire" : "-wire"), where() + mc::fmt("wire %zu", i));
      uint64_t h = 3; for (auto v : w) h = mc::mix(h, v); c.outcome(h);
    }
  }, &msg);
  if (rc) c.fail(tag + "-throws", where() + msg);
  c.sample(where());
}
}
#ifdef TP_P
// every circuit of up to three (four) operations
MC_SECTION(circuits, 8, 8) {
  c.explore([&](mc::Chooser& ch) {
    Desc d; d.clients = 2; int ni = 1 + ch.choose(2); for (int i = 0; i < ni; ++i) d.ops.push_back({'I', ch.choose(2), 0});
    int n = ch.choose(4 + c.thorough); genOps(ch, d, n, n < 4, true);
    int pat = ch.choose(4), nw = nwires(d); d.closeEarly = pat & 1;
    if (pat == 0) for (int w = 0; w < nw; ++w) d.ops.push_back({'O', w % 2, w}); else if (pat == 1) { d.ops.push_back({'O', 1, nw - 1}); d.ops.push_back({'O', 1, 0}); d.ops.push_back({'O', 0, nw - 1}); }
    else if (pat == 2) for (int w = nw - 1; w >= 0; --w) d.ops.push_back({'O', 0, w}); else d.ops.push_back({'L', 0, 0});
    check(c, d, 1 + pat % 3, generic(d), generic(d, 9), "circuit");
  }, 1 << 30, 5);
}
// every interleaving of construction calls: inputs, gates, layers and outputs in any order
MC_SECTION(orders, 8, 8) {
  c.explore([&](mc::Chooser& ch) {
    Desc d; d.clients = 2; d.closeEarly = false; int len = 1 + ch.choose(c.q(6, 7)); std::vector<int> lev; int layer = 0;
    for (int i = 0; i < len; ++i) {
      int kind = ch.choose(5);
      if (kind == 0) { d.ops.push_back({'I', ch.choose(2), 0}); lev.push_back(0); }
      else if (kind == 1) { if (lev.empty()) throw mc::Prune{}; int a = ch.choose((int)lev.size()), b = (int)lev.size() - 1; d.ops.push_back({'+', a, b}); lev.push_back(std::max(lev[a], lev[b])); }
      else if (kind == 2) { std::vector<int> av; for (int w = 0; w < (int)lev.size(); ++w) if (lev[w] <= layer) av.push_back(w); int a = av.empty() ? (ch.choose(0), 0) : av[ch.choose((int)av.size())]; d.ops.push_back({'*', av.back(), a}); lev.push_back(layer + 1); }
      else if (kind == 3) { d.ops.push_back({'L', 0, 0}); layer++; }
      else { if (lev.empty()) throw mc::Prune{}; d.ops.push_back({'O', ch.choose(2), ch.choose((int)lev.size())}); }
    }
    check(c, d, 1 + ch.choose(2), generic(d), generic(d, 4), "order");
  }, 1 << 30, 3);
}
MC_SECTION(inputs, 4, 4) {
  c.explore([&](mc::Chooser& ch) {
    Desc d; d.clients = 3;
    static const std::vector<Op> cs[] = {
      {{'I', 2, 0}, {'I', 0, 0}, {'*', 0, 1}, {'O', 0, 2}, {'O', 2, 2}},
      {{'I', 1, 0}, {'I', 0, 0}, {'I', 1, 0}, {'+', 0, 1}, {'*', 3, 2}, {'*', 3, 3}, {'L', 0, 0}, {'*', 4, 5}, {'O', 2, 6}, {'O', 0, 4}, {'O', 2, 0}},
      {{'I', 2, 0}, {'*', 0, 0}, {'L', 0, 0}, {'*', 1, 0}, {'L', 0, 0}, {'*', 2, 1}, {'O', 1, 3}},
      {{'I', 2, 0}, {'I', 0, 0}, {'I', 1, 0}, {'*', 0, 1}, {'*', 1, 2}, {'*', 2, 0}, {'+', 3, 4}, {'+', 6, 5}, {'+', 7, 7}, {'O', 0, 8}, {'O', 1, 7}, {'O', 1, 6}, {'O', 1, 3}} };
    d.ops = cs[ch.choose(4)]; Vals a = allInputs(ch, d); check(c, d, 2, a, c.thorough ? allInputs(ch, d) : generic(d, 3), "inputs");
  }, 1 << 30, 3);
}
#endif
// batch and layer arithmetic, also for large batch sizes
#ifdef TP_P
constexpr int KL = 5, KC = 2;
#else
constexpr int KL = 2, KC = 3;
#endif
MC_SECTION(layouts, 8, 8) {
  c.explore([&](mc::Chooser& ch) {
    Desc d; d.clients = 1 + ch.choose(3); int k = 1 + ch.choose(c.q(KL, 7)); std::vector<int> in, m; for (int i = 0; i < d.clients; ++i) { int x = ch.choose(i == 0 ? 2 * k + 2 : std::min(k + 2, 4)); for (int j = 0; j < x; ++j) d.ops.push_back({'I', i, 0}); }
    if (!nwires(d)) d.ops.push_back({'I', 0, 0}); int ni = nwires(d), w = ni;
    int L = 1 + ch.choose(3); for (int l = 0; l < L; ++l) { if (l) d.ops.push_back({'L', 0, 0}); int x = ch.choose(L == 3 ? 3 : k + 2), w0 = w; for (int j = 0; j < x; ++j) { d.ops.push_back({'*', (j * 3 + l) % w0, (j + 1) % w0}); w++; } }
    int o = ch.choose(k + 2); for (int j = 0; j < o; ++j) d.ops.push_back({'O', (j * j) % d.clients, (w - 1 - j % w)});
    check(c, d, k, generic(d), generic(d, 8), "layout");
  }, 1 << 30, 2);
}
// circuits generated from a configuration
MC_SECTION(config, 4, 8) {
  c.explore([&](mc::Chooser& ch) {
    tp::CircuitConfig cf; cf.n_parties = 1 + ch.choose(3); int k = 1 + ch.choose(c.q(KC - 1, 5)); cf.batch_size = k; size_t li = cf.n_parties + (ch.choose(3) + 1) % 3 - 1, lo = cf.n_parties; if (li == cf.n_parties) lo = cf.n_parties + (ch.choose(3) + 1) % 3 - 1;
    for (size_t i = 0; i < li; ++i) cf.inp_gates.push_back(ch.choose(i == 0 ? 5 : 3)); for (size_t i = 0; i < lo; ++i) cf.out_gates.push_back(ch.choose(3)); cf.width = ch.choose(9); cf.depth = ch.choose(4);
    size_t ni = cf.ComputeNumberOfInputs(), no = cf.ComputeNumberOfOutputs(); c.one();
    if (ni != (size_t)std::accumulate(cf.inp_gates.begin(), cf.inp_gates.end(), 0) || no != (size_t)std::accumulate(cf.out_gates.begin(), cf.out_gates.end(), 0)) c.fail("config-sums", "ComputeNumberOf...");
    bool ok = li == cf.n_parties && lo == cf.n_parties && ni > 0 && ni % 2 == 0 && cf.width > 0 && cf.width % ni == 0 && cf.depth > 0;
    auto where = [&] { return mc::fmt("n=%zu width=%zu depth=%zu k=%d in=%s out=%s: ", cf.n_parties, cf.width, cf.depth, k, mc::join(cf.inp_gates).c_str(), mc::join(cf.out_gates).c_str()); };
    c.note(where());
    std::shared_ptr<tp::Circuit> C; std::string msg; int rc = mc::outcome_of([&] { C = std::make_shared<tp::Circuit>(tp::Circuit::FromConfig(cf)); }, &msg);
    if (ok != (rc == 0)) { c.fail("config-accept", where() + (rc ? "rejected: " + msg : "accepted")); return; } if (rc) return;
    auto eq = [&](const char* what, uint64_t got, uint64_t want) { c.one(); if (got != want) c.fail(mc::fmt("config-%s", what), where() + mc::fmt("%s is %lu, expected %lu", what, (unsigned long)got, (unsigned long)want)); };
    eq("inputs", C->GetNInputs(), ni); eq("outputs", C->GetNOutputs(), no); eq("size", C->GetSize(), cf.width * cf.depth); eq("width", C->GetWidth(), cf.width); eq("depth", C->GetDepth(), cf.depth);
    uint64_t bi = 0, bo = 0; for (auto x : cf.inp_gates) bi += up(x, k); for (auto x : cf.out_gates) bo += up(x, k); eq("inputbatches", C->GetNInputBatches(), bi); eq("outputbatches", C->GetNOutputBatches(), bo); eq("multbatches", C->GetNMultBatches(), cf.depth * up(cf.width, k));
    std::vector<uint64_t> r; Vals in(cf.n_parties); for (size_t i = 0; i < cf.n_parties; ++i) for (size_t j = 0; j < cf.inp_gates[i]; ++j) { uint64_t v = 2 + mc::mix(i, j) % (P - 2); in[i].push_back(v); r.push_back(v); }
    rc = mc::outcome_of([&] {
      C->SetClearInputs(vv(in)); std::vector<uint64_t> x(cf.width); size_t W = cf.width;
      for (size_t i = 0; i < W; ++i) x[i] = mul(r[i % ni], add(r[(i & ~1ul) % ni], r[(i | 1) % ni]));
      for (size_t l = 0; l < cf.depth; ++l) { if (l) { auto y = x; for (size_t i = 0; i < W; ++i) y[i] = mul(x[i], add(x[i & ~1ul], x[i | 1])); x = y; } for (size_t i = 0; i < W; ++i) if (val(C->GetMultGate(l, i)->GetClear()) != x[i]) c.fail("config-gate", where() + mc::fmt("gate %zu of layer %zu", i, l)); }
      auto o = C->GetClearOutputs(); size_t ctr = 0; for (size_t i = 0; i < cf.n_parties; ++i) { if (o[i].size() != cf.out_gates[i]) { c.fail("config-outputs", where()); return; } for (auto& f : o[i]) { c.one(); if (val(f) != x[ctr++ % W]) c.fail("config-value", where() + mc::fmt("output %zu", ctr - 1)); } }
    }, &msg);
    if (rc) c.fail("config-throws", where() + msg);
  }, 1 << 30, 3);
}
// closed layers evaluate in the clear, padding included
MC_SECTION(layers) {
  c.explore([&](mc::Chooser& ch) {
    int k = 1 + ch.choose(4), m = ch.choose(2 * k + 2); c.one(); std::string msg; auto where = [&] { return mc::fmt("k=%d gates=%d: ", k, m); }; c.note(where());
    int rc = mc::outcome_of([&] {
      tp::InputLayer il(1, k); tp::MultLayer ml(k); tp::OutputLayer ol(2, k); std::vector<std::shared_ptr<tp::InputGate>> in; std::vector<std::shared_ptr<tp::MultGate>> mu; std::vector<std::shared_ptr<tp::OutputGate>> out;
      for (int i = 0; i < m; ++i) { in.push_back(std::make_shared<tp::InputGate>(1)); in[i]->ClearInput(mk(i + 2)); il.Append(in[i]); }
      for (int i = 0; i < m; ++i) { mu.push_back(std::make_shared<tp::MultGate>(in[i], in[m - 1 - i])); ml.Append(mu[i]); }
      for (int i = 0; i < m; ++i) { out.push_back(std::make_shared<tp::OutputGate>(2, mu[i])); ol.Append(out[i]); }
      il.Close(); ml.Close(); ol.Close(); uint64_t nb = up(m, k); c.one();
      if (il.GetSize() != nb || ml.GetSize() != nb || ol.GetSize() != nb) c.fail("layer-size", where());
      ol.ClearEvaluation(); ml.ClearEvaluation(); il.ClearEvaluation();
      for (int i = 0; i < m; ++i) { c.one(); if (!out[i]->IsEvaluated() || !mu[i]->IsEvaluated() || val(out[i]->GetClear()) != mul((i + 2) % P, (m + 1 - i) % P)) c.fail("layer-value", where()); if (il.GetInputBatch(i / k)->GetInputGate(i % k) != in[i] || ml.GetMultBatch(i / k)->GetMultGate(i % k) != mu[i] || ol.GetOutputBatch(i / k)->GetOutputGate(i % k) != out[i]) c.fail("layer-fetch", where()); }
      for (uint64_t i = m; i < nb * k; ++i) { c.one(); auto a = il.GetInputBatch(i / k)->GetInputGate(i % k); auto b = ml.GetMultBatch(i / k)->GetMultGate(i % k); auto o = ol.GetOutputBatch(i / k)->GetOutputGate(i % k);
        if (!a->IsPadding() || !b->IsPadding() || !o->IsPadding() || val(a->GetMu()) || val(b->GetMu()) || val(o->GetMu()) || val(b->GetLeft()->GetMu()) || val(b->GetRight()->GetMu())) c.fail("layer-padding", where()); }
    }, &msg);
    if (rc) c.fail("layer-throws", where() + msg);
  });
}

#ifndef TP_P
// large circuits, many clients, large batches
MC_SECTION(big, 8, 8) {
  c.explore([&](mc::Chooser& ch) { static const int ns[] = {1, 2, 5, 11, 33, 100}, ks[] = {1, 2, 3, 7, 16, 33, 100}; int n = ns[ch.choose(c.q(5, 6))], k = ks[ch.choose(c.q(6, 7))], sh = ch.choose(5); Desc d = bigDesc(n, sh, n + k); check(c, d, k, generic(d), generic(d, 8), "big"); }, 1 << 30, 2);
}
// long circuits of one shape: many layers, many gates in a layer, many inputs and outputs of one client
MC_SECTION(long_, 4, 4) {
  c.explore([&](mc::Chooser& ch) {
    int what = ch.choose(4), k = 1 + 3 * ch.choose(3), len = std::vector<int>{15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000}[ch.choose(c.q(13, 14))]; Desc d; d.clients = 3; d.ops.push_back({'I', 1, 0}); int w = 1;
    auto push = [&](char o, int a, int b) { d.ops.push_back({o, a, b}); if (o != 'L' && o != 'O') w++; };
    if (what == 0) { for (int i = 0; i < len; ++i) { if (i) push('L', 0, 0); push('*', w - 1, w > 3 ? w - 2 : 0); } push('O', 2, w - 1); push('O', 0, w / 2); }
    else if (what == 1) { for (int i = 0; i < len; ++i) push('I', 2, 0); for (int i = 0; i < len; ++i) push('*', i, (i * 7 + 3) % len); push('O', 0, w - 1); push('O', 1, w - len); }
    else if (what == 2) { for (int i = 0; i < len; ++i) push('+', w - 1, i / 2); push('*', w - 1, w / 2); for (int i = 0; i < len; ++i) push('O', i % 2 ? 2 : 0, (i * 5) % w); }
    else { for (int i = 0; i < len; ++i) { push('I', i % 3, 0); } for (int i = 0; i < len; ++i) push('O', (i * i) % 3, i); }
    d.closeEarly = k != 4; check(c, d, k, generic(d), generic(d, 5), "long");
  }, 1 << 30, 2);
}
#endif
