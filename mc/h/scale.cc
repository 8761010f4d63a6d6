// C06 at size: over the shipped field with dense tapes two equal values mean that a sharing was handed out twice.
#include <unordered_map>
#include "h/corr.h"
using namespace tpc;
namespace {
void distinct(mc::Ctx& c, const std::vector<uint64_t>& v, const std::string& key, const std::string& w) {
  std::unordered_map<uint64_t, size_t> at; c.one(); c.checked(1);
  for (size_t i = 0; i < v.size(); ++i) { auto r = at.emplace(v[i], i); if (!r.second) { c.fail(key, w + mc::fmt("entries %zu and %zu of %zu are equal", r.first->second, i, v.size())); return; } }
}
}
// everything every party holds after the preprocessing, and what it sends to the first party for the products
MC_SECTION(scale, 8, 8) {
  Tape tape; tape.install(); static const int cfg[][2] = {{4, 2}, {5, 2}, {7, 3}, {10, 4}, {12, 5}, {16, 7}, {21, 6}};
  c.explore([&](mc::Chooser& ch) {
    int ci = ch.choose(c.q(5, 7)), n = cfg[ci][0], k = cfg[ci][1], t = n - 2 * k + 1, which = ch.choose(4), b = std::vector<int>{17, 64, 130, 260, 520, 1030}[ch.choose(c.q(4, 6))]; if (b * n * n > c.q(30000, 120000)) throw mc::Prune{};
    int nI = which == 0 || which == 3 ? b : 1, nM = which == 1 || which == 3 ? b : 1, nIO = which == 2 || which == 3 ? b + 1 : 1; tape.over.clear(); tape.base = 1 + ch.choose(c.q(1, 2)); std::string w = mc::fmt("n=%d t=%d k=%d masks=%d multbatches=%d iobatches=%d: ", n, t, k, nI, nM, nIO), msg; c.note(w);
    int rc = mc::outcome_of([&] {
      tape.drawn.clear(); tape.reused = false; tape.record = true; Corr r(n, t, k, nI, nM, nIO, tape); r.deal(); tape.record = false;
      if (tape.reused) c.fail("draw-reused", w + "one party's generator produced the same output twice"); c.count("draws", tape.drawn.size());
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) distinct(c, r.net.sent(i, j), "dealt-twice", w + mc::fmt("shares dealt by %d to %d: ", i, j));
      r.net.clearLog(); r.all([](tp::Correlator& x) { x.GenProdPartiesSendP1(); }); for (int i = 0; i < n; ++i) distinct(c, r.net.sent(i, 0), "product-mask-twice", w + mc::fmt("product messages of party %d: ", i));
      r.all([](tp::Correlator& x) { x.GenProdP1ReceivesAndSends(); }); r.all([](tp::Correlator& x) { x.GenProdPartiesReceive(); }); r.map();
      std::vector<std::vector<uint64_t>> all(n); auto put = [&](const std::vector<uint64_t>& v) { for (int i = 0; i < n; ++i) all[i].push_back(v[i]); };
      for (int j = 0; j < nI; ++j) put(r.ind(j)); for (int x = 0; x < nM; ++x) { put(r.A(x)); put(r.B(x)); put(r.C(x)); for (int q = 1; q <= 3; ++q) put(r.O(x, q)); } for (int j = 0; j < nIO; ++j) put(r.Z(j));
      for (int i = 0; i < n; ++i) distinct(c, all[i], "entry-twice", w + mc::fmt("entries of party %d: ", i));
      c.outcome(mc::mix(all[0][0], nM));
    }, &msg);
    if (rc) c.fail("throws", w + msg); c.sample(w);
  }, 1 << 30, 3);
}
// DN07: many inputs of the same value, and the same product over and over: all messages still differ
MC_SECTION(dn07_scale, 8, 8) {
  Tape tape; tape.install(); static const int cfg[][2] = {{3, 1}, {4, 1}, {5, 2}, {7, 1}, {9, 4}, {12, 5}, {17, 8}};
  c.explore([&](mc::Chooser& ch) {
    int ci = ch.choose(c.q(6, 7)), n = cfg[ci][0], t = cfg[ci][1], which = ch.choose(3), b = std::vector<int>{17, 64, 130, 260, 520, 1030}[ch.choose(c.q(4, 6))]; if (b * n * n > c.q(60000, 300000)) throw mc::Prune{};
    Desc d; d.clients = n; int nI = which == 0 ? b : 2, L = which == 2 ? std::min(b, 300) : 1, per = which == 0 ? 1 : which == 1 ? b : 1 + b / L; for (int i = 0; i < nI; ++i) d.ops.push_back({'I', 1, 0}); for (int l = 0; l < L; ++l) { if (l) d.ops.push_back({'L', 0, 0}); for (int i = 0; i < per; ++i) d.ops.push_back({'*', 0, 1}); } int nw = nwires(d); d.ops.push_back({'O', 2, nw - 1});
    tape.over.clear(); tape.base = 1 + ch.choose(c.q(1, 2)); std::string w = mc::fmt("n=%d t=%d %d inputs, %d layers of %d multiplications: ", n, t, nI, L, per), msg; c.note(w); Vals in(n); in[1].assign(nI, 5);
    int rc = mc::outcome_of([&] {
      tape.drawn.clear(); tape.reused = false; tape.record = true; DN p(d, n, t, 2, tape); p.prep(); tape.record = false;
      if (tape.reused) c.fail("draw-reused", w + "one party's generator produced the same output twice"); c.count("draws", tape.drawn.size());
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) distinct(c, p.net.sent(i, j), "dealt-twice", w + mc::fmt("shares dealt by %d to %d: ", i, j));
      p.net.clearLog(); p.fd(); for (int i = 0; i < n; ++i) distinct(c, p.net.sent(i, 0), "product-mask-twice", w + mc::fmt("function-dependent messages of party %d: ", i));
      p.inputs(in); p.net.clearLog(); p.all([](tp::DN07& c) { c.InputPartiesSendOwners(); }); for (int i = 0; i < n; ++i) distinct(c, p.net.sent(i, 1), "mask-twice", w + mc::fmt("mask shares of party %d: ", i)); p.net.clearLog(); p.all([](tp::DN07& c) { c.InputOwnersReceiveAndSendParties(); }); distinct(c, p.net.sent(1, 2), "input-mask-twice", w + "masked inputs: "); p.all([](tp::DN07& c) { c.InputPartiesReceive(); });
      p.net.clearLog(); for (size_t l = 0; l < p.depth; ++l) { p.all([&](tp::DN07& c) { c.MultPartiesSendP1(l); }); p.all([&](tp::DN07& c) { c.MultP1ReceivesAndSendsParties(l); }); p.all([&](tp::DN07& c) { c.MultPartiesReceive(l); }); }
      for (int i = 1; i < n; ++i) distinct(c, p.net.sent(i, 0), "mult-mask-twice", w + mc::fmt("multiplication messages of party %d: ", i)); distinct(c, p.net.sent(0, n - 1), "value-mask-twice", w + "masked products: ");
      p.all([](tp::DN07& c) { c.OutputPartiesSendOwners(); }); p.all([](tp::DN07& c) { c.OutputOwnersReceive(); }); if (p.outputs()[2].at(0) != 25) c.fail("value", w + "wrong product"); c.outcome(mc::mix(nI, per * L));
    }, &msg);
    if (rc) c.fail("throws", w + msg); c.sample(w);
  }, 1 << 30, 3);
}
