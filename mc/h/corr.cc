// C05: the function-independent preprocessing yields well-formed correlated randomness for every tape.
#include "h/corr.h"
using namespace tpc;
namespace {
void run(mc::Ctx& c, int n, int t, int k, int nI, int nM, int nIO, Tape& tape, const std::string& tag) {
  auto where = [&] { std::string s; for (auto& o : tape.over) s += mc::fmt(" p%lu[%lu]=%lu", (unsigned long)o.first[0], (unsigned long)o.first[2], (unsigned long)o.second); return mc::fmt("n=%d t=%d k=%d masks=%d multbatches=%d iobatches=%d base=%d%s: ", n, t, k, nI, nM, nIO, tape.base, s.c_str()); };
  c.note(tag); c.one(); std::string msg; int rc = mc::outcome_of([&] {
    Corr r(n, t, k, nI, nM, nIO, tape); r.deal(); r.prod(); size_t left = r.net.pending(); r.map(); uint64_t h = 1;
    if (left) c.fail(tag + "-unconsumed", where() + mc::fmt("%zu bytes", left));
    for (int j = 0; j < nI; ++j) { c.one(); auto s = deg(r.ind(j), n - k); bool ok = s.ok; uint64_t v = s.at(0); for (int x = 1; x < k; ++x) ok = ok && s.at(-x) == v; h = mc::mix(h, v); if (!ok) c.fail(tag + "-mask", where() + mc::fmt("mask %d: shares %s", j, mc::join(r.ind(j)).c_str())); }
    for (int b = 0; b < nM; ++b) { c.one(); auto A = deg(r.A(b), n - k), B = deg(r.B(b), n - k), C = deg(r.C(b), n - k);
      if (!A.ok || !B.ok || !C.ok) c.fail(tag + "-degree", where() + mc::fmt("batch %d: %s%s%s not of degree n-k", b, A.ok ? "" : "A", B.ok ? "" : "B", C.ok ? "" : "C"));
      for (int x = 0; x < k; ++x) { h = mc::mix(h, A.at(-x)); if (mul(A.at(-x), B.at(-x)) != C.at(-x)) c.fail(tag + "-triple", where() + mc::fmt("batch %d position %d: %lu*%lu!=%lu", b, x, (unsigned long)A.at(-x), (unsigned long)B.at(-x), (unsigned long)C.at(-x))); }
      for (int w = 1; w <= 3; ++w) { auto z = deg(r.O(b, w), n - 1); for (int x = 0; x < k; ++x) if (z.at(-x)) c.fail(tag + "-zero", where() + mc::fmt("batch %d zero %d position %d", b, w, x)); } }
    for (int j = 0; j < nIO; ++j) { c.one(); auto z = deg(r.Z(j), n - 1); for (int x = 0; x < k; ++x) if (z.at(-x)) c.fail(tag + "-iozero", where() + mc::fmt("io batch %d position %d", j, x)); }
    c.outcome(h);
  }, &msg);
  if (rc) c.fail(tag + "-throws", where() + msg);
  c.sample(where());
}
}
#if defined(TP_P) && TP_P == 7
// Every tape with at most two non-zero draws: enough to decide the (bilinear) identities for all tapes.
MC_SECTION(tapes, 8, 8) {
  Tape tape; tape.install();
  c.explore([&](mc::Chooser& ch) {
    static const int cfg[][3] = {{3, 0, 2}, {4, 1, 2}, {5, 2, 2}, {1, 0, 1}}; int ci = ch.choose(4); int n = cfg[ci][0], t = cfg[ci][1], k = cfg[ci][2];
    int nI = 1 + ch.choose(2), nM = 1, nIO = 1; if (c.thorough) { nM += ch.choose(2); nIO += ch.choose(2); } tape.base = 0; tape.over.clear(); tape.drawn.clear(); tape.record = true; run(c, n, t, k, nI, nM, nIO, tape, "tape"); tape.record = false; auto ks = tape.drawn;
    if (ks.empty()) throw mc::Prune{};
    int a = ch.choose((int)ks.size()); for (uint64_t v = 1; v < P; ++v) { tape.over.clear(); tape.over[ks[a]] = v; run(c, n, t, k, nI, nM, nIO, tape, "tape"); }
    tape.over.clear(); tape.over[ks[a]] = 1; for (size_t b = a + 1; b < ks.size(); ++b) for (uint64_t u = 1; u < (uint64_t)c.q(2, 4); ++u) { tape.over[ks[b]] = u; run(c, n, t, k, nI, nM, nIO, tape, "tape"); tape.over.erase(ks[b]); }
    tape.over.clear();
  }, 1 << 30, 3);
}
#endif
#if defined(TP_P) && TP_P != 7
// every admissible (n,t,k), numbers of masks and batches around the extraction blocks, dense and one-draw tapes
MC_SECTION(amounts, 8, 8) {
  Tape tape; tape.install();
  c.explore([&](mc::Chooser& ch) {
    int k = 1 + ch.choose(4), t = ch.choose(k == 1 ? 1 : 2 * k - 1), n = t + 2 * k - 1; if (n + k > (int)P) throw mc::Prune{};
    int nI = 1, nM = 1, nIO = 1, which = ch.choose(4); if (which == 0) nI = ch.choose(2 * (t + 1) + 2); else if (which == 1) nM = ch.choose(t + 3); else if (which == 2) nIO = ch.choose(2 * (t + 1) + 2); else { nI = 2 + ch.choose(3); nM = 1 + ch.choose(3); nIO = 1 + ch.choose(4); }
    tape.base = 1 + ch.choose(c.q(2, 6)); run(c, n, t, k, nI, nM, nIO, tape, "amount");
  }, 1 << 30, 3);
}
#endif
namespace {
void mapped(mc::Ctx& c, const Desc& d, int n, int t, int k, Tape& tape) {
    int nw = nwires(d); c.note(d.str()); c.one(); std::string msg; auto where = [&] { return mc::fmt("n=%d k=%d circuit %s: ", n, k, d.str().c_str()); };
    int rc = mc::outcome_of([&] {
      TP p(d, n, t, k, tape); p.corr(); p.fi(); p.all([](tp::Circuit& x) { x.MapCorrToCircuit(); }); std::vector<tp::Correlator> cs; for (auto& b : p.b) cs.push_back(b.c->GetCorrelator());
      size_t gates = nw + d.count('O'); for (int i = 0; i < n; ++i) { auto& C = *p.b[i].c; c.one();
        if (cs[i].mMapIndShrs.size() < gates || cs[i].mMapMultBatch.size() != C.GetNMultBatches() || cs[i].mMapInputBatch.size() != C.GetNInputBatches() || cs[i].mMapOutputBatch.size() != C.GetNOutputBatches()) { c.fail("map-size", where() + mc::fmt("party %d", i)); return; } }
      std::vector<std::vector<uint64_t>> shr; // per wire
      for (int w = 0; w < nw; ++w) { shr.emplace_back(); for (int i = 0; i < n; ++i) shr.back().push_back(val(cs[i].mMapIndShrs.at(p.b[i].w[w]))); auto s = deg(shr.back(), n - k); bool ok = s.ok; for (int x = 1; x < k; ++x) ok = ok && s.at(-x) == s.at(0); c.one(); if (!ok) c.fail("map-mask", where() + mc::fmt("wire %d", w)); }
      int w = 0, o = 0; for (auto& x : d.ops) { if (x.k == '+') for (int i = 0; i < n; ++i) if (shr[w][i] != add(shr[x.a][i], shr[x.b][i])) c.fail("map-add", where() + mc::fmt("wire %d", w)); if (x.k == 'O') { for (int i = 0; i < n; ++i) if (val(cs[i].mMapIndShrs.at(p.b[i].out[o])) != shr[x.b][i]) c.fail("map-output", where() + mc::fmt("output %d", o)); o++; } if (x.k == 'I' || x.k == '+' || x.k == '*') w++; }
#ifndef TP_P
      // over the large field equal values mean a shared entry
      for (int i = 0; i < n; ++i) { std::map<uint64_t, int> seen; int dup = 0; auto put = [&](uint64_t v) { if (seen[v]++) dup++; }; w = 0; for (auto& x : d.ops) { if (x.k == 'I' || x.k == '*') put(shr[w][i]); if (x.k == 'I' || x.k == '+' || x.k == '*') w++; }
        for (auto& m : cs[i].mMapMultBatch) { put(val(m.second.mShrA)); put(val(m.second.mShrB)); put(val(m.second.mShrC)); put(val(m.second.mShrO1)); put(val(m.second.mShrO2)); put(val(m.second.mShrO3)); } for (auto& m : cs[i].mMapInputBatch) put(val(m.second.mShrO)); for (auto& m : cs[i].mMapOutputBatch) put(val(m.second.mShrO));
        c.one(); if (dup) { std::string s; for (auto& q : seen) s += mc::fmt(" %lu:%d", (unsigned long)q.first, q.second); c.fail("map-shared", where() + mc::fmt("party %d: %d entries handed out twice%s", i, dup, s.c_str())); } }
#endif
    }, &msg);
    if (rc) c.fail("map-throws", where() + msg);
}
}
// through the circuit: every gate and batch gets its own entry, additions the sum, outputs the copy
MC_SECTION(mapping, 8, 8) {
  Tape tape; tape.install();
  c.explore([&](mc::Chooser& ch) {
    static const int cfg[][3] = {{4, 1, 2}, {3, 0, 2}, {5, 2, 2}, {7, 2, 3}}; int ci = ch.choose(c.q(3, 4)); int n = cfg[ci][0], t = cfg[ci][1], k = cfg[ci][2]; if (n + k > (long)P) throw mc::Prune{};
    Desc d; d.clients = n; int ni = 1 + ch.choose(3); for (int i = 0; i < ni; ++i) d.ops.push_back({'I', (i * i + ci) % n, 0}); int ops = ch.choose(3); genOps(ch, d, ops, ni < 3, true); int nw = nwires(d), pat = ch.choose(3);
    for (int w = 0; w < nw; ++w) if (pat != 1 || w % 2) d.ops.push_back({'O', pat == 2 ? 0 : w % n, w}); d.closeEarly = pat; mapped(c, d, n, t, k, tape);
  }, 1 << 30, 4);
}
#ifndef TP_P
// many parties, large batches, many masks and batches
MC_SECTION(amounts_big, 8, 8) {
  Tape tape; tape.install(); static const int cfg[][2] = {{4, 2}, {1, 1}, {5, 2}, {7, 3}, {10, 4}, {12, 5}, {16, 5}, {11, 6}, {21, 6}, {20, 10}, {33, 9}, {40, 20}};
  c.explore([&](mc::Chooser& ch) {
    int ci = ch.choose(c.q(10, 12)), n = cfg[ci][0], k = cfg[ci][1], t = n - 2 * k + 1, which = ch.choose(4); c.one(); static const int big[] = {7, 16, 33, 100, 257}; int b = big[ch.choose(c.q(4, 5))]; if ((n > 16 && b > 33) || (n > 7 && b > 100) || (n > 21 && b > 16)) throw mc::Prune{};
    int nI = 1, nM = 1, nIO = 1; if (which == 0) nI = b; else if (which == 1) nM = b; else if (which == 2) nIO = b; else { nI = b; nM = b / 2 + 1; nIO = b + 1; }
    tape.over.clear(); tape.base = 1 + ch.choose(c.q(1, 3)); run(c, n, t, k, nI, nM, nIO, tape, "big");
  }, 1 << 30, 3);
}
MC_SECTION(mapping_big, 8, 8) {
  Tape tape; tape.install(); static const int cfg[][2] = {{4, 2}, {3, 2}, {5, 2}, {5, 3}, {8, 3}, {10, 4}, {16, 5}, {11, 6}, {21, 6}, {33, 9}, {40, 20}};
  c.explore([&](mc::Chooser& ch) { int ci = ch.choose(c.q(9, 11)), n = cfg[ci][0], k = cfg[ci][1], t = n - 2 * k + 1; tape.over.clear(); tape.base = 1 + ch.choose(c.q(1, 3)); Desc d = bigDesc(n, ch.choose(5), ci); mapped(c, d, n, t, k, tape); }, 1 << 30, 2);
}
#endif
