// C20: in-memory channels and networks against byte-queue models.
#include <deque>
#include <memory>
#include "mc.h"
#include "sched.h"
#include "scl/math/ff.h"
#include "scl/math/z2k.h"
#include "scl/math/mat.h"
#include "scl/math/vec.h"
#include "scl/net/mem_channel.h"
#include "scl/net/network.h"
using scl::Channel; using scl::InMemoryChannel; using scl::Network;
namespace {
typedef std::vector<unsigned char> Bytes; typedef std::deque<unsigned char> Q;
// receive n bytes with guard bytes around the destination
bool recvChecked(Channel& ch, size_t n, Q& q, std::string& why) {
  Bytes b(n + 16, 0xEE); ch.Recv(b.data() + 8, n); for (int j = 0; j < 8; ++j) if (b[j] != 0xEE || b[8 + n + j] != 0xEE) { why = "bytes outside the destination changed"; return false; }
  for (size_t j = 0; j < n; ++j) { if (b[8 + j] != q.front()) { why = mc::fmt("byte %zu is %02x instead of %02x", j, b[8 + j], q.front()); return false; } q.pop_front(); } return true;
}
// nothing is left in the channel: a marker sent by the peer is the next thing received
bool empty(Channel& from, Channel& to) { Bytes m{0xA5, 0x5A, 0xC3}; from.Send(m.data(), 3); Bytes r(3); to.Recv(r.data(), 3); return r == m; }
}
// one thread: every sequence of sends, receives and flushes on a pair and on a self-connected channel
MC_SECTION(sequences, 8, 8) {
  c.explore([&](mc::Chooser& ch) {
    int self = ch.choose(2); const int D = c.q(5, 7); std::shared_ptr<InMemoryChannel> e[2]; if (self) e[0] = e[1] = InMemoryChannel::CreateSelfConnecting(); else { auto p = InMemoryChannel::CreatePaired(); e[0] = p[0]; e[1] = p[1]; }
    Q q[2]; unsigned char next[2] = {1, 128}; std::string tr = self ? "self:" : "pair:", why; c.one();   // q[w]: bytes waiting at end w
    for (int i = 0; i < D; ++i) {
      int o = ch.choose(self ? 10 : 20), w = o / 10, k = o % 10; c.ops(1); int to = self ? 0 : 1 - w;
      if (k < 4) { Bytes b; for (int j = 0; j < k; ++j) { b.push_back(next[w]); q[to].push_back(next[w]++); } Bytes copy = b; tr += mc::fmt(" %c.send(%d)", 'A' + w, k); e[w]->Send(b.data(), k); if (b != copy) return c.fail("seq/modifies", tr); for (auto& x : b) x = 0; }
      else if (k < 9) { size_t n = k - 4; if (n == 4) n = q[w].size(); if (n > q[w].size()) throw mc::Prune{}; tr += mc::fmt(" %c.recv(%zu)", 'A' + w, n); c.note(tr); if (!recvChecked(*e[w], n, q[w], why)) return c.fail("seq/bytes", tr + ": " + why); }
      else { tr += mc::fmt(" %c.flush", 'A' + w); e[w]->Flush(); q[w].clear(); }
    }
    for (int w = 0; w < (self ? 1 : 2); ++w) { c.note(tr); size_t n = q[w].size(); if (n && !recvChecked(*e[w], n, q[w], why)) return c.fail("seq/bytes", tr + mc::fmt(" %c.recv(rest): ", 'A' + w) + why); if (!empty(*e[self ? 0 : 1 - w], *e[w])) return c.fail("seq/extra", tr + mc::fmt(": end %c holds more than was sent", 'A' + w)); }
    uint64_t h = self; for (char x : tr) h = mc::mix(h, x); c.outcome(h); c.sample(tr);
  }, 1 << 30, 3);
}
// long messages cut in every way
MC_SECTION(cuts, 4, 8) {
  c.explore([&](mc::Chooser& ch) {
    const int L = c.q(8, 10); int total = ch.range(1, L); auto p = InMemoryChannel::CreatePaired(); Q q; std::string tr, why; int left = total, x = 0; while (left) { int k = ch.range(1, left); left -= k; Bytes b; for (int i = 0; i < k; ++i) { b.push_back(++x); q.push_back(x); } p[0]->Send(b.data(), k); tr += mc::fmt(" send(%d)", k); }
    left = total; while (left) { int k = ch.range(1, left); left -= k; tr += mc::fmt(" recv(%d)", k); c.note(tr); if (!recvChecked(*p[1], k, q, why)) return c.fail("seq/bytes", tr + ": " + why); }
    c.ops(2); c.one(); if (!empty(*p[0], *p[1]) || !empty(*p[1], *p[0])) c.fail("seq/extra", tr); c.outcome(total);
  }, 1 << 30, 3);
}
// typed values
namespace {
using F61 = scl::FF<61>; using F127 = scl::FF<127>; using Z = scl::Z2k<9>;
template <class T> std::vector<T> elems(int seed, size_t n) { std::vector<T> v; for (size_t i = 0; i < n; ++i) v.push_back(T((int)(seed * 100 + i + 1))); return v; }
struct Pod { int a; char b; double c; };
const int KINDS = 14;
template <class T> bool vecRT(Channel* a, Channel* b, bool send, int i, size_t n) { if (send) { a->Send(scl::Vec<T>(elems<T>(i, n))); return true; } scl::Vec<T> v(2); b->Recv(v); auto e = elems<T>(i, n); if (v.Size() != n) return false; for (size_t j = 0; j < n; ++j) if (!(v[j] == e[j])) return false; return true; }
template <class T> bool matRT(Channel* a, Channel* b, bool send, int i, size_t r, size_t k) { auto m = scl::Mat<T>::FromVector(r, k, elems<T>(i, r * k)); if (send) { a->Send(m); return true; } scl::Mat<T> v(1, 1); b->Recv(v); return v.Rows() == r && v.Cols() == k && v.Equals(m); }
bool typed(Channel* a, Channel* b, bool send, int kind, int i) {
  switch (kind) {
    case 0: { if (send) { a->Send((int)(i * 7 - 3)); return true; } int x; b->Recv(x); return x == i * 7 - 3; }
    case 1: { if (send) { a->Send((uint64_t)i << 40 | 5); return true; } uint64_t x; b->Recv(x); return x == ((uint64_t)i << 40 | 5); }
    case 2: { if (send) { a->Send((unsigned char)(i + 9)); return true; } unsigned char x; b->Recv(x); return x == i + 9; }
    case 3: { Pod p{i, 'x', 2.5}; if (send) { a->Send(p); return true; } Pod q; b->Recv(q); return q.a == i && q.b == 'x' && q.c == 2.5; }
    case 4: { std::vector<uint16_t> v{1, 2, (uint16_t)i}; if (send) { a->Send(v); return true; } std::vector<uint16_t> w(3); b->Recv(w); return v == w; }
    case 5: { std::vector<F61> v = elems<F61>(i, 4); if (send) { a->Send(v); return true; } std::vector<F61> w(4); b->Recv(w); for (int j = 0; j < 4; ++j) if (!(v[j] == w[j])) return false; return true; }
    case 6: { std::vector<int> v; if (send) { a->Send(v); return true; } b->Recv(v); return v.empty(); }
    case 7: return vecRT<F61>(a, b, send, i, 3); case 8: return vecRT<Z>(a, b, send, i, 1); case 9: return vecRT<F127>(a, b, send, i, 2);
    case 10: return matRT<F61>(a, b, send, i, 2, 3); case 11: return matRT<Z>(a, b, send, i, 3, 1); case 12: return matRT<F127>(a, b, send, i, 1, 2);
    default: { F61 x(i + 3); if (send) { a->Send(x); return true; } F61 y; b->Recv(y); return x == y; }
  }
}
}
MC_SECTION(values, 4, 8) {
  c.explore([&](mc::Chooser& ch) {
    auto p = InMemoryChannel::CreatePaired(); int n = c.q(3, 4); std::string d; std::vector<int> ks; Channel *a = p[0].get(), *b = p[1].get(); int order = ch.choose(2);   // all sends first, or alternating
    for (int i = 0; i < n; ++i) { ks.push_back(ch.choose(KINDS)); d += mc::fmt(" %d", ks.back()); c.note(d); typed(a, b, true, ks[i], i); if (order && !typed(a, b, false, ks[i], i)) return c.fail("values/differ", d); }
    if (!order) for (int i = 0; i < n; ++i) if (!typed(a, b, false, ks[i], i)) return c.fail("values/differ", d + mc::fmt(": message %d", i)); c.ops(n); c.one(); if (!empty(*a, *b)) c.fail("values/extra", d); c.outcome(n);
  }, 1 << 30, 2);
  // sizes, one by one
  for (size_t n = 1; n <= (size_t)c.q(70, 300); ++n) { auto p = InMemoryChannel::CreatePaired(); Channel *a = p[0].get(), *b = p[1].get(); for (int k = 0; k < 4; ++k) { typed(a, b, true, k, 1); bool ok; if (k == 0) ok = vecRT<F61>(a, b, true, 1, n); else if (k == 1) ok = vecRT<Z>(a, b, true, 1, n); else if (k == 2) ok = matRT<F127>(a, b, true, 1, n, 2); else ok = matRT<F61>(a, b, true, 1, 3, n); ok = typed(a, b, false, k, 1) && (k == 0 ? vecRT<F61>(a, b, false, 1, n) : k == 1 ? vecRT<Z>(a, b, false, 1, n) : k == 2 ? matRT<F127>(a, b, false, 1, n, 2) : matRT<F61>(a, b, false, 1, 3, n)); c.one(); if (!ok || !empty(*a, *b)) c.fail("values/size", mc::fmt("kind %d size %zu", k, n)); } }
}
// networks: who is joined to whom
MC_SECTION(networks, 4, 4) {
  c.explore([&](mc::Chooser& ch) {
    int n = ch.range(1, c.q(5, 7)); bool rev = ch.flag(); auto nets = Network::CreateFullInMemory(n); std::string d = mc::fmt("in-memory network of %d", n); c.ops(n * n); c.one(); if ((int)nets.size() != n) return c.fail("network/size", d);
    for (auto& x : nets) if ((int)x.Size() != n) return c.fail("network/size", d);
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { if (!nets[i].Party(j)) return c.fail("network/missing", d); for (int k = 0; k < n; ++k) for (int l = 0; l < n; ++l) if ((i != k || j != l) && nets[i].Party(j) == nets[k].Party(l)) return c.fail("network/shared", d + mc::fmt(": (%d,%d) and (%d,%d)", i, j, k, l)); }
    if (n <= 3) {   // one message at a time: it arrives exactly there
      int i = ch.choose(n), j = ch.choose(n); unsigned v = 1000 + i * 10 + j; nets[i].Party(j)->Send(v); for (int k = 0; k < n; ++k) for (int l = 0; l < n; ++l) { Channel *f = nets[k].Party(l), *t = nets[l].Party(k); if (k == i && l == j) continue; c.note(d); if (!empty(*f, *t)) return c.fail("network/leak", d + mc::fmt(": a message %d->%d shows up at %d->%d", i, j, k, l)); }
      unsigned g = 0; nets[j].Party(i)->Recv(g); if (g != v) return c.fail("network/misdirected", d);
    }
    for (int x = 0; x < n * n; ++x) { int y = rev ? n * n - 1 - x : x; nets[y / n].Party(y % n)->Send((unsigned)(y + 7)); nets[y / n].Party(y % n)->Send((unsigned)(y + 5000)); }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) { unsigned g = 0, h = 0; c.note(d); nets[i].Party(j)->Recv(g); nets[i].Party(j)->Recv(h); if (g != (unsigned)(j * n + i + 7) || h != (unsigned)(j * n + i + 5000)) return c.fail("network/misdirected", d + mc::fmt(": %d receives %u,%u from %d", i, g, h, j)); if (!empty(*nets[j].Party(i), *nets[i].Party(j))) return c.fail("network/extra", d); }
    for (auto& x : nets) x.Close(); c.outcome(n); c.sample(d);
  });
  c.explore([&](mc::Chooser& ch) {
    int n = ch.range(1, c.q(5, 7)), me = ch.choose(n); auto m = Network::CreateMock(me, n); std::string d = mc::fmt("mock network of %d for party %d", n, me); c.ops(n); c.one(); if ((int)m.first.Size() != n || (int)m.second.size() != n) return c.fail("mock/size", d); c.note(d);
    auto& N = m.first; int one = ch.choose(n + 1); if (one < n) { if (one == me) N.Party(me)->Send(77u); else m.second[one]->Send(77u); for (int i = 0; i < n; ++i) if (i != one && !empty(i == me ? *N.Party(me) : *m.second[i], *N.Party(i))) return c.fail("mock/leak", d); unsigned g = 0; N.Party(one)->Recv(g); if (g != 77u) return c.fail("mock/misdirected", d); }
    for (int i = 0; i < n; ++i) { N.Party(i)->Send((unsigned)(100 + i)); if (i != me) m.second[i]->Send((unsigned)(200 + i)); }
    for (int i = n - 1; i >= 0; --i) { unsigned g = 0; if (i == me) { N.Party(me)->Recv(g); if (g != 100u + me) return c.fail("mock/self", d); continue; } m.second[i]->Recv(g); if (g != 100u + i) return c.fail("mock/out", d); N.Party(i)->Recv(g); if (g != 200u + i) return c.fail("mock/in", d); if (!empty(*m.second[i], *N.Party(i)) || !empty(*N.Party(i), *m.second[i])) return c.fail("mock/extra", d); }
    N.Close(); c.outcome(n * 10 + me);
  });
}
// two threads: every interleaving of senders and receivers in both directions
MC_SECTION(concurrent, 8, 8) {
  c.explore([&](mc::Chooser& ch) {
    const int L = c.q(4, 5); int total = ch.range(1, L), left = total; std::vector<int> a, b; while (left) { int k = ch.range(1, left); a.push_back(k); left -= k; } left = total; while (left) { int k = ch.range(1, left); b.push_back(k); left -= k; } int shape = ch.choose(4), zero = ch.choose(2);
    static const char* SN[] = {"one direction", "both directions, send first", "each end has a sending and a receiving thread", "self channel with a sending and a receiving thread"}; std::string d = SN[shape]; d += ": sends"; for (int x : a) d += mc::fmt(" %d", x); d += " receives"; for (int x : b) d += mc::fmt(" %d", x); if (zero) d += " with empty messages"; c.note(d);
    size_t msgs = a.size() * (zero ? 2 : 1) + zero + b.size(); if (msgs > (size_t)(shape == 2 ? c.q(4, 5) : shape == 1 ? c.q(7, 8) : c.q(8, 10))) throw mc::Prune{};
    auto st = sched::explore({}, [&]() -> std::function<bool(const sched::End&)> {
      struct S { std::shared_ptr<InMemoryChannel> e[2]; Bytes got[2]; }; auto s = std::make_shared<S>(); if (shape == 3) s->e[0] = s->e[1] = InMemoryChannel::CreateSelfConnecting(); else { auto p = InMemoryChannel::CreatePaired(); s->e[0] = p[0]; s->e[1] = p[1]; }
      auto snd = [=](int w) { int x = w * 100; if (zero) s->e[w]->Send(nullptr, 0); for (int k : a) { Bytes v; for (int i = 0; i < k; ++i) v.push_back(++x); s->e[w]->Send(v.data(), k); if (zero) s->e[w]->Send(v.data(), 0); } };
      auto rcv = [=](int w) { for (int k : b) { Bytes v(k); s->e[w]->Recv(v.data(), k); s->got[w].insert(s->got[w].end(), v.begin(), v.end()); } };
      switch (shape) { case 0: sched::spawn("A", [=] { snd(0); }); sched::spawn("B", [=] { rcv(1); }); break; case 1: sched::spawn("A", [=] { snd(0); rcv(0); }); sched::spawn("B", [=] { snd(1); rcv(1); }); break;
        case 2: sched::spawn("A send", [=] { snd(0); }); sched::spawn("A recv", [=] { rcv(0); }); sched::spawn("B send", [=] { snd(1); }); sched::spawn("B recv", [=] { rcv(1); }); break; default: sched::spawn("send", [=] { snd(0); }); sched::spawn("recv", [=] { rcv(1); }); }
      return [=, &c](const sched::End& e) {
        if (e.deadlock || e.livelock) c.fail("concurrent/deadlock", d + ": " + e.str()); else if (!e.errors.empty() || !e.races.empty()) c.fail(e.races.empty() ? "concurrent/error" : "concurrent/race", d + ": " + e.str());
        else for (int w = 0; w < 2; ++w) { if (w == 0 && (shape == 0 || shape == 3)) continue; Bytes want; for (int i = 1; i <= total; ++i) want.push_back((shape == 3 ? 0 : (1 - w) * 100) + i); if (s->got[w] != want) c.fail("concurrent/bytes", d); }
        c.checked(); return c.fails.size() < 3; };
    });
    c.cases(st.executions); c.ops(st.transitions); c.count("interleavings", st.executions); if (!st.complete) c.capped = true; c.outcome(st.executions); c.sample(d + mc::fmt(": %llu interleavings", (unsigned long long)st.executions));
  }, 1 << 30, 3);
}
// messages around and beyond 64 KiB, cut differently by the sender and the receiver
MC_SECTION(large, 4, 4) {
  auto at = [](size_t i) { return (unsigned char)((i * 2654435761u) >> 13 ^ i >> 16); };
  static const size_t S[] = {255, 256, 257, 32768, 65535, 65536, 65537, 70001, 131072, 131073, 200003, 1000003}; static const size_t K[] = {0, 1, 2, 255, 1000, 4096, 65536, 65537, 100000};
  c.explore([&](mc::Chooser& ch) {
    size_t n = S[ch.choose(c.q(11, 12))], a = K[ch.choose(9)], b = K[ch.choose(9)]; int self = ch.choose(2); if (!a) a = n; if (!b) b = n; if (b < n / 400 || (a < n / 2000 && b * 8 > n)) throw mc::Prune{};   // receives cost the length of what is left over
    std::string d = mc::fmt("%zu bytes sent by %zu and received by %zu%s", n, a, b, self ? " on a self channel" : ""); c.note(d); c.one(); c.ops(n / a + n / b); std::shared_ptr<InMemoryChannel> e[2]; if (self) e[0] = e[1] = InMemoryChannel::CreateSelfConnecting(); else { auto p = InMemoryChannel::CreatePaired(); e[0] = p[0]; e[1] = p[1]; }
    Bytes want(n), got(n + 16, 0xEE); for (size_t i = 0; i < n; ++i) want[i] = at(i); for (size_t o = 0; o < n; o += a) e[0]->Send(want.data() + o, std::min(a, n - o)); for (size_t o = 0; o < n; o += b) e[1]->Recv(got.data() + 8 + o, std::min(b, n - o));
    for (int j = 0; j < 8; ++j) if (got[j] != 0xEE || got[8 + n + j] != 0xEE) return c.fail("large/outside", d); if (!std::equal(want.begin(), want.end(), got.begin() + 8)) return c.fail("large/bytes", d); if (!empty(*e[0], *e[1])) return c.fail("large/extra", d); c.outcome(mc::mix(n, mc::mix(a, b)));
  }, 1 << 30, 2);
}
