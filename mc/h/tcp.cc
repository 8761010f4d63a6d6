// C21: TCP channels over a socket layer that fragments, fails and closes in every way.
#include <errno.h>
#include <climits>
#include <memory>
#include "mc.h"
#include "sched.h"
#include "scl/math/ff.h"
#include "scl/math/mat.h"
#include "scl/math/vec.h"
#include "scl/net/tcp_channel.h"
using scl::TcpChannel; namespace net = sched::net;
namespace {
typedef std::vector<unsigned char> Bytes;
unsigned char byteAt(size_t i) { return (unsigned char)(i * 53 + 7); }
Bytes stream(size_t n) { Bytes b; for (size_t i = 0; i < n; ++i) b.push_back(byteAt(i)); return b; }
std::string hex(const Bytes& b) { std::string s; for (auto x : b) s += mc::fmt("%02x", x); return s; }
int rawWrite(int fd, const void* p, size_t n);
const std::vector<int> ERRS{ECONNRESET, EPIPE, EIO, ETIMEDOUT, EINTR};
}
#include <sys/socket.h>
#include <unistd.h>
#include <sys/mman.h>
namespace { int rawWrite(int fd, const void* p, size_t n) { return (int)::send(fd, p, n, MSG_NOSIGNAL); } }
// receiving: every cut of every receive, with an error or the end of the stream at every call
MC_SECTION(receive, 4, 8) {
  c.explore([&](mc::Chooser& ch) {
    net::reset(); auto fds = net::pair(); const int L = c.q(7, 9); int total = ch.range(0, L); Bytes s = stream(total); if (total) rawWrite(fds.second, s.data(), total);
    size_t got = 0; int fault = 0, faults = 0; std::string tr = mc::fmt("stream of %d bytes:", total);
    net::script([&](int, bool w, size_t n) -> int {   // a read of n bytes: 1..n of those available, or an error
      if (w) return INT_MIN; int avail = (int)std::min<size_t>(n, total - got); if (!avail) { tr += " eof"; return 0; }
      int k = ch.choose(avail + (faults ? 0 : (int)ERRS.size())); if (k >= avail) { fault = ERRS[k - avail]; faults++; tr += mc::fmt(" error-%d", fault); return -fault; } tr += mc::fmt(" %d/%zu", avail - k, n); got += avail - k; return avail - k; });
    auto t = std::make_shared<TcpChannel>(fds.first); size_t pos = 0; int nr = ch.range(1, 3);
    for (int i = 0; i < nr; ++i) {
      int n = i + 1 == nr && nr > 1 ? ch.choose(2) ? L - (int)pos > 0 ? L - (int)pos : 1 : 1 : ch.choose(L); std::vector<unsigned char> b(n + 16, 0xEE); fault = 0; tr += mc::fmt(" recv(%d)", n); c.ops(1); c.note(tr); std::string msg;
      size_t before = got; int rc = mc::outcome_of([&] { t->Recv(b.data() + 8, n); }, &msg); c.one(); c.outcome(mc::mix(rc, mc::mix(n, got)));
      for (int j = 0; j < 8; ++j) if (b[j] != 0xEE || b[8 + n + j] != 0xEE) return c.fail("recv/outside", tr);
      if (rc == 2) return c.fail("recv/throws-other", tr);
      if (rc == 1) { if (before + n <= (size_t)total && !fault) return c.fail("recv/spurious", tr + ": " + msg); break; }
      if (fault && fault != EINTR) return c.fail("recv/error-ignored", tr);
      if (pos + n > (size_t)total) return c.fail("recv/unfilled", tr + " returns as if everything was received");
      if (got != pos + n) return c.fail("recv/consumed", tr + mc::fmt(" took %zu bytes instead of %zu", got, pos + n));
      for (int j = 0; j < n; ++j) if (b[8 + j] != byteAt(pos + j)) return c.fail("recv/bytes", tr + " gives " + hex(b)); pos += n;
    }
    c.sample(tr); net::script(nullptr); t.reset(); if (net::closes(fds.first) != 1) c.fail("close/count", tr);
  }, 1 << 30, 3);
}
// sending: every cut, with an error at every call
MC_SECTION(send, 4, 8) {
  c.explore([&](mc::Chooser& ch) {
    net::reset(); auto fds = net::pair(); const int L = c.q(8, 10); int fault = 0, faults = 0; bool nosig = true; std::string tr; size_t put = 0;
    net::script([&](int, bool w, size_t n) -> int { if (!w) return INT_MIN; int av = (int)n; int k = ch.choose(av + (faults ? 0 : (int)ERRS.size())); if (k >= av) { fault = ERRS[k - av]; faults++; tr += mc::fmt(" error-%d", fault); return -fault; } tr += mc::fmt(" %d/%d", av - k, av); put += av - k; return av - k; });
    auto t = std::make_shared<TcpChannel>(fds.first); size_t pos = 0; int ns = ch.range(1, 3); Bytes want;
    for (int i = 0; i < ns; ++i) {
      int n = ch.choose(ns == 1 ? L + 1 : ns == 2 ? L - 1 : L - 3); Bytes s; for (int j = 0; j < n; ++j) s.push_back(byteAt(pos + j)); Bytes copy = s; tr += mc::fmt(" send(%d)", n); c.ops(1); c.note(tr); fault = 0; std::string msg;
      int rc = mc::outcome_of([&] { t->Send(s.data(), n); }, &msg); c.one(); c.outcome(mc::mix(rc, mc::mix(n, put)));
      if (s != copy) return c.fail("send/modifies", tr);
      if (rc == 2) return c.fail("send/throws-other", tr);
      if (rc == 1) { if (!fault) return c.fail("send/spurious", tr + ": " + msg); want.insert(want.end(), s.begin(), s.end()); Bytes got = net::drain(fds.second); if (got.size() > want.size() || !std::equal(got.begin(), got.end(), want.begin())) c.fail("send/bytes", tr + ": the peer sees " + hex(got)); return; }
      if (fault && fault != EINTR) return c.fail("send/error-ignored", tr);
      want.insert(want.end(), s.begin(), s.end()); pos += n; if (put != pos) return c.fail("send/count", tr);
    }
    Bytes got = net::drain(fds.second); if (got != want) c.fail("send/bytes", tr + ": the peer sees " + hex(got) + " instead of " + hex(want));
    c.sample(tr); net::script(nullptr);
  }, 1 << 30, 3);
}
// closing: operation sequences on one channel; the peer may be gone, close may report an error
MC_SECTION(close, 4, 8) {
  c.explore([&](mc::Chooser& ch) {
    struct R { std::string tr, key, det; bool done = false; }; auto r = std::make_shared<R>(); const int D = c.q(5, 6); int cerr = ch.choose(3); std::vector<int> ops; for (int i = 0; i < D; ++i) { int o = ch.choose(7); ops.push_back(o); if (o == 6) break; }
    static const char* N[] = {"close", "alive?", "send", "receive", "peer sends", "peer closes", "destroy"};
    sched::Opts o; auto st = sched::explore(o, [&]() -> std::function<bool(const sched::End&)> {
      *r = R(); auto fds = std::make_shared<std::pair<int, int>>(net::pair());
      sched::spawn("channel", [r, ops, cerr, fds, &c] {
        auto t = std::make_shared<TcpChannel>(fds->first); bool open = true, peer = true; size_t avail = 0, rd = 0, wr = 0; if (cerr) net::fail_close(fds->first, cerr == 1 ? EIO : EINTR);
        auto bad = [&](const std::string& k) { if (r->key.empty()) r->key = k, r->det = r->tr; };
        for (int x : ops) {
          r->tr += std::string(" ") + N[x]; int rc = 0;
          switch (x) {
            case 0: rc = mc::outcome_of([&] { t->Close(); }); if (rc == 2 || (rc && !(cerr && open))) bad("close/throws"); open = false; break;
            case 1: if (t->Alive() != open) bad("close/alive"); break;
            case 2: { unsigned char b[2] = {byteAt(wr), byteAt(wr + 1)}; rc = mc::outcome_of([&] { t->Send(b, 2); }); if (open && peer) { if (rc) bad("send/spurious"); wr += 2; } else if (rc != 1) bad("send/closed-not-reported"); break; }
            case 3: { if (open && peer && avail < 2) { r->tr += "(skipped)"; break; } unsigned char b[2] = {0, 0}; rc = mc::outcome_of([&] { t->Recv(b, 2); }); if (open && avail >= 2) { if (rc) bad("recv/spurious"); if (b[0] != byteAt(rd) || b[1] != byteAt(rd + 1)) bad("recv/bytes"); rd += 2; avail -= 2; } else { if (rc != 1) bad("recv/closed-not-reported"); else if (open && avail) rd += avail, avail = 0; } break; }
            case 4: if (!peer) break; { unsigned char b[3]; size_t at = rd + avail; for (int i = 0; i < 3; ++i) b[i] = byteAt(at + i); if (open && rawWrite(fds->second, b, 3) == 3) avail += 3; } break;
            case 5: if (peer) { ::close(fds->second); peer = false; } break;
            default: if (cerr && open) mc::outcome_of([&] { t->Close(); }); t.reset(); open = false;   // an error in a destructor is another matter
          }
          r->tr += mc::fmt("=%d", rc);
        }
        if (cerr && t && t->Alive()) mc::outcome_of([&] { t->Close(); });   // an error in a destructor is another matter
        t.reset(); r->done = true; if (net::closes(fds->first) != 1) bad("close/count");
      });
      return [r, &c](const sched::End& e) {
        if (!r->key.empty()) c.fail(r->key, r->det);
        for (auto& x : e.errors) { if (x.find("close of a closed") != std::string::npos) c.fail("close/twice", r->tr + ": " + x); else if (x.find("SIGPIPE") != std::string::npos) c.fail("send/kills-process", r->tr + ": " + x); else if (x.find("uncaught") != std::string::npos) c.fail("close/terminates", r->tr + ": " + x); }
        if (e.deadlock || e.livelock) c.fail("close/blocks", r->tr + ": " + e.str());
        return true; };
    });
    c.ops(st.transitions); c.one(); uint64_t h = 0; for (char x : r->tr) h = mc::mix(h, x); c.outcome(h); c.sample(r->tr);
  }, 1 << 30, 2);
}
// both ends concurrently: every cut of every socket call on both sides and every interleaving
MC_SECTION(transfer, 8, 8) {
  c.explore([&](mc::Chooser& ch) {
    const int L = c.q(6, 7); std::vector<int> a, b; int total = ch.range(1, L), left = total; while (left) { int k = ch.range(1, left); a.push_back(k); left -= k; } left = total; while (left) { int k = ch.range(1, left); b.push_back(k); left -= k; } int over = ch.choose(2), both = total <= L - 2 ? ch.choose(2) : 0;
    std::string d = "sends"; for (int x : a) d += mc::fmt(" %d", x); d += " receives"; for (int x : b) d += mc::fmt(" %d", x); if (over) d += " then one more after the sender closed"; if (both) d += ", in both directions"; c.note(d);
    if (a.size() + b.size() > (size_t)c.q(6, 8)) throw mc::Prune{};
    sched::Opts o; o.frag = 2;
    auto st = sched::explore(o, [&]() -> std::function<bool(const sched::End&)> {
      struct S { Bytes got[2]; int over[2] = {-1, -1}; std::shared_ptr<TcpChannel> t[2]; }; auto s = std::make_shared<S>(); auto f = net::pair(); s->t[0] = std::make_shared<TcpChannel>(f.first); s->t[1] = std::make_shared<TcpChannel>(f.second);
      auto snd = [=](int w) { size_t p = 0; for (int k : a) { Bytes x; for (int i = 0; i < k; ++i) x.push_back(byteAt(p++) ^ w); s->t[w]->Send(x.data(), k); } };
      auto rcv = [=](int w) { for (int k : b) { Bytes x(k); s->t[w]->Recv(x.data(), k); s->got[w].insert(s->got[w].end(), x.begin(), x.end()); } };
      sched::spawn("A", [=] { snd(0); if (both) rcv(0); if (over) s->t[0]->Close(); });
      sched::spawn("B", [=] { rcv(1); if (both) snd(1); if (over) { unsigned char z[2]; s->over[1] = mc::outcome_of([&] { s->t[1]->Recv(z, 1); }); } });
      return [s, &c, total, over, both, d](const sched::End& e) {
        if (e.deadlock || e.livelock || !e.errors.empty() || !e.races.empty()) c.fail("transfer/" + std::string(e.deadlock ? "deadlock" : "error"), d + ": " + e.str());
        for (int w = both ? 0 : 1; w < 2; ++w) { Bytes want = stream(total); for (auto& x : want) x ^= 1 - w; if (s->got[w] != want) c.fail("transfer/bytes", d + ": " + hex(s->got[w])); }
        if (over && s->over[1] != 1) c.fail("recv/unfilled", d + ": the receive after the end returns"); c.checked(); return c.fails.size() < 3; };
    });
    c.cases(st.executions); c.ops(st.transitions); c.count("executions", st.executions); if (!st.complete) c.capped = true; c.outcome(st.executions); c.sample(d + mc::fmt(": %llu executions", (unsigned long long)st.executions));
  }, 1 << 30, 3);
}
// typed values over fragmenting sockets
MC_SECTION(typed, 4, 4) {
  c.explore([&](mc::Chooser& ch) {
    using F = scl::FF<61>; using V = scl::Vec<F>; using M = scl::Mat<F>; std::vector<int> ks; int n = ch.range(1, c.q(3, 4)); for (int i = 0; i < n; ++i) ks.push_back(ch.choose(6)); int frag = ch.choose(4);
    net::reset(); auto f = net::pair(); TcpChannel A0(f.first), B0(f.second); scl::Channel& A = A0; scl::Channel& B = B0; int calls = 0; net::script([&](int, bool, size_t k) -> int { ++calls; return frag == 0 ? INT_MIN : frag == 1 ? 1 : frag == 2 ? (int)(k + 1) / 2 : (int)std::min<size_t>(k, 1 + calls % 7); });
    std::string d = mc::fmt("fragmentation %d, kinds", frag); for (int k : ks) d += mc::fmt(" %d", k); c.note(d); c.ops(n); c.one();
    auto vec = [&](int i, size_t m) { std::vector<F> x; for (size_t j = 0; j < m; ++j) x.push_back(F(1000 * i + (int)j + 1)); return x; };
    for (int i = 0; i < n; ++i) switch (ks[i]) { case 0: A.Send((int)(i * 77 + 1)); break; case 1: A.Send(std::vector<uint16_t>{1, 2, (uint16_t)i}); break; case 2: A.Send(V(vec(i, 3))); break; case 3: A.Send(M::FromVector(2, 3, vec(i, 6))); break; case 4: A.Send(V(vec(i, 20))); break; default: A.Send(F(i + 5)); }
    for (int i = 0; i < n; ++i) { bool ok = true; switch (ks[i]) {
      case 0: { int x = 0; B.Recv(x); ok = x == i * 77 + 1; break; } case 1: { std::vector<uint16_t> x(3); B.Recv(x); ok = x == std::vector<uint16_t>{1, 2, (uint16_t)i}; break; } case 2: { V x; B.Recv(x); ok = x.Equals(V(vec(i, 3))); break; } case 3: { M x(1, 1); B.Recv(x); ok = x.Rows() == 2 && x.Cols() == 3 && x.Equals(M::FromVector(2, 3, vec(i, 6))); break; } case 4: { V x; B.Recv(x); ok = x.Equals(V(vec(i, 20))); break; } default: { F x; B.Recv(x); ok = x == F(i + 5); } }
      if (!ok) return c.fail("typed/value", d + mc::fmt(": message %d differs", i)); }
    if (net::pending(f.second)) c.fail("typed/left", d); net::script(nullptr); c.outcome(calls);
  });
}
// messages around and beyond 64 KiB, cut by several patterns of partial transfers, in one and in several calls
MC_SECTION(large, 4, 8) {
  auto at = [](size_t i) { return (unsigned char)((i * 2654435761u) >> 13 ^ i >> 16); };
  static const size_t S[] = {255, 256, 257, 4096, 32767, 32768, 65535, 65536, 65537, 70001, 131072, 131073, 200003, 1000003}; static const char* PN[] = {"whole", "half", "all but one", "4096", "1448", "65536", "one then the rest", "growing"};
  c.explore([&](mc::Chooser& ch) {
    size_t n = S[ch.choose(c.q(13, 14))]; int pat = ch.choose(8), dir = ch.choose(2), parts = 1 + ch.choose(3); std::string d = mc::fmt("%s of %zu bytes in %d calls, transfers: %s", dir ? "receive" : "send", n, parts, PN[pat]); c.note(d); c.one(); c.ops(parts);
    net::reset(); auto f = net::pair(); size_t calls = 0; bool on = false;
    net::script([&](int, bool w, size_t m) -> int { if (!on || w == (bool)dir) return INT_MIN; ++calls; size_t k = m; switch (pat) { case 1: k = (m + 1) / 2; break; case 2: k = m > 1 ? m - 1 : 1; if (calls > 64) k = m; break; case 3: k = 4096; break; case 4: k = 1448; break; case 5: k = 65536; break; case 6: k = calls == 1 ? 1 : m; break; case 7: k = calls * calls; break; } return (int)std::min(k, m); });
    Bytes want(n), got(n + 16, 0xEE); for (size_t i = 0; i < n; ++i) want[i] = at(i);
    { TcpChannel t(f.first); size_t q = n / parts; std::string msg;
      if (dir) { for (size_t o = 0; o < n;) { int k = rawWrite(f.second, want.data() + o, n - o); if (k <= 0) throw std::runtime_error("harness: write"); o += k; } on = true; int rc = mc::outcome_of([&] { size_t o = 0; for (int i = 0; i < parts; ++i) { size_t k = i + 1 == parts ? n - o : q; t.Recv(got.data() + 8 + o, k); o += k; } }, &msg); if (rc) return c.fail("recv/spurious", d + ": " + msg);
        for (int j = 0; j < 8; ++j) if (got[j] != 0xEE || got[8 + n + j] != 0xEE) return c.fail("recv/outside", d); if (!std::equal(want.begin(), want.end(), got.begin() + 8)) return c.fail("recv/bytes", d); }
      else { on = true; int rc = mc::outcome_of([&] { size_t o = 0; for (int i = 0; i < parts; ++i) { size_t k = i + 1 == parts ? n - o : q; t.Send(want.data() + o, k); o += k; } }, &msg); on = false; if (rc) return c.fail("send/spurious", d + ": " + msg); Bytes r = net::drain(f.second); if (r != want) return c.fail("send/bytes", d + mc::fmt(": the peer sees %zu bytes", r.size())); }
      on = false; if (net::pending(f.first) || net::pending(f.second)) return c.fail("large/left", d); }
    net::script(nullptr); c.outcome(mc::mix(n, calls)); c.sample(d);
  }, 1 << 30, 2);
}

// lengths beyond 31 and 32 bits: the socket layer records where each piece comes from or goes to instead of copying it, so that
// gigabytes cost nothing; the pieces must tile the buffer in order. A call moves at most 0x7ffff000 bytes, as on Linux.
MC_SECTION(huge, 2, 2) {
  const uint64_t G = 1ull << 30; static const std::vector<uint64_t> S{2 * G - 4097, 2 * G - 1, 2 * G, 2 * G + 1, 3 * G + 17, 4 * G - 1, 4 * G, 4 * G + 1, 4 * G + 5000, 5 * G + 3, 8 * G + 2}; static const std::vector<uint64_t> P{0x7ffff000, G, G - 1, 0x7fffefff, 3 * (G >> 2) + 5};
  const size_t total = 9 * G; auto* base = (unsigned char*)mmap(nullptr, total, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (base == MAP_FAILED) throw std::runtime_error("harness: mmap");
  c.explore([&](mc::Chooser& ch) {
    uint64_t n = S[ch.choose((int)S.size())], cap = P[ch.choose((int)P.size())]; int dir = ch.choose(2), first = ch.choose(2), fault = ch.choose(4); std::string d = mc::fmt("%s of %llu bytes, at most %llu per call%s%s", dir ? "receive" : "send", (unsigned long long)n, (unsigned long long)cap, first ? ", the first call moves one byte" : "", fault == 1 ? ", failing at the third call" : fault == 2 ? ", the peer closing at the third call" : ""); if (fault == 3) { fault = 0; d += ", twice"; }
    bool twice = d.back() == 'e'; c.note(d); c.one(); c.ops(1 + twice); net::reset(); auto f = net::pair(); uint64_t pos = 0; size_t calls = 0; bool bad = false, gone = false;
    net::raw([&](int, bool w, const void* p, size_t m) -> ssize_t {
      ++calls; if (w == (bool)dir || p != base + 32 + pos || pos + m > n) { bad = true; errno = EIO; return -1; }
      if (calls == 3 && fault) { gone = true; if (fault == 1 || !dir) { errno = fault == 1 ? ECONNRESET : EPIPE; return -1; } return 0; }
      uint64_t k = std::min<uint64_t>(m, first && calls == 1 ? 1 : cap); pos += k; return (ssize_t)k; });
    { TcpChannel t(f.first); for (int r = 0; r <= twice; ++r) { pos = 0; std::string msg; int rc = mc::outcome_of([&] { if (dir) t.Recv(base + 32, n); else t.Send(base + 32, n); }, &msg);
        if (bad) return c.fail(dir ? "recv/huge-pieces" : "send/huge-pieces", d + mc::fmt(": call %zu leaves the buffer or skips a piece", calls)); if (rc == 2) return c.fail("huge/throws-other", d);
        if (rc && !gone) return c.fail(dir ? "recv/huge-spurious" : "send/huge-spurious", d + ": " + msg); if (!rc && gone) return c.fail("huge/error-ignored", d); if (!rc && pos != n) return c.fail(dir ? "recv/huge-short" : "send/huge-short", d + mc::fmt(": returned after %llu bytes", (unsigned long long)pos)); c.checked(); c.outcome(mc::mix(rc, mc::mix(n, calls))); }
      net::raw(nullptr); }
    c.sample(d);
  });
  munmap(base, total);
}
