// C24 (and the accept side of C27): Network::Create of all parties over virtual sockets, every order of starting, listening, connecting, accepting.
#include <arpa/inet.h>
#include <sys/socket.h>
#include <unistd.h>
#include <algorithm>
#include <memory>
#include "mc.h"
#include "sched.h"
#include "scl/net/config.h"
#include "scl/net/network.h"
using scl::Network; using scl::NetworkConfig;
namespace {
struct Shape { int n; int layout; std::vector<int> order; int start = 0; };   // layout 0: one host, ports differ; 1: hosts differ, same port; 2: one host, list order permuted
NetworkConfig config(const Shape& s, int id) {
  if (s.layout == 0) return NetworkConfig::Localhost(id, s.n, 5000);
  std::vector<scl::Party> p; for (int i = 0; i < s.n; ++i) { int k = s.layout == 2 ? s.order[i] : i; if (s.layout == 1) p.push_back({(unsigned)k, mc::fmt("10.0.0.%d", k + 1), 6000}); else p.push_back({(unsigned)k, "127.0.0.1", 7000 + (k * 3) % 101}); } return NetworkConfig(id, p);
}
std::string host(const Shape& s, int id) { return s.layout == 1 ? mc::fmt("10.0.0.%d", id + 1) : "127.0.0.1"; }
struct S { std::vector<Network> net; std::vector<int> rc; std::vector<std::string> msg; std::vector<std::string> bad; std::vector<char> fin; S(int n) : net(n), rc(n, -1), msg(n), bad(n), fin(n) {} };
// every party talks to every party (and itself) over its channels and must hear the right one
void talk(S* s, int n, int i) {
  for (int j = 0; j < n; ++j) { s->net[i].Party(j)->Send((unsigned)(i * 1000 + j)); }
  for (int j = 0; j < n; ++j) { unsigned g = 9999; s->net[i].Party(j)->Recv(g); if (g != (unsigned)(j * 1000 + i)) s->bad[i] += mc::fmt(" channel %d of party %d delivers %u", j, i, g); }
}
void finish(mc::Ctx& c, const std::string& d, S* s, int n, const sched::End& e, bool talked, const std::string& k) {
  c.checked();
  for (auto& x : e.errors) if (x.find("on a closed descriptor") == std::string::npos || !talked) { c.fail(k + "/error", d + ": " + e.str()); return; }
  if (!e.races.empty()) { c.fail(k + "/race", d + ": " + e.str()); return; }
  if (e.deadlock || e.livelock) { c.fail(k + "/never-ends", d + ": " + e.str()); return; }
  for (int i = 0; i < n; ++i) { if (s->rc[i]) { c.fail(k + "/throws", d + mc::fmt(": party %d: ", i) + s->msg[i]); return; } if (!s->bad[i].empty()) { c.fail(k + "/misconnected", d + ":" + s->bad[i]); return; } }
  if (sched::net::open_listeners()) c.fail(k + "/listener-left", d);
  if (!talked) {   // the networks are quiet now: talk in a fixed order
    for (int i = 0; i < n; ++i) if ((int)s->net[i].Size() != n) { c.fail(k + "/size", d); return; }
    int rc = 0; std::string msg; for (int i = 0; i < n && !rc; ++i) rc = mc::outcome_of([&] { for (int j = 0; j < n; ++j) s->net[i].Party(j)->Send((unsigned)(i * 1000 + j)); }, &msg);
    for (int i = 0; i < n && !rc; ++i) for (int j = 0; j < n && !rc; ++j) { unsigned g = 9999; rc = mc::outcome_of([&] { s->net[i].Party(j)->Recv(g); }, &msg); if (!rc && g != (unsigned)(j * 1000 + i)) { c.fail(k + "/misconnected", d + mc::fmt(": channel %d of party %d delivers %u", j, i, g)); return; } }
    if (rc) { c.fail(k + "/misconnected", d + ": " + msg); return; }
    int n0 = sched::net::open_fds(); if (n0 != n * (n - 1)) c.fail(k + "/descriptors", d + mc::fmt(": %d descriptors are open", n0));
    for (auto& x : s->net) x.Close(); if (sched::net::open_fds()) c.fail(k + "/descriptors", d + ": descriptors stay open after Close");
  }
}
void create(mc::Ctx& c, const Shape& sh, const sched::Opts& o, unsigned threaded = 0) {
  std::string d = mc::fmt("%d parties, layout %d", sh.n, sh.layout); if (sh.layout == 2) { d += " listed"; for (int x : sh.order) d += mc::fmt(" %d", x); } if (threaded) d += mc::fmt(", threaded senders at %x", threaded); if (!o.dpor) d += mc::fmt(", at most %d preemptions", o.preempt); c.note(d);
  auto st = sched::explore(o, [&]() -> std::function<bool(const sched::End&)> {
    int n = sh.n; auto s = std::make_shared<S>(n);
    for (int k = 0; k < n; ++k) { int i = sh.start == 0 ? k : sh.start == 1 ? n - 1 - k : sh.start == 2 ? (k + n / 2) % n : k % 2 ? k / 2 : n - 1 - k / 2; auto cfg = config(sh, i); S* q = s.get(); bool th = threaded >> i & 1, talks = threaded; sched::spawn(mc::fmt("P%d", i), [q, n, i, cfg, th, talks] { q->rc[i] = mc::outcome_of([&] { q->net[i] = th ? Network::CreateThreadedSenders(cfg) : Network::Create(cfg); if (talks) { talk(q, n, i); sched::op("done", {{q, 'W'}}); q->fin[i] = 1; sched::op("all done", {{q, 'W'}}, [q, n] { for (int j = 0; j < n; ++j) if (!q->fin[j]) return false; return true; }); q->net[i].Close(); q->net[i] = Network(); } }, &q->msg[i]); }, host(sh, i)); }
    return [s, &c, d, n, threaded](const sched::End& e) { finish(c, d, s.get(), n, e, threaded, threaded ? "threaded" : "create"); return c.fails.size() < 3; };
  });
  c.cases(st.executions); c.ops(st.transitions); c.count("interleavings", st.executions); c.count("redundant (sleep-set blocked) executions", st.redundant); if (!st.complete && o.maxExec > 8) c.capped = true; c.outcome(st.executions);
  c.sample(d + mc::fmt(": %llu interleavings, %llu transitions", (unsigned long long)st.executions, (unsigned long long)st.transitions));
}
}
#ifndef ACCEPT
MC_SECTION(create2, 1, 1) { c.explore([&](mc::Chooser& ch) { Shape s; s.n = ch.range(1, 2); s.layout = ch.choose(3); s.order = {0, 1}; if (s.layout == 2) { if (s.n == 1) throw mc::Prune{}; s.order = {1, 0}; } create(c, s, {}); }); }
MC_SECTION(create3, 8, 8) { c.explore([&](mc::Chooser& ch) { Shape s; s.n = 3; int k = ch.choose(8); s.order = {0, 1, 2}; s.layout = k < 2 ? k : 2; for (int i = 2; i < k; ++i) std::next_permutation(s.order.begin(), s.order.end()); if (k == 2) throw mc::Prune{}; create(c, s, {}); }); }
MC_SECTION(create4, 4, 4) { c.explore([&](mc::Chooser& ch) { Shape s; s.n = 4; s.layout = ch.choose(3); s.order = {2, 0, 3, 1}; if (s.layout == 2 && ch.flag()) s.order = {3, 2, 1, 0}; create(c, s, {}); }, 1 << 30, 2); }
MC_SECTION(create5, 1, 1, true) { Shape s; s.n = 5; s.layout = 0; create(c, s, {}); }
// More parties, each setting under the first schedule of the exploration only: every pattern of listing and starting them, of threaded senders.
MC_SECTION(many, 8, 8) {
  std::vector<int> N{5, 6, 8, 9, 10, 11, 12, 17}; if (c.thorough) for (int n : {7, 13, 16, 20, 33, 40}) N.push_back(n);
  c.explore([&](mc::Chooser& ch) { Shape s; s.n = ch.of(N); int lay = ch.choose(5); s.layout = std::min(lay, 2); for (int i = 0; i < s.n; ++i) s.order.push_back(lay == 2 ? s.n - 1 - i : lay == 3 ? (i + s.n / 2) % s.n : i % 2 ? i / 2 : s.n - 1 - i / 2); s.start = ch.choose(4); int th = ch.choose(3); if (th && s.n > 17) throw mc::Prune{}; sched::Opts o; o.maxExec = c.q(1, 4); create(c, s, o, th == 0 ? 0 : th == 1 ? 0xffffffffu : 0x55555555u); }, 1 << 30, 3);
}
// reduced and unreduced exploration agree
MC_SECTION(unreduced, 1, 1) { Shape s; s.n = 2; s.layout = 0; sched::Opts o; o.dpor = false; create(c, s, o); }
#else
// C27: peers that announce wrong identities, or none, while party 0 of 2 or 3 (or 1 of 3) creates its network
MC_SECTION(announce, 8, 8) {
  c.explore([&](mc::Chooser& ch) {
    int n = ch.range(2, 3), me = n == 3 ? ch.choose(2) : 0; bool thr = ch.flag(); static const std::vector<unsigned> far{7, 255, 65536, 0x7fffffff, 0x80000000u, 0xffffffffu};
    struct A { unsigned id; int bytes; }; std::vector<A> at; int k = ch.range(1, c.q(2, 3)); if (!c.thorough && thr && k > 1 && n > 2) throw mc::Prune{}; std::string d = mc::fmt("party %d of %d%s; strangers:", me, n, thr ? " (threaded senders)" : "");
    for (int i = 0; i < k; ++i) { int x = ch.choose(n + 1 + (int)far.size() + 3); A a{0, 4}; if (x <= n) a.id = x; else if (x <= n + (int)far.size()) a.id = far[x - n - 1]; else a.bytes = (x - n - (int)far.size() - 1) * 2 - (x == n + (int)far.size() + 3); at.push_back(a); d += a.bytes == 4 ? mc::fmt(" %u", a.id) : mc::fmt(" closes after %d bytes", a.bytes); }
    c.note(d); bool seq = k > 1;   // several strangers come one after the other, the real parties at any time
    auto st = sched::explore({}, [&]() -> std::function<bool(const sched::End&)> {
      struct T { Network net; int rc = -1; std::string msg; std::vector<int> fds; }; auto s = std::make_shared<T>(); T* q = s.get(); Shape sh{n, 0, {}};
      sched::spawn("victim", [q, sh, me, thr] { q->rc = mc::outcome_of([&] { q->net = thr ? Network::CreateThreadedSenders(config(sh, me)) : Network::Create(config(sh, me)); }, &q->msg); });
      auto dial = [q](int port, const void* p, size_t len, bool keep) { int fd = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(port); inet_pton(AF_INET, "127.0.0.1", &a.sin_addr); while (::connect(fd, (sockaddr*)&a, sizeof a) < 0) ::usleep(1); if (len) ::send(fd, p, len, MSG_NOSIGNAL); if (!keep) ::close(fd); return fd; };
      auto stranger = [=](A a) { dial(5000 + me, &a.id, a.bytes, a.bytes == 4); };
      if (seq) sched::spawn("strangers", [=] { for (auto& a : at) stranger(a); }); else sched::spawn("stranger", [=] { stranger(at[0]); });
      for (int i = me + 1; i < n; ++i) { unsigned id = i; sched::spawn(mc::fmt("P%d", i), [=] { int fd = dial(5000 + me, &id, 4, true); unsigned tag = 500 + id; ::send(fd, &tag, 4, MSG_NOSIGNAL); }); }
      if (me == 1) sched::spawn("P0", [=] { int l = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(5000); ::bind(l, (sockaddr*)&a, sizeof a); ::listen(l, 4); int fd = ::accept(l, nullptr, nullptr); unsigned id; ::read(fd, &id, 4); unsigned tag = 500; ::send(fd, &tag, 4, MSG_NOSIGNAL); ::close(l); });
      return [=, &c](const sched::End& e) {
        c.checked(); for (auto& x : e.errors) { c.fail(x.find("uncaught") != std::string::npos ? "announce/terminates" : "announce/error", d + ": " + e.str()); return c.fails.size() < 3; }
        if (!e.races.empty()) c.fail("announce/race", d + ": " + e.str());
        bool imp = false; for (auto& a : at) imp = imp || (a.bytes == 4 && (int)a.id > me && (int)a.id < n);
        for (auto& b : e.blocked) if (b.find("victim in") == 0 || (b[0] == 'P' && !imp)) { c.fail("announce/never-ends", d + ": " + e.str()); return c.fails.size() < 3; }   // late strangers and background senders may stay
        if (thr) new std::shared_ptr<T>(s);
        if (s->rc == 2) c.fail("announce/throws-other", d);
        if (s->rc == 0) {   // who is connected announced that identity

          if ((int)s->net.Size() != n) c.fail("announce/size", d);
          for (int j = 0; j < n; ++j) if (!s->net.Party(j)) c.fail("announce/missing", d + mc::fmt(": no channel to %d", j)); else if (j != me && !imp) { unsigned t = 0; int rc = mc::outcome_of([&] { s->net.Party(j)->Recv(t); }); if (rc || t != 500u + j) c.fail("announce/wrong-peer", d + mc::fmt(": channel %d delivers %u", j, t)); }
          unsigned v = 3; s->net.Party(me)->Send(v); unsigned w = 0; s->net.Party(me)->Recv(w); if (w != 3) c.fail("announce/self", d);
        }
        return c.fails.size() < 3; };
    });
    c.cases(st.executions); c.ops(st.transitions); c.count("interleavings", st.executions); if (!st.complete) c.capped = true; c.outcome(st.executions); c.sample(d);
  }, 1 << 30, 3);
}
#endif
