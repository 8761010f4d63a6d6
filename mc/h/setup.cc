// C31: a socket call fails, or a host name is unusable, while a party creates its network, serves a discovery or takes part in one.
#include <arpa/inet.h>
#include <sys/socket.h>
#include <unistd.h>
#include <cerrno>
#include <memory>
#include "mc.h"
#include "sched.h"
#include "scl/net/config.h"
#include "scl/net/discovery/client.h"
#include "scl/net/discovery/server.h"
#include "scl/net/network.h"
using scl::Network; using scl::NetworkConfig; using scl::DiscoveryServer; using scl::DiscoveryClient; namespace net = sched::net;
namespace {
std::string ip(int i) { return mc::fmt("10.0.0.%d", i + 1); }
struct Fault { const char* call; std::vector<int> errs; };
// connect is not among them: a refused connection is tried again
const std::vector<Fault> FAULTS{{"socket", {EMFILE, ENOBUFS}}, {"setsockopt", {ENOMEM}}, {"bind", {EADDRINUSE, EACCES}}, {"listen", {EADDRINUSE}}, {"accept", {EMFILE, ECONNABORTED, EINTR}}, {"write", {ECONNRESET, EPIPE}}};
int dial(int host, int port, const void* p, size_t n) { int fd = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(port); inet_pton(AF_INET, ip(host).c_str(), &a.sin_addr); while (::connect(fd, (sockaddr*)&a, sizeof a) < 0) ::usleep(1); if (n) ::send(fd, p, n, MSG_NOSIGNAL); return fd; }
struct Inject { int call = -1, err = 0, at = 0, seen = 0; bool hit = false, on = false;   // on: all later calls fail too
  std::string victim; };
#define QUIET __attribute__((no_sanitize_thread))   // the harness's own counters, touched by whichever thread is asked
QUIET int ask(Inject* j, const char* call, const char* want, bool from) { const char* a = call; while (*a && *a == *want) ++a, ++want; if (*a != *want) return 0; int k = j->seen++; if (from ? k > j->at : j->on ? k < j->at : k != j->at) return 0; j->hit = !from; return j->err; }
void arm(std::shared_ptr<Inject> j) { net::fault([j](const char* call, const std::string& host, int) { return j->call < 0 || host != j->victim ? 0 : ask(j.get(), call, FAULTS[j->call].call, false); }); }
struct R { int rc = -1, open = -1; std::string msg; Network net; NetworkConfig cfg; };
// the verdict on the party which met the failure
bool verdict(mc::Ctx& c, const std::string& k, const std::string& d, R& r, const Inject& j, bool always, const sched::End& e, const std::function<std::string()>& good) {
  c.checked(); c.outcome(mc::mix(r.rc, mc::mix(j.hit, r.open)));
  for (auto& x : e.errors) { c.fail(k + (x.find("uncaught") != std::string::npos ? "/terminates" : "/error"), d + ": " + e.str()); return c.fails.size() < 3; }
  if (!e.races.empty()) { c.fail(k + "/race", d + ": " + e.str()); return c.fails.size() < 3; }
  if (e.livelock && e.blocked.empty()) { c.fail(k + "/never-ends", d + ": " + e.str()); return c.fails.size() < 3; }
  for (auto& b : e.blocked) if (b.find("victim") == 0 && r.rc < 0) { c.fail(k + "/never-ends", d + ": " + e.str()); return c.fails.size() < 3; }
  if (r.rc == 2) c.fail(k + "/throws-other", d); else if (r.rc == 1 && !j.hit && !always) c.fail(k + "/spurious", d + ": " + r.msg);
  else if (r.rc == 1) { if (r.open) c.fail(k + "/descriptors", d + mc::fmt(": %d descriptors stay open after the exception (", r.open) + r.msg + ")"); for (auto& b : e.blocked) if (b.find("victim") == 0) { c.fail(k + "/thread-left", d + ": " + e.str()); break; } }
  else { if (always) c.fail(k + "/accepted", d); std::string x = good(); if (!x.empty()) c.fail(k + "/incomplete", d + ": " + x); }
  return c.fails.size() < 3;
}
void account(mc::Ctx& c, const std::string& d, const sched::Stats& st) { c.cases(st.executions); c.ops(st.transitions); c.count("interleavings", st.executions); if (!st.complete) c.capped = true; c.sample(d + mc::fmt(": %llu interleavings", (unsigned long long)st.executions)); }
const char* const BADHOST[] = {"256.1.1.1", "no such host", "10.0.0", "10.0.0.1 ", "1.2.3.4.5", ""};
}
// network creation: party me of n; the parties below listen, those above connect (or never do), and one socket call fails
MC_SECTION(network, 8, 8) {
  c.explore([&](mc::Chooser& ch) {
    int n = ch.range(1, c.q(3, 4)), me = ch.choose(n); bool thr = ch.flag(), come = me + 1 < n ? ch.flag() : true; auto j0 = Inject{}; int bad = -1, badparty = 0;
    int what = ch.choose((int)FAULTS.size() + 2 + (int)FAULTS.size());   // the last: two failures
    bool two = what >= (int)FAULTS.size() + 2; if (two) what -= (int)FAULTS.size() + 2; std::string d = mc::fmt("party %d of %d%s", me, n, thr ? " (threaded senders)" : "");
    if (what < (int)FAULTS.size()) { if (n == 1) throw mc::Prune{}; j0.call = what; j0.err = ch.of(FAULTS[what].errs); j0.at = ch.choose(n); d += mc::fmt(", call %d of %s fails with %s", j0.at + 1, FAULTS[what].call, strerror(j0.err)); }
    if (two || what == (int)FAULTS.size()) { if (!me) throw mc::Prune{}; bad = two ? 0 : ch.choose(6); badparty = ch.choose(me); d += mc::fmt(", the host of party %d is \"%s\"", badparty, BADHOST[bad]); } else if (what > (int)FAULTS.size()) d += ", nothing fails";
    // nobody comes: only sensible when the failure does not need them
    if (!come) { d += ", the parties above never connect, later calls fail as well"; if (!(bad >= 0 || (what < 4 && j0.at == 0) || (what == 5 && j0.at < me && !thr))) throw mc::Prune{}; j0.on = true; }
    c.note(d); sched::Opts o; o.maxExec = 20000; o.maxSteps = 20000;
    auto st = sched::explore(o, [&]() -> std::function<bool(const sched::End&)> {
      auto r = std::make_shared<R>(); auto j = std::make_shared<Inject>(j0); j->victim = ip(me); arm(j); R* q = r.get();
      std::vector<scl::Party> ps; for (int i = 0; i < n; ++i) ps.push_back({(unsigned)i, bad >= 0 && i == badparty ? BADHOST[bad] : ip(i), 6000 + i}); NetworkConfig cfg(me, ps); int m = me;
      sched::spawn("victim", [q, cfg, thr, m] { q->rc = mc::outcome_of([&] { q->net = thr ? Network::CreateThreadedSenders(cfg) : Network::Create(cfg); }, &q->msg); q->open = net::open_fds(ip(m)); }, ip(me));
      for (int i = 0; i < me; ++i) sched::spawn(mc::fmt("P%d", i), [i] { int l = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(6000 + i); a.sin_addr.s_addr = 0; ::bind(l, (sockaddr*)&a, sizeof a); ::listen(l, 4); int fd = ::accept(l, nullptr, nullptr); unsigned id; ::read(fd, &id, 4); ::close(l); }, ip(i));
      if (come) for (int i = me + 1; i < n; ++i) sched::spawn(mc::fmt("P%d", i), [i, m] { unsigned id = i; dial(m, 6000 + m, &id, 4); }, ip(i));
      return [=, &c](const sched::End& e) { if (thr) new std::shared_ptr<R>(r); return verdict(c, "network", d, *r, *j, bad >= 0, e, [&]() -> std::string { if ((int)r->net.Size() != n) return "wrong size"; for (int i = 0; i < n; ++i) if (!r->net.Party(i)) return mc::fmt("no channel to party %d", i); if (r->open != n - 1) return mc::fmt("%d descriptors are open", r->open); return ""; }); };
    });
    account(c, d, st);
  }, 1 << 30, 3);
}
// the discovery server: one of its socket calls fails
MC_SECTION(server, 8, 8) {
  static std::vector<Fault> F = FAULTS; 
  c.explore([&](mc::Chooser& ch) {
    unsigned n = ch.range(2, c.q(3, 4)), me = ch.choose(n); Inject j0; int what = ch.choose((int)F.size() + 1); std::string d = mc::fmt("discovery of %u parties, server %u", n, me);
    if (what < (int)F.size()) { j0.call = what; j0.err = ch.of(F[what].errs); j0.at = ch.choose(what == 5 ? 4 : (int)n); d += mc::fmt(", call %d of %s fails with %s", j0.at + 1, F[what].call, strerror(j0.err)); } else d += ", nothing fails";
    c.note(d); sched::Opts o; o.maxExec = 20000; o.maxSteps = 20000;
    auto st = sched::explore(o, [&]() -> std::function<bool(const sched::End&)> {
      auto r = std::make_shared<R>(); auto j = std::make_shared<Inject>(j0); j->victim = ip(0); arm(j); R* q = r.get();
      sched::spawn("victim", [q, n, me] { q->rc = mc::outcome_of([&] { DiscoveryServer s(7100, n); q->cfg = s.Run(scl::Party{me, "10.0.0.1", 3300}); }, &q->msg); q->open = net::open_fds(ip(0)); }, ip(0));
      unsigned k = 0; for (unsigned i = 0; i < n; ++i) if (i != me) { ++k; sched::spawn(mc::fmt("C%u", i), [i] { struct { unsigned id; int port; } m{i, 4000 + (int)i}; dial(0, 7100, &m, 8); }, ip(k)); }
      return [=, &c](const sched::End& e) { return verdict(c, "server", d, *r, *j, false, e, [&]() -> std::string { if (r->cfg.NetworkSize() != n) return "wrong size"; if (r->open) return mc::fmt("%d descriptors stay open", r->open); return ""; }); };
    });
    account(c, d, st);
  }, 1 << 30, 3);
}
// a discovery client: one of its socket calls fails, the server leaves, or the host name is unusable
MC_SECTION(client, 4, 4) {
  static const std::vector<Fault> F{{"socket", {EMFILE, ENOBUFS}}, {"write", {ECONNRESET, EPIPE}}, {"read", {ECONNRESET, ETIMEDOUT}}, {"connect", {ECONNREFUSED, ETIMEDOUT, EINTR}}};
  c.explore([&](mc::Chooser& ch) {
    int what = ch.choose(6); Inject j0; int bad = -1, leave = -1, err = 0, at = 0; std::string d = "discovery client";
    if (what < 4) { err = ch.of(F[what].errs); at = ch.choose(what == 0 ? 1 : what == 1 ? 2 : what == 2 ? 10 : 3); d += mc::fmt(", %s %d fails with %s", F[what].call, at + 1, strerror(err)); } else if (what == 4) { bad = ch.choose(6); d += mc::fmt(", server host \"%s\"", BADHOST[bad]); } else { leave = ch.choose(46); d += mc::fmt(", the server sends %d bytes and leaves", leave); }
    c.note(d);
    auto st = sched::explore({}, [&]() -> std::function<bool(const sched::End&)> {
      auto r = std::make_shared<R>(); auto j = std::make_shared<Inject>(); R* q = r.get(); int w = what; j->err = err; j->at = at;
      net::fault([j, w](const char* call, const std::string& host, int) { return w > 3 || host != ip(1) ? 0 : ask(j.get(), call, F[w].call, w == 3); });
      sched::spawn("victim", [q, bad] { q->rc = mc::outcome_of([&] { DiscoveryClient v(bad >= 0 ? BADHOST[bad] : ip(0), 7100); q->cfg = v.Run(1, 4001); }, &q->msg); q->open = net::open_fds(ip(1)); }, ip(1));
      sched::spawn("S", [leave] { int l = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(7100); ::bind(l, (sockaddr*)&a, sizeof a); ::listen(l, 2); int fd = ::accept(l, nullptr, nullptr); ::close(l); unsigned char in[8]; size_t g = 0; while (g < 8) { int k = ::read(fd, in + g, 8 - g); if (k <= 0) break; g += k; }
        std::vector<unsigned char> b; auto put = [&](const void* p, size_t n) { b.insert(b.end(), (const unsigned char*)p, (const unsigned char*)p + n); }; size_t n = 2; put(&n, 8); for (unsigned i = 0; i < 2; ++i) { int port = 4000 + i; put(&i, 4); put(&port, 4); std::string h = i ? "h1" : "h"; size_t len = h.size(); put(&len, 8); put(h.data(), len); }
        ::send(fd, b.data(), leave >= 0 && (size_t)leave < b.size() ? leave : b.size(), MSG_NOSIGNAL); ::close(fd); }, ip(0));
      bool always = bad >= 0; Inject fake; fake.hit = leave >= 0 && leave < 43;
      return [=, &c](const sched::End& e) { Inject v = *j; v.hit = v.hit || fake.hit; return verdict(c, "client", d, *r, v, always || fake.hit, e, [&]() -> std::string { if (r->cfg.NetworkSize() != 2 || r->cfg.Id() != 1) return "wrong configuration"; if (r->open) return mc::fmt("%d descriptors stay open", r->open); return ""; }); };
    });
    account(c, d, st);
  }, 1 << 30, 2);
}
