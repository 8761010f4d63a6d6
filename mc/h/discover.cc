// C25: the discovery server and all its clients over virtual sockets, every order of starting, connecting, announcing.
#include <arpa/inet.h>
#include <sys/socket.h>
#include <unistd.h>
#include <algorithm>
#include <climits>
#include <memory>
#include "mc.h"
#include "sched.h"
#include "scl/net/config.h"
#include "scl/net/discovery/client.h"
#include "scl/net/discovery/server.h"
#include "scl/net/network.h"
#include "scl/net/tcp_channel.h"
using scl::NetworkConfig; using scl::DiscoveryServer; using scl::DiscoveryClient; namespace net = sched::net;
namespace {
typedef std::vector<unsigned> Ids;
struct Out { int rc = -1; std::string msg; bool has = false; NetworkConfig cfg; std::vector<scl::Party> parties; };
std::string str(const NetworkConfig& c) { return c.ToString(); }
bool same(const std::vector<scl::Party>& a, const std::vector<scl::Party>& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (a[i].id != b[i].id || a[i].port != b[i].port || a[i].hostname != b[i].hostname) return false; return true; }
struct T { Out srv; std::vector<Out> cl; int turn = 0; T(int k) : cl(k) {} };
const int PORTS[] = {0, 65535, -1, INT_MAX, 1, INT_MIN};
// what participants p (announced identity and port) must have agreed on
std::string agreed(const Out& o, unsigned id, const std::vector<scl::Party>& want, bool hosts) {
  if (o.cfg.Id() != id) return mc::fmt("it has identity %u", o.cfg.Id());
  if (o.cfg.NetworkSize() != want.size() || o.cfg.Parties().size() != want.size()) return mc::fmt("%zu parties", o.cfg.NetworkSize());
  std::vector<char> seen(want.size());
  for (auto& p : o.cfg.Parties()) { if (p.id >= want.size() || seen[p.id]) return "identities do not match in " + str(o.cfg); seen[p.id] = 1; if (p.port != want[p.id].port) return "wrong port in " + str(o.cfg); if (hosts && p.hostname != want[p.id].hostname) return "wrong host in " + str(o.cfg); }
  return "";
}
struct Setup { unsigned n, server; Ids ids; int extra = 0; bool defaultPort = false; };   // ids announced by the clients
void run(mc::Ctx& c, const Setup& u, const sched::Opts& o, const std::string& sec) {
  std::string d = mc::fmt("%u parties, server %u, clients announce", u.n, u.server); for (auto x : u.ids) d += mc::fmt(" %u", x); if (o.frag) d += ", short transfers"; c.note(d);
  std::vector<char> taken(u.n); bool good = u.server < u.n; if (good) taken[u.server] = 1; for (auto x : u.ids) if (x >= u.n || taken[x]) good = false; else taken[x] = 1;
  std::vector<scl::Party> want(u.n); if (good) { want[u.server] = {u.server, "127.0.0.1", 3300}; for (size_t i = 0; i < u.ids.size(); ++i) want[u.ids[i]] = {u.ids[i], "127.0.0.1", PORTS[i % 6]}; }
  auto st = sched::explore(o, [&]() -> std::function<bool(const sched::End&)> {
    auto s = std::make_shared<T>((int)u.ids.size()); T* q = s.get();
    sched::spawn("server", [q, u] { q->srv.rc = mc::outcome_of([&] { if (u.defaultPort) { DiscoveryServer v(u.n); q->srv.cfg = v.Run(scl::Party{u.server, "127.0.0.1", 3300}); } else { DiscoveryServer v(7100, u.n); q->srv.cfg = v.Run(scl::Party{u.server, "127.0.0.1", 3300}); } }, &q->srv.msg); });
    for (size_t i = 0; i < u.ids.size(); ++i) sched::spawn(mc::fmt("client%zu", i), [q, u, i] { Out& r = q->cl[i]; r.rc = mc::outcome_of([&] { if (u.defaultPort) { DiscoveryClient v("127.0.0.1"); r.cfg = v.Run(u.ids[i], PORTS[i % 6]); } else { DiscoveryClient v("127.0.0.1", 7100); r.cfg = v.Run(u.ids[i], PORTS[i % 6]); } }, &r.msg); });
    return [&, s, d](const sched::End& e) {
      c.checked(); auto more = [&] { return c.fails.size() < 3; };
      if (!e.errors.empty()) { c.fail(sec + "/error", d + ": " + e.str()); return more(); }
      if (!e.races.empty()) { c.fail(sec + "/race", d + ": " + e.str()); return more(); }
      if (e.deadlock || e.livelock) { new std::shared_ptr<T>(s); bool late = !good && u.server >= u.n; for (auto& b : e.blocked) if (b.find("client") != 0) late = false; if (!late) { c.fail(sec + "/never-ends", d + ": " + e.str()); return more(); } if (s->srv.rc == 0) c.fail(sec + "/accepted", d); return more(); }   // nobody serves clients of a server that refused to start
      if (good) {
        if (s->srv.rc) { c.fail(sec + "/server-fails", d + ": " + s->srv.msg); return more(); }
        std::string x = agreed(s->srv, u.server, want, true); if (!x.empty()) { c.fail(sec + "/wrong-config", d + ": the server: " + x); return more(); }
        for (size_t i = 0; i < u.ids.size(); ++i) { Out& r = s->cl[i]; if (r.rc) { c.fail(sec + "/client-fails", d + ": " + r.msg); return more(); } x = agreed(r, u.ids[i], want, true); if (!x.empty()) { c.fail(sec + "/wrong-config", d + mc::fmt(": client %zu: ", i) + x); return more(); } if (!same(r.cfg.Parties(), s->srv.cfg.Parties())) { c.fail(sec + "/differs", d + ": " + str(r.cfg) + " and " + str(s->srv.cfg)); return more(); } }
      } else {
        if (s->srv.rc == 0) { c.fail(sec + "/accepted", d + ": the server has " + str(s->srv.cfg)); return more(); }
        for (size_t i = 0; i < u.ids.size(); ++i) if (s->cl[i].rc == 0) { c.fail(sec + "/client-accepted", d + mc::fmt(": client %zu has ", i) + str(s->cl[i].cfg)); return more(); }
        if (s->srv.rc == 2) { c.fail(sec + "/throws-other", d); return more(); }
      }
      if (net::open_listeners()) c.fail(sec + "/listener-left", d); else if (net::open_fds()) c.fail(sec + "/descriptors", d + mc::fmt(": %d descriptors stay open", net::open_fds()));
      return more(); };
  });
  c.cases(st.executions); c.ops(st.transitions); c.count("interleavings", st.executions); if (!st.complete && o.maxExec > 8) c.capped = true; c.outcome(mc::mix(st.executions, st.transitions)); c.sample(d + mc::fmt(": %llu interleavings", (unsigned long long)st.executions));
}
}
// every server and every assignment of the other identities to the clients
MC_SECTION(valid, 8, 8) {
  c.explore([&](mc::Chooser& ch) {
    Setup u; u.n = ch.range(1, 4); u.server = ch.choose(u.n); for (unsigned i = 0; i < u.n; ++i) if (i != u.server) u.ids.push_back(i); int p = 1; for (size_t i = 2; i <= u.ids.size(); ++i) p *= i; p = ch.choose(p); while (p--) std::next_permutation(u.ids.begin(), u.ids.end());
    if (u.n == 4 && !c.thorough && !std::is_sorted(u.ids.begin(), u.ids.end()) && !std::is_sorted(u.ids.rbegin(), u.ids.rend())) throw mc::Prune{};
    u.defaultPort = u.n == 3 && u.server == 1; run(c, u, {}, "valid");
  }, 1 << 30, 3);
}
// announcements that are out of range or already taken
MC_SECTION(invalid, 8, 8) {
  c.explore([&](mc::Chooser& ch) {
    Setup u; u.n = ch.range(1, c.q(3, 4)); int sv = ch.choose(u.n + 2); u.server = sv == (int)u.n + 1 ? 0xffffffffu : sv; static const Ids far{255, 0x7fffffff, 0x80000000u, 0xffffffffu}; bool good = u.server < u.n; std::vector<char> taken(u.n); if (good) taken[u.server] = 1;
    for (unsigned i = 1; i < u.n; ++i) { unsigned x = ch.choose(u.n + 2 + (u.n <= 3 ? far.size() : 1)); if (x > u.n + 1) x = far[x - u.n - 2]; if (x >= u.n || taken[x]) good = false; else taken[x] = 1; u.ids.push_back(x); }
    if (good || (u.server >= u.n && !u.ids.empty() && u.ids[0])) throw mc::Prune{}; if (u.server >= u.n) u.ids.clear(); sched::Opts o; o.maxSeconds = 5; run(c, u, o, "invalid");
  }, 1 << 30, 3);
}
// transfers are split
MC_SECTION(split, 4, 4) { c.explore([&](mc::Chooser& ch) { Setup u; u.n = 2; u.server = ch.choose(2); u.ids = {ch.flag() ? 1 - u.server : u.server}; sched::Opts o; o.frag = 1; o.fragMax = c.q(3, 5); run(c, u, o, "split"); }, 1 << 30, 2); }
// a client that leaves after k bytes of its announcement, next to proper ones: nobody waits forever, nobody gets anything wrong
MC_SECTION(leave, 8, 8) {
  c.explore([&](mc::Chooser& ch) {
    unsigned n = ch.range(2, 3), sv = ch.choose(n); int k = ch.choose(9); Ids ids; for (unsigned i = 0; i < n; ++i) if (i != sv) ids.push_back(i); if (n == 3 && ch.flag()) std::swap(ids[0], ids[1]);
    std::string d = mc::fmt("%u parties, server %u, client %u leaves after %d bytes", n, sv, ids[0], k); c.note(d); std::vector<scl::Party> want(n); for (unsigned i = 0; i < n; ++i) want[i] = {i, "127.0.0.1", 3300 + (int)i};
    auto st = sched::explore({}, [&]() -> std::function<bool(const sched::End&)> {
      auto s = std::make_shared<T>((int)ids.size()); T* q = s.get();
      sched::spawn("server", [q, n, sv] { q->srv.rc = mc::outcome_of([&] { DiscoveryServer v(7100, n); q->srv.cfg = v.Run(scl::Party{sv, "127.0.0.1", 3300 + (int)sv}); }, &q->srv.msg); });
      sched::spawn("leaver", [ids, k] { int fd = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(7100); inet_pton(AF_INET, "127.0.0.1", &a.sin_addr); while (::connect(fd, (sockaddr*)&a, sizeof a) < 0) ::usleep(1); char b[8]; unsigned id = ids[0]; int port = 3300 + id; memcpy(b, &id, 4); memcpy(b + 4, &port, 4); if (k) ::send(fd, b, k, MSG_NOSIGNAL); ::close(fd); });
      for (size_t i = 1; i < ids.size(); ++i) sched::spawn(mc::fmt("client%zu", i), [q, ids, i] { q->cl[i].rc = mc::outcome_of([&] { DiscoveryClient v("127.0.0.1", 7100); q->cl[i].cfg = v.Run(ids[i], 3300 + ids[i]); }, &q->cl[i].msg); });
      return [&, s, d](const sched::End& e) {
        c.checked(); auto more = [&] { return c.fails.size() < 3; };
        if (!e.errors.empty()) { c.fail("leave/error", d + ": " + e.str()); return more(); }
        if (!e.races.empty()) { c.fail("leave/race", d + ": " + e.str()); return more(); }
        if (e.deadlock || e.livelock) { new std::shared_ptr<T>(s); for (auto& b : e.blocked) if (b.find("server") == 0) { c.fail("leave/never-ends", d + ": " + e.str()); return more(); } c.fail("leave/client-never-ends", d + ": " + e.str()); return more(); }
        if (s->srv.rc == 2) c.fail("leave/throws-other", d);
        if (s->srv.rc == 0 && k < 8) c.fail("leave/accepted", d);
        if (s->srv.rc == 0) { auto x = agreed(s->srv, sv, want, true); if (!x.empty()) c.fail("leave/wrong-config", d + ": " + x); }
        for (size_t i = 1; i < ids.size(); ++i) if (s->cl[i].rc == 0) { if (k < 8) c.fail("leave/client-accepted", d); auto x = agreed(s->cl[i], ids[i], want, true); if (!x.empty()) c.fail("leave/wrong-config", d + ": " + x); }
        if (net::open_listeners()) c.fail("leave/listener-left", d); else if (net::open_fds()) c.fail("leave/descriptors", d + mc::fmt(": %d descriptors stay open", net::open_fds()));
        return more(); };
    });
    c.cases(st.executions); c.ops(st.transitions); c.count("interleavings", st.executions); if (!st.complete) c.capped = true; c.outcome(mc::mix(st.executions, st.transitions)); c.sample(d);
  }, 1 << 30, 3);
}
// parties on different hosts, connecting in a fixed order
MC_SECTION(hosts, 4, 8) {
  c.explore([&](mc::Chooser& ch) {
    unsigned n = ch.range(2, c.q(3, 4)), sv = ch.choose(n); Ids ids; for (unsigned i = 0; i < n; ++i) if (i != sv) ids.push_back(i); int p = 1; for (size_t i = 2; i <= ids.size(); ++i) p *= i; p = ch.choose(p); while (p--) std::next_permutation(ids.begin(), ids.end());
    auto host = [](unsigned i) { return mc::fmt("10.0.0.%u", i + 1); }; std::string d = mc::fmt("parties of %u on different hosts, server %u, connecting in the order", n, sv), key; for (auto x : ids) { d += mc::fmt(" %u", x); key += mc::fmt("-%u", x); } c.note(d);
    std::vector<scl::Party> want(n), odd(n); for (unsigned i = 0, k = 0; i < n; ++i) { want[i] = {i, host(i), 3300 + (int)i}; odd[i] = {i, i == sv ? host(i) : host(ids[k]), 3300 + (int)i}; if (i != sv) ++k; }
    bool reported = false; auto st = sched::explore({}, [&]() -> std::function<bool(const sched::End&)> {
      auto s = std::make_shared<T>((int)ids.size()); T* q = s.get();
      sched::spawn("server", [q, n, sv, host] { q->srv.rc = mc::outcome_of([&] { DiscoveryServer v(7100, n); q->srv.cfg = v.Run(scl::Party{sv, host(sv), 3300 + (int)sv}); }, &q->srv.msg); }, host(sv));
      for (size_t i = 0; i < ids.size(); ++i) sched::spawn(mc::fmt("client%zu", i), [q, ids, i, host, sv] { q->cl[i].rc = mc::outcome_of([&] {
        int fd = ::socket(AF_INET, SOCK_STREAM, 0); sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(7100); inet_pton(AF_INET, host(sv).c_str(), &a.sin_addr);
        sched::op("my turn", {{&q->turn, 'W'}}, [q, i] { return q->turn == (int)i; }); while (::connect(fd, (sockaddr*)&a, sizeof a) < 0) ::usleep(1); sched::op("next turn", {{&q->turn, 'W'}}); q->turn = i + 1;
        std::shared_ptr<scl::Channel> ch = std::make_shared<scl::TcpChannel>(fd); DiscoveryClient::SendIdAndPort step(ids[i], 3300 + ids[i]); auto next = step.Run(ch); q->cl[i].cfg = next.Finalize(ch); }, &q->cl[i].msg); }, host(ids[i]));
      return [&, s, d](const sched::End& e) {
        c.checked(); auto more = [&] { return c.fails.size() < 3; };
        if (!e.errors.empty() || e.deadlock || e.livelock) { new std::shared_ptr<T>(s); c.fail("hosts/never-ends", d + ": " + e.str()); return more(); }
        bool good = true, byConnection = true; std::string bad;
        for (size_t i = 0; i <= ids.size(); ++i) { Out& r = i ? s->cl[i - 1] : s->srv; unsigned id = i ? ids[i - 1] : sv; if (r.rc) { c.fail("hosts/fails", d + ": " + r.msg); return more(); } auto x = agreed(r, id, want, true); if (!x.empty()) { good = false; bad = x; } if (!agreed(r, id, odd, true).empty()) byConnection = false; }
        if (!good && byConnection) { if (!reported) c.fail(mc::fmt("hosts/by-connection/%u-server-%u-order", n, sv) + key, d + ": " + bad); reported = true; return true; }
        if (!good) { c.fail("hosts/wrong-config", d + ": " + bad); return more(); }
        return more(); };
    });
    c.cases(st.executions); c.ops(st.transitions); c.count("interleavings", st.executions); if (!st.complete) c.capped = true; c.outcome(mc::mix(st.executions, st.transitions)); c.sample(d);
  }, 1 << 30, 3);
}
// discovering twice on the same port
MC_SECTION(again, 2, 2) {
  c.explore([&](mc::Chooser& ch) {
    unsigned n = ch.range(1, 2), sv = ch.choose(n); bool badFirst = ch.flag(); std::string d = mc::fmt("two discoveries of %u parties, server %u", n, sv) + (badFirst ? ", the first with a wrong identity" : ""); if (badFirst && n == 1) throw mc::Prune{}; c.note(d); std::vector<scl::Party> want(n); for (unsigned i = 0; i < n; ++i) want[i] = {i, "127.0.0.1", 3300 + (int)i};
    auto st = sched::explore({}, [&]() -> std::function<bool(const sched::End&)> {
      struct W { T a, b; W(int k) : a(k), b(k) {} }; auto s = std::make_shared<W>((int)n - 1); W* q = s.get();
      sched::spawn("server", [q, n, sv] { for (T* t : {&q->a, &q->b}) t->srv.rc = mc::outcome_of([&] { DiscoveryServer v(7100, n); t->srv.cfg = v.Run(scl::Party{sv, "127.0.0.1", 3300 + (int)sv}); }, &t->srv.msg); });
      if (n == 2) sched::spawn("client", [q, sv, badFirst] { bool first = badFirst; for (T* t : {&q->a, &q->b}) { t->cl[0].rc = mc::outcome_of([&] { DiscoveryClient v("127.0.0.1", 7100); t->cl[0].cfg = v.Run(first ? sv : 1 - sv, 3301 - sv); }, &t->cl[0].msg); first = false; } });
      return [&, s, d](const sched::End& e) {
        c.checked(); auto more = [&] { return c.fails.size() < 3; };
        if (!e.errors.empty() || e.deadlock || e.livelock) { new std::shared_ptr<W>(s); c.fail("again/never-ends", d + ": " + e.str()); return more(); }
        for (T* t : {&s->a, &s->b}) { bool bad = badFirst && t == &s->a; if ((t->srv.rc != 0) != bad) { c.fail("again/server", d + ": " + t->srv.msg); return more(); } if (!bad) { auto x = agreed(t->srv, sv, want, true); if (x.empty() && n == 2) x = t->cl[0].rc ? t->cl[0].msg : agreed(t->cl[0], 1 - sv, want, true); if (!x.empty()) { c.fail("again/wrong-config", d + ": " + x); return more(); } } }
        if (net::open_listeners() || net::open_fds()) c.fail("again/descriptors", d);
        return more(); };
    });
    c.cases(st.executions); c.ops(st.transitions); c.count("interleavings", st.executions); if (!st.complete) c.capped = true; c.outcome(mc::mix(st.executions, st.transitions)); c.sample(d);
  });
}
// More parties, each setting under the first schedule of the exploration only (who starts in which order is enumerated instead): identities of two
// digits, every pattern of announcing them, one wrong announcement at every position.
MC_SECTION(many, 8, 8) {
  std::vector<int> N{5, 6, 8, 9, 10, 11, 12, 17}; if (c.thorough) for (int n : {7, 13, 16, 20, 33, 65}) N.push_back(n);
  c.explore([&](mc::Chooser& ch) {
    Setup u; u.n = ch.of(N); int sv = ch.choose(3), ord = ch.choose(4); u.server = sv == 0 ? 0 : sv == 1 ? u.n / 2 : u.n - 1; for (unsigned i = 0; i < u.n; ++i) if (i != u.server) u.ids.push_back(i);
    auto& v = u.ids; if (ord == 1) std::reverse(v.begin(), v.end()); if (ord == 2) std::rotate(v.begin(), v.begin() + v.size() / 2, v.end()); if (ord == 3) for (size_t i = 0; i + 1 < v.size(); i += 2) std::swap(v[i], v[i + 1]);
    int flaw = ch.choose(4); if (flaw) { size_t at = ch.choose((int)std::min<size_t>(v.size(), 12)); v[at] = flaw == 1 ? u.server : flaw == 2 ? u.n + at % 2 : v[(at + 1) % v.size()]; if (u.n > 12 && at % 5) throw mc::Prune{}; }
    sched::Opts o; o.maxExec = c.q(1, 4); run(c, u, o, flaw ? "many-invalid" : "many");
  }, 1 << 30, 3);
}
// the documented number of parties and no more
MC_SECTION(limits) {
  for (uint64_t n = 1; n < 600; ++n) for (int form = 0; form < 2; ++form) { c.one(); c.checked(); int rc = mc::outcome_of([&] { if (form) { DiscoveryServer s(n); } else { DiscoveryServer s(4100, n); } }); c.outcome(mc::mix(rc, form)); if ((n <= MAX_DISCOVER_PARTIES) != (rc == 0)) c.fail("limits", mc::fmt("a server for %lu parties is %s", (unsigned long)n, rc ? "refused" : "accepted")); }
}
