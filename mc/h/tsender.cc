// C23: the threaded sender channel under every interleaving of application, background sender and peer.
#include <sys/socket.h>
#include <unistd.h>
#include <algorithm>
#include <memory>
#include "mc.h"
#include "sched.h"
#include "scl/net/config.h"
#include "scl/net/network.h"
#include "scl/net/tcp_channel.h"
#include "scl/net/threaded_sender.h"
using scl::TcpChannel; using scl::ThreadedSenderChannel; namespace net = sched::net;
namespace {
typedef std::vector<unsigned char> Bytes;
Bytes bytes(int w, size_t from, size_t n) { Bytes b; for (size_t i = 0; i < n; ++i) b.push_back((unsigned char)(w * 100 + from + i + 1)); return b; }
std::string hex(const Bytes& b) { std::string s; for (auto x : b) s += mc::fmt("%02x", x); return s; }
std::string list(const std::vector<int>& v) { std::string s; for (int x : v) s += mc::fmt(" %d", x); return s; }
int total(const std::vector<int>& v) { int t = 0; for (int x : v) t += x; return t; }
std::vector<int> compo(mc::Chooser& ch, int n) { std::vector<int> v; while (n) { int k = ch.range(1, n); v.push_back(k); n -= k; } return v; }
const char* ENDS[] = {"close", "close twice", "destroy", "close and destroy"};
void finish(std::shared_ptr<ThreadedSenderChannel>& t, int how) { if (how == 0 || how == 1 || how == 3) t->Close(); if (how == 1) t->Close(); if (how >= 2) t.reset(); }
struct S {
  std::shared_ptr<ThreadedSenderChannel> t[2]; int fd[2]; Bytes got[2]; char sent[2] = {0, 0}; char done[4] = {0, 0, 0, 0}; std::string err[4]; char eof[2] = {0, 0}; sched::Msg opened;
};
template <class F> void guarded(S* s, int i, F f) { int rc = mc::outcome_of(f, &s->err[i]); if (rc && s->err[i].empty()) s->err[i] = "?"; s->done[i] = 1; }
// one exploration; make spawns the fibers, check looks at the end
template <class M, class K> void go(mc::Ctx& c, const std::string& d, const sched::Opts& o, const char* sec, M make, K check, bool lax = false) {
  c.note(d);
  auto st = sched::explore(o, [&]() -> std::function<bool(const sched::End&)> {
    auto s = std::make_shared<S>(); auto p = net::pair(); s->fd[0] = p.first; s->fd[1] = p.second; make(s.get());
    return [&c, s, &check, d, sec, lax](const sched::End& e) {
      c.checked(); std::string k = sec; bool ok = true; auto fail = [&](const std::string& x, const std::string& y) { c.fail(k + "/" + x, d + ": " + y); ok = false; };
      if (!e.races.empty()) fail("race", e.str());
      for (auto& x : e.errors) if (!(lax && x.find("receiver: read on a closed") == 0)) fail(x.find("closed descriptor") != std::string::npos ? "closed-descriptor" : x.find("SIGPIPE") != std::string::npos ? "sigpipe" : "terminates", e.str());
      if (e.deadlock || e.livelock) { bool senderOnly = true, fine = lax; for (auto& b : e.blocked) if (b.find("receiver") == std::string::npos) fine = false; new std::shared_ptr<S>(s); if (fine) return true; for (auto& b : e.blocked) if (b.find("/t") == std::string::npos) senderOnly = false; fail(senderOnly ? "thread-left" : "never-ends", e.str()); }   // leaked: its threads never end
      if (ok) check(s.get(), fail);
      return c.fails.size() < 3; };
  });
  c.cases(st.executions); c.ops(st.transitions); c.count("interleavings", st.executions); c.count("fragmentation choices", st.choices); if (!st.complete) c.capped = true; c.outcome(mc::mix(st.executions, st.transitions));
  c.sample(d + mc::fmt(": %llu executions", (unsigned long long)st.executions));
}
void open(S* s, int i) { s->t[i] = std::make_shared<ThreadedSenderChannel>(s->fd[i]); }
}
// everything sent arrives, in order; then an acknowledgement comes back and the channel is finished
MC_SECTION(deliver, 8, 8) {
  c.explore([&](mc::Chooser& ch) {
    int n = ch.range(1, c.q(3, 4)); auto a = compo(ch, n), b = compo(ch, n); if (ch.flag()) a.insert(a.begin() + ch.choose((int)a.size() + 1), 0); int cap = ch.choose(3), how = ch.choose(4); sched::Opts o; o.frag = 1; o.pipeCap = cap; if (a.size() + b.size() > (size_t)c.q(4, 6)) throw mc::Prune{};
    go(c, "sends" + list(a) + " received as" + list(b) + mc::fmt(" socket capacity %d, ", cap) + ENDS[how], o, "deliver",
      [&](S* s) {
        sched::spawn("app", [=] { guarded(s, 0, [&] { open(s, 0); size_t p = 0; for (int k : a) { Bytes x = bytes(0, p, k); s->t[0]->Send(x.data(), k); std::fill(x.begin(), x.end(), 0); p += k; } unsigned char ack = 0; s->t[0]->Recv(&ack, 1); if (ack != 99) s->err[0] = "wrong acknowledgement"; finish(s->t[0], how); }); });
        sched::spawn("peer", [=] { guarded(s, 1, [&] { TcpChannel t(s->fd[1]); for (int k : b) { Bytes x(k); t.Recv(x.data(), k); s->got[1].insert(s->got[1].end(), x.begin(), x.end()); } unsigned char ack = 99; t.Send(&ack, 1); unsigned char z; int rc = mc::outcome_of([&] { t.Recv(&z, 1); }); s->eof[1] = rc ? 1 : 2; }); });
      },
      [&](S* s, auto fail) { for (int i = 0; i < 2; ++i) if (!s->err[i].empty()) fail("throws", s->err[i]); if (s->got[1] != bytes(0, 0, n)) fail("bytes", "the peer got " + hex(s->got[1])); if (s->eof[1] == 2) fail("extra", "the peer got another byte"); if (net::closes(s->fd[0]) != 1) fail("close-count", mc::fmt("%d", net::closes(s->fd[0]))); });
  }, 1 << 30, 3);
}
// finished at any time: a prefix arrives, everything terminates whatever the peer does
MC_SECTION(finish, 8, 8) {
  c.explore([&](mc::Chooser& ch) {
    int n = ch.range(0, c.q(3, 4)); auto a = compo(ch, n); int cap = ch.choose(3), how = ch.choose(4), peer = ch.choose(5); sched::Opts o; o.frag = c.q(0, 1); o.pipeCap = cap;
    static const char* PN[] = {"the peer reads to the end", "the peer never reads", "the peer reads one byte and closes", "the peer closes at once", "the peer sends and never reads"};
    go(c, "sends" + list(a) + mc::fmt(" socket capacity %d, ", cap) + ENDS[how] + ", " + PN[peer], o, "finish",
      [&](S* s) {
        sched::spawn("app", [=] { guarded(s, 0, [&] { open(s, 0); size_t p = 0; for (int k : a) { Bytes x = bytes(0, p, k); s->t[0]->Send(x.data(), k); p += k; } s->sent[0] = 1; finish(s->t[0], how); }); });
        if (peer != 1) sched::spawn("peer", [=] { guarded(s, 1, [&] { TcpChannel t(s->fd[1]); unsigned char z; if (peer == 4) { mc::outcome_of([&] { t.Send(&z, 1); }); new TcpChannel(t); s->fd[1] = -1; return; } if (peer == 3) { t.Close(); return; } while (!mc::outcome_of([&] { t.Recv(&z, 1); })) { s->got[1].push_back(z); if (peer == 2) break; } }); });
      },
      [&](S* s, auto fail) { for (int i = 0; i < 2; ++i) if (!s->err[i].empty()) fail("throws", s->err[i]); Bytes want = bytes(0, 0, n); if (s->got[1].size() > want.size() || !std::equal(s->got[1].begin(), s->got[1].end(), want.begin())) fail("bytes", "the peer got " + hex(s->got[1])); if (net::closes(s->fd[0]) != 1) fail("close-count", mc::fmt("%d", net::closes(s->fd[0]))); });
  }, 1 << 30, 3);
}
// sending never waits: the peer only reads after it has been told (outside the channel) that all sends returned
MC_SECTION(nowait, 2, 2) {
  c.explore([&](mc::Chooser& ch) {
    int n = ch.range(1, c.q(4, 5)); auto a = compo(ch, n); int cap = ch.range(1, 2), both = ch.flag(); sched::Opts o; o.pipeCap = cap; if (both && n > c.q(2, 3)) throw mc::Prune{};
    go(c, "sends" + list(a) + mc::fmt(" socket capacity %d, the peer reads afterwards", cap) + (both ? ", both ways" : ""), o, "nowait",
      [&](S* s) {
        auto side = [=](int w) { guarded(s, w, [&] { open(s, w); size_t p = 0; for (int k : a) { Bytes x = bytes(w, p, k); s->t[w]->Send(x.data(), k); p += k; } s->sent[w] = 1; sched::op("told", {{&s->sent[0], 'W'}}, [s, both] { return s->sent[0] && (!both || s->sent[1]); });
          if (both) { s->got[w].resize(n); s->t[w]->Recv(s->got[w].data(), n); sched::op("received", {{&s->eof[w], 'W'}}); s->eof[w] = 1; sched::op("both received", {{&s->eof[1 - w], 'W'}}, [s, w] { return (bool)s->eof[1 - w]; }); } else { unsigned char z; s->t[0]->Recv(&z, 1); } finish(s->t[w], 0); }); };
        sched::spawn("app", [=] { side(0); });
        if (both) sched::spawn("other", [=] { side(1); }); else sched::spawn("peer", [=] { guarded(s, 1, [&] { sched::op("told", {{&s->sent[0], 'W'}}, [s] { return (bool)s->sent[0]; }); TcpChannel t(s->fd[1]); s->got[1].resize(n); t.Recv(s->got[1].data(), n); unsigned char z = 1; t.Send(&z, 1); }); });
      },
      [&](S* s, auto fail) { for (int i = 0; i < 2; ++i) if (!s->err[i].empty()) fail("throws", s->err[i]); if (s->got[1] != bytes(0, 0, n)) fail("bytes", "the peer got " + hex(s->got[1])); if (both && s->got[0] != bytes(1, 0, n)) fail("bytes", "the application got " + hex(s->got[0])); });
  }, 1 << 30, 2);
}
// one thread sends, another receives, on both ends at the same time; closing while a receive is waiting ends it
MC_SECTION(duplex, 8, 8) {
  c.explore([&](mc::Chooser& ch) {
    int n = ch.range(1, c.q(2, 3)); auto a = compo(ch, n); int cap = ch.choose(2), mode = ch.choose(2); sched::Opts o; o.pipeCap = cap;
    go(c, "both ends send" + list(a) + mc::fmt(" socket capacity %d, ", cap) + (mode ? "the channel is closed around a receive" : "sending and receiving threads"), o, "duplex",
      [&](S* s) {
        if (mode) {
          sched::spawn("app", [=] { guarded(s, 0, [&] { open(s, 0); sched::op("open", {{&s->sent[0], 'W'}}); sched::release(s->opened); s->sent[0] = 1; size_t p = 0; for (int k : a) { Bytes x = bytes(0, p, k); s->t[0]->Send(x.data(), k); p += k; } s->t[0]->Close(); }); });
          sched::spawn("receiver", [=] { guarded(s, 1, [&] { sched::op("open", {{&s->sent[0], 'W'}}, [s] { return (bool)s->sent[0]; }); sched::acquire(s->opened); unsigned char z; s->eof[0] = mc::outcome_of([&] { s->t[0]->Recv(&z, 1); }); }); });
          return;
        }
        for (int w = 0; w < 2; ++w) sched::spawn(w ? "B" : "A", [=] { guarded(s, w, [&] {
          open(s, w); ThreadedSenderChannel* t = s->t[w].get(); pthread_t th; struct R { S* s; int w, n; ThreadedSenderChannel* t; } r{s, w, n, t};
          pthread_create(&th, nullptr, [](void* v) -> void* { R* r = (R*)v; r->s->got[r->w].resize(r->n); std::string m; if (mc::outcome_of([&] { r->t->Recv(r->s->got[r->w].data(), r->n); }, &m)) r->s->err[2 + r->w] = m + " in the receiver"; return nullptr; }, &r);
          size_t p = 0; for (int k : a) { Bytes x = bytes(w, p, k); t->Send(x.data(), k); p += k; } pthread_join(th, nullptr);
          sched::op("received", {{&s->eof[w], 'W'}}); s->eof[w] = 1; sched::op("both received", {{&s->eof[1 - w], 'W'}}, [s, w] { return (bool)s->eof[1 - w]; }); finish(s->t[w], 3); }); });
      },
      [&](S* s, auto fail) { for (int i = 0; i < 4; ++i) if (!s->err[i].empty()) fail("throws", s->err[i]); if (mode) return; for (int w = 0; w < 2; ++w) if (s->got[w] != bytes(1 - w, 0, n)) fail("bytes", mc::fmt("end %d got ", w) + hex(s->got[w])); }, mode);
  }, 1 << 30, 2);
}
// networks of threaded senders: nobody waits for the network while sending, so everybody may send first
MC_SECTION(network, 2, 4) {
  c.explore([&](mc::Chooser& ch) {
    int n = c.thorough ? ch.range(2, 3) : 2, cap = c.thorough ? ch.choose(2) * 4 : 2; int len = c.q(1, 2); std::string d = mc::fmt("network of %d with threaded senders, socket capacity %d", n, cap); c.note(d); sched::Opts o; o.pipeCap = cap; if (n == 3) { o.maxSeconds = 200; }
    auto st = sched::explore(o, [&]() -> std::function<bool(const sched::End&)> {
      struct N { std::vector<scl::Network> net; std::vector<std::string> err; std::vector<char> done; std::vector<char> seen; }; auto s = std::make_shared<N>(); s->net.resize(n); s->err.resize(n); s->done.resize(n); s->seen.resize(n); N* q = s.get();
      for (int i = 0; i < n; ++i) { auto cfg = scl::NetworkConfig::Localhost(i, n, 4000); sched::spawn(mc::fmt("P%d", i), [q, cfg, i, n, len] { std::string m; int rc = mc::outcome_of([&] {
        auto w = scl::Network::CreateThreadedSenders(cfg);
        for (int j = 0; j < n; ++j) for (int k = 0; k < len; ++k) w.Party(j)->Send((unsigned)(i * 100 + j * 10 + k));
        if (n == 2) { sched::op("sent", {{&q->seen[i], 'W'}}); q->seen[i] = 1; for (int j = 0; j < n; ++j) sched::op("all sent", {{&q->seen[j], 'R'}}, [q, j] { return (bool)q->seen[j]; }); }
        for (int j = 0; j < n; ++j) for (int k = 0; k < len; ++k) { unsigned g = 0; w.Party(j)->Recv(g); if (g != (unsigned)(j * 100 + i * 10 + k)) q->err[i] = mc::fmt("party %d receives %u from %d", i, g, j); }
        sched::op("received", {{&q->done[i], 'W'}}); q->done[i] = 1; for (int j = 0; j < n; ++j) sched::op("all received", {{&q->done[j], 'R'}}, [q, j] { return (bool)q->done[j]; });
        w.Close(); }, &m); if (rc) q->err[i] = m; }); }
      return [=, &c](const sched::End& e) { c.checked(); if (e.deadlock || e.livelock) c.fail("network/never-ends", d + ": " + e.str()); else if (!e.errors.empty()) c.fail("network/error", d + ": " + e.str()); else if (!e.races.empty()) c.fail("network/race", d + ": " + e.str()); else for (auto& x : s->err) if (!x.empty()) c.fail("network/wrong", d + ": " + x); if (!e.deadlock && net::open_fds()) c.fail("network/descriptors", d); return c.fails.size() < 3; };
    });
    c.cases(st.executions); c.ops(st.transitions); c.count("interleavings", st.executions); if (!st.complete) c.capped = true; c.outcome(st.executions); c.sample(d + mc::fmt(": %llu executions", (unsigned long long)st.executions));
  });
}
// messages around and beyond 64 KiB, through sockets that take everything or a part at a time
MC_SECTION(large, 4, 4) {
  static const int N[] = {256, 4096, 65535, 65536, 65537, 131073, 200003}; static const int CAP[] = {0, 1000, 65536, 65537}; auto big = [](size_t n) { Bytes b(n); for (size_t i = 0; i < n; ++i) b[i] = (unsigned char)((i * 2654435761u) >> 13 ^ i >> 16); return b; };
  c.explore([&](mc::Chooser& ch) {
    int n = N[ch.choose(7)], cap = CAP[ch.choose(4)], parts = 1 + ch.choose(2), how = ch.choose(4); sched::Opts o; o.dpor = false; o.preempt = 0; o.pipeCap = cap; if (cap && n / cap > 5) throw mc::Prune{};
    go(c, mc::fmt("%d bytes in %d messages, socket capacity %d, ", n, parts, cap) + ENDS[how], o, "large",
      [&](S* s) {
        sched::spawn("app", [=] { guarded(s, 0, [&] { open(s, 0); Bytes x = big(n); int h = parts == 2 ? n / 3 : 0; if (h) s->t[0]->Send(x.data(), h); s->t[0]->Send(x.data() + h, n - h); std::fill(x.begin(), x.end(), 0); unsigned char ack = 0; s->t[0]->Recv(&ack, 1); if (ack != 99) s->err[0] = "wrong acknowledgement"; finish(s->t[0], how); }); s->t[0].reset(); });
        sched::spawn("peer", [=] { guarded(s, 1, [&] { TcpChannel t(s->fd[1]); s->got[1].resize(n); t.Recv(s->got[1].data(), n); unsigned char ack = 99; t.Send(&ack, 1); }); });
      },
      [&](S* s, auto fail) { for (int i = 0; i < 2; ++i) if (!s->err[i].empty()) fail("throws", s->err[i]); if (s->got[1] != big(n)) fail("bytes", "the peer got something else"); });
  }, 1 << 30, 2);
}
