// C29: the benchmark programs. Every party runs the program's main() on a fiber of its own; Network::Create is replaced by one
// that connects them over reliable in-order channels of unlimited or bounded capacity.
#include <atomic>
#include <cassert>
#include <chrono>
#include <condition_variable>
#include <iostream>
#include <map>
#include <mutex>
#include <sstream>
#include <thread>
#include "inc/mc.h"
#include "h/sched.h"
#include "scl/net/network.h"
#include "scl/net/config.h"
int main(int argc, char** argv) __asm__("program_main");   // still a main() for the compiler: falling off its end is an exit with 0
#include PROGRAM
extern "C" int program_main(int argc, char** argv);
namespace fifo = sched::fifo;
namespace {
struct S { int n; std::vector<std::vector<fifo::F*>> pipe; std::vector<std::string> msg; std::vector<int> rc; std::vector<char> open, created; S(int n) : n(n), pipe(n), msg(n), rc(n, -99), open(n), created(n) {} };
std::shared_ptr<S> now; int nets;
class VChan : public scl::Channel {
 public:
  VChan(fifo::F* i, fifo::F* o) : in(i), out(o) {}
  void Close() override { closed = true; }
  void Send(const unsigned char* s, std::size_t n) override { if (closed) sched::error("send on a closed channel"); fifo::send(out, s, n); }
  void Recv(unsigned char* d, std::size_t n) override { if (closed) sched::error("receive on a closed channel"); fifo::recv(in, d, n); }
  using scl::Channel::Send; using scl::Channel::Recv;
  fifo::F *in, *out; bool closed = false;
};
scl::Network connect(const scl::NetworkConfig& cfg) {
  int me = atoi(sched::host().c_str()); std::vector<std::shared_ptr<scl::Channel>> ch; if (!sched::managed()) ++nets;
  if ((int)cfg.Id() != me || (int)cfg.NetworkSize() != now->n) sched::error(mc::fmt("party %d of %d asks for a network as party %u of %zu", me, now->n, (unsigned)cfg.Id(), cfg.NetworkSize()));
  if (sched::managed()) now->created[me] = 1;
  for (int j = 0; j < now->n; ++j) ch.push_back(std::make_shared<VChan>(now->pipe[j][me], now->pipe[me][j]));
  return scl::Network(ch);
}
int call(const std::vector<std::string>& args) { std::vector<std::string> a = args; std::vector<char*> v; for (auto& x : a) v.push_back(&x[0]); v.push_back(nullptr); return program_main((int)a.size(), v.data()); }
struct Quiet { std::streambuf *o = std::cout.rdbuf(nullptr), *e = std::cerr.rdbuf(nullptr); ~Quiet() { std::cout.rdbuf(o); std::cout.clear(); std::cerr.rdbuf(e); std::cerr.clear(); } };
void run(mc::Ctx& c, int n, int size, int depth, size_t cap, const std::string& tag) {
  std::string w = mc::fmt("n=%d size=%d depth=%d", n, size, depth); if (cap) w += mc::fmt(", channels buffer %zu bytes", cap); c.note(w); Quiet quiet;
  auto st = sched::explore({}, [&]() -> std::function<bool(const sched::End&)> {
    fifo::reset(); auto s = std::make_shared<S>(n); S* q = s.get(); now = s; int i0 = 0;
    for (auto& r : q->pipe) { for (int j = 0; j < n; ++j) { r.push_back(fifo::make("")); if (cap && j != i0) fifo::capacity(r.back(), cap); } ++i0; }   // the channel to itself is memory
    for (int i = 0; i < n; ++i) sched::spawn(mc::fmt("P%d", i), [q, n, size, depth, i] { int o = mc::outcome_of([&] { q->rc[i] = call({"program", std::to_string(n), std::to_string(i), std::to_string(size), std::to_string(depth)}); }, &q->msg[i]); if (o && q->msg[i].empty()) q->msg[i] = "?"; }, std::to_string(i));
    return [&, s](const sched::End& e) {
      c.checked(); auto bad = [&](const std::string& k2, const std::string& m) { if (e.deadlock || e.livelock || !e.errors.empty()) new std::shared_ptr<S>(s); c.fail(tag + "/" + k2 + mc::fmt("/%d.%d.%d", n, size, depth), w + ": " + m); return c.fails.size() < 3; };
      for (int i = 0; i < n; ++i) if (!s->msg[i].empty()) return bad("throws", mc::fmt("party %d ends with the exception %s", i, s->msg[i].c_str()));
      if (!e.errors.empty()) return bad("error", e.str());
      if (e.deadlock || e.livelock) return bad("never-ends", e.str());
      if (!e.races.empty()) return bad("race", e.str());
      for (int i = 0; i < n; ++i) if (s->rc[i] != 0) return bad("status", mc::fmt("party %d exits with %d", i, s->rc[i])); else if (!s->created[i]) return bad("no-network", mc::fmt("party %d exits without taking part", i));
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (fifo::pending(s->pipe[i][j])) return bad("unconsumed", mc::fmt("%zu bytes from %d to %d are never received", fifo::pending(s->pipe[i][j]), i, j));
      return true; };
  });
  c.cases(st.executions); c.ops(st.transitions); c.count("interleavings", st.executions); if (!st.complete) c.capped = true; c.outcome(st.transitions); c.sample(w + mc::fmt(": %llu interleavings of %llu steps", (unsigned long long)st.executions, (unsigned long long)st.maxSteps));
}
}
scl::Network scl::Network::Create(const scl::NetworkConfig& c) { return connect(c); }
scl::Network scl::Network::CreateThreadedSenders(const scl::NetworkConfig& c) { return connect(c); }
// a failed assertion of the program ends the party with an error
extern "C" void __assert_fail(const char* what, const char* file, unsigned line, const char*) noexcept {
  if (!sched::managed()) { fprintf(stderr, "assertion %s in %s:%u\n", what, file, line); abort(); }
  sched::error(std::string("the program's check failed: ") + what); sched::op("abort", {}, [] { return false; }); abort();
}
// every admissible size up to a bound
MC_SECTION(grid, 8, 8) {
  c.explore([&](mc::Chooser& ch) { int n = 5 + 4 * ch.choose(c.q(3, 4)), depth = ch.range(1, n == 5 ? c.q(4, 6) : c.q(2, 3)), width = 2 * ch.range(1, n == 5 ? c.q(6, 10) : c.q(4, 7)); if (n * (3 + 3 * depth) > 380) throw mc::Prune{}; run(c, n, width * depth, depth, 0, "grid"); }, 1 << 30, 3);
}
// the socket buffers hold a few elements only: as a real one, whose size is fixed, for a large enough circuit
MC_SECTION(bounded, 8, 8) {
  c.explore([&](mc::Chooser& ch) { size_t cap = ch.of<size_t>({16, 24, 40, 64}); int n = 5 + 4 * ch.choose(c.q(2, 3)), depth = ch.range(1, n == 5 ? 3 : 2), width = 2 * ch.range(1, n == 5 ? c.q(6, 10) : c.q(4, 7)); if (n * (3 + 3 * depth) > 380) throw mc::Prune{}; run(c, n, width * depth, depth, cap, "bounded"); }, 1 << 30, 3);
}
// more parties, wider layers than a batch is long
MC_SECTION(many, 8, 8) {
  c.explore([&](mc::Chooser& ch) { int n = 17 + 4 * ch.choose(c.q(2, 5)), depth = ch.range(1, c.q(2, 3)), width = ch.of<int>({2, 40, 8, 14}); if ((!c.thorough && width < 40 && width > 2) || n * (3 + 3 * depth) > 380) throw mc::Prune{}; run(c, n, width * depth, depth, ch.choose(2) ? 64 : 0, "many"); }, 1 << 30, 2);
}
MC_SECTION(ids) {
  Quiet quiet;
  for (int n : {5, 9, 13}) for (std::string id : {std::to_string(n), std::to_string(n + 1), std::to_string(2 * n), std::string("255"), std::string("65536"), std::string("4294967296"), std::string("4294967297"), std::string("18446744073709551615"), std::string("-1"), std::string("-5"), std::string("x"), std::string("")}) {
    c.one(); c.checked(); now = std::make_shared<S>(n); nets = 0; std::string m; int rc = 0, o = mc::outcome_of([&] { rc = call({"program", std::to_string(n), id, "8", "2"}); }, &m);
    if (!(o == 1 || (o == 0 && rc != 0)) || nets) c.fail("ids/accepted", mc::fmt("n=%d id='%s' is not rejected", n, id.c_str())); c.outcome(mc::mix(n, o)); c.sample(mc::fmt("n=%d id='%s': %s", n, id.c_str(), m.c_str()));
  }
  for (int k = 1; k < 5; ++k) { c.one(); c.checked(); std::vector<std::string> a{"program", "5", "0", "8"}; a.resize(k); now = std::make_shared<S>(5); nets = 0; std::string m; int o = mc::outcome_of([&] { call(a); }, &m); if (o || nets) c.fail("ids/usage", mc::fmt("%d arguments: %s", k - 1, m.c_str())); }
}
