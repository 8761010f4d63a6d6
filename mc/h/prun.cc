// C02 (and with -DPRUN_DN C04): every party runs the whole protocol on its own fiber, optionally with the helper threads of the
// benchmark programs, over reliable in-order channels; every inequivalent interleaving.
#include <thread>
#include "h/tpc.h"
#include "h/sched.h"
using namespace tpc; namespace fifo = sched::fifo;
namespace {
class VChan : public scl::Channel {
 public:
  VChan(fifo::F* i, fifo::F* o) : in(i), out(o) {}
  void Close() override {}
  void Send(const unsigned char* s, std::size_t n) override { fifo::send(out, s, n); }
  void Recv(unsigned char* d, std::size_t n) override { fifo::recv(in, d, n); }
  using scl::Channel::Send; using scl::Channel::Recv;
  fifo::F *in, *out;
};
// the draws of a party depend on the party, the generator's seed and the position only
void tapes(int base) { verif::prg_fn() = [base](uint64_t, const verif::Seed& s, uint64_t pos, unsigned char* d, std::size_t n) { constexpr size_t B = sizeof(FF); uint64_t h = 77, party = atoi(sched::host().c_str()); for (auto c : s) h = mc::mix(h, c); for (size_t i = 0; i < n; i += B) { uint64_t v = strong(strong(strong(h + base) + party) + (pos + i) / B) % P; for (size_t b = 0; b < B && i + b < n; ++b) d[i + b] = (unsigned char)(v >> (8 * b)); } }; }
struct S { std::vector<std::vector<fifo::F*>> pipe; std::vector<char> done; std::vector<std::string> msg; Vals out; S(int n) : pipe(n), done(n), msg(n), out(n) {} };
template <class F> struct Thr { std::thread t; Thr(bool on, F f) { if (on) t = std::thread(f); else f(); } void join() { if (t.joinable()) t.join(); } };
enum { SEQ, THREADS, RUNALL };
#ifndef PRUN_DN
const char* HOW[] = {"one thread per party", "helper threads", "RunProtocol"};
constexpr int GATES = 2;
void party(S* s, const Desc& d, int n, int t, int k, int i, const Vals& in, std::shared_ptr<scl::Network> net, int how) {
  bool th = how == THREADS; auto b = build(d, k); tp::Circuit& c = *b.c; c.SetNetwork(net, i); c.GenCorrelator(); c.SetThreshold(t);
  { Thr a(th, [&] { c.FIPrepSend(); }); c.FIPrepRecv(); a.join(); }
  { Thr a(th, [&] { c.GenProdPartiesSendP1(); }); Thr e(th, [&] { c.GenProdP1ReceivesAndSends(); }); c.GenProdPartiesReceive(); a.join(); e.join(); }
  c.MapCorrToCircuit(); c.PrepMultPartiesSendP1(); c.PrepMultP1ReceivesAndSends(); c.PrepIOPartiesSendOwner(); c.PrepMultPartiesReceive(); c.PrepIOOwnerReceives();
  c.SetInputs(ffs(in[i]));
  if (how == RUNALL) c.RunProtocol(); else { c.InputOwnerSendsP1(); c.InputP1Receives(); for (size_t l = 0; l < c.GetDepth(); ++l) { c.MultP1Sends(l); c.MultPartiesReceive(l); c.MultPartiesSend(l); c.MultP1Receives(l); } c.OutputP1SendsMu(); c.OutputOwnerReceivesMu(); }
  for (auto f : c.GetOutputs()) s->out[i].push_back(val(f));
}
#else
const char* HOW[] = {"one thread per party", "helper threads", "multiplications in one step"};
constexpr int GATES = 3;
void party(S* s, const Desc& d, int n, int t, int k, int i, const Vals& in, std::shared_ptr<scl::Network> net, int how) {
  bool th = how == THREADS; auto b = build(d, k); b.c->SetNetwork(net, i); tp::DN07 p(n, t); p.SetCircuit(*b.c);
  { Thr a(th, [&] { p.PrepPartiesSend(); }); p.PrepPartiesReceive(); a.join(); }
  p.FDMapPrepToGates(); p.FDMultPartiesSendP1(); p.FDMultP1Receives();
  p.SetInputs(ffs(in[i])); p.InputPartiesSendOwners(); p.InputOwnersReceiveAndSendParties(); p.InputPartiesReceive();
  for (size_t l = 0; l < b.c->GetDepth(); ++l) {
    if (how == RUNALL) { p.MultPartiesSendP1(l); p.MultP1ReceivesAndSendsParties(l); p.MultPartiesReceive(l); continue; }
    { Thr a(th, [&] { p.MultPartiesSendP1(l); }); p.MultP1Receives(l); a.join(); }
    { Thr a(th, [&] { p.MultP1SendsParties(l); }); p.MultPartiesReceive(l); a.join(); }
  }
  p.OutputPartiesSendOwners(); p.OutputOwnersReceive();
  int cnt = 0; for (auto& o : d.ops) if (o.k == 'O' && o.a == i) s->out[i].push_back(val(p.GetOutput(i, cnt++)));
}
#endif
void run(mc::Ctx& c, const Desc& d, int n, int t, int k, int how, const sched::Opts& o, const std::string& tag, unsigned mixed = 0) {
  Vals in = generic(d), want = d.eval(in); std::string w = mc::fmt("n=%d t=%d k=%d %s circuit %s", n, t, k, mixed ? mc::fmt("mixed %x", mixed).c_str() : HOW[how], d.str().c_str()); if (!o.dpor) w += mc::fmt(" (at most %d preemptions)", o.preempt); c.note(w);
  auto st = sched::explore(o, [&]() -> std::function<bool(const sched::End&)> {
    fifo::reset(); auto s = std::make_shared<S>(n); S* q = s.get();
    for (auto& r : q->pipe) for (int j = 0; j < n; ++j) r.push_back(fifo::make(""));
    for (int i = 0; i < n; ++i) { int h = mixed ? (mixed >> i & 1) : how; sched::spawn(mc::fmt("P%d", i), [q, &d, n, t, k, i, &in, h] {
      int rc = mc::outcome_of([&] { std::vector<std::shared_ptr<scl::Channel>> ch; for (int j = 0; j < n; ++j) ch.push_back(std::make_shared<VChan>(q->pipe[j][i], q->pipe[i][j])); party(q, d, n, t, k, i, in, std::make_shared<scl::Network>(ch), h); }, &q->msg[i]);
      if (rc && q->msg[i].empty()) q->msg[i] = "?"; q->done[i] = 1; }, std::to_string(i)); }
    return [&, s](const sched::End& e) {
      c.checked(); auto bad = [&](const std::string& k2, const std::string& m) { c.fail(tag + "/" + k2, w + ": " + m); return c.fails.size() < 3; };
      for (auto& x : s->msg) if (!x.empty()) { if (e.deadlock) new std::shared_ptr<S>(s); return bad("throws", x); }
      if (!e.errors.empty()) { new std::shared_ptr<S>(s); return bad("error", e.str()); }
      if (e.deadlock || e.livelock) { new std::shared_ptr<S>(s); return bad("never-ends", e.str()); }
      if (!e.races.empty()) return bad("race", e.str());
      if (s->out != want) return bad("value", "outputs " + show(s->out) + " expected " + show(want));
      for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (fifo::pending(s->pipe[i][j])) return bad("unconsumed", mc::fmt("%zu bytes from %d to %d are never received", fifo::pending(s->pipe[i][j]), i, j));
      return true; };
  });
  c.cases(st.executions); c.ops(st.transitions); c.count("interleavings", st.executions); if (!st.complete) c.capped = true; uint64_t h = st.transitions; for (auto& r : want) for (auto x : r) h = mc::mix(h, x); c.outcome(h); c.sample(w + mc::fmt(": %llu interleavings of %llu steps", (unsigned long long)st.executions, (unsigned long long)st.maxSteps));
}
struct Cfg { int n, t, k; };
#ifndef PRUN_DN
const std::vector<Cfg> CF{{1, 0, 1}, {3, 0, 2}, {4, 1, 2}, {5, 2, 2}, {5, 0, 3}, {6, 1, 3}, {7, 2, 3}};
bool conc(const Cfg& f) { return f.t > 0; }
#else
const std::vector<Cfg> CF{{1, 0, 1}, {2, 0, 2}, {3, 1, 2}, {4, 1, 2}, {5, 2, 2}, {5, 1, 3}, {7, 3, 2}};
bool conc(const Cfg&) { return true; }
#endif
}
// every circuit of up to three gates
MC_SECTION(circuits, 8, 8) {
  tapes(1);
  c.explore([&](mc::Chooser& ch) {
    int how = ch.choose(3); Cfg f = CF[ch.choose(c.q(4, 5))]; if (how == THREADS && !conc(f)) throw mc::Prune{};
    Desc d; d.clients = f.n; int ni = 1 + ch.choose(2); for (int i = 0; i < ni; ++i) d.ops.push_back({'I', ch.choose(std::min(f.n, 2)) ? f.n - 1 : 0, 0});
    genOps(ch, d, ch.choose(c.thorough ? (f.n < 4 ? 4 : 3) : f.n < 4 ? 3 : GATES), false, true); int pat = ch.choose(2), nw = nwires(d); for (int w = 0; w < nw; ++w) d.ops.push_back({'O', pat ? w % f.n : f.n - 1, w});
    run(c, d, f.n, f.t, f.k, how, {}, "circuits");
  }, 1 << 30, 7);
}
// several layers, full and partial batches, more parties; some parties with helper threads and some without
MC_SECTION(layers, 8, 8) {
  tapes(2);
  c.explore([&](mc::Chooser& ch) {
    Cfg f = CF[ch.choose((int)CF.size())]; int layers = ch.range(1, 3), width = ch.range(1, c.q(4, 6)), how = ch.choose(f.n <= 5 && conc(f) ? 5 : 3); unsigned mixed = how == 3 ? 0x55555555u : how == 4 ? 0xaaaaaaaau : 0; if (how == THREADS && !conc(f)) throw mc::Prune{};
    if (f.n * (1 + (how == THREADS || mixed ? std::max(3, 1 + 2 * layers) : 0)) > 380) throw mc::Prune{};
    Desc d; d.clients = f.n; d.ops = {{'I', 0, 0}, {'I', f.n - 1, 0}, {'I', f.n / 2, 0}}; int w = 3, prev = 0; for (int l = 0; l < layers; ++l) { if (l) d.ops.push_back({'L', 0, 0}); int from = w; for (int m = 0; m < width; ++m) { d.ops.push_back({'*', l ? prev + m % width : m % 3, l ? prev + (m + 1) % width : (m + 1) % 3}); ++w; } prev = from; }
    d.ops.push_back({'+', prev, 0}); ++w; for (int i = 0; i < f.n; ++i) d.ops.push_back({'O', (f.n - 1 - i), w - 1 - i % 2});
    run(c, d, f.n, f.t, f.k, how, {}, "layers", mixed);
  }, 1 << 30, 3);
}
// many parties, large circuits: the interleavings that differ in more than the order of independent steps
MC_SECTION(big, 8, 8) {
  tapes(3);
#ifndef PRUN_DN
  static const std::vector<Cfg> B{{4, 1, 2}, {5, 2, 2}, {6, 1, 3}, {8, 3, 3}, {10, 3, 4}, {12, 3, 5}, {16, 7, 5}, {21, 10, 6}};
#else
  static const std::vector<Cfg> B{{3, 1, 2}, {5, 2, 2}, {7, 1, 2}, {10, 4, 2}, {12, 5, 2}, {16, 7, 2}, {20, 3, 2}, {21, 10, 2}};
#endif
  c.explore([&](mc::Chooser& ch) {
    Cfg f = B[ch.choose(c.q(6, 8))]; if ((uint64_t)(f.n + f.k) > P) throw mc::Prune{}; Desc d = bigDesc(f.n, ch.choose(5), f.n); int layers = 1 + d.count('L'), how = ch.choose(5); unsigned mixed = how == 3 ? 0x55555555u : how == 4 ? 0xaaaaaaaau : 0;
    if (f.n * (1 + (how == THREADS || mixed ? std::max(3, 1 + 2 * layers) : 0)) > 380) throw mc::Prune{};
    sched::Opts o; run(c, d, f.n, f.t, f.k, how, o, "big", mixed);
  }, 1 << 30, 2);
}
