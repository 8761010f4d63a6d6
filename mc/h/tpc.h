// Circuits as data, their integer semantics, and the two protocols run in lock-step over local channels.
#ifndef VERIF_TPC_H
#define VERIF_TPC_H
#include <algorithm>
#include <array>
#include <deque>
#include <memory>
#include <numeric>
#include "mc.h"
#include "scl/prg.h"
#include "tp/circuits.h"
#include "tp/dn07.h"
namespace tpc {
using tp::FF;
#if defined(TP_DUAL)   // values carry their derivative in the upper 32 bits
constexpr uint64_t P = (1ull << 31) - 1;
inline uint64_t val(const FF& f) { unsigned char b[8]; f.Write(b); uint64_t v; memcpy(&v, b, 8); return v; }
inline FF mk(uint64_t v) { unsigned char b[8]; memcpy(b, &v, 8); return FF::Read(b); }
#elif defined(TP_P)
constexpr uint64_t P = TP_P;
inline uint64_t val(const FF& f) { return U(f); }
inline FF mk(uint64_t v) { return FF((int)(v % P)); }
#else
constexpr uint64_t P = (1ull << 61) - 1;
inline uint64_t val(const FF& f) { unsigned char b[8]; f.Write(b); uint64_t v; memcpy(&v, b, 8); return v; }
inline FF mk(uint64_t v) { v %= P; unsigned char b[8]; memcpy(b, &v, 8); return FF::Read(b); }
#endif
inline uint64_t add(uint64_t a, uint64_t b) { return (a + b) % P; }
inline uint64_t sub(uint64_t a, uint64_t b) { return (a + P - b) % P; }
inline uint64_t mul(uint64_t a, uint64_t b) { return (uint64_t)((unsigned __int128)a * b % P); }
inline uint64_t pw(uint64_t a, uint64_t e) { uint64_t r = 1; for (; e; e >>= 1) { if (e & 1) r = mul(r, a); a = mul(a, a); } return r; }
inline uint64_t inv(uint64_t a) { return pw(a, P - 2); }
inline uint64_t of(long v) { long p = (long)P; v %= p; return (uint64_t)(v < 0 ? v + p : v); }
// coefficients of the Lagrange combination giving the value at x from the values at xs
inline std::vector<uint64_t> lagc(const std::vector<long>& xs, long x) {
  std::vector<uint64_t> c;
  for (size_t j = 0; j < xs.size(); ++j) { uint64_t a = 1, b = 1; for (size_t m = 0; m < xs.size(); ++m) if (m != j) { a = mul(a, of(x - xs[m])); b = mul(b, of(xs[j] - xs[m])); } c.push_back(mul(a, inv(b))); }
  return c;
}
inline uint64_t lag(const std::vector<long>& xs, const std::vector<uint64_t>& ys, long x) { auto c = lagc(xs, x); uint64_t z = 0; for (size_t i = 0; i < xs.size(); ++i) z = add(z, mul(c[i], ys[i])); return z; }
inline std::vector<long> ids(int n) { std::vector<long> v; for (int i = 1; i <= n; ++i) v.push_back(i); return v; }
// value at x of the degree<=d polynomial through the first d+1 shares; all shares must lie on it
struct Sh { bool ok; uint64_t at(long x) const { return lag(xs, ys, x); } std::vector<long> xs; std::vector<uint64_t> ys; };
inline Sh deg(const std::vector<uint64_t>& s, int d) { Sh r; r.ok = true; for (int i = 0; i <= d && i < (int)s.size(); ++i) { r.xs.push_back(i + 1); r.ys.push_back(s[i]); } for (int i = d + 1; i < (int)s.size(); ++i) if (r.at(i + 1) != s[i]) r.ok = false; return r; }

// ---- circuits as data
struct Op { char k; int a, b; };   // 'I' owner | '+' '*' operands | 'L' new layer | 'O' owner, wire
struct Desc {
  int clients = 0; std::vector<Op> ops; bool closeEarly = true;
  std::string str() const { std::string s; for (auto& o : ops) { s += o.k; if (o.k == 'I') s += std::to_string(o.a); else if (o.k != 'L') s += mc::fmt("%d.%d", o.a, o.b); s += ' '; } return s; }
  int count(char k) const { int c = 0; for (auto& o : ops) c += o.k == k; return c; }
  std::vector<int> inputsOf() const { std::vector<int> v(clients); for (auto& o : ops) if (o.k == 'I') v[o.a]++; return v; }
  std::vector<uint64_t> wires(const std::vector<std::vector<uint64_t>>& in) const {
    std::vector<uint64_t> w; std::vector<int> ctr(clients);
    for (auto& o : ops) { if (o.k == 'I') w.push_back(in[o.a][ctr[o.a]++]); else if (o.k == '+') w.push_back(add(w[o.a], w[o.b])); else if (o.k == '*') w.push_back(mul(w[o.a], w[o.b])); }
    return w;
  }
  std::vector<std::vector<uint64_t>> eval(const std::vector<std::vector<uint64_t>>& in) const { auto w = wires(in); std::vector<std::vector<uint64_t>> r(clients); for (auto& o : ops) if (o.k == 'O') r[o.a].push_back(w[o.b]); return r; }
};
struct Built { std::shared_ptr<tp::Circuit> c; std::vector<std::shared_ptr<tp::Gate>> w; std::vector<std::shared_ptr<tp::InputGate>> in; std::vector<std::shared_ptr<tp::MultGate>> mu; std::vector<std::shared_ptr<tp::OutputGate>> out; };
inline Built build(const Desc& d, int k) {
  Built b; b.c = std::make_shared<tp::Circuit>(d.clients, k); bool inOpen = true; int lastIn = -1, i = 0, lastMul = -1;
  for (auto& o : d.ops) { if (o.k == 'I') lastIn = i; if (o.k == '*' || o.k == 'L') lastMul = i; ++i; }
  i = 0; bool last = false;
  for (auto& o : d.ops) {
    if (d.closeEarly && inOpen && i > lastIn) { b.c->CloseInputs(); inOpen = false; }
    if (d.closeEarly && !last && i > lastMul && o.k == 'O') { b.c->LastLayer(); last = true; }
    switch (o.k) {
      case 'I': { auto g = b.c->Input(o.a); b.w.push_back(g); b.in.push_back(g); break; }
      case '+': b.w.push_back(b.c->Add(b.w[o.a], b.w[o.b])); break;
      case '*': { auto g = b.c->Mult(b.w[o.a], b.w[o.b]); b.w.push_back(g); b.mu.push_back(g); break; }
      case 'L': b.c->NewLayer(); break;
      case 'O': b.out.push_back(b.c->Output(o.a, b.w[o.b])); break;
    }
    ++i;
  }
  if (inOpen) b.c->CloseInputs();
  if (!last) b.c->LastLayer();
  b.c->CloseOutputs();
  return b;
}
// Every sequence of up to maxOps additions/multiplications/layer changes on the given number of wires.
// Multiplications may only use wires that are available in the current layer.
inline void genOps(mc::Chooser& ch, Desc& d, int nOps, bool ordered, bool layers, int forceMul = 0) {
  std::vector<int> lev; int layer = 0, muls = 0;
  for (auto& o : d.ops) if (o.k == 'I') lev.push_back(0);
  for (int i = 0; i < nOps; ++i) {
    bool mulop = forceMul ? true : ch.flag();
    if (layers && muls && ch.flag()) { d.ops.push_back({'L', 0, 0}); layer++; }
    std::vector<int> av; for (int w = 0; w < (int)lev.size(); ++w) if (!mulop || lev[w] <= layer) av.push_back(w);
    int a = av[ch.choose((int)av.size())]; int ib = 0; std::vector<int> bv; for (int w : av) if (ordered || w >= a) bv.push_back(w);
    ib = bv[ch.choose((int)bv.size())];
    d.ops.push_back({mulop ? '*' : '+', a, ib}); muls += mulop;
    lev.push_back(mulop ? layer + 1 : std::max(lev[a], lev[ib]));
  }
}
inline int nwires(const Desc& d) { return d.count('I') + d.count('+') + d.count('*'); }

// Large circuits: shape 0 one party with many inputs and outputs and one wide layer, 1 ten layers of growing width, 2 the last party with many of
// everything and an empty layer, 3 twenty narrow layers with mixed owners, 4 every party two digits of inputs and outputs.
inline Desc bigDesc(int n, int shape, int salt = 0) {
  Desc d; d.clients = n; std::vector<int> in(n, 0), out(n, 0), mu; uint64_t s = 1000 * shape + salt; auto rnd = [&](size_t m) { s += 0x9e3779b97f4a7c15ull; uint64_t x = (s ^ (s >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return (int)((x >> 20) % m); };
  if (shape == 0) { in[0] = 30; mu = {67}; out[0] = 33; } else if (shape == 1) { for (auto& x : in) x = 3; for (int i = 1; i <= 10; ++i) mu.push_back(i); for (auto& x : out) x = 2; }
  else if (shape == 2) { in[n - 1] = 41; mu = {17, 0, 33}; out[n - 1] = 40; } else if (shape == 3) { for (int i = 0; i < n; ++i) in[i] = (i * 3 + 1) % 4, out[i] = (i + 2) % 5; mu.assign(20, 3); mu[7] = 0; mu[11] = 9; } else { for (auto& x : in) x = 11; mu = {12, 12}; for (auto& x : out) x = 13; }
  for (int i = 0; i < n; ++i) for (int j = 0; j < in[i]; ++j) d.ops.push_back({'I', i, 0});
  std::vector<int> cur; int next = 0; for (auto& o : d.ops) { (void)o; cur.push_back(next++); } if (cur.empty()) { d.ops.push_back({'I', n - 1, 0}); cur.push_back(next++); }
  for (size_t l = 0; l < mu.size(); ++l) { if (l) d.ops.push_back({'L', 0, 0}); std::vector<int> nw; for (int a = 0; a < 2; ++a) { d.ops.push_back({'+', cur[rnd(cur.size())], cur[rnd(cur.size())]}); cur.push_back(next++); } for (int m = 0; m < mu[l]; ++m) { d.ops.push_back({'*', cur[cur.size() - 1 - rnd(std::min<size_t>(cur.size(), 9))], cur[rnd(cur.size())]}); nw.push_back(next++); } cur.insert(cur.end(), nw.begin(), nw.end()); }
  for (int i = 0; i < n; ++i) for (int j = 0; j < out[i]; ++j) d.ops.push_back({'O', i, j < 3 ? cur[cur.size() - 1 - j] : cur[rnd(cur.size())]});
  d.closeEarly = shape % 2 == 0; return d;
}
// ---- lock-step channels
struct Starved : std::logic_error { Starved() : std::logic_error("receive without a pending message") {} };
struct Pipe { std::deque<unsigned char> q; std::vector<unsigned char> log; };
class LChan : public scl::Channel {
 public:
  LChan(std::shared_ptr<Pipe> i, std::shared_ptr<Pipe> o) : in(i), out(o) {}
  void Close() override {}
  void Send(const unsigned char* s, std::size_t n) override { out->q.insert(out->q.end(), s, s + n); out->log.insert(out->log.end(), s, s + n); }
  void Recv(unsigned char* d, std::size_t n) override { if (in->q.size() < n) throw Starved(); std::copy(in->q.begin(), in->q.begin() + n, d); in->q.erase(in->q.begin(), in->q.begin() + n); }
  using scl::Channel::Send; using scl::Channel::Recv;
  std::shared_ptr<Pipe> in, out;
};
struct Net {
  int n; std::vector<std::vector<std::shared_ptr<Pipe>>> pipe; std::vector<std::shared_ptr<scl::Network>> net;   // pipe[i][j]: i to j
  Net(int n_) : n(n_), pipe(n_) {
    for (auto& r : pipe) for (int j = 0; j < n; ++j) r.push_back(std::make_shared<Pipe>());
    for (int i = 0; i < n; ++i) { std::vector<std::shared_ptr<scl::Channel>> c; for (int j = 0; j < n; ++j) c.push_back(std::make_shared<LChan>(pipe[j][i], pipe[i][j])); net.push_back(std::make_shared<scl::Network>(c)); }
  }
  size_t pending() const { size_t s = 0; for (auto& r : pipe) for (auto& p : r) s += p->q.size(); return s; }
  void clearLog() { for (auto& r : pipe) for (auto& p : r) p->log.clear(); }
  std::vector<uint64_t> sent(int i, int j) const { std::vector<uint64_t> v; auto& l = pipe[i][j]->log; constexpr size_t B = sizeof(FF); for (size_t o = 0; o + B <= l.size(); o += B) { FF f; memcpy((void*)&f, l.data() + o, B); v.push_back(val(f)); } return v; }
};
// ---- randomness: a deterministic base stream per (party, seed), with chosen draws replaced
inline uint64_t strong(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
struct Tape {
  int cur = 0; int base = 1;              // base 0: all zero, otherwise the number of a pseudo-random stream
  using Key = std::array<uint64_t, 3>;    // party, seed, element position: equal seeds give equal streams within a party, parties are independent
  std::map<Key, uint64_t> over; std::vector<Key> drawn; bool record = false, reused = false;
  void install() { verif::prg_fn() = [this](uint64_t, const verif::Seed& s, uint64_t pos, unsigned char* d, std::size_t n) { draw(s, pos, d, n); }; }
  ~Tape() { verif::prg_fn() = nullptr; }
  uint64_t at(const Key& k) const { return strong(strong(strong(k[1] + base) + k[0]) + k[2]) % P; }
  void draw(const verif::Seed& s, uint64_t pos, unsigned char* d, std::size_t n) {
    constexpr size_t B = sizeof(FF); uint64_t h = 77; for (auto c : s) h = mc::mix(h, c);
    for (size_t i = 0; i < n; i += B) { uint64_t e = (pos + i) / B, v = 0; Key k{(uint64_t)cur, h, e}; if (base) v = at(k); if (!over.empty()) { auto it = over.find(k); if (it != over.end()) v = it->second; } if (record) { if (std::find(drawn.begin(), drawn.end(), k) != drawn.end()) reused = true; else drawn.push_back(k); }
      for (size_t b = 0; b < B && i + b < n; ++b) d[i + b] = (unsigned char)(v >> (8 * b)); }
  }
};
using Vals = std::vector<std::vector<uint64_t>>;
inline std::vector<FF> ffs(const std::vector<uint64_t>& v) { std::vector<FF> r; for (auto x : v) r.push_back(mk(x)); return r; }

struct TP {   // TurboPack, all parties
  int n, t, k; Tape& tape; Net net; std::vector<Built> b; size_t depth = 0;
  TP(const Desc& d, int n_, int t_, int k_, Tape& tp) : n(n_), t(t_), k(k_), tape(tp), net(n_) { for (int i = 0; i < n; ++i) { tape.cur = i; b.push_back(build(d, k)); b[i].c->SetNetwork(net.net[i], i); } depth = b[0].c->GetDepth(); }
  template <class F> void all(F f) { for (int i = 0; i < n; ++i) { tape.cur = i; f(*b[i].c); } }
  void corr() { all([&](tp::Circuit& c) { c.GenCorrelator(); c.SetThreshold(t); }); }
  void fi() {
    all([](tp::Circuit& c) { c.FIPrepSend(); }); all([](tp::Circuit& c) { c.FIPrepRecv(); });
    all([](tp::Circuit& c) { c.GenProdPartiesSendP1(); }); all([](tp::Circuit& c) { c.GenProdP1ReceivesAndSends(); }); all([](tp::Circuit& c) { c.GenProdPartiesReceive(); });
  }
  void fd() {
    all([](tp::Circuit& c) { c.MapCorrToCircuit(); });
    all([](tp::Circuit& c) { c.PrepMultPartiesSendP1(); }); all([](tp::Circuit& c) { c.PrepMultP1ReceivesAndSends(); }); all([](tp::Circuit& c) { c.PrepIOPartiesSendOwner(); });
    all([](tp::Circuit& c) { c.PrepMultPartiesReceive(); }); all([](tp::Circuit& c) { c.PrepIOOwnerReceives(); });
  }
  void inputs(const Vals& in) { for (int i = 0; i < n; ++i) b[i].c->SetInputs(ffs(in[i])); }
  void online() {
    all([](tp::Circuit& c) { c.InputOwnerSendsP1(); }); all([](tp::Circuit& c) { c.InputP1Receives(); });
    for (size_t l = 0; l < depth; ++l) { all([&](tp::Circuit& c) { c.MultP1Sends(l); }); all([&](tp::Circuit& c) { c.MultPartiesReceive(l); }); all([&](tp::Circuit& c) { c.MultPartiesSend(l); }); all([&](tp::Circuit& c) { c.MultP1Receives(l); }); }
    all([](tp::Circuit& c) { c.OutputP1SendsMu(); }); all([](tp::Circuit& c) { c.OutputOwnerReceivesMu(); });
  }
  Vals outputs() { Vals r(n); for (int i = 0; i < n; ++i) for (auto f : b[i].c->GetOutputs()) r[i].push_back(val(f)); return r; }
};
struct DN {   // DN07, all parties
  int n, t; Tape& tape; Net net; std::vector<Built> b; std::vector<std::shared_ptr<tp::DN07>> p; size_t depth = 0; Desc d;
  DN(const Desc& dd, int n_, int t_, int k, Tape& tp) : n(n_), t(t_), tape(tp), net(n_), d(dd) {
    for (int i = 0; i < n; ++i) { tape.cur = i; b.push_back(build(dd, k)); b[i].c->SetNetwork(net.net[i], i); p.push_back(std::make_shared<tp::DN07>(n, t)); p[i]->SetCircuit(*b[i].c); } depth = b[0].c->GetDepth(); }
  template <class F> void all(F f) { for (int i = 0; i < n; ++i) { tape.cur = i; f(*p[i]); } }
  void prep() { all([](tp::DN07& c) { c.PrepPartiesSend(); }); all([](tp::DN07& c) { c.PrepPartiesReceive(); }); }
  void fd() { all([](tp::DN07& c) { c.FDMapPrepToGates(); }); all([](tp::DN07& c) { c.FDMultPartiesSendP1(); }); all([](tp::DN07& c) { c.FDMultP1Receives(); }); }
  void inputs(const Vals& in) { for (int i = 0; i < n; ++i) p[i]->SetInputs(ffs(in[i])); }
  void online() {
    all([](tp::DN07& c) { c.InputPartiesSendOwners(); }); all([](tp::DN07& c) { c.InputOwnersReceiveAndSendParties(); }); all([](tp::DN07& c) { c.InputPartiesReceive(); });
    for (size_t l = 0; l < depth; ++l) { all([&](tp::DN07& c) { c.MultPartiesSendP1(l); }); all([&](tp::DN07& c) { c.MultP1ReceivesAndSendsParties(l); }); all([&](tp::DN07& c) { c.MultPartiesReceive(l); }); }
    all([](tp::DN07& c) { c.OutputPartiesSendOwners(); }); all([](tp::DN07& c) { c.OutputOwnersReceive(); });
  }
  Vals outputs() { Vals r(n); std::vector<int> cnt(n); for (auto& o : d.ops) if (o.k == 'O') { r[o.a].push_back(val(p[o.a]->GetOutput(o.a, cnt[o.a]))); cnt[o.a]++; } return r; }
};
inline std::string show(const Vals& v) { std::string s = "["; for (auto& r : v) s += "[" + mc::join(r) + "]"; return s + "]"; }
// fixed but generic inputs
inline Vals generic(const Desc& d, int salt = 0) { Vals v(d.clients); auto c = d.inputsOf(); for (int i = 0; i < d.clients; ++i) for (int j = 0; j < c[i]; ++j) v[i].push_back(1 + mc::mix(mc::mix(salt + 5, i), j) % (P - 1)); return v; }
inline Vals allInputs(mc::Chooser& ch, const Desc& d) { Vals v(d.clients); auto c = d.inputsOf(); for (int i = 0; i < d.clients; ++i) for (int j = 0; j < c[i]; ++j) v[i].push_back(ch.choose((int)P)); return v; }
}  // namespace tpc
#endif
