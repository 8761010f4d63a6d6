// C27: whatever size headers a peer sends, a receive yields an object of the announced size or throws, within memory bounds (ASan).
#include "mc.h"
#include "scl/math/ff.h"
#include "scl/math/z2k.h"
#include "scl/math/mat.h"
#include "scl/math/vec.h"
#include "scl/net/channel.h"
#include "scl/net/discovery/client.h"
#include "scl/net/discovery/server.h"
namespace {
struct Buf final : scl::Channel {   // a peer that sent these bytes and then closed
  std::vector<unsigned char> in, out; size_t pos = 0; uint64_t want = 0;
  void Close() override {}
  void Send(const unsigned char* s, std::size_t n) override { out.insert(out.end(), s, s + n); }
  void Recv(unsigned char* d, std::size_t n) override { want += n; if (n > in.size() - pos) throw std::runtime_error("end of stream"); if (n) memcpy(d, in.data() + pos, n); pos += n; }
  template <class T> void put(T v) { auto* p = (const unsigned char*)&v; in.insert(in.end(), p, p + sizeof v); }
  using scl::Channel::Send; using scl::Channel::Recv;
};
const uint64_t VL = MAX_VEC_READ_SIZE, ML = MAX_MAT_READ_SIZE;
std::vector<uint32_t> sizes(mc::Ctx& c, uint64_t lim) {
  std::vector<uint32_t> v; for (uint32_t i = 0; i <= (lim <= 64 ? lim + 6 : 12u); ++i) v.push_back(i);
  for (uint64_t b : {lim - 1, lim, lim + 1, lim / 2, lim / 2 + 1, lim * 2, (uint64_t)1 << 16, (uint64_t)1 << 31, ((uint64_t)1 << 32) / 3 + 1, ((uint64_t)1 << 32) / 5 + 1, (uint64_t)1 << 24, (uint64_t)1 << 29, (uint64_t)1 << 30, (uint64_t)0xffffffff, (uint64_t)65537, (uint64_t)0x40000001, (uint64_t)0x10001, (uint64_t)1 << 28, (uint64_t)858993460})
    for (int64_t d = -1; d <= 1; ++d) { uint32_t x = (uint32_t)(b + d); bool dup = false; for (uint32_t y : v) dup |= x == y; if (!dup) v.push_back(x); }
  return v;
}
template <class T> bool content(const T& e, const unsigned char* p) { return e == T::Read(p); }
template <class T> void vec(mc::Ctx& c, mc::Chooser& ch, const char* name) {
  auto S = sizes(c, VL); uint32_t n = ch.of(S); int full = ch.choose(4); uint64_t need = (uint64_t)n * T::ByteSize(); if (n > VL + 1000 || need > (16u << 20)) need = 16;
  if (n <= VL && n > (1u << 20) && (full || T::ByteSize() != 8)) throw mc::Prune{};
  Buf b; b.put(n); size_t have = full == 0 ? need + 5 : full == 1 ? need : full == 2 ? (need ? need - 1 : 0) : need / 2; for (size_t i = 0; i < have; ++i) b.in.push_back((unsigned char)(i * 37 + 11));
  if (ch.flag()) b.in.resize(std::min<size_t>(b.in.size(), ch.choose(4)));   // even the header is cut
  scl::Vec<T> v(3); std::string msg; std::string d = mc::fmt("%s vector, header %u, %zu bytes follow", name, n, b.in.size() < 4 ? 0 : b.in.size() - 4); c.note(d);
  c.ops(1); c.one(); int rc = mc::outcome_of([&] { b.Recv(v); }, &msg); c.outcome(mc::mix(rc, v.Size()));
  bool complete = b.in.size() >= 4 && b.in.size() - 4 >= (uint64_t)n * T::ByteSize();
  if (rc == 2) return c.fail("vec/throws-other", d);
  if (rc == 1) { if (complete && n <= VL && n > 0) c.fail("vec/refused", d + ": " + msg); if (b.in.size() >= 4 && n > VL && b.want > 4 + (uint64_t)VL * T::ByteSize()) c.fail("vec/limit", d + mc::fmt(": asked for %lu bytes", (unsigned long)b.want)); return; }
  if (n > VL) return c.fail("vec/limit", d + mc::fmt(" is accepted, the limit is %lu", (unsigned long)VL));
  if (v.Size() != n) return c.fail("vec/size", d + mc::fmt(" yields %zu elements", (size_t)v.Size()));
  if (!complete) return c.fail("vec/unfilled", d + " yields a vector");
  if (b.pos != 4 + (uint64_t)n * T::ByteSize()) c.fail("vec/consumed", d + mc::fmt(" consumes %zu bytes", b.pos));
  for (uint32_t i = 0; i < n; ++i) if (!content(v[i], b.in.data() + 4 + i * T::ByteSize())) return c.fail("vec/content", d);
  c.sample(d);
}
template <class T> void mat(mc::Ctx& c, mc::Chooser& ch, const char* name) {
  auto S = sizes(c, ML); uint32_t r = ch.of(S), k = ch.of(S); uint64_t n = (uint64_t)r * k; int full = ch.choose(3); uint64_t need = n * T::ByteSize(); if (n > ML + 1000 || need > (16u << 20)) need = 16;
  if (n <= ML && n > (1u << 20) && (full || T::ByteSize() != 8 || (!c.thorough && r != 1 && k != 1))) throw mc::Prune{};   // large accepted sizes: once
  Buf b; b.put(r); b.put(k); size_t have = full == 0 ? need + 5 : full == 1 ? need : (need ? need - 1 : 0); for (size_t i = 0; i < have; ++i) b.in.push_back((unsigned char)(i * 37 + 11));
  scl::Mat<T> m(2, 2); std::string msg; std::string d = mc::fmt("%s matrix, header %u x %u, %zu bytes follow", name, r, k, have); c.note(d);
  c.ops(1); c.one(); int rc = mc::outcome_of([&] { b.Recv(m); }, &msg); c.outcome(mc::mix(rc, mc::mix(m.Rows(), m.Cols())));
  bool complete = have >= n * T::ByteSize();
  if (rc == 2) return c.fail("mat/throws-other", d);
  if (rc == 1) { if (complete && n <= ML && n > 0) c.fail("mat/refused", d + ": " + msg); if (n > ML && b.want > 8 + ML * T::ByteSize()) c.fail("mat/limit", d + mc::fmt(": asked for %lu bytes", (unsigned long)b.want)); return; }
  if (n > ML) return c.fail("mat/limit", d + mc::fmt(" is accepted, the limit is %lu", (unsigned long)ML));
  if (m.Rows() != r || m.Cols() != k) return c.fail("mat/size", d + mc::fmt(" yields %zu x %zu", (size_t)m.Rows(), (size_t)m.Cols()));
  if (!complete) return c.fail("mat/unfilled", d + " yields a matrix");
  if (b.pos != 8 + n * T::ByteSize()) c.fail("mat/consumed", d + mc::fmt(" consumes %zu bytes", b.pos));
  if (n) for (uint32_t i = 0; i < r; ++i) for (uint32_t j = 0; j < k; ++j) if (!content(m(i, j), b.in.data() + 8 + ((uint64_t)i * k + j) * T::ByteSize())) return c.fail("mat/content", d);
  c.sample(d);
}
using F61 = scl::FF<61>; using F127 = scl::FF<127>; using Z9 = scl::Z2k<9>; using Z64 = scl::Z2k<64>;
}
MC_SECTION(vectors, 2, 2) { c.explore([&](mc::Chooser& ch) { switch (ch.choose(4)) { case 0: return vec<F61>(c, ch, "FF61"); case 1: return vec<F127>(c, ch, "FF127"); case 2: return vec<Z9>(c, ch, "Z2k<9>"); default: return vec<Z64>(c, ch, "Z2k<64>"); } }, 1 << 30, 2); }
MC_SECTION(matrices, 6, 6) { c.explore([&](mc::Chooser& ch) { switch (ch.choose(4)) { case 0: return mat<F61>(c, ch, "FF61"); case 1: return mat<F127>(c, ch, "FF127"); case 2: return mat<Z9>(c, ch, "Z2k<9>"); default: return mat<Z64>(c, ch, "Z2k<64>"); } }, 1 << 30, 3); }
// the party list a discovery server sends to a client
MC_SECTION(partylist, 4, 4) {
  c.explore([&](mc::Chooser& ch) {
    static const std::vector<uint64_t> big{MAX_DISCOVER_PARTIES + 1ull, 1000, 1ull << 20, 1ull << 32, (1ull << 32) + 2, 1ull << 60, ~0ull};
    int k = ch.choose(4 + (int)big.size()); uint64_t n = k < 4 ? k : big[k - 4]; unsigned me = ch.choose(3); auto b = std::make_shared<Buf>(); b->put<std::size_t>(n); bool ok = n >= 1 && n <= MAX_DISCOVER_PARTIES; std::string d = mc::fmt("announced %lu parties, own id %u:", (unsigned long)n, me);
    std::vector<scl::Party> p; static const std::vector<unsigned> far{255, 65535, 0x7fffffff, 0x80000000u, 0xffffffffu}; std::vector<char> seen(4);
    for (uint64_t i = 0; i < std::min<uint64_t>(n, 3); ++i) {
      int e = ch.choose(n < 4 ? (int)n + 2 + (i == 0 ? (int)far.size() - 1 : 0) : 1); unsigned id = n >= 4 ? i : e <= (int)n ? e : far[e - n - 1]; if (n < 4 && id >= n) ok = false; else if (n < 4) { if (seen[id]) ok = false; seen[id] = 1; }
      int hl = i + 1 == n ? ch.choose(6) : 1; std::string h = hl == 0 ? "" : hl == 1 ? "10.0.0.1" : hl == 2 ? std::string(60, 'h') : "abc"; uint64_t len = h.size(); if (hl == 3) { len = 1ull << 36; ok = false; } if (hl == 4) { len = ~0ull - 3; ok = false; } if (hl == 5) { len = 4; ok = false; }   // 5: one byte missing
      int port = 4000 + (int)i; b->put(id); b->put(port); b->put<std::size_t>(len); b->in.insert(b->in.end(), h.begin(), h.end()); p.push_back({id, h, port}); d += mc::fmt(" {%u, host length %lu}", id, (unsigned long)len); if (!ok) break;
    }
    if (me >= n) ok = false; c.note(d); c.ops(1); c.one(); scl::NetworkConfig g; std::string msg; int rc = mc::outcome_of([&] { scl::DiscoveryClient::ReceiveNetworkConfig r(me); g = r.Finalize(b); }, &msg); c.outcome(mc::mix(rc, n));
    if (rc == 2) return c.fail("partylist/throws-other", d);
    if (!ok) { if (rc != 1) c.fail("partylist/accepts", d + ": " + g.ToString()); return; }
    if (rc) return c.fail("partylist/refused", d + ": " + msg);
    if (g.Id() != me || g.NetworkSize() != n) return c.fail("partylist/content", d + ": " + g.ToString());
    for (auto& x : p) { auto q = g.GetParty(x.id); if (q.id != x.id || q.port != x.port || q.hostname != x.hostname) return c.fail("partylist/content", d + ": " + g.ToString()); }
    c.sample(d);
  }, 1 << 30, 2);
}
// long lists, up to the limit, with one flaw at every position
MC_SECTION(partylist_long, 4, 4) {
  c.explore([&](mc::Chooser& ch) {
    static const std::vector<unsigned> N{4, 5, 9, 16, 17, 33, 64, 127, 128, 129, 254, 255, 256, 257, 300}; unsigned n = ch.of(N), me = ch.choose(2) ? n - 1 : n / 2; int flaw = ch.choose(5), order = ch.choose(3), at = flaw ? ch.choose(c.q(7, 33)) : 0; unsigned pos = std::min<unsigned>(n - 1, at * (n - 1) / c.q(6, 32)), other = (pos + 1 + n / 2) % n; if (other == pos) other = (pos + 1) % n;
    bool ok = n <= MAX_DISCOVER_PARTIES && !flaw; auto b = std::make_shared<Buf>(); b->put<std::size_t>(n); std::vector<scl::Party> p; std::string d = mc::fmt("list of %u parties, own id %u, order %d, flaw %d at %u", n, me, order, flaw, pos); c.note(d);
    for (unsigned i = 0; i < n; ++i) { unsigned id = order == 0 ? i : order == 1 ? n - 1 - i : (i * 2 < n ? i * 2 : n % 2 ? (i - (n + 1) / 2) * 2 + 1 : (i - n / 2) * 2 + 1); if (i == pos && flaw == 1) id = p.size() ? p[other % p.size()].id : 0; if (i == pos && flaw == 1 && p.empty()) { ok = n <= MAX_DISCOVER_PARTIES && id == (order == 1 ? n - 1 : 0); } if (i == pos && flaw == 2) id = n; if (i == pos && flaw == 3) id = id + 256;
      std::string h = i % 7 == 3 ? std::string(i, 'x') : mc::fmt("10.1.%u.%u", i / 100, i % 100); int port = 70000 - (int)i * 3; std::size_t len = h.size(); if (i == pos && flaw == 4) len = len + (i + 1 == n ? 1 : (1ull << 40)); b->put(id); b->put(port); b->put(len); b->in.insert(b->in.end(), h.begin(), h.end()); p.push_back({id, h, port}); }
    c.ops(1); c.one(); scl::NetworkConfig g; std::string msg; int rc = mc::outcome_of([&] { scl::DiscoveryClient::ReceiveNetworkConfig r(me); g = r.Finalize(b); }, &msg); c.outcome(mc::mix(rc, n)); if (rc == 2) return c.fail("partylist/throws-other", d);
    if (!ok) { if (rc != 1) c.fail("partylist/accepts", d); return; } if (rc) return c.fail("partylist/refused", d + ": " + msg); if (g.Id() != me || g.NetworkSize() != n) return c.fail("partylist/content", d);
    for (auto& x : p) { auto q = g.GetParty(x.id); if (q.id != x.id || q.port != x.port || q.hostname != x.hostname) return c.fail("partylist/content", d + mc::fmt(": party %u", x.id)); } c.sample(d);
  }, 1 << 30, 2);
}
// what a client announces to a discovery server
MC_SECTION(announcement, 1, 1) {
  c.explore([&](mc::Chooser& ch) {
    unsigned n = ch.range(2, 3); unsigned me = ch.choose(n); std::vector<std::shared_ptr<scl::Channel>> chs; std::vector<std::string> hosts; std::vector<scl::Party> p(n); bool ok = true; std::vector<char> seen(n); seen[me] = 1; p[me] = {me, "me", 77}; std::string d = mc::fmt("%u parties, server %u:", n, me);
    static const std::vector<unsigned> far{255, 65535, 0x7fffffff, 0x80000000u, 0xffffffffu};
    for (unsigned i = 0; i < n; ++i) { hosts.push_back("h"); if (i == me) { chs.push_back(nullptr); continue; } auto b = std::make_shared<Buf>(); int e = ch.choose(n + 1 + (int)far.size()); unsigned id = e <= (int)n ? e : far[e - n - 1]; b->put(id); int port = 5000 + i; b->put(port); int cut = ch.choose(3); if (cut) { b->in.resize(cut == 1 ? 2 : 6); ok = false; } chs.push_back(b); if (id >= n || seen[id]) ok = false; else { seen[id] = 1; p[id] = {id, "h", port}; } d += mc::fmt(" %u", id); }
    c.note(d); c.ops(1); c.one(); scl::DiscoveryServer::Ctx ctx{p[me], scl::Network(chs)}; scl::NetworkConfig g; std::string msg;
    int rc = mc::outcome_of([&] { scl::DiscoveryServer::CollectIdsAndPorts s(hosts); auto nx = s.Run(ctx); g = nx.Finalize(ctx); }, &msg); c.outcome(rc);
    if (!ok) { if (rc != 1) c.fail("announcement/accepts", d + ": " + g.ToString()); return; }
    if (rc) return c.fail("announcement/refused", d + ": " + msg);
    for (auto& x : p) { auto q = g.GetParty(x.id); if (q.id != x.id || q.port != x.port) return c.fail("announcement/content", d + ": " + g.ToString()); }
  });
}
