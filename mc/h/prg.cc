// C18: the PRG against a table-free software AES-128 in counter mode, over all short histories of requests.
#include "mc.h"
#include "scl/prg.h"
#include <memory>
using mc::fmt;
typedef std::vector<unsigned char> Bytes;
namespace {
unsigned char gm(unsigned char a, unsigned char b) { unsigned char r = 0; while (b) { if (b & 1) r ^= a; a = (unsigned char)((a << 1) ^ (a & 0x80 ? 0x1b : 0)); b >>= 1; } return r; }
unsigned char sbox(unsigned char a) {
  static unsigned char t[256]; static bool init = false;
  if (!init) { for (int x = 0; x < 256; ++x) { unsigned char i = 0; for (int y = 1; y < 256 && x; ++y) if (gm((unsigned char)x, (unsigned char)y) == 1) i = (unsigned char)y; unsigned char s = 0x63; for (int k = 0; k < 5; ++k) s ^= (unsigned char)((i << k) | (i >> (8 - k))); t[x] = s; } init = true; }
  return t[a];
}
Bytes aes(const Bytes& key, const Bytes& in) {
  unsigned char w[176]; memcpy(w, key.data(), 16); unsigned char rc = 1;
  for (int i = 16; i < 176; i += 4) { unsigned char t[4]; memcpy(t, w + i - 4, 4); if (i % 16 == 0) { unsigned char x = t[0]; t[0] = sbox(t[1]) ^ rc; t[1] = sbox(t[2]); t[2] = sbox(t[3]); t[3] = sbox(x); rc = gm(rc, 2); } for (int k = 0; k < 4; ++k) w[i + k] = w[i - 16 + k] ^ t[k]; }
  Bytes s = in; for (int i = 0; i < 16; ++i) s[i] ^= w[i];
  for (int r = 1; r <= 10; ++r) {
    Bytes t(16); for (int c = 0; c < 4; ++c) for (int k = 0; k < 4; ++k) t[4 * c + k] = sbox(s[4 * ((c + k) % 4) + k]);
    if (r < 10) for (int c = 0; c < 4; ++c) { unsigned char a[4]; memcpy(a, &t[4 * c], 4); for (int k = 0; k < 4; ++k) t[4 * c + k] = gm(a[k], 2) ^ gm(a[(k + 1) % 4], 3) ^ a[(k + 2) % 4] ^ a[(k + 3) % 4]; }
    for (int i = 0; i < 16; ++i) s[i] = t[i] ^ w[16 * r + i];
  }
  return s;
}
std::map<Bytes, std::vector<Bytes>> memo;
Bytes block(const Bytes& seed, long ctr) {
  auto& v = memo[seed];
  while ((long)v.size() <= ctr) { Bytes in(16); uint64_t c = v.size() + PRG_INITIAL_COUNTER, n = PRG_NONCE; memcpy(&in[0], &c, 8); memcpy(&in[8], &n, 8); v.push_back(aes(seed, in)); }
  return v[ctr];
}
struct Model { Bytes seed; long ctr = 0; Bytes next(size_t n) { Bytes o; while (o.size() < n) { Bytes b = block(seed, ctr++); o.insert(o.end(), b.begin(), b.end()); } o.resize(n); return o; } };
std::vector<Bytes> seeds(bool many) {
  std::vector<Bytes> s; s.push_back(Bytes(16, 0)); Bytes x(16); for (int i = 0; i < 16; ++i) x[i] = (unsigned char)(i * 17 + 3); s.push_back(x); s.push_back(Bytes(16, 0xff));
  if (many) for (int b = 0; b < 128; ++b) { Bytes y(16, 0); y[b / 8] = 1 << (b % 8); s.push_back(y); for (int i = 0; i < 16; ++i) y[i] ^= x[i]; s.push_back(y); }
  return s;
}
struct Live { scl::PRG* g; Model m; };
void request(mc::Ctx& c, Live& l, size_t n, int form, const std::string& hist) {
  Bytes want = l.m.next(n); Bytes got; const unsigned char can = 0xC7; c.ops();
  auto& g = *l.g;
  if (form == 0) { std::unique_ptr<unsigned char[]> b(new unsigned char[n + 32]); memset(b.get(), can, n + 32); g.Next(b.get() + 3, n); got.assign(b.get() + 3, b.get() + 3 + n);
    for (size_t i = 0; i < n + 32; ++i) if ((i < 3 || i >= n + 3) && b[i] != can) { c.fail("prg/wrote-outside", hist); break; } }
  else if (form == 1) { got.assign(n, can); g.Next(got); }
  else if (form == 2) { Bytes v(n + 5, can); g.Next(v, n); got.assign(v.begin(), v.begin() + n); if (v.size() != n + 5) c.fail("prg/resized", hist); for (size_t i = n; i < v.size(); ++i) if (v[i] != can) { c.fail("prg/wrote-outside", hist); break; } }
  else { got = g.Next(n); }
  if (got != want) c.fail(fmt("prg/stream/form%d", form), hist);
  if (g.Counter() != l.m.ctr + PRG_INITIAL_COUNTER) c.fail("prg/counter", hist + fmt(": Counter() is %ld, %ld blocks handed out", g.Counter(), l.m.ctr));
  if (memcmp(g.Seed(), l.m.seed.data(), 16)) c.fail("prg/seed", hist);
  uint64_t h = 0; for (size_t i = 0; i < got.size() && i < 8; ++i) h = h << 8 | got[i]; c.outcome(mc::mix(h, n));
}
}
MC_SECTION(selftest) {
  Bytes k(16), p(16); for (int i = 0; i < 16; ++i) { k[i] = (unsigned char)i; p[i] = (unsigned char)(i * 17); } std::string s; for (auto b : aes(k, p)) s += fmt("%02x", b); c.one();
  if (s != "69c4e0d86a7b0430d8cdb78070b4c55a") { fprintf(stderr, "reference AES is wrong: %s\n", s.c_str()); _Exit(77); }
}
MC_SECTION(seeds) {
  for (auto& sd : seeds(true)) for (size_t n : {1, 15, 16, 17, 100}) { scl::PRG g(sd.data()); Live l{&g, {sd, 0}}; c.cases(); c.checked(); request(c, l, n, 0, "seed sweep"); request(c, l, 16, 3, "seed sweep"); }
  { scl::PRG g; Live l{&g, {Bytes(16, 0), 0}}; request(c, l, 40, 3, "default constructor"); }
  if (scl::PRG::BlockSize() != 16 || scl::PRG::SeedSize() != 16) c.fail("prg/sizes", "BlockSize/SeedSize");
}
MC_SECTION(sizes) {
  for (size_t n = 0; n <= (size_t)c.q(600, 5000); ++n) for (int f = 0; f < 4; ++f) { auto sd = seeds(false)[1]; scl::PRG g(sd.data()); Live l{&g, {sd, 0}}; c.cases(); c.checked(); request(c, l, n, f, fmt("one request of %zu bytes", n)); request(c, l, 5, 0, fmt("5 bytes after a request of %zu", n)); }
  for (size_t n : {65535, 65536, 65537, 100000}) { auto sd = seeds(false)[2]; scl::PRG g(sd.data()); Live l{&g, {sd, 0}}; c.cases(); c.checked(); request(c, l, n, 0, fmt("one request of %zu bytes", n)); request(c, l, 5, 0, "after a large request"); }
}
// 64-bit counters: the stream past 2^16 blocks does not repeat and stays on the reference
MC_SECTION(far) {
  auto sd = seeds(false)[1]; scl::PRG g(sd.data()); Bytes big = g.Next((size_t)16 * (c.thorough ? 300000 : 70000)); size_t nb = big.size() / 16; c.ops(nb);
  std::unordered_set<std::string> seen; for (size_t i = 0; i < nb; ++i) { c.cases(); if (!seen.insert(std::string((char*)&big[16 * i], 16)).second) c.fail("prg/repeats", fmt("block %zu", i)); }
  for (size_t i = 0; i < nb; i += 251) { c.checked(); uint64_t ct = i + PRG_INITIAL_COUNTER, n = PRG_NONCE; Bytes in(16); memcpy(&in[0], &ct, 8); memcpy(&in[8], &n, 8); if (aes(sd, in) != Bytes(big.begin() + 16 * i, big.begin() + 16 * i + 16)) c.fail("prg/far", fmt("block %zu", i)); }
}
// All histories: requests of every size class in every form, resets, copies, assignment, up to the depth.
MC_SECTION(history, 8, 8) {
  int depth = c.q(4, 5); std::vector<size_t> sz = {0, 1, 16, 17, 33}; auto sds = seeds(false);
  c.explore([&](mc::Chooser& ch) {
    Bytes sd = sds[ch.choose(2)]; std::vector<std::unique_ptr<scl::PRG>> own; std::vector<Live> L; own.emplace_back(new scl::PRG(sd.data())); L.push_back({own[0].get(), {sd, 0}}); std::string h = "seed" + std::to_string(sd[0]);
    for (int d = 0; d < depth; ++d) {
      size_t k = ch.choose((int)L.size()); int op = ch.choose(c.thorough ? 11 : 9);
      h += fmt(" g%zu:", k);
      if (op == 0) { L[k].g->Reset(); L[k].m.ctr = 0; h += "reset"; c.ops(); if (L[k].g->Counter() != PRG_INITIAL_COUNTER) c.fail("prg/reset-counter", h); }
      else if (op == 1) { own.emplace_back(new scl::PRG(*L[k].g)); Live l = L[k]; l.g = own.back().get(); L.push_back(l); h += "copy"; c.ops(); }
      else if (op == 2) { bool t = false; Bytes v(3, 9); try { L[k].g->Next(v, 4); } catch (const std::exception&) { t = true; } h += "toolarge"; c.ops(); if (!t || v != Bytes(3, 9)) c.fail("prg/too-small-destination", h); if (L[k].g->Counter() != L[k].m.ctr + PRG_INITIAL_COUNTER) c.fail("prg/too-small-advances", h); }
      else if (op == 3) { *L[k].g = *L[0].g; L[k].m = L[0].m; h += "assign"; c.ops(); }
      else if (op <= 8) { int f = (d + op) % 4; h += fmt("next(%zu,form %d)", sz[op - 4], f); request(c, L[k], sz[op - 4], f, h); }
      else { int f = op == 9 ? 0 : 3; h += fmt("next(31,form %d)", f); request(c, L[k], 31, f, h); }
    }
    for (size_t k = 0; k < L.size(); ++k) request(c, L[k], 18, 0, h + " final");
    if (c.executions % 5000 == 0) c.sample(h);
  }, 1 << 30, 3);
}
// Long histories: thousands of small requests of every size pattern, so that the counter passes 2^8 and 2^16, with resets and copies on the way.
MC_SECTION(lengthy, 4, 8) {
  static const std::vector<std::vector<size_t>> pat = {{16}, {1}, {17}, {5, 16, 31}, {0, 33, 64, 7}, {160}, {15, 1}}; auto sds = seeds(false); size_t idx = 0;
  for (size_t p = 0; p < pat.size(); ++p) for (size_t form = 0; form < 4; ++form) { if (idx++ % c.shards != c.shard) continue; auto& P = pat[p]; auto sd = sds[(p + form) % sds.size()]; auto g = std::make_unique<scl::PRG>(sd.data()); Live l{g.get(), {sd, 0}}; c.cases(); c.checked();
    for (size_t i = 0; i < (size_t)c.q(700, 1500); ++i) { request(c, l, P[i % P.size()], (int)form, fmt("pattern %zu request %zu", p, i)); if (i == 300 || i == 620) { scl::PRG k(*l.g); Live m = l; m.g = &k; request(c, m, 40, 3, fmt("copy after request %zu of pattern %zu", i, p)); } if (i == 310 || i == 600) { l.g->Reset(); l.m.ctr = 0; c.ops(); if (l.g->Counter() != PRG_INITIAL_COUNTER) c.fail("prg/reset-counter", fmt("pattern %zu after %zu requests", p, i)); } if (c.fails.size() > 10) return; }
    // jump far ahead in one request, then small ones, a reset, the beginning again
    l.g->Reset(); l.m.ctr = 0; for (size_t far : {65530, 65534, 65535, 65536}) { if (far == 65535 && form) continue; l.g->Reset(); l.m.ctr = 0; size_t n = 16 * far; std::vector<unsigned char> sink(n); l.g->Next(sink); l.m.ctr = far; for (int i = 0; i < 12; ++i) request(c, l, P[i % P.size()], (int)form, fmt("request %d of pattern %zu past block %zu", i, p, far)); l.g->Reset(); l.m.ctr = 0; request(c, l, 50, (int)form, fmt("reset after block %zu", far)); } }
}
