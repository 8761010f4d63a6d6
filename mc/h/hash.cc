// C19: SHA3-256/384/512 against an independent bit-level reference, for every chunking within the bounds.
#include "mc.h"
#include "scl/hash.h"
#include <memory>
using mc::fmt;
typedef std::vector<unsigned char> Bytes;
namespace {
// Reference straight from FIPS 202: theta/rho/pi/chi/iota on a 5x5 array, round constants from the LFSR.
struct Ref {
  static uint64_t rot(uint64_t x, unsigned n) { n %= 64; return n ? (x << n) | (x >> (64 - n)) : x; }
  static bool rc(unsigned t) { t %= 255; unsigned R = 1; for (unsigned i = 0; i < t; ++i) { R <<= 1; if (R & 0x100) R ^= 0x171; } return R & 1; }
  static const uint64_t* RCs() { static uint64_t r[24]; static bool init = false; if (!init) { for (unsigned i = 0; i < 24; ++i) { r[i] = 0; for (unsigned j = 0; j <= 6; ++j) if (rc(j + 7 * i)) r[i] |= 1ull << ((1u << j) - 1); } init = true; } return r; }
  static const unsigned (*off())[5] { static unsigned o[5][5]; static bool init = false; if (!init) { unsigned x = 1, y = 0; o[0][0] = 0; for (unsigned t = 0; t < 24; ++t) { o[x][y] = ((t + 1) * (t + 2) / 2) % 64; unsigned ny = (2 * x + 3 * y) % 5; x = y; y = ny; } init = true; } return o; }
  static void f(uint64_t A[5][5]) {
    auto O = off();
    for (unsigned r = 0; r < 24; ++r) {
      uint64_t C[5], D[5], B[5][5];
      for (int x = 0; x < 5; ++x) C[x] = A[x][0] ^ A[x][1] ^ A[x][2] ^ A[x][3] ^ A[x][4];
      for (int x = 0; x < 5; ++x) D[x] = C[(x + 4) % 5] ^ rot(C[(x + 1) % 5], 1);
      for (int x = 0; x < 5; ++x) for (int y = 0; y < 5; ++y) A[x][y] ^= D[x];
      for (int x = 0; x < 5; ++x) for (int y = 0; y < 5; ++y) B[y][(2 * x + 3 * y) % 5] = rot(A[x][y], O[x][y]);
      for (int x = 0; x < 5; ++x) for (int y = 0; y < 5; ++y) A[x][y] = B[x][y] ^ (~B[(x + 1) % 5][y] & B[(x + 2) % 5][y]);
      A[0][0] ^= RCs()[r];
    }
  }
  static Bytes sha3(const Bytes& m, unsigned bits) {
    size_t rate = 200 - 2 * bits / 8; Bytes p = m; p.push_back(0x06); while (p.size() % rate) p.push_back(0); p.back() |= 0x80;
    uint64_t A[5][5] = {};
    for (size_t o = 0; o < p.size(); o += rate) { for (size_t i = 0; i < rate; ++i) A[(i / 8) % 5][(i / 8) / 5] ^= (uint64_t)p[o + i] << (8 * (i % 8)); f(A); }
    Bytes d(bits / 8); for (size_t i = 0; i < d.size(); ++i) d[i] = (unsigned char)(A[(i / 8) % 5][(i / 8) / 5] >> (8 * (i % 8)));
    return d;
  }
};
Bytes msg(size_t n, int kind) { Bytes b(n); for (size_t i = 0; i < n; ++i) b[i] = kind == 0 ? (unsigned char)(i * 37 + 11 + (i >> 8)) : kind == 1 ? 0 : kind == 2 ? 0xff : (unsigned char)(i * i * 7 + i / 3); return b; }
template <unsigned B> Bytes dig(const Bytes& m, const std::vector<size_t>& cuts, bool vec) {
  scl::details::Hash<B> h; size_t o = 0;
  for (size_t k = 0; k <= cuts.size(); ++k) {
    size_t e = k < cuts.size() ? cuts[k] : m.size();
    std::unique_ptr<unsigned char[]> q(new unsigned char[e - o]); memcpy(q.get(), m.data() + o, e - o);
    if (vec) h.Update(Bytes(m.begin() + o, m.begin() + e)); else h.Update(q.get(), e - o);
    o = e;
  }
  auto d = h.Finalize(); return Bytes(d.begin(), d.end());
}
template <unsigned B> struct Known { static Bytes d(size_t n, int kind) { static std::map<std::pair<size_t, int>, Bytes> m; auto& r = m[{n, kind}]; if (r.empty()) r = Ref::sha3(msg(n, kind), B); return r; } };
template <unsigned B> void cmp(mc::Ctx& c, size_t n, int kind, const std::vector<size_t>& cuts, bool vec = false) {
  Bytes m = msg(n, kind); c.ops(cuts.size() + 2); c.checked(); c.cases();
  Bytes r = dig<B>(m, cuts, vec), e = Known<B>::d(n, kind);
  uint64_t h = 0; for (int i = 0; i < 8; ++i) h = h << 8 | r[i]; c.outcome(h);
  if (r != e) c.fail(fmt("sha3/%u/%s", B, cuts.empty() ? "one-shot" : "chunked"), fmt("message kind %d of %zu bytes split at [%s]", kind, n, mc::join(cuts).c_str()));
}
template <unsigned B> void oneshot(mc::Ctx& c) {
  int top = c.q(700, 3000);
  for (int n = 0; n <= top; ++n) for (int k = 0; k < 4; ++k) { cmp<B>(c, n, k, {}); if (n < 40) cmp<B>(c, n, k, {}, true); }
}
// Every bit of a short message matters in the right place.
template <unsigned B> void bits(mc::Ctx& c) {
  for (size_t n : {1, 7, 8, 9, 16, 24}) for (size_t bit = 0; bit < 8 * n; ++bit) {
    Bytes m(n, 0); m[bit / 8] = 1 << (bit % 8); c.one();
    scl::details::Hash<B> h; h.Update(m.data(), n); auto d = h.Finalize();
    if (Bytes(d.begin(), d.end()) != Ref::sha3(m, B)) c.fail(fmt("sha3/%u/bit", B), fmt("%zu zero bytes with bit %zu set", n, bit));
  }
}
// All chunkings: every way to cut short messages (compositions, with empty pieces), and every pair/triple of cut
// positions around the word and block boundaries of longer ones.
template <unsigned B> void chunks(mc::Ctx& c) {
  size_t rate = 200 - 2 * B / 8;
  int small = c.q(13, 17);
  for (int n = 0; n <= small; ++n) for (unsigned mask = 0; mask < (1u << (n ? n - 1 : 0)); ++mask) {
    std::vector<size_t> cuts; for (int i = 1; i < n; ++i) if (mask >> (i - 1) & 1) cuts.push_back(i);
    cmp<B>(c, n, 0, cuts);
  }
  for (int n = 0; n <= small; ++n) for (int p = 0; p <= n; ++p) { cmp<B>(c, n, 0, {(size_t)p, (size_t)p}); cmp<B>(c, n, 0, {0, (size_t)p, (size_t)p, (size_t)n}, true); }
  std::vector<size_t> tot; for (size_t k = 1; k <= 2; ++k) for (int d : {-8, -1, 0, 1, 8, 9}) tot.push_back(k * rate + d);
  if (!c.thorough) tot = {rate - 8, rate - 1, rate, rate + 1, 2 * rate, 2 * rate + 1};
  for (size_t n : tot) {
    for (size_t p = 0; p <= n; ++p) cmp<B>(c, n, 0, {p});
    std::vector<size_t> pos; for (size_t p = 0; p <= n; ++p) { size_t r = p % rate; bool near = r <= 9 || r + 9 >= rate || p + 9 >= n; if (c.thorough || near) pos.push_back(p); }
    for (size_t i = 0; i < pos.size(); ++i) for (size_t j = i; j < pos.size(); ++j) cmp<B>(c, n, 3, {pos[i], pos[j]});
  }
  for (size_t step = 1; step <= 40; ++step) for (size_t n : {rate * 2 + 5, rate * 3}) { std::vector<size_t> cuts; for (size_t p = step; p < n; p += step) cuts.push_back(p); cmp<B>(c, n, 0, cuts); }
}
}
MC_SECTION(selftest) {   // the reference itself against published digests of the empty message and of "abc"
  auto hex = [](const Bytes& b) { std::string s; for (auto x : b) s += fmt("%02x", x); return s; };
  Bytes abc = {'a', 'b', 'c'}; c.one();
  if (hex(Ref::sha3({}, 256)) != "a7ffc6f8bf1ed76651c14756a061d662f580ff4de43b49fa82d80a4b80f8434a" || hex(Ref::sha3(abc, 256)) != "3a985da74fe225b2045c172d6bd390bd855f086e3e9d525b46bfe24511431532" ||
      hex(Ref::sha3(abc, 512)).substr(0, 32) != "b751850b1a57168a5693cd924b6b096e" || hex(Ref::sha3(abc, 384)).substr(0, 32) != "ec01498288516fc926459f58e2c6ad8d") { fprintf(stderr, "reference SHA-3 is wrong\n"); _Exit(77); }
}
MC_SECTION(oneshot256) { oneshot<256>(c); } MC_SECTION(oneshot384) { oneshot<384>(c); } MC_SECTION(oneshot512) { oneshot<512>(c); }
MC_SECTION(bits256) { bits<256>(c); } MC_SECTION(bits384) { bits<384>(c); } MC_SECTION(bits512) { bits<512>(c); }
MC_SECTION(chunks256) { chunks<256>(c); } MC_SECTION(chunks384) { chunks<384>(c); } MC_SECTION(chunks512) { chunks<512>(c); }
// Long messages, whole and in pieces of every listed size.
namespace { template <unsigned B> void lengthy(mc::Ctx& c) {
  std::vector<size_t> N{4095, 4096, 16383, 65535, 65536, 65537, 100003}; if (c.thorough) for (size_t n : {8192, 32769, 131072, 300007, 1000003}) N.push_back(n);
  for (size_t n : N) { cmp<B>(c, n, 0, {}); for (size_t step : {1, 3, 7, 8, 9, 63, 64, 71, 72, 73, 103, 104, 105, 135, 136, 137, 255, 256, 1000, 4096, 65535, 65536}) { if (step >= n || (step == 1 && n > 70000)) continue; std::vector<size_t> cuts; for (size_t p = step; p < n; p += step) cuts.push_back(p); cmp<B>(c, n, 0, cuts); if (step > 1) { for (auto& p : cuts) p -= step / 2; cmp<B>(c, n, 3, cuts); } } }
} }
MC_SECTION(lengthy256) { lengthy<256>(c); } MC_SECTION(lengthy384) { lengthy<384>(c); } MC_SECTION(lengthy512) { lengthy<512>(c); }
// Lengths beyond 31 and 32 bits. Whoever computes the digest of a message has to read all of it: when only its first pages can be
// read, one update must run into the missing ones; an update which returns has cut the length.
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <atomic>
#include <thread>
namespace {
template <unsigned B> void cutoff(mc::Ctx& c) {
  const uint64_t G = 1ull << 30; const size_t total = 36 * G; auto* p = (unsigned char*)mmap(nullptr, total, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED || mprotect(p, 1 << 18, PROT_READ | PROT_WRITE)) throw std::runtime_error("harness: mmap");
  for (uint64_t n : {2 * G - 1, 2 * G, 2 * G + 5, 4 * G - 1, 4 * G, 4 * G + 5, 4 * G + 200, 8 * G, 8 * G + 77, 16 * G, 16 * G + 65536 * 2 + 3, 17 * G + 9, 32 * G, 32 * G + 5, 33 * G + 3}) for (size_t before : {0, 3, 8, 100}) {
    c.cases(); c.checked(); c.ops(2); std::string d = fmt("an update of %llu bytes after one of %zu bytes", (unsigned long long)n, before); pid_t k = fork(); if (k < 0) throw std::runtime_error("harness: fork");
    if (!k) { struct sigaction a = {}; a.sa_handler = [](int) { _exit(7); }; sigaction(SIGSEGV, &a, nullptr); sigaction(SIGBUS, &a, nullptr); alarm(60); int rc = 3; try { scl::details::Hash<B> h; h.Update(p, before); h.Update(p, n); } catch (...) { rc = 4; } _exit(rc); }
    int st = 0; waitpid(k, &st, 0); int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st); c.outcome(mc::mix(rc, n)); c.sample(d);
    if (rc != 7) c.fail(fmt("sha3/%u/length", B), d + (rc == 3 ? " returns without having read the message" : fmt(" ends with code %d", rc)));
  }
  munmap(p, total);
}
// the whole of a message of 4 GiB and five bytes, against the digest another library (OpenSSL) gives for it
template <unsigned B> void gigabytes(mc::Ctx& c, const char* want) {
  const size_t n = (4ull << 30) + 5; auto* p = (unsigned char*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) throw std::runtime_error("harness: mmap");
  for (size_t g = 0; g < 4; ++g) p[(g << 30) + 77 * g] = (unsigned char)(g + 1); for (size_t i = 0; i < 5; ++i) p[n - 5 + i] = (unsigned char)(i + 9);
  c.cases(); c.ops(1); std::atomic<bool> done{false}; std::string got; std::thread t([&] { scl::details::Hash<B> h; h.Update(p, n); for (auto b : h.Finalize()) got += fmt("%02x", b); done = true; });
  while (!done) { c.shm->beat++; for (int i = 0; i < 10 && !done; ++i) usleep(100000); }
  t.join(); c.checked(); if (got != want) c.fail(fmt("sha3/%u/gigabytes", B), fmt("digest of %zu bytes is %s", n, got.c_str())); munmap(p, n);
}
}
MC_SECTION(cutoff256) { cutoff<256>(c); } MC_SECTION(cutoff384) { cutoff<384>(c); } MC_SECTION(cutoff512) { cutoff<512>(c); }
MC_SECTION(gigabytes256, 1, 1, true) { gigabytes<256>(c, "6ae278468e06a6d147950705e5e37ae8f1cda4c63d18cfbca028581144686930"); }
