// C26: network configurations: every party list, every file over small alphabets of lines, every local configuration.
#include <unistd.h>
#include <cstdlib>
#include <fstream>
#include "mc.h"
#include "scl/net/config.h"
using scl::NetworkConfig; using scl::Party;
namespace {
std::string show(const std::vector<Party>& p) { std::string s; for (auto& x : p) s += mc::fmt("{%u,%s,%d}", x.id, x.hostname.c_str(), x.port); return s; }
bool same(const Party& a, const Party& b) { return a.id == b.id && a.hostname == b.hostname && a.port == b.port; }
bool valid(unsigned id, const std::vector<Party>& p) { std::vector<char> seen(p.size()); if (id >= p.size()) return false; for (auto& x : p) { if (x.id >= p.size() || seen[x.id]) return false; seen[x.id] = 1; } return true; }
// everything a configuration answers, against the list it was made from
void observe(mc::Ctx& c, const char* what, const NetworkConfig& g, unsigned id, const std::vector<Party>& p, const std::string& d) {
  c.one();
  if (g.Id() != id) c.fail(std::string(what) + "-id", d + mc::fmt(": own id is %u", g.Id()));
  if (g.NetworkSize() != p.size()) return c.fail(std::string(what) + "-size", d + mc::fmt(": size is %zu", g.NetworkSize()));
  auto l = g.Parties(); if (l.size() != p.size()) return c.fail(std::string(what) + "-parties", d + ": " + show(l));
  for (size_t i = 0; i < p.size(); ++i) if (!same(l[i], p[i])) return c.fail(std::string(what) + "-parties", d + ": " + show(l));
  for (auto& x : p) { Party q; std::string msg; if (mc::outcome_of([&] { q = g.GetParty(x.id); }, &msg)) return c.fail(std::string(what) + "-lookup", d + mc::fmt(": GetParty(%u) throws ", x.id) + msg); if (!same(q, x)) return c.fail(std::string(what) + "-lookup", d + mc::fmt(": GetParty(%u) is ", x.id) + show({q})); }
  // the textual form names the own id and the parties, in the order listed
  std::string t = g.ToString(); size_t at = t.find(std::to_string(id)); if (at == std::string::npos) return c.fail(std::string(what) + "-text", d + ": " + t);
  at += std::to_string(id).size();
  for (auto& x : p) { std::string e = mc::fmt("{%u, %s, %d}", x.id, x.hostname.c_str(), x.port); size_t b = t.find(e, at); if (b == std::string::npos || t.substr(at, b - at).find('{') != std::string::npos) return c.fail(std::string(what) + "-text", d + ": " + t); at = b + e.size(); }
  if (t.find('{', at) != std::string::npos) c.fail(std::string(what) + "-text", d + ": " + t);
  uint64_t h = id; for (char ch : t) h = mc::mix(h, ch); c.outcome(h);
}
std::string tmpfile(const std::string& text) { static std::string name = std::string(getenv("VERIF_SCRATCH") ? getenv("VERIF_SCRATCH") : ".") + "/config-" + std::to_string(getpid()) + ".txt"; std::ofstream f(name, std::ios::trunc | std::ios::binary); f << text; return name; }
struct Line { std::string text; int kind; Party p; };   // kind 0: well-formed, 1: must be rejected
void load(mc::Ctx& c, unsigned id, const std::vector<Line>& ls, bool newline) {
  std::string text; std::vector<Party> p; bool ok = true; for (size_t i = 0; i < ls.size(); ++i) { text += ls[i].text; if (i + 1 < ls.size() || newline) text += "\n"; ok = ok && ls[i].kind == 0; p.push_back(ls[i].p); }
  ok = ok && valid(id, p); std::string d = mc::fmt("Load(%u) of \"", id) + text + "\"";
  c.note(d); NetworkConfig g; std::string msg; int rc = mc::outcome_of([&] { g = NetworkConfig::Load(id, tmpfile(text)); }, &msg); c.ops(1);
  if (ok && rc) { c.one(); return c.fail("load-spurious", d + " throws " + msg); }
  if (!ok) { c.one(); if (rc != 1) c.fail("load-accepts", d + " is accepted as " + (rc ? "?" : show(g.Parties()))); c.outcome(mc::mix(77, rc)); return; }
  observe(c, "load", g, id, p, d);
}
Line good(unsigned id, const std::string& h, int port) { return {mc::fmt("%u,%s,%d", id, h.c_str(), port), 0, Party{id, h, port}}; }
}
// constructor: every identity vector
MC_SECTION(construct, 4, 8) {
  c.explore([&](mc::Chooser& ch) {
    int n = ch.range(1, c.q(4, 5)); std::vector<Party> p; for (int i = 0; i < n; ++i) { unsigned id = ch.choose(n + 2); if (id == (unsigned)n + 1) id = 0xffffffffu; p.push_back({id, mc::fmt("10.0.0.%d", i + 1), 4000 + i}); }
    unsigned own = ch.choose(n + 2); if (own == (unsigned)n + 1) own = 0xffffffffu;
    std::string d = mc::fmt("NetworkConfig(%u, ", own) + show(p) + ")"; NetworkConfig g; std::string msg; int rc = mc::outcome_of([&] { g = NetworkConfig(own, p); }, &msg); c.ops(1);
    if (valid(own, p)) { if (rc) { c.one(); return c.fail("construct-spurious", d + " throws " + msg); } observe(c, "construct", g, own, p, d);
      auto h = g; observe(c, "copy", h, own, p, d); for (unsigned x : {(unsigned)n, (unsigned)n + 1, 0x7fffffffu, 0xffffffffu}) if (mc::outcome_of([&] { h.GetParty(x); }) != 1) c.fail("lookup-absent", d + mc::fmt(": GetParty(%u) answers", x)); }
    else { c.one(); if (rc != 1) c.fail("construct-accepts", d); }
    c.sample(d);
  }, 1 << 30, 2);
  c.one(); if (mc::outcome_of([&] { NetworkConfig g(0, {}); }) != 1) c.fail("construct-accepts", "an empty configuration");
  NetworkConfig dflt; if (dflt.NetworkSize() != 1 || dflt.Id() != 0 || dflt.GetParty(0).id != 0) c.fail("construct-default", dflt.ToString());
}
// files: every sequence of well-formed lines with every identity
MC_SECTION(files, 4, 8) {
  c.explore([&](mc::Chooser& ch) {
    int n = ch.range(0, c.q(4, 5)); std::vector<Line> ls; static const std::vector<std::string> hosts{"127.0.0.1", "10.0.0.7", "192.168.100.200", "h"};
    for (int i = 0; i < n; ++i) ls.push_back(good(ch.choose(n + 1), hosts[(i + n) % 4], i == 0 ? 65535 : i == 1 ? 1 : 9900 + i));
    unsigned own = ch.choose(n + 2); bool nl = ch.flag(); load(c, own, ls, nl); c.sample(mc::fmt("%d lines, own id %u", n, own));
  }, 1 << 30, 2);
}
// files with malformed lines, at every position among well-formed ones
MC_SECTION(malformed, 2, 4) {
  static const std::vector<std::string> bad{"", ",", ",,", "0", "0,", "0,127.0.0.1", "0 127.0.0.1 9900", "0;127.0.0.1;9900", "x,127.0.0.1,9900", ",127.0.0.1,9900", "0,127.0.0.1,", "0,127.0.0.1,x", "-1,127.0.0.1,9900", "%d,127.0.0.1,99999999999999999999",
    "99999999999999999999999,127.0.0.1,9900", "4294967295,h,1", "#comment", "id,host,port", " ", "127.0.0.1,9900"};
  // identities that only fit after wrapping around
  static const std::vector<std::string> wrap{"4294967296", "8589934592", "18446744073709551616", "-4294967296", "-18446744073709551616", "-18446744073709551615", "18446744073709551615", "-4294967295"};
  c.explore([&](mc::Chooser& ch) {
    int n = ch.range(1, 3), at = ch.choose(n), w = ch.choose((int)bad.size() + 8 * 1); std::vector<Line> ls;
    for (int i = 0; i < n; ++i) ls.push_back(good(i, "127.0.0.1", 9900 + i));
    if (w < (int)bad.size()) ls[at] = {mc::fmt(bad[w].c_str(), at), 1, {}};
    else { std::string t = wrap[w - bad.size()]; if (t == "4294967296" || t == "-4294967296" || t == "8589934592") t[t.size() - 1] += at; ls[at] = {t + ",127.0.0.1,9900", 1, {}}; }
    if (ls[at].text.empty() && at == n - 1) throw mc::Prune{};   // an empty last line is the end of the file
    unsigned own = ch.choose(n); load(c, own, ls, ch.flag()); c.sample(ls[at].text);
  });
  c.one(); if (mc::outcome_of([&] { NetworkConfig::Load(0, std::string(getenv("VERIF_SCRATCH")) + "/does-not-exist"); }) != 1) c.fail("load-accepts", "a file that does not exist");
}
// every short file over the characters that matter
MC_SECTION(text, 8, 8) {
  static const char* A = "01,x\n"; const int L = c.q(7, 8);
  c.explore([&](mc::Chooser& ch) {
    int n = ch.range(0, L); std::string t; for (int i = 0; i < n; ++i) t += A[ch.choose(5)];
    // reference reading: lines as std::getline yields them, id and port are digits, exactly two commas; other texts are outside
    std::vector<Party> p; bool ok = true, outside = false; size_t i = 0;
    while (i < t.size()) { size_t e = t.find('\n', i); if (e == std::string::npos) e = t.size(); std::string l = t.substr(i, e - i); i = e + 1;
      size_t a = l.find(','), b = l.rfind(','); if (a == std::string::npos) { ok = false; continue; } if (a == b) { ok = false; continue; }
      std::string id = l.substr(0, a), h = l.substr(a + 1, b - a - 1), po = l.substr(b + 1); if (h.find(',') != std::string::npos) outside = true;
      auto num = [&](const std::string& s) { if (s.empty() || s[0] == 'x') { ok = false; return 0ul; } if (s.find('x') != std::string::npos) { outside = true; return 0ul; } return std::stoul(s); };
      p.push_back({(unsigned)num(id), h, (int)num(po)}); }
    unsigned own = ch.choose(2); bool good = ok && valid(own, p); if (ok && outside) throw mc::Prune{};
    c.ops(1); c.one(); NetworkConfig g; std::string msg; int rc = mc::outcome_of([&] { g = NetworkConfig::Load(own, tmpfile(t)); }, &msg); std::string d = mc::fmt("Load(%u) of \"%s\"", own, t.c_str());
    if (good) { if (rc) return c.fail("load-spurious", d + " throws " + msg); observe(c, "load", g, own, p, d); } else if (rc != 1) c.fail("load-accepts", d);
  }, 1 << 30, 3);
}
MC_SECTION(localhost, 1, 1) {
  c.explore([&](mc::Chooser& ch) {
    int n = ch.range(0, c.q(12, 40)), kind = ch.choose(6); unsigned id = ch.choose(n + 3); if (id == (unsigned)n + 2) id = 0xffffffffu; int base = kind == 0 ? 9900 : kind == 1 ? 1 : kind == 2 ? 50000 : kind == 3 ? 65500 : 0;
    std::vector<Party> p; if (kind == 5) base = DEFAULT_PORT_OFFSET; for (int i = 0; i < n; ++i) p.push_back({(unsigned)i, "127.0.0.1", base + i});
    std::string d = mc::fmt("Localhost(%u, %d, %d)", id, n, base); NetworkConfig g; std::string msg; int rc = mc::outcome_of([&] { g = kind == 5 ? NetworkConfig::Localhost(id, n) : NetworkConfig::Localhost(id, n, base); }, &msg); c.ops(1);
    if (id < (unsigned)n) { if (rc) { c.one(); return c.fail("localhost-spurious", d + " throws " + msg); } observe(c, "localhost", g, id, p, d); } else { c.one(); if (rc != 1) c.fail("localhost-accepts", d); }
    c.sample(d);
  });
}
// Many parties: every order pattern, every single flaw (a repeated or out-of-range identity, at every listed pair of positions), by constructor and by file.
MC_SECTION(many, 4, 8) {
  std::vector<int> N{5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 20, 33, 64, 65, 100, 129, 256, 257}; if (c.thorough) for (int n : {13, 14, 15, 31, 32, 63, 128, 255, 300, 1000}) N.push_back(n);
  static const std::vector<size_t> hl{1, 9, 15, 16, 31, 63, 64, 255, 256, 1000};
  c.explore([&](mc::Chooser& ch) {
    int n = ch.of(N), ord = ch.choose(4), own = ch.choose(5); bool file = ch.flag(); int flaw = ch.choose(4); unsigned id = own == 0 ? 0 : own == 1 ? n / 2 : own == 2 ? n - 1 : own == 3 ? n : n + 1;
    if (own > 2 && flaw) throw mc::Prune{};
    std::vector<Party> p; for (int i = 0; i < n; ++i) { unsigned k = ord == 0 ? i : ord == 1 ? n - 1 - i : ord == 2 ? (i + n / 2) % n : i % 2 ? i / 2 : n - 1 - i / 2; std::string h = file ? std::string(hl[(i + ord) % (n > 70 ? 6 : hl.size())], 'a' + i % 26) : mc::fmt("10.1.%d.%d", i / 200, i % 200); p.push_back({k, h, i % 3 == 0 ? 65535 - i : 1 + i * 7 % 60000}); }
    auto spots = [&](int m) { std::vector<int> v{0, 1, m / 2, m - 2, m - 1}; if (m <= c.q(12, 40)) { v.clear(); for (int i = 0; i < m; ++i) v.push_back(i); } return v; };
    if (flaw) { auto S = spots(n); int i = ch.of(S); if (flaw == 1) { int j = ch.of(S); if (i == j) throw mc::Prune{}; p[j].id = p[i].id; } else if (flaw == 2) p[i].id = n; else p[i].id = ch.flag() ? n + 1 : 0x7fffffff; }
    bool good = valid(id, p); std::string d = mc::fmt("%d parties, order %d, own id %u, flaw %d, ", n, ord, id, flaw) + (file ? "file" : "list"); NetworkConfig g; std::string msg; c.ops(1);
    std::string text; if (file) for (size_t i = 0; i < p.size(); ++i) text += mc::fmt("%u,", p[i].id) + p[i].hostname + mc::fmt(",%d", p[i].port) + (i + 1 < p.size() || ord != 1 ? "\n" : "");
    int rc = mc::outcome_of([&] { g = file ? NetworkConfig::Load(id, tmpfile(text)) : NetworkConfig(id, p); }, &msg);
    if (good) { if (rc) { c.one(); return c.fail("many-spurious", d + " throws " + msg); } observe(c, "many", g, id, p, d); if (mc::outcome_of([&] { g.GetParty(n); }) != 1 || mc::outcome_of([&] { g.GetParty(n + 256); }) != 1) c.fail("lookup-absent", d); } else { c.one(); if (rc != 1) c.fail("many-accepts", d); }
  }, 1 << 30, 2);
}
