// C11: textual and binary forms of field elements, ring elements, vectors and matrices.
#include "mc.h"
#include "scl/math.h"
#include <memory>
#include <set>
using mc::fmt; using scl::NumberBase;
typedef unsigned __int128 u128; typedef uint64_t u64; typedef std::vector<unsigned char> Bytes;
namespace {
std::string S(u128 v) { if (!v) return "0"; std::string s; while (v) { s.insert(s.begin(), char('0' + int(v % 10))); v /= 10; } return s; }
template <class T> struct Tr;   // residue of an integer, bits of storage
template <> struct Tr<scl::FF<61>> { static u128 red(u128 v) { return v % (((u128)1 << 61) - 1); } static const int bits = 64; static std::string n() { return "FF61"; } };
template <> struct Tr<scl::FF<127>> { static u128 red(u128 v) { return v % (((u128)1 << 127) - 1); } static const int bits = 128; static std::string n() { return "FF127"; } };
template <size_t K> struct Tr<scl::Z2k<K>> { static u128 red(u128 v) { return K == 128 ? v : v & (((u128)1 << (K % 128)) - 1); } static const int bits = K <= 64 ? 64 : 128; static std::string n() { return fmt("Z2k%zu", K); } };
template <class T> u128 val(const T& e) { std::unique_ptr<unsigned char[]> b(new unsigned char[T::ByteSize()]); e.Write(b.get()); u128 v = 0; memcpy(&v, b.get(), T::ByteSize()); return v; }
template <class T> T mk(u128 v) { std::unique_ptr<unsigned char[]> b(new unsigned char[T::ByteSize()]); memcpy(b.get(), &v, T::ByteSize()); return T::Read(b.get()); }

// Reference decoder: 0 = malformed, 1 = integer in v, 2 = unspecified (too large, empty, non-canonical base64 tail).
int decode(const std::string& s, NumberBase b, int bits, u128& v) {
  v = 0; bool over = false; auto push = [&](unsigned mul, unsigned d) { u128 lim = ~(u128)0; if (v > (lim - d) / mul) over = true; v = v * mul + d; };
  if (s.empty()) return 2;
  if (b == NumberBase::BINARY || b == NumberBase::DECIMAL) { unsigned r = b == NumberBase::BINARY ? 2 : 10; for (char ch : s) { if (ch < '0' || ch >= (char)('0' + r)) return 0; push(r, ch - '0'); } }
  else if (b == NumberBase::HEX) { if (s.size() % 2) return 0; for (char ch : s) { int d = ch >= '0' && ch <= '9' ? ch - '0' : ch >= 'a' && ch <= 'f' ? ch - 'a' + 10 : ch >= 'A' && ch <= 'F' ? ch - 'A' + 10 : -1; if (d < 0) return 0; push(16, d); } }
  else {
    if (s.size() % 4) return 0; size_t pad = 0; while (pad < s.size() && s[s.size() - 1 - pad] == '=') ++pad; if (pad > 2) return 0;
    static const std::string al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string bitsS; for (size_t i = 0; i + pad < s.size(); ++i) { size_t d = al.find(s[i]); if (d == std::string::npos) return 0; for (int k = 5; k >= 0; --k) bitsS += (d >> k & 1) ? '1' : '0'; }
    size_t whole = bitsS.size() / 8 * 8; for (size_t i = whole; i < bitsS.size(); ++i) if (bitsS[i] == '1') return 2;
    for (size_t i = 0; i < whole; ++i) push(2, bitsS[i] - '0');
  }
  if (over) return 2; if (bits == 64 && v >> 64) return 2; return 1;
}
const char* bn(NumberBase b) { return b == NumberBase::BINARY ? "binary" : b == NumberBase::DECIMAL ? "decimal" : b == NumberBase::HEX ? "hex" : "base64"; }
template <class T> void parse(mc::Ctx& c, const std::string& s, NumberBase b) {
  u128 v; int kind = decode(s, b, Tr<T>::bits, v); T e; std::string msg; c.one(); c.note(Tr<T>::n() + " " + bn(b) + " '" + s + "'");
  int o = mc::outcome_of([&] { e = T::FromString(s, b); }, &msg);
  auto K = [&](const char* w) { return "parse/" + Tr<T>::n() + "/" + bn(b) + "/" + w; };
  if (kind == 0) { if (o != 1) c.fail(K("malformed-accepted"), "'" + s + "' accepted as " + e.ToString()); }
  else if (kind == 1) {
    if (o) c.fail(K("rejected"), "'" + s + "': " + msg);
    else {
      u128 r = Tr<T>::red(v); T x = mk<T>(r); c.ops(3);
      if (!(e == x)) c.fail(K("value"), "'" + s + "' gave " + e.ToString() + ", expected " + S(r));
      else if (e.ToString() != S(r) || val(e) != r) c.fail(K("canonical"), "'" + s + "' prints as " + e.ToString() + ", expected " + S(r));
      else if (!((e + T::FromString("1")) == (x + T::FromString("1")))) c.fail(K("arithmetic"), "'" + s + "'");
      c.outcome((u64)r);
    }
  }
  if (b == NumberBase::DECIMAL) { T d; int o2 = mc::outcome_of([&] { d = T::FromString(s); }); if (o2 != o || (o == 0 && !(d == e))) c.fail(K("default-base"), "'" + s + "'"); }
}
// The element of value r, computed in several ways.
template <class T> std::vector<T> ways(u128 r) {
  T e = mk<T>(r); std::vector<T> w; T one(1), m1 = T() - one, d = mk<T>(Tr<T>::red(((u128)0x9e3779b97f4a7c15ull << 64) | 0xf39cc0605cedc835ull)); d = d + (one - mk<T>(val(d) & 1));   // odd
  w.push_back((e - d) + d); w.push_back((e + d) - d); w.push_back((e - one) + one); w.push_back((e + one) - one); w.push_back((e - m1) + m1); w.push_back(T() - (T() - e)); w.push_back(-(-e)); w.push_back(m1 * (m1 * e)); w.push_back((e * d) * d.Inverse()); w.push_back(e * one); { T x = e; x += d; x += d; x -= d + d; w.push_back(x); } { T x = e; x *= d; x /= d; w.push_back(x); } { T x = e; x.Negate(); x.Negate(); w.push_back(x); }
  w.push_back(e + m1 + one); w.push_back(d * e - (d - one) * e); return w;
}
template <class T> void strings(mc::Ctx& c) {
  // every string over a small alphabet (digits, boundary characters, invalid neighbours)
  auto all = [&](const std::string& al, int len, NumberBase b) { c.explore([&](mc::Chooser& ch) { int n = ch.choose(len + 1); std::string s; for (int i = 0; i < n; ++i) s += al[ch.choose((int)al.size())]; parse<T>(c, s, b); }); };
  all("01/2", c.q(5, 8), NumberBase::BINARY); all("0179/: ", c.q(4, 6), NumberBase::DECIMAL); all("09afAF/:@Gg`", c.q(4, 5), NumberBase::HEX); all("AZaz09+/=.@[`{:", c.q(3, 4), NumberBase::BASE64); all("A/=B", 8, NumberBase::BASE64);
  // values of every magnitude in every base
  std::set<u128> vs; int B = Tr<T>::bits; u128 top = B == 128 ? ~(u128)0 : ~0ull;
  for (int i = 0; i < B; ++i) for (int d = -1; d <= 1; ++d) vs.insert((((u128)1 << i) + (u128)(__int128)d) & top);
  for (int bits : {61, 127, 64}) for (int m = 1; m <= 4; ++m) for (int d = -2; d <= 2; ++d) { u128 p = (((u128)1 << bits) - 1); u128 x = p * m + (u128)(__int128)d; if (bits * 1 + 2 <= B || m == 1 || (bits == 61 && m < 9)) vs.insert(x & top); }
  u128 pat = ((u128)0x0123456789abcdefull << 64) | 0xfedcba9876543210ull; for (int s = 0; s < 128; s += 3) { vs.insert((pat >> s) & top); vs.insert((pat << s) & top); vs.insert(~(pat << s) & top); } vs.insert(top);
  static const char* al = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  for (u128 v : vs) for (int lead = 0; lead < 3; ++lead) {
    std::string d = std::string(lead, '0') + S(v); parse<T>(c, d, NumberBase::DECIMAL);
    std::string bi; for (u128 w = v; w; w >>= 1) bi.insert(bi.begin(), char('0' + (int)(w & 1))); parse<T>(c, std::string(lead ? lead : bi.empty(), '0') + bi, NumberBase::BINARY);
    Bytes by; for (u128 w = v; w; w >>= 8) by.insert(by.begin(), (unsigned char)w); by.insert(by.begin(), lead, 0);
    std::string h, H; for (auto x : by) { h += fmt("%02x", x); H += fmt("%02X", x); } parse<T>(c, h, NumberBase::HEX); parse<T>(c, H, NumberBase::HEX);
    std::string b6; for (size_t i = 0; i < by.size(); i += 3) { unsigned w = by[i] << 16 | (i + 1 < by.size() ? by[i + 1] << 8 : 0) | (i + 2 < by.size() ? by[i + 2] : 0); b6 += al[w >> 18]; b6 += al[w >> 12 & 63]; b6 += i + 1 < by.size() ? al[w >> 6 & 63] : '='; b6 += i + 2 < by.size() ? al[w & 63] : '='; } parse<T>(c, b6, NumberBase::BASE64);
    // round trip of the canonical value
    T e = mk<T>(Tr<T>::red(v)); c.one();
    if (e.ToString() != S(Tr<T>::red(v))) c.fail("print/" + Tr<T>::n(), S(v)); std::ostringstream os; os << e; if (os.str() != e.ToString()) c.fail("print-stream/" + Tr<T>::n(), S(v));
    if (!(T::FromString(e.ToString()) == e)) c.fail("print-parse/" + Tr<T>::n(), S(v));
  }
  // leading zeros in bulk
  for (u128 v : {(u128)0, (u128)1, (u128)0x5a, (u128)0x0123456789abcdefull, top}) for (int lead : {3, 4, 5, 7, 8, 9, 15, 16, 17, 30, 33, 64, 65, 100, 257, 1000}) {
    parse<T>(c, std::string(lead, '0') + S(v), NumberBase::DECIMAL); std::string bi; for (u128 w = v; w; w >>= 1) bi.insert(bi.begin(), char('0' + (int)(w & 1))); parse<T>(c, std::string(lead, '0') + bi, NumberBase::BINARY);
    std::string h; for (u128 w = v; w; w >>= 8) h = fmt("%02x", (int)(w & 255)) + h; parse<T>(c, std::string(2 * lead, '0') + h, NumberBase::HEX); parse<T>(c, std::string(2 * lead + 1, '0') + h, NumberBase::HEX); parse<T>(c, std::string(4 * lead, 'A') + (v == 0x5a ? "AABa" : "AAAB"), NumberBase::BASE64); parse<T>(c, std::string(4 * lead, 'A') + (v == 0x5a ? "Wg==" : "AAE="), NumberBase::BASE64); parse<T>(c, std::string(lead, '0') + "x" + S(v), NumberBase::DECIMAL); }
  // a value reached by arithmetic prints like the value itself
  for (u128 v : vs) { u128 r = Tr<T>::red(v); T e = mk<T>(r); for (auto& f : ways<T>(r)) { c.one(); if (f.ToString() != S(r)) c.fail("print-computed/" + Tr<T>::n(), S(r) + " printed " + f.ToString()); std::ostringstream os; os << f; if (os.str() != S(r)) c.fail("print-computed/" + Tr<T>::n(), S(r)); std::unique_ptr<unsigned char[]> b(new unsigned char[T::ByteSize()]); f.Write(b.get()); T g = T::Read(b.get()); if (!(g == f) || !(g == e) || g.ToString() != S(r)) c.fail("roundtrip-computed/" + Tr<T>::n(), S(r)); } }
  // every single byte value in every position of a valid string
  for (int ch = 1; ch < 256; ++ch) for (size_t pos = 0; pos < 4; ++pos) { std::string s = "1101"; s[pos] = (char)ch; for (auto b : {NumberBase::BINARY, NumberBase::DECIMAL, NumberBase::HEX, NumberBase::BASE64}) parse<T>(c, s, b); std::string w = "AQAB"; w[pos] = (char)ch; parse<T>(c, w, NumberBase::BASE64); parse<T>(c, "AQAB" + w, NumberBase::BASE64); }
}
// Binary form: any number of elements, any alignment, exact buffers (ASan-guarded on both sides).
template <class T> void bytes(mc::Ctx& c) {
  std::vector<u128> vs = {0, 1, 2, (u128)0 - 1, ((u128)0x0123456789abcdefull << 64) | 0xfedcba9876543210ull, (u128)1 << 60, (u128)1 << 126, ((u128)1 << 61) - 2, ((u128)1 << 127) - 2, 0x00ff00ff00ff00ffull};
  size_t E = T::ByteSize(); int maxN = c.q(12, 40);
  std::vector<int> sizes; for (int n = 0; n <= maxN; ++n) sizes.push_back(n); for (int n : {63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 5000}) sizes.push_back(n);
  for (int off = 0; off < 17; ++off) for (int n : sizes) {
    if (n > maxN && off % 8 > 1) continue;
    c.one(); c.note(Tr<T>::n() + fmt(" vector of %d at offset %d", n, off));
    std::vector<T> el; for (int i = 0; i < n; ++i) el.push_back(mk<T>(Tr<T>::red(vs[(i + off) % vs.size()])));
    scl::Vec<T> v(el); c.ops(4);
    if (v.ByteSize() != n * E) c.fail("vec-bytesize/" + Tr<T>::n(), fmt("%d elements: %zu", n, v.ByteSize()));
    std::unique_ptr<unsigned char[]> b(new unsigned char[n * E + off]); memset(b.get(), 0xD1, n * E + off); v.Write(b.get() + off);
    for (int i = 0; i < off; ++i) if (b[i] != 0xD1) c.fail("vec-write-before/" + Tr<T>::n(), fmt("%d elements", n));
    for (int i = 0; i < n; ++i) { u128 x = 0; memcpy(&x, b.get() + off + i * E, E); if (x != val(el[i])) c.fail("vec-write/" + Tr<T>::n(), fmt("%d elements, entry %d", n, i)); }
    auto w = scl::Vec<T>::Read(n, b.get() + off); if (!w.Equals(v) || w.Size() != (size_t)n) c.fail("vec-roundtrip/" + Tr<T>::n(), fmt("%d elements at offset %d", n, off));
    for (int r = 1; r <= n; ++r) if (n % r == 0) {
      int co = n / r; c.ops(3); auto m = scl::Mat<T>::FromVector(r, co, el);
      if (m.ByteSize() != n * E) c.fail("mat-bytesize/" + Tr<T>::n(), fmt("%dx%d", r, co));
      std::unique_ptr<unsigned char[]> d(new unsigned char[n * E + off]); memset(d.get(), 0xD1, n * E + off); m.Write(d.get() + off);
      if (n && memcmp(d.get(), b.get(), n * E + off)) c.fail("mat-write/" + Tr<T>::n(), fmt("%dx%d", r, co));
      auto k = scl::Mat<T>::Read(r, co, d.get() + off); if (!k.Equals(m) || k.Rows() != (size_t)r || k.Cols() != (size_t)co) c.fail("mat-roundtrip/" + Tr<T>::n(), fmt("%dx%d", r, co));
    }
  }
  for (u128 v : vs) for (int off = 0; off < 17; ++off) {
    c.one(); T e = mk<T>(Tr<T>::red(v)); std::unique_ptr<unsigned char[]> b(new unsigned char[E + off]); memset(b.get(), 0x3c, E + off); e.Write(b.get() + off); T f = T::Read(b.get() + off); c.ops(2);
    if (!(f == e) || val(f) != val(e)) c.fail("roundtrip/" + Tr<T>::n(), S(v));
    for (int i = 0; i < off; ++i) if (b[i] != 0x3c) c.fail("write-before/" + Tr<T>::n(), S(v));
  }
}
}
MC_SECTION(str_ff61) { strings<scl::FF<61>>(c); } MC_SECTION(str_ff127) { strings<scl::FF<127>>(c); }
MC_SECTION(str_z1) { strings<scl::Z2k<1>>(c); } MC_SECTION(str_z12) { strings<scl::Z2k<12>>(c); } MC_SECTION(str_z64) { strings<scl::Z2k<64>>(c); }
MC_SECTION(str_z65) { strings<scl::Z2k<65>>(c); } MC_SECTION(str_z128) { strings<scl::Z2k<128>>(c); }
MC_SECTION(bytes_ff61) { bytes<scl::FF<61>>(c); } MC_SECTION(bytes_ff127) { bytes<scl::FF<127>>(c); }
MC_SECTION(bytes_z1) { bytes<scl::Z2k<1>>(c); } MC_SECTION(bytes_z12) { bytes<scl::Z2k<12>>(c); } MC_SECTION(bytes_z63) { bytes<scl::Z2k<63>>(c); } MC_SECTION(bytes_z64) { bytes<scl::Z2k<64>>(c); }
MC_SECTION(bytes_z65) { bytes<scl::Z2k<65>>(c); } MC_SECTION(bytes_z100) { bytes<scl::Z2k<100>>(c); } MC_SECTION(bytes_z128) { bytes<scl::Z2k<128>>(c); }
