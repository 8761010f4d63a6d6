// Bounded exhaustive exploration of real code: choice-tree enumeration, crash isolation, replay.
#ifndef VERIF_MC_H
#define VERIF_MC_H
#include <cstdint>
#include <cstdio>
#include <cstdarg>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

struct Skip {};         // this execution belongs to another shard
struct Prune {};        // the chosen case is outside the stated space

constexpr int kMaxChoices = 4096;
struct Shm {            // shared with the supervising parent
  volatile uint64_t beat;
  volatile uint32_t n;
  int choices[kMaxChoices];
  char note[512];
};

class Ctx;

class Chooser {
 public:
  // One of 0..n-1, every value explored.
  int choose(int n) { return pick(n, false); }
  bool flag() { return choose(2) != 0; }
  int range(int lo, int hi) { return lo + choose(hi - lo + 1); }
  template <class T> const T& of(const std::vector<T>& v) { return v[choose((int)v.size())]; }
  // Default 0; any other answer costs one deviation from the bound.
  int deviate(int n) { return pick(n, true); }
  int deviations() const { return mDev; }
  const std::vector<int>& seq() const { return mSeq; }
  size_t depth() const { return mPos; }

  std::vector<int> mSeq, mSize;
  std::vector<char> mIsDev;
  size_t mPos = 0;
  int mDev = 0, mBound = 1 << 30;
  int mShard = 0, mShards = 1, mShardDepth = 1;
  long mPrefixIdx = -1;
  size_t mFresh = 0;    // first position that is new in this execution
  bool mReplay = false;
  uint64_t mNodes = 0;
  Shm* mShm = nullptr;

  void begin() { mPos = 0; mDev = 0; if (mShm) mShm->n = 0; }
  bool next() {         // advance to the next leaf
    size_t i = mPos; mSeq.resize(i); mSize.resize(i); mIsDev.resize(i);
    while (i > 0) {
      if (mSeq[i-1] + 1 < mSize[i-1]) {
        mSeq[i-1]++; mSeq.resize(i); mSize.resize(i); mIsDev.resize(i); mFresh = i - 1; return true;
      }
      --i;
    }
    return false;
  }
 private:
  int pick(int n, bool dev) {
    if (n <= 0) throw Prune{};
    int eff = n;
    if (dev && mDev >= mBound) eff = 1;
    if (mReplay) {
      int v = mPos < mSeq.size() ? mSeq[mPos] : 0;
      if (v >= n) { fprintf(stderr, "mc: replay diverged at %zu: %d of %d\n", mPos, v, n); _Exit(77); }
      if (mPos >= mSeq.size()) mSeq.push_back(0);
      mPos++; if (dev && v) mDev++; note(v); return v;
    }
    if (mPos == mSeq.size()) { mSeq.push_back(0); mSize.push_back(eff); mIsDev.push_back(dev); mNodes++; }
    else {
      if (mSize[mPos] != eff) { fprintf(stderr, "mc: nondeterministic harness: choice %zu had %d options, now %d\n", mPos, mSize[mPos], eff); _Exit(78); }
      if (mPos >= mFresh) mNodes++;
    }
    int v = mSeq[mPos];
    if (dev && v) mDev++;
    note(v);
    bool fresh = mPos >= mFresh;
    mPos++;
    if (mShards > 1 && (int)mPos == mShardDepth && fresh) {
      mPrefixIdx++;
    }
    if (mShards > 1 && (int)mPos == mShardDepth && (mPrefixIdx % mShards) != mShard) throw Skip{};
    return v;
  }
  void note(int v) { if (mShm && mPos <= kMaxChoices) { size_t k = mShm->n; if (k < (size_t)kMaxChoices) { mShm->choices[k] = v; mShm->n = k + 1; } } }
};

struct Fail { std::string key, detail; std::vector<int> choices; uint64_t count = 1; };

class Ctx {
 public:
  bool thorough = false;
  int shard = 0, shards = 1;
  uint64_t states = 0, transitions = 0, traces = 0, executions = 0;
  bool capped = false;
  double deadline = 0;
  Shm* shm = nullptr;
  std::vector<int>* replay = nullptr;
  std::map<std::string, Fail> fails;
  std::map<std::string, uint64_t> counters;
  std::unordered_set<uint64_t> outcomes;
  std::vector<std::string> samples;
  std::string section;
  Chooser* cur = nullptr;

  int q(int quick, int thr) const { return thorough ? thr : quick; }
  void ops(uint64_t n = 1) { transitions += n; }
  void cases(uint64_t n = 1) { states += n; }
  void checked(uint64_t n = 1) { traces += n; if (shm) shm->beat++; }
  void one() { states++; transitions++; traces++; if (shm) shm->beat++; }   // one case, one operation, one comparison
  void outcome(uint64_t h) { if (outcomes.size() < 200000) outcomes.insert(h); }
  void count(const std::string& k, uint64_t n = 1) { counters[k] += n; }
  void sample(const std::string& s) { if (samples.size() < 3) samples.push_back(s); }
  void note(const std::string& s) { if (shm) { size_t n = std::min(s.size(), sizeof(shm->note) - 1); memcpy(shm->note, s.data(), n); shm->note[n] = 0; } }
  void fail(const std::string& key, const std::string& detail) {
    auto it = fails.find(key);
    if (it != fails.end()) { it->second.count++; return; }
    Fail f; f.key = key; f.detail = detail;
    if (cur) f.choices.assign(cur->mSeq.begin(), cur->mSeq.begin() + std::min(cur->mPos, cur->mSeq.size()));
    fails[key] = f;
    onfail();
  }
  bool check(bool ok, const std::string& key, const std::function<std::string()>& d) { if (!ok) fail(key, d()); return ok; }
  // Runs body for every sequence of choices (with at most `bound` deviations).
  void explore(const std::function<void(Chooser&)>& body, int bound = 1 << 30, int shardDepth = 1);
  std::function<void()> onfail = [] {};
};

using SectionFn = void (*)(Ctx&);
struct Section { std::string name; SectionFn fn; int shards_quick, shards_thorough; bool thorough_only; };
std::vector<Section>& sections();
struct Reg { Reg(const char* n, SectionFn f, int sq = 1, int st = 1, bool to = false) { sections().push_back({n, f, sq, st, to}); } };

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define MC_SECTION(ident, ...)                               \
  static void MC_CAT(mcs_, ident)(mc::Ctx&);                 \
  static mc::Reg MC_CAT(mcr_, ident)(#ident, MC_CAT(mcs_, ident), ##__VA_ARGS__); \
  static void MC_CAT(mcs_, ident)([[maybe_unused]] mc::Ctx& c)

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...) {
  char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; h *= 0xc4ceb9fe1a85ec53ull; return h ^ (h >> 29); }
template <class V> std::string join(const V& v) { std::ostringstream o; bool f = true; for (const auto& x : v) { if (!f) o << ','; o << x; f = false; } return o.str(); }

// What a call did: 0 returned, 1 threw std::exception, 2 threw something else.
template <class F> int outcome_of(F&& f, std::string* msg = nullptr) {
  try { f(); return 0; } catch (const Skip&) { throw; } catch (const Prune&) { throw; }
  catch (const std::exception& e) { if (msg) *msg = e.what(); return 1; } catch (...) { return 2; }
}

}  // namespace mc
#endif
