#include "sched.h"
#include <arpa/inet.h>
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <malloc.h>
#include <netinet/in.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/single_threaded.h>
#include <sys/socket.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <new>
#include <unordered_map>
#include <chrono>
#include <future>
#include <bits/atomic_futex.h>

extern "C" void vs_switch(void** save, void* to);
asm(R"(
.text
.globl vs_switch
.type vs_switch,@function
vs_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq %rsi,%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");
namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept; }

namespace sched {
using std::string; using std::vector;
constexpr size_t kStack = 512 * 1024;
struct EH { void* p; unsigned n; };
struct Fiber {
  int id, parent; string name, host; void* sp = nullptr; char* stack = nullptr; std::function<void()> fn; bool thread = false;   // thread: created by pthread_create
  bool done = false, joined = false, detached = false; void* ret = nullptr;
  const char* opname = "start"; vector<Acc> acc; std::function<bool()> guard; bool sleeper = false; bool timed = false; bool forced = false; uint64_t progressSeen = 0; int sleeps = 0, spur = 0;
  VC d, s; Msg end; EH eh{nullptr, 0}; void* oc = nullptr; void (*of)() = nullptr; int err = 0; uint64_t runs = 0;
};
struct Ev { int proc; int node; uint32_t idx; };
struct Obj { vector<std::pair<uint32_t, char>> hist; VC w, r, s, c, l; };
// a set of fibers
constexpr int MAXF = 384;
struct M {
  uint64_t w[MAXF / 64] = {};
  M() {} M(int) {}   // only ever from 0
  static M of(int i) { M m; m.w[i / 64] = 1ull << (i % 64); return m; }
  bool has(int i) const { return w[i / 64] >> (i % 64) & 1; }
  explicit operator bool() const { uint64_t a = 0; for (auto x : w) a |= x; return a; }
  friend M operator&(M a, const M& b) { for (int i = 0; i < MAXF / 64; ++i) a.w[i] &= b.w[i]; return a; }
  friend M operator|(M a, const M& b) { for (int i = 0; i < MAXF / 64; ++i) a.w[i] |= b.w[i]; return a; }
  M& operator|=(const M& b) { return *this = *this | b; }
  friend bool operator!=(const M& a, const M& b) { for (int i = 0; i < MAXF / 64; ++i) if (a.w[i] != b.w[i]) return true; return false; }
  M operator~() const { M r; for (int i = 0; i < MAXF / 64; ++i) r.w[i] = ~w[i]; return r; }
};
static inline int lowest(const M& m) { for (int i = 0;; ++i) if (m.w[i]) return 64 * i + __builtin_ctzll(m.w[i]); }
struct Node { bool choice = false; unsigned n = 0, cur = 0; M enabled = 0, backtrack = 0, done = 0, sleep = 0; int chosen = -1; int preempts = 0; uint32_t ev = 0; };
struct Mx { int owner = -1; int depth = 0; Msg m; };
struct Cv { vector<int> waiters; vector<char> woken; };
struct Once { int st = 0; Msg m; };

// ---- one execution
static Opts O; static Stats ST;
static vector<Fiber*> F; static Fiber* cur = nullptr; static void* mainsp; static EH maineh; static void* mainoc; static void (*mainof)();
static vector<Ev> events; static vector<vector<Acc>> evacc;
static std::unordered_map<const void*, Obj> objs;
static std::unordered_map<const void*, Mx> mxs; static std::unordered_map<const void*, Cv> cvs; static std::unordered_map<const void*, Once> onces;
static vector<Node> nodes; static size_t pos; static bool runout; static M sleepNow; static int preNow, lastRun;
static std::function<bool(const End&)> endCheck; static End* curEnd;
static uint64_t progress; static Msg progressMsg;
static vector<char*> freeStacks;
static bool inExec = false;

bool managed() { return cur != nullptr; }
uint64_t tick() { static uint64_t t; return ++t; }
int self() { return cur ? cur->id : -1; }
const Opts& opts() { return O; }
void error(const string& w) { if (curEnd && curEnd->errors.size() < 10) curEnd->errors.push_back((cur ? cur->name + ": " : string()) + w); }
string End::str() const {
  string r; if (deadlock) r += "deadlock "; if (livelock) r += "livelock "; for (auto& b : blocked) r += "[" + b + "] "; for (auto& e : errors) r += "{" + e + "} "; for (auto& e : races) r += "{race: " + e + "} "; return r;
}
namespace tsan { void reset(); void clearRange(const void*, size_t); void report(End&); }
namespace net { void reset(); }

static void saveTls(EH& eh, void*& oc, void (*&of)()) { memcpy(&eh, (void*)__cxxabiv1::__cxa_get_globals(), sizeof(EH)); oc = std::__once_callable; of = std::__once_call; }
static void loadTls(const EH& eh, void* oc, void (*of)()) { memcpy((void*)__cxxabiv1::__cxa_get_globals(), &eh, sizeof(EH)); std::__once_callable = oc; std::__once_call = of; }
static void toMain() { Fiber* f = cur; f->err = errno; saveTls(f->eh, f->oc, f->of); cur = nullptr; vs_switch(&f->sp, mainsp); }
static void resume(Fiber* f) {
  saveTls(maineh, mainoc, mainof); loadTls(f->eh, f->oc, f->of); cur = f; f->runs++; errno = f->err;
  vs_switch(&mainsp, f->sp);
  loadTls(maineh, mainoc, mainof);
}
static void entry() {
  Fiber* f = cur;
  try { f->fn(); }
  catch (const std::exception& e) { error(string("uncaught exception (the process would be terminated): ") + e.what()); }
  catch (...) { error("uncaught exception (the process would be terminated)"); }
  f->fn = nullptr; f->done = true; release(f->end);
  toMain(); abort();
}
static Fiber* newFiber(const string& name, std::function<void()> fn) {
  Fiber* f = new Fiber; f->id = (int)F.size(); f->parent = cur ? cur->id : -1; f->name = name; f->fn = std::move(fn);
  if (f->id >= MAXF) { fprintf(stderr, "sched: too many fibers\n"); abort(); }
  if (!freeStacks.empty()) { f->stack = freeStacks.back(); freeStacks.pop_back(); }
  else { f->stack = (char*)mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (f->stack == MAP_FAILED) { perror("mmap"); abort(); } mprotect(f->stack, 4096, PROT_NONE); }
  uint64_t* t = (uint64_t*)(f->stack + kStack - 72); t[0] = 0;   // return address of entry()
  uint64_t* sp = t - 1; *sp = (uint64_t)&entry; for (int i = 0; i < 6; ++i) *--sp = 0; --sp; uint32_t* c = (uint32_t*)sp; asm volatile("stmxcsr %0" : "=m"(c[0])); asm volatile("fnstcw %0" : "=m"(c[1]));
  f->sp = sp;
  if (cur) { f->host = cur->host; Msg m; release(m); f->d = m.d; f->s = m.s; } 
  f->s.set(f->id, 1);
  F.push_back(f); return f;
}
int spawn(const string& name, std::function<void()> fn, const string& host) { Fiber* f = newFiber(name, std::move(fn)); f->host = host; return f->id; }
void release(Msg& m) { if (!cur) return; m.d.join(cur->d); m.s.join(cur->s); cur->s.set(cur->id, cur->s.get(cur->id) + 1); }
void acquire(const Msg& m) { if (!cur) return; cur->d.join(m.d); cur->s.join(m.s); }
static void doop(const char* name, std::initializer_list<Acc> acc, const std::function<bool()>& guard, bool sleeper = false, bool timed = false) {
  Fiber* f = cur; f->opname = name; f->acc.assign(acc.begin(), acc.end()); f->guard = guard; f->sleeper = sleeper; f->timed = timed; f->forced = false;
  int e = errno; toMain(); errno = e; f->guard = nullptr;
}
void op(const char* name, std::initializer_list<Acc> acc, const std::function<bool()>& guard) { if (!cur) return; doop(name, acc, guard); }
unsigned choose(unsigned n) {
  if (n <= 1 || !inExec) return 0;
  if (runout) return 0;
  ST.choices++;
  if (pos == nodes.size()) { Node x; x.choice = true; x.n = n; nodes.push_back(x); }
  Node& x = nodes[pos++];
  if (!x.choice || x.n != n) { fprintf(stderr, "sched: nondeterministic execution (choice of %u, had %u)\n", n, x.n); _exit(78); }
  return x.cur;
}
static bool conflict(char a, char b) { if (a == 'W' || b == 'W') return true; if (a == 'R' && b == 'R') return false; return a == b; }
static bool dependent(const vector<Acc>& a, const vector<Acc>& b) { for (auto& x : a) for (auto& y : b) if (x.o == y.o && conflict(x.m, y.m)) return true; return false; }
static void addBacktrack(int n, int p) {
  Node& x = nodes[n]; const VC& c = F[p]->d; M E = 0;
  uint32_t i = x.ev;
  if (x.enabled.has(p)) E |= M::of(p);
  for (size_t q = 0; q < F.size(); ++q) if ((int)q != p && (x.enabled.has(q)) && c.get(q) > i + 1) E |= M::of(q);
  if (E & (x.backtrack | x.done)) return;
  if (E.has(p)) x.backtrack |= M::of(p); else if (E) x.backtrack |= M::of(lowest(E)); else x.backtrack |= x.enabled;
}
static void races(int p) {   // events that conflict with p's next transition and are not ordered before it
  Fiber* f = F[p];
  for (auto& a : f->acc) { auto it = objs.find(a.o); if (it == objs.end()) continue;
    for (auto h = it->second.hist.rbegin(); h != it->second.hist.rend(); ++h) {
      const Ev& e = events[h->first]; if (e.proc == p || !conflict(a.m, h->second)) continue;
      if (f->d.get(e.proc) >= e.idx + 1) continue;
      if (e.node >= 0) addBacktrack(e.node, p);
    } }
}
static bool traceOn = getenv("MC_TRACE");
static void runOnce(const Body& body) {
  if (traceOn) fprintf(stderr, "execution %llu\n", (unsigned long long)ST.executions);
  F.clear(); events.clear(); evacc.clear(); objs.clear(); mxs.clear(); cvs.clear(); onces.clear(); pos = 0; runout = false; sleepNow = 0; progressMsg = Msg(); preNow = 0; lastRun = -1; progress = 0; tsan::reset(); net::reset();
  End end; curEnd = &end; inExec = true; endCheck = body();
  int forcedRounds = 0; uint64_t forcedAt = 0;
  while (true) {
    M en = 0; bool alive = false;
    for (auto* f : F) if (!f->done) { alive = true; if (f->sleeper ? progress > f->progressSeen : (!f->guard || f->guard())) en |= M::of(f->id); }
    if (!alive) break;
    if (!en) {
      for (auto* f : F) if (!f->done && (f->sleeper || f->timed)) { en |= M::of(f->id); }
      if (en) { if (forcedAt != progress) { forcedAt = progress; forcedRounds = 0; } if (++forcedRounds > 6) { end.livelock = true; break; } for (auto* f : F) if (en.has(f->id)) f->forced = true; }
    }
    if (!en) { end.deadlock = true; break; }
    if (end.steps++ > O.maxSteps) { end.livelock = true; break; }
    int p = -1, nodeIdx = -1;
    if (!runout && pos == nodes.size()) {
      Node x; x.enabled = en; x.sleep = sleepNow; x.preempts = preNow;
      M cand = en & ~sleepNow;
      if (!O.dpor) {
        cand = en; bool lastEn = lastRun >= 0 && en.has(lastRun);
        if (lastEn && O.preempt >= 0 && preNow >= O.preempt) cand = M::of(lastRun);
      }
      if (!cand) { runout = true; ST.redundant++; }
      else {
        p = lastRun >= 0 && cand.has(lastRun) ? lastRun : lowest(cand);
        x.chosen = p; x.backtrack = O.dpor ? M::of(p) : cand; nodes.push_back(x);
      }
    }
    if (runout) p = lastRun >= 0 && en.has(lastRun) ? lastRun : lowest(en);
    else {
      nodeIdx = (int)pos; Node& x = nodes[pos++];
      if (x.choice || x.enabled != en) { fprintf(stderr, "sched: nondeterministic execution (enabled %llx, had %llx, choice %d)\n", (unsigned long long)en.w[0], (unsigned long long)x.enabled.w[0], (int)x.choice); _exit(78); }
      p = x.chosen;
    }
    Fiber* f = F[p];
    if (!runout) {
      if (O.dpor) {
        races(p);
        Node& x = nodes[nodeIdx]; M z = 0, cand = (x.sleep | x.done) & ~(M::of(p));
        for (auto* g : F) if ((cand.has(g->id)) && !g->done && !dependent(g->acc, f->acc)) z |= M::of(g->id);
        sleepNow = z;
      } else if (lastRun >= 0 && lastRun != p && en.has(lastRun)) preNow++;
    }
    lastRun = p;
    Ev e{p, nodeIdx, (uint32_t)events.size()}; if (nodeIdx >= 0) nodes[nodeIdx].ev = e.idx;
    f->d.set(p, e.idx + 1);
    for (auto& a : f->acc) { Obj& o = objs[a.o]; VC& c = f->d;
      c.join(o.w); if (a.m == 'W') { c.join(o.r); c.join(o.s); c.join(o.c); c.join(o.l); } else if (a.m == 'S') c.join(o.s); else if (a.m == 'C') c.join(o.c); else if (a.m == 'L') c.join(o.l);
      o.hist.push_back({e.idx, a.m}); }
    for (auto& a : f->acc) { Obj& o = objs[a.o]; (a.m == 'W' ? o.w : a.m == 'R' ? o.r : a.m == 'S' ? o.s : a.m == 'C' ? o.c : o.l).join(f->d); }
    events.push_back(e); ST.transitions++;
    if (traceOn) fprintf(stderr, "  %s: %s%s\n", f->name.c_str(), f->opname, runout ? " (redundant)" : "");
    resume(f);
  }
  for (auto* f : F) if (!f->done) { end.blocked.push_back(f->name + " in " + f->opname); if (O.dpor && !runout) races(f->id); }
  tsan::report(end);
  inExec = false; ST.maxSteps = std::max(ST.maxSteps, end.steps);
  bool redundant = runout && end.errors.empty() && end.races.empty() && !end.deadlock && !end.livelock;
  if (!redundant || true) { inExec = false; if (!endCheck(end)) ST.stopped = true; }
  endCheck = nullptr; curEnd = nullptr;
  for (auto* f : F) { freeStacks.push_back(f->stack); if (!f->done) new std::function<void()>(std::move(f->fn)); delete f; }   // unfinished fibers are abandoned with all they own (but for the stack)
  F.clear();
}
static double nowS() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
Stats explore(const Opts& o, const Body& body) {
  __libc_single_threaded = false;   // or reference counts would not be atomic
  O = o; ST = Stats(); nodes.clear(); double t0 = nowS();
  while (true) {
    runOnce(body); ST.executions++;
    if (ST.stopped) break;
    if (ST.executions >= O.maxExec || (O.maxSeconds > 0 && nowS() - t0 > O.maxSeconds)) { ST.complete = false; break; }
    bool more = false;
    while (!nodes.empty()) {
      Node& x = nodes.back();
      if (x.choice) { if (x.cur + 1 < x.n) { x.cur++; more = true; break; } }
      else { x.done |= M::of(x.chosen); M cand = x.backtrack & ~x.done & ~x.sleep; if (cand) { x.chosen = lowest(cand); more = true; break; } }
      nodes.pop_back();
    }
    if (!more) break;
  }
  return ST;
}
static Mx& mx(const void* m) { return mxs[m]; }
}  // namespace sched

using namespace sched;
#define REAL(name) static auto real = (decltype(&name))dlsym(RTLD_NEXT, #name)
// ---- threads
extern "C" {
static const uint64_t kTid = 0x5c4ed0000000ull;
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
  if (!cur) { REAL(pthread_create); return real(t, a, fn, arg); }
  Fiber* f = newFiber(cur->name + "/t" + std::to_string(F.size()), nullptr); f->thread = true;
  f->fn = [f, fn, arg] { f->ret = fn(arg); };
  *t = (pthread_t)(kTid + f->id); return 0;
}
int pthread_join(pthread_t t, void** r) {
  if (!cur) { REAL(pthread_join); return real(t, r); }
  uint64_t id = (uint64_t)t - kTid; if (id >= F.size()) return ESRCH;
  if ((int)id == cur->id) return EDEADLK;
  op("join", {}, [id] { return F[id]->done; }); acquire(F[id]->end); F[id]->joined = true; if (r) *r = F[id]->ret; return 0;
}
int pthread_detach(pthread_t t) { if (!cur) { REAL(pthread_detach); return real(t); } uint64_t id = (uint64_t)t - kTid; if (id < F.size()) F[id]->detached = true; return 0; }
pthread_t pthread_self(void) noexcept { if (!cur) { static auto real = (pthread_t(*)())dlsym(RTLD_NEXT, "pthread_self"); return real(); } return (pthread_t)(kTid + cur->id); }
int pthread_mutex_lock(pthread_mutex_t* m) noexcept {
  if (!cur) { static auto real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock"); return real(m); }
  bool rec = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; int me = cur->id;
  op("mutex lock", {{m, 'L'}}, [m, rec, me] { auto& x = mx(m); return x.owner < 0 || (rec && x.owner == me); });
  auto& x = mx(m); x.owner = me; x.depth++; acquire(x.m); return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) noexcept {
  if (!cur) { static auto real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_trylock"); return real(m); }
  op("mutex trylock", {{m, 'L'}}); auto& x = mx(m); if (x.owner >= 0) return EBUSY; x.owner = cur->id; x.depth = 1; acquire(x.m); return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) noexcept {
  if (!cur) { static auto real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock"); return real(m); }
  auto& x = mx(m); if (x.owner != cur->id) { error("unlock of a mutex not held"); return EPERM; }
  if (--x.depth == 0) { x.m = Msg(); release(x.m); x.owner = -1; } return 0;
}
static int condwait(pthread_cond_t* c, pthread_mutex_t* m, bool timed) {
  int me = cur->id; bool sp = cur->spur < O.spurious && choose(2); if (sp) cur->spur++;
  op("cond wait", {{c, 'W'}});
  auto& x = mx(m); x.depth = 0; x.m = Msg(); release(x.m); x.owner = -1;
  auto token = std::make_shared<int>(0); cvs[c].waiters.push_back(me); cvs[c].woken.push_back(0);
  doop("cond wake", {{m, 'L'}}, [c, m, me, sp] { if (mx(m).owner >= 0) return false; if (sp) return true; auto& v = cvs[c]; for (size_t i = 0; i < v.waiters.size(); ++i) if (v.waiters[i] == me) return (bool)v.woken[i]; return true; }, false, timed);
  bool woken = false; auto& v = cvs[c]; for (size_t i = 0; i < v.waiters.size(); ++i) if (v.waiters[i] == me) { woken = v.woken[i]; v.waiters.erase(v.waiters.begin() + i); v.woken.erase(v.woken.begin() + i); break; }
  auto& y = mx(m); y.owner = me; y.depth = 1; acquire(y.m); return timed && !woken && !sp ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!cur) { REAL(pthread_cond_wait); return real(c, m); } return condwait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* t) { if (!cur) { REAL(pthread_cond_timedwait); return real(c, m, t); } return condwait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const timespec* t) { if (!cur) { REAL(pthread_cond_clockwait); return real(c, m, k, t); } return condwait(c, m, true); }
static void notify(pthread_cond_t* c, bool all) {
  op(all ? "notify all" : "notify one", {{c, 'W'}});
  auto& v = cvs[c]; vector<size_t> w; for (size_t i = 0; i < v.waiters.size(); ++i) if (!v.woken[i]) w.push_back(i);
  if (w.empty()) return; if (all) { for (auto i : w) v.woken[i] = 1; return; }
  v.woken[w[choose(w.size())]] = 1;
}
int pthread_cond_signal(pthread_cond_t* c) noexcept { if (!cur) { static auto real = (int (*)(pthread_cond_t*))dlsym(RTLD_NEXT, "pthread_cond_signal"); return real(c); } notify(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t* c) noexcept { if (!cur) { static auto real = (int (*)(pthread_cond_t*))dlsym(RTLD_NEXT, "pthread_cond_broadcast"); return real(c); } notify(c, true); return 0; }
int pthread_once(pthread_once_t* o, void (*fn)()) {
  if (!cur) { REAL(pthread_once); return real(o, fn); }
  op("once", {{o, *(int*)o == 2 ? 'R' : 'W'}}, [o] { return *(int*)o != 1; });
  if (*(int*)o == 0) onces[o] = Once();   // also when the memory was handed out again
  if (*(int*)o == 2) onces[o].st = 2;
  if (onces[o].st == 2) { acquire(onces[o].m); return 0; }
  onces[o].st = 1; *(int*)o = 1;
  try { fn(); } catch (...) { onces[o].st = 0; *(int*)o = 0; throw; }
  onces[o].st = 2; release(onces[o].m); *(int*)o = 2; return 0;
}
static void sleepOp() { Fiber* f = cur; doop("sleep", {}, nullptr, true); f->progressSeen = progress; acquire(progressMsg); }
int nanosleep(const timespec* a, timespec* b) { if (!cur) { REAL(nanosleep); return real(a, b); } sleepOp(); return 0; }
int clock_nanosleep(clockid_t k, int fl, const timespec* a, timespec* b) { if (!cur) { REAL(clock_nanosleep); return real(k, fl, a, b); } sleepOp(); return 0; }
int usleep(useconds_t n) { if (!cur) { REAL(usleep); return real(n); } sleepOp(); return 0; }
unsigned sleep(unsigned n) { if (!cur) { REAL(sleep); return real(n); } sleepOp(); return 0; }
int sched_yield() noexcept { if (!cur) return 0; sleepOp(); return 0; }
}
// ---- futures
namespace std {
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned* a, unsigned v, bool has, chrono::seconds, chrono::nanoseconds) {
  if (!cur) { while (__atomic_load_n(a, __ATOMIC_ACQUIRE) == v) ::usleep(100); return true; }
  doop("future wait", {{a, 'R'}}, [a, v] { return *(volatile unsigned*)a != v; }, false, has); return *(volatile unsigned*)a != v;
}
bool __atomic_futex_unsigned_base::_M_futex_wait_until_steady(unsigned* a, unsigned v, bool has, chrono::seconds s, chrono::nanoseconds n) { return _M_futex_wait_until(a, v, has, s, n); }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned* a) { if (cur) op("future notify", {{a, 'W'}}); }
}

// ---- virtual sockets
namespace sched { namespace net {
struct Pipe { std::deque<unsigned char> q; bool weof = false, rclosed = false; std::deque<std::pair<size_t, Msg>> clk; uint64_t in = 0, out = 0; Msg eof; char rdc; };
struct Conn { std::shared_ptr<Pipe> rx, tx; string peerHost; int peerPort = 0; };
struct V { int kind = 0; /*0 fresh 1 bound 2 listening 3 connected*/ int port = -1; string addr; bool open = true; int closes = 0; Conn c; std::deque<std::pair<Conn, Msg>> backlog; size_t blmax = 0; bool rshut = false, wshut = false; string host; char bl, fdobj; };
static std::map<int, std::shared_ptr<V>> T; static int nextfd = 1000; struct Port { char lst, con; int fd = -1; }; static std::map<std::pair<string, int>, Port> ports;   // per host and port
static Port& portOf(const string& h, int p) { return ports[{h, p}]; }
static int shorts; static std::function<int(int, bool, size_t)> scriptFn; static std::function<ssize_t(int, bool, const void*, size_t)> rawFn; static std::function<int(const char*, const string&, int)> faultFn; static std::map<int, int> closeErr;
void reset() { T.clear(); nextfd = 1000; ports.clear(); scriptFn = nullptr; rawFn = nullptr; faultFn = nullptr; closeErr.clear(); shorts = 0; }
void fail_close(int fd, int err) { closeErr[fd] = err; }
void script(std::function<int(int, bool, size_t)> f) { scriptFn = f; }
void raw(std::function<ssize_t(int, bool, const void*, size_t)> f) { rawFn = f; }
void fault(std::function<int(const char*, const string&, int)> f) { faultFn = f; }
static bool injected(const char* call, int fd) { if (!faultFn || !cur) return false; int e = faultFn(call, cur->host, fd); if (e) errno = e; return e; }
static V* get(int fd) { auto it = T.find(fd); return it == T.end() ? nullptr : it->second.get(); }
static int mkfd(std::shared_ptr<V> v) { int fd = nextfd++; v->host = cur ? cur->host : "127.0.0.1"; T[fd] = v; return fd; }
int open_fds() { int n = 0; for (auto& x : T) n += x.second->open; return n; }
int open_fds(const string& host) { int n = 0; for (auto& x : T) n += x.second->open && x.second->host == host; return n; }
int open_listeners() { int n = 0; for (auto& x : T) n += x.second->open && x.second->kind == 2; return n; }
int is_open(int fd) { V* v = get(fd); return v && v->open; }
int closes(int fd) { V* v = get(fd); return v ? v->closes : 0; }
static std::pair<Conn, Conn> mkconn(const string& a, const string& b) { auto x = std::make_shared<Pipe>(), y = std::make_shared<Pipe>(); Conn p, q; p.rx = x; p.tx = y; p.peerHost = b; q.rx = y; q.tx = x; q.peerHost = a; return {p, q}; }
std::pair<int, int> pair(const string& a, const string& b) { auto c = mkconn(a, b); auto u = std::make_shared<V>(), v = std::make_shared<V>(); u->kind = v->kind = 3; u->c = c.first; v->c = c.second; int f = mkfd(u), g = mkfd(v); return {f, g}; }
std::vector<unsigned char> drain(int fd) { V* v = get(fd); std::vector<unsigned char> r; if (!v || !v->c.rx) return r; r.assign(v->c.rx->q.begin(), v->c.rx->q.end()); v->c.rx->q.clear(); return r; }
size_t pending(int fd) { V* v = get(fd); return v && v->c.rx ? v->c.rx->q.size() : 0; }
static bool bad(int fd, const char* what) { V* v = get(fd); if (v && v->open) return false; error(string(what) + " on a closed descriptor"); errno = EBADF; return true; }
static int vsocket() { if (injected("socket", -1)) return -1; return mkfd(std::make_shared<V>()); }
static int vbind(int fd, const sockaddr* a) { if (bad(fd, "bind") || injected("bind", fd)) return -1; V* v = get(fd); auto* s = (const sockaddr_in*)a; v->port = ntohs(s->sin_port); v->kind = 1; return 0; }
static int vlisten(int fd, int n) {
  if (bad(fd, "listen") || injected("listen", fd)) return -1; V* v = get(fd);
  op("listen", {{&portOf(v->host, v->port).lst, 'W'}});
  for (auto& x : T) if (x.second->open && x.second->kind == 2 && x.second->port == v->port && x.second->host == v->host && x.second.get() != v) { errno = EADDRINUSE; return -1; }
  v->kind = 2; v->blmax = n < 1 ? 1 : n; portOf(v->host, v->port).fd = fd; progress++; release(progressMsg); return 0;
}
static int listener(const Port& p) { V* v = get(p.fd); return v && v->open && v->kind == 2 ? p.fd : -1; }
static int vconnect(int fd, const sockaddr* a) {
  if (bad(fd, "connect") || injected("connect", fd)) return -1; V* v = get(fd); if (v->kind == 3) { errno = EISCONN; return -1; }
  char ip[64]; inet_ntop(AF_INET, &((const sockaddr_in*)a)->sin_addr, ip, 64); Port& port = portOf(ip, ntohs(((const sockaddr_in*)a)->sin_port));
  // who is connected first is decided by the backlog of the listener, which may not exist yet: an object of its own
  op("connect", {{&port.lst, 'R'}, {&port.con, 'S'}}, [&port] { int l = listener(port); return l < 0 || get(l)->backlog.size() <= get(l)->blmax; });
  if (cur) cur->progressSeen = progress;
  int l = listener(port); if (l < 0) { errno = ECONNREFUSED; return -1; }
  V* s = get(l); auto c = mkconn(v->host, s->host); v->c = c.first; v->kind = 3; v->c.peerHost = ip;
  Msg m; release(m); s->backlog.push_back({c.second, m}); return 0;
}
static void fillAddr(const string& host, sockaddr* a, socklen_t* l) { if (!a) return; sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(40000); inet_pton(AF_INET, host.c_str(), &s.sin_addr); size_t n = l ? std::min<size_t>(*l, sizeof s) : sizeof s; memcpy(a, &s, n); if (l) *l = sizeof s; }
static int vaccept(int fd, sockaddr* a, socklen_t* l) {
  if (bad(fd, "accept") || injected("accept", fd)) return -1; V* v = get(fd); if (v->kind != 2) { errno = EINVAL; return -1; }
  op("accept", {{&portOf(v->host, v->port).con, 'C'}, {&v->fdobj, 'R'}}, [v] { return !v->backlog.empty() || v->rshut; });
  if (v->backlog.empty()) { errno = EINVAL; return -1; }
  auto x = v->backlog.front(); v->backlog.pop_front(); acquire(x.second); auto n = std::make_shared<V>(); n->kind = 3; n->c = x.first; int f = mkfd(n); fillAddr(n->c.peerHost, a, l); return f;
}
static unsigned pick(size_t n) { if (n <= 1 || O.frag == 0 || (O.fragMax >= 0 && shorts >= O.fragMax)) return n; size_t k = O.frag == 1 ? (choose(2) ? 1 : n) : n - choose(n); if (k < n) ++shorts; return k; }
static ssize_t vread(int fd, void* buf, size_t n, bool peek = false) {
  if (bad(fd, "read") || injected("read", fd)) return -1; auto hold = T[fd]; V* v = hold.get(); if (v->kind != 3) { errno = ENOTCONN; return -1; }
  if (rawFn) return rawFn(fd, false, buf, n);
  if (scriptFn) { int r = scriptFn(fd, false, n); if (r != INT_MIN) { if (r < 0) { errno = -r; return -1; } auto& q = v->c.rx->q; if ((size_t)r > n) r = n; size_t k = 0; for (; (int)k < r && !q.empty(); ++k) { ((unsigned char*)buf)[k] = q.front(); q.pop_front(); v->c.rx->out++; } return k; } }
  auto p = v->c.rx;
  op("socket read", {{p.get(), O.pipeCap ? 'W' : 'C'}, {&v->fdobj, 'R'}}, [v, p, n] { return p->q.size() >= n || p->weof || v->rshut || (O.pipeCap && p->q.size() >= O.pipeCap); });
  size_t k = std::min(n, p->q.size()); if (k) k = pick(k);
  for (size_t i = 0; i < k; ++i) { ((unsigned char*)buf)[i] = p->q.front(); p->q.pop_front(); }
  p->out += k;
  while (k && !p->clk.empty()) { acquire(p->clk.front().second); if (p->clk.front().first > p->out) break; p->clk.pop_front(); }
  if (k == 0) acquire(p->eof);
  return k;
}
static ssize_t vwrite(int fd, const void* buf, size_t n, int flags, bool send) {
  if (bad(fd, "write") || injected("write", fd)) return -1; auto hold = T[fd]; V* v = hold.get(); if (v->kind != 3) { errno = ENOTCONN; return -1; }
  if (rawFn) return rawFn(fd, true, buf, n);
  if (scriptFn) { int r = scriptFn(fd, true, n); if (r != INT_MIN) { if (r < 0) { errno = -r; if (r == -EPIPE && !(flags & MSG_NOSIGNAL)) error("SIGPIPE would kill the process"); return -1; } if ((size_t)r > n) r = n; auto* b = (const unsigned char*)buf; v->c.tx->q.insert(v->c.tx->q.end(), b, b + r); v->c.tx->in += r; return r; } }
  auto p = v->c.tx;
  op("socket write", {{p.get(), O.pipeCap ? 'W' : 'S'}, {&p->rdc, 'R'}, {&v->fdobj, 'R'}}, [v, p] { return !O.pipeCap || p->q.size() < O.pipeCap || p->rclosed || v->wshut; });
  if (v->wshut || p->rclosed) { errno = EPIPE; if (!(flags & MSG_NOSIGNAL)) error("SIGPIPE would kill the process"); return -1; }
  if (n == 0) return 0;
  size_t k = n; if (O.pipeCap) k = std::min(k, O.pipeCap - p->q.size()); k = pick(k);
  auto* b = (const unsigned char*)buf; p->q.insert(p->q.end(), b, b + k); p->in += k; Msg m; release(m); p->clk.push_back({p->in, m});
  return k;
}
static void eofTo(Pipe* p) { p->weof = true; Msg m; release(m); p->eof.d.join(m.d); p->eof.s.join(m.s); }
static int vclose(int fd) {
  V* v0 = get(fd); if (!v0 || !v0->open) { error("close of a closed descriptor"); errno = EBADF; return -1; }
  auto hold = T[fd]; V* v = hold.get();
  if (v->kind == 2) op("close listener", {{&portOf(v->host, v->port).lst, 'W'}, {&portOf(v->host, v->port).con, 'W'}, {&v->fdobj, 'W'}});
  else if (v->kind == 3) op("close", {{v->c.tx.get(), 'S'}, {&v->c.rx->rdc, 'W'}, {&v->fdobj, 'W'}});
  if (!v->open) { error("close of a closed descriptor"); errno = EBADF; return -1; }
  v->open = false; v->closes++;
  if (v->kind == 3) { eofTo(v->c.tx.get()); v->c.rx->rclosed = true; }
  if (v->kind == 2) for (auto& b : v->backlog) { eofTo(b.first.tx.get()); b.first.rx->rclosed = true; }
  if (closeErr.count(fd)) { errno = closeErr[fd]; return -1; }
  return 0;
}
static int vshutdown(int fd, int how) {
  if (bad(fd, "shutdown")) return -1; auto hold = T[fd]; V* v = hold.get();
  if (v->kind == 2) { op("shutdown", {{&v->fdobj, 'W'}}); v->rshut = true; return 0; }
  if (v->kind != 3) { errno = ENOTCONN; return -1; }
  op("shutdown", {{v->c.tx.get(), 'S'}, {&v->c.rx->rdc, 'W'}, {&v->fdobj, 'W'}});
  if (how == SHUT_RD || how == SHUT_RDWR) v->rshut = true;
  if (how == SHUT_WR || how == SHUT_RDWR) { v->wshut = true; eofTo(v->c.tx.get()); }
  return 0;
}
}}
static bool V_(int fd) { return fd >= 1000; }
extern "C" {
int socket(int d, int t, int p) noexcept { if (!cur) { static auto real = (int (*)(int, int, int))dlsym(RTLD_NEXT, "socket"); return real(d, t, p); } return net::vsocket(); }
int bind(int fd, const sockaddr* a, socklen_t l) noexcept { if (!V_(fd)) { static auto real = (int (*)(int, const sockaddr*, socklen_t))dlsym(RTLD_NEXT, "bind"); return real(fd, a, l); } return net::vbind(fd, a); }
int listen(int fd, int n) noexcept { if (!V_(fd)) { static auto real = (int (*)(int, int))dlsym(RTLD_NEXT, "listen"); return real(fd, n); } return net::vlisten(fd, n); }
int accept(int fd, sockaddr* a, socklen_t* l) { if (!V_(fd)) { REAL(accept); return real(fd, a, l); } return net::vaccept(fd, a, l); }
int accept4(int fd, sockaddr* a, socklen_t* l, int f) { if (!V_(fd)) { REAL(accept4); return real(fd, a, l, f); } return net::vaccept(fd, a, l); }
int connect(int fd, const sockaddr* a, socklen_t l) { if (!V_(fd)) { REAL(connect); return real(fd, a, l); } return net::vconnect(fd, a); }
ssize_t read(int fd, void* b, size_t n) { if (!V_(fd)) { REAL(read); return real(fd, b, n); } return net::vread(fd, b, n); }
ssize_t recv(int fd, void* b, size_t n, int f) { if (!V_(fd)) { REAL(recv); return real(fd, b, n, f); } return net::vread(fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { if (!V_(fd)) { REAL(write); return real(fd, b, n); } return net::vwrite(fd, b, n, 0, false); }
ssize_t send(int fd, const void* b, size_t n, int f) { if (!V_(fd)) { REAL(send); return real(fd, b, n, f); } return net::vwrite(fd, b, n, f, true); }
int close(int fd) { if (!V_(fd)) { REAL(close); return real(fd); } return net::vclose(fd); }
int shutdown(int fd, int how) noexcept { if (!V_(fd)) { static auto real = (int (*)(int, int))dlsym(RTLD_NEXT, "shutdown"); return real(fd, how); } return net::vshutdown(fd, how); }
int setsockopt(int fd, int a, int b, const void* c, socklen_t l) noexcept { if (!V_(fd)) { static auto real = (int (*)(int, int, int, const void*, socklen_t))dlsym(RTLD_NEXT, "setsockopt"); return real(fd, a, b, c, l); } return net::injected("setsockopt", fd) ? -1 : 0; }
int getpeername(int fd, sockaddr* a, socklen_t* l) noexcept { if (!V_(fd)) { static auto real = (int (*)(int, sockaddr*, socklen_t*))dlsym(RTLD_NEXT, "getpeername"); return real(fd, a, l); } auto* v = net::get(fd); if (!v) { errno = EBADF; return -1; } net::fillAddr(v->c.peerHost, a, l); return 0; }
}

// ---- data races: the objects under test are compiled with -fsanitize=thread, the calls it inserts end here
namespace sched { namespace tsan {
struct Rec { uint32_t clk; uint16_t fib; uint8_t mask; bool wr : 1, used : 1; void* pc; };
struct Cell { uintptr_t key; uint32_t gen; uint8_t nextSlot; Rec r[4]; };
static vector<Cell> tab; static uint32_t gen = 1; static size_t filled;
struct At { Msg m; uint32_t gen; }; static std::unordered_map<uintptr_t, Msg> ats;
void reset() { gen++; filled = 0; ats.clear(); }

static Cell* find(uintptr_t k, bool mk) {
  if (tab.empty()) { if (!mk) return nullptr; tab.resize(1 << 16); }
  if (mk && filled * 2 > tab.size()) { vector<Cell> o; o.swap(tab); tab.resize(o.size() * 2); filled = 0; for (auto& c : o) if (c.gen == gen) *find(c.key, true) = c; }
  size_t h = (k * 0x9e3779b97f4a7c15ull) >> 20;
  for (;; ++h) { Cell& c = tab[h & (tab.size() - 1)]; if (c.gen != gen) { if (!mk) return nullptr; memset((void*)&c, 0, sizeof c); c.gen = gen; c.key = k; filled++; return &c; } if (c.key == k) return &c; }
}
struct Race { void *pc1, *pc2; int f1, f2; bool w1, w2; }; static vector<Race> found;
static string where(void* pc) { Dl_info i; if (dladdr(pc, &i) && i.dli_sname) { if (strlen(i.dli_sname) > 4000) return string(i.dli_sname, 120); int st; char* d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st); string s = d ? d : i.dli_sname; free(d); return s.substr(0, 120) + "+" + std::to_string((long)((char*)pc - (char*)i.dli_fbase)); } char b[40]; snprintf(b, sizeof b, "?+%ld", (long)((char*)pc - (char*)i.dli_fbase)); return b; }
void report(End& e) {   // on the main stack: the demangler needs a lot of it
  for (auto& x : found) e.races.push_back(string(x.w1 ? "write" : "read") + " in " + where(x.pc1) + " [" + F[x.f1]->name + "] and " + (x.w2 ? "write" : "read") + " in " + where(x.pc2) + " [" + F[x.f2]->name + "]");
  found.clear();
}
static void word(uintptr_t a, uint8_t mask, bool wr, void* pc) {
  Cell* c = find(a >> 3, true); int me = cur->id; uint32_t now = cur->s.get(me); int slot = -1;
  for (int i = 0; i < 4; ++i) { Rec& r = c->r[i]; if (!r.used) { if (slot < 0) slot = i; continue; }
    if (r.fib == me) { if (r.wr == wr && r.mask == mask) { r.clk = now; r.pc = pc; return; } if (r.clk == now && r.wr >= wr && (r.mask & mask) == mask) return; continue; }
    if ((r.mask & mask) && (r.wr || wr) && cur->s.get(r.fib) < r.clk && curEnd) {
      bool known = found.size() >= 5; for (auto& x : found) known |= x.pc1 == pc && x.pc2 == r.pc;
      if (!known) found.push_back({pc, r.pc, me, r.fib, wr, (bool)r.wr});
    } }
  if (slot < 0) slot = c->nextSlot++ & 3;
  Rec& r = c->r[slot]; r.used = 1; r.fib = me; r.clk = now; r.mask = mask; r.wr = wr; r.pc = pc;
}
static inline void mem(const void* p, size_t n, bool wr, void* pc) {
  if (!cur || p == (const void*)&errno || p == (const void*)&std::__once_callable || p == (const void*)&std::__once_call) return;   // thread-local, kept per fiber
  uintptr_t a = (uintptr_t)p;
  while (n) { size_t o = a & 7, k = std::min<size_t>(n, 8 - o); word(a, (uint8_t)(((1u << k) - 1) << o), wr, pc); a += k; n -= k; }
}
void clearRange(const void* p, size_t n) { if (tab.empty()) return; uintptr_t a = (uintptr_t)p >> 3, b = ((uintptr_t)p + n + 7) >> 3; for (; a < b; ++a) if (Cell* c = find(a, false)) memset((void*)c->r, 0, sizeof c->r); }
static void sync(const void* a, bool acq, bool rel) { if (!cur) return; Msg& m = ats[(uintptr_t)a]; if (acq) acquire(m); if (rel) { Msg x; x.d = VC(); release(m); m.d = VC(); } }
static void point(const void* a, char mode) { if (cur) op(mode == 'W' ? "atomic store" : "atomic load", {{a, mode}}); }
}}
extern "C" {
#define PC __builtin_return_address(0)
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* a) { tsan::mem(a, n, false, PC); } void __tsan_write##n(void* a) { tsan::mem(a, n, true, PC); } \
  void __tsan_unaligned_read##n(void* a) { tsan::mem(a, n, false, PC); } void __tsan_unaligned_write##n(void* a) { tsan::mem(a, n, true, PC); } \
  void __tsan_volatile_read##n(void* a) { tsan::mem(a, n, false, PC); } void __tsan_volatile_write##n(void* a) { tsan::mem(a, n, true, PC); } \
  void __tsan_unaligned_volatile_read##n(void* a) { tsan::mem(a, n, false, PC); } void __tsan_unaligned_volatile_write##n(void* a) { tsan::mem(a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, unsigned long n) { tsan::mem(a, n, false, PC); }
void __tsan_write_range(void* a, unsigned long n) { tsan::mem(a, n, true, PC); }
void __tsan_vptr_update(void** a, void* v) { if (*a != v) tsan::mem(a, 8, true, PC); }
void __tsan_vptr_read(void** a) { tsan::mem(a, 8, false, PC); }
void __tsan_atomic_thread_fence(int) {} void __tsan_atomic_signal_fence(int) {}
#define AT(B, T) \
  T __tsan_atomic##B##_load(const volatile T* a, int) { if (cur && B != 64) tsan::point((const void*)a, 'R'); tsan::sync((const void*)a, true, false); return *a; } \
  void __tsan_atomic##B##_store(volatile T* a, T v, int) { if (cur) tsan::point((const void*)a, 'W'); tsan::sync((const void*)a, false, true); *a = v; } \
  T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { if (cur && B == 8) tsan::point((const void*)a, 'W'); tsan::sync((const void*)a, true, true); T o = *a; *a = v; return o; } \
  T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { tsan::sync((const void*)a, true, true); T o = *a; *a = o + v; return o; } \
  T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { tsan::sync((const void*)a, true, true); T o = *a; *a = o - v; return o; } \
  T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { tsan::sync((const void*)a, true, true); T o = *a; *a = o & v; return o; } \
  T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { tsan::sync((const void*)a, true, true); T o = *a; *a = o | v; return o; } \
  T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { tsan::sync((const void*)a, true, true); T o = *a; *a = o ^ v; return o; } \
  int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* e, T v, int, int) { if (cur && B == 8) tsan::point((const void*)a, 'W'); tsan::sync((const void*)a, true, true); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; } \
  int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* e, T v, int, int) { if (cur && B == 8) tsan::point((const void*)a, 'W'); tsan::sync((const void*)a, true, true); if (*a == *e) { *a = v; return 1; } *e = *a; return 0; }
AT(8, unsigned char) AT(16, unsigned short) AT(32, unsigned) AT(64, unsigned long)
}
// reliable channels
namespace sched { 
const string& host() { static string none; return cur ? cur->host : none; }
namespace fifo {
struct F { string name; std::deque<unsigned char> q; std::deque<std::pair<uint64_t, Msg>> clk; uint64_t in = 0, out = 0; size_t cap = 0; };
static vector<F*> all;
F* make(const string& n) { F* f = new F; f->name = n; all.push_back(f); return f; }
void reset() { for (auto* f : all) delete f; all.clear(); }
void send(F* f, const void* p, size_t n) {
  // a send to a full channel waits; a capacity never splits a message
  if (f->cap) op("send", {{f, 'S'}}, [f, n] { return f->q.empty() || f->q.size() + n <= f->cap; }); else op("send", {{f, 'S'}});
  tsan::mem(p, n, false, __builtin_return_address(0));
  auto* b = (const unsigned char*)p; f->q.insert(f->q.end(), b, b + n); f->in += n; Msg m; release(m); f->clk.push_back({f->in, m});
}
void recv(F* f, void* p, size_t n) {
  op("receive", {{f, 'C'}}, [f, n] { return f->q.size() >= n; }); tsan::mem(p, n, true, __builtin_return_address(0));
  if (f->q.size() < n) { error("receive from an empty channel"); return; }
  std::copy(f->q.begin(), f->q.begin() + n, (unsigned char*)p); f->q.erase(f->q.begin(), f->q.begin() + n); f->out += n;
  while (n && !f->clk.empty()) { acquire(f->clk.front().second); if (f->clk.front().first > f->out) break; f->clk.pop_front(); }
}
size_t pending(F* f) { return f->q.size(); }
void capacity(F* f, size_t n) { f->cap = n; }
uint64_t total(F* f) { return f->in; }
}}
// memory handed out again must not inherit the accesses of its previous life
extern "C" {
void* __libc_malloc(size_t); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
void* malloc(size_t n) { void* p = __libc_malloc(n); if (cur && p) tsan::clearRange(p, n); return p; }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if (cur && p) tsan::clearRange(p, a * b); return p; }
void* realloc(void* o, size_t n) { void* p = __libc_realloc(o, n); if (cur && p && p != o) tsan::clearRange(p, n); return p; }
void* aligned_alloc(size_t a, size_t n) { void* p = __libc_memalign(a, n); if (cur && p) tsan::clearRange(p, n); return p; }
// reader-writer locks
struct Rw { int readers = 0; bool writer = false; Msg m; };
static std::unordered_map<const void*, Rw>& rws() { static auto* x = new std::unordered_map<const void*, Rw>; return *x; }
int pthread_rwlock_rdlock(pthread_rwlock_t* l) noexcept { if (!cur) { static auto real = (int (*)(pthread_rwlock_t*))dlsym(RTLD_NEXT, "pthread_rwlock_rdlock"); return real(l); } op("read lock", {{l, 'R'}}, [l] { return !rws()[l].writer; }); rws()[l].readers++; acquire(rws()[l].m); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* l) noexcept { if (!cur) { static auto real = (int (*)(pthread_rwlock_t*))dlsym(RTLD_NEXT, "pthread_rwlock_wrlock"); return real(l); } op("write lock", {{l, 'W'}}, [l] { auto& x = rws()[l]; return !x.writer && !x.readers; }); rws()[l].writer = true; acquire(rws()[l].m); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* l) noexcept { if (!cur) { static auto real = (int (*)(pthread_rwlock_t*))dlsym(RTLD_NEXT, "pthread_rwlock_unlock"); return real(l); } auto& x = rws()[l]; release(x.m); if (x.writer) x.writer = false; else x.readers--; return 0; }
}
