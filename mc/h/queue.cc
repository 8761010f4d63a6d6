// C22: the shared queue under every interleaving of small producer/consumer programs.
#include <algorithm>
#include <memory>
#include <set>
#include "mc.h"
#include "sched.h"
#include "scl/net/shared_deque.h"
using Q = scl::details::SharedDeque<std::vector<unsigned char>>;
namespace {
struct Call { int thread; char op; int arg; int res = -1; uint64_t begin, end = 0; bool done = false; };
// Is there a sequential order of the completed calls (respecting real time) that a FIFO could produce, ending with `rest`?
bool linearizable(const std::vector<Call>& h, size_t restSize) {
  std::vector<const Call*> cs; for (auto& c : h) if (c.done) cs.push_back(&c);
  std::vector<int> q; size_t n = cs.size(); std::vector<char> used(n);
  std::function<bool(size_t)> go = [&](size_t k) {
    if (k == n) return q.size() == restSize;
    for (size_t i = 0; i < n; ++i) if (!used[i]) {
      bool first = true; for (size_t j = 0; j < n; ++j) if (!used[j] && j != i && cs[j]->end < cs[i]->begin) first = false;
      if (!first) continue;
      auto save = q; bool ok = true; const Call& c = *cs[i];
      if (c.op == 'P' || c.op == 'M') q.push_back(c.arg);
      else if (c.op == 'S') ok = (int)q.size() == c.res;
      else { ok = !q.empty() && (c.res < 0 || q[0] == c.res); if (ok && (c.op == 'O' || c.op == 'F')) q.erase(q.begin()); }
      if (ok) { used[i] = 1; if (go(k + 1)) return true; used[i] = 0; }
      q = save;
    }
    return false;
  };
  return go(0);
}
std::string show(const std::vector<Call>& h) { std::string s; for (auto& c : h) s += mc::fmt("t%d:%c(%d)=%d[%llu,%s] ", c.thread, c.op, c.arg, c.res, (unsigned long long)c.begin, c.done ? std::to_string(c.end).c_str() : "blocked"); return s; }
// P push const&, M push &&, O pop, F pop front, K peek, S size
void run(mc::Ctx& c, const std::vector<std::string>& prog, bool spurious, const sched::Opts& base) {
  int poppers = 0, pushes = 0, pops = 0;
  for (auto& p : prog) { poppers += p.find_first_of("OF") != std::string::npos; for (char x : p) { pushes += x == 'P' || x == 'M'; pops += x == 'O' || x == 'F'; } }
  std::string name = mc::join(prog) + (spurious ? " spurious" : "");
  c.note(name);
  sched::Opts o = base; o.spurious = spurious ? c.q(1, 2) : 0;
  auto st = sched::explore(o, [&]() -> std::function<bool(const sched::End&)> {
    struct S { Q q; std::vector<std::vector<Call>> h; }; auto s = std::make_shared<S>(); s->h.resize(prog.size()); for (size_t i = 0; i < prog.size(); ++i) s->h[i].reserve(prog[i].size());
    for (size_t i = 0; i < prog.size(); ++i) {
      auto p = prog[i]; bool onlyPopper = poppers == 0 || (poppers == 1 && p.find_first_of("OF") != std::string::npos);
      sched::spawn("t" + std::to_string(i), [s, p, i, onlyPopper] {
        for (size_t k = 0; k < p.size(); ++k) {
          s->h[i].push_back(Call{(int)i, p[k], (int)(i * 10 + k + 1), -1, sched::tick()}); int r = -1;
          std::vector<unsigned char> v{(unsigned char)(i * 10 + k + 1), 7};
          switch (p[k]) {
            case 'P': s->q.PushBack(v); break;
            case 'M': s->q.PushBack(std::move(v)); break;
            case 'O': r = s->q.Pop()[0]; break;
            case 'F': s->q.PopFront(); break;
            case 'K': { auto& x = s->q.Peek(); if (onlyPopper) r = x[0]; break; }
            default: r = (int)s->q.Size();
          }
          auto& me = s->h[i].back(); me.res = r; me.end = sched::tick(); me.done = true;
        }
      });
    }
    return [&c, s, name, pushes, pops, prog](const sched::End& e) {
      size_t rest = s->q.Size(); std::vector<Call> H; for (auto& h : s->h) H.insert(H.end(), h.begin(), h.end());
      std::sort(H.begin(), H.end(), [](const Call& a, const Call& b) { return a.begin < b.begin; });
      if (!e.errors.empty() || !e.races.empty() || e.livelock) c.fail("queue/" + std::string(e.races.empty() ? "error" : "race"), name + ": " + e.str());
      if (!linearizable(H, rest)) c.fail("queue/not-linearizable", name + ": " + show(H) + mc::fmt(" rest %zu", rest));
      if (e.deadlock) for (auto& h : H) if (!h.done) {
        bool consumer = h.op == 'O' || h.op == 'F' || h.op == 'K';
        if (!consumer) c.fail("queue/producer-blocked", name + ": " + show(H) + e.str());
        else if (rest > 0) c.fail("queue/consumer-blocked-although-not-empty", name + ": " + show(H) + e.str() + mc::fmt(" rest %zu", rest));
      }
      if (!e.deadlock && pushes - pops != (int)rest) c.fail("queue/lost-elements", name + ": " + show(H));
      uint64_t hsh = 7; for (auto& h : H) hsh = mc::mix(hsh, h.thread * 1000 + h.op * 7 + (h.res + 1) * 131 + h.done); c.outcome(hsh);
      return c.fails.size() < 3;
    };
  });
  c.cases(st.executions); c.ops(st.transitions); c.checked(st.executions); c.count("interleavings", st.executions); c.count("scheduling choices of woken waiters", st.choices); c.count("redundant (sleep-set blocked) executions", st.redundant);
  if (!st.complete) c.capped = true;
  c.sample(mc::fmt("%s: %llu inequivalent interleavings, %llu transitions", name.c_str(), (unsigned long long)st.executions, (unsigned long long)st.transitions));
}
std::vector<std::string> programs(int maxLen, const char* alphabet) { std::vector<std::string> all, cur{""}; for (int l = 1; l <= maxLen; ++l) { std::vector<std::string> nx; for (auto& p : cur) for (const char* a = alphabet; *a; ++a) nx.push_back(p + *a); all.insert(all.end(), nx.begin(), nx.end()); cur = nx; } return all; }
bool useful(const std::vector<std::string>& p) { int push = 0; for (auto& x : p) for (char ch : x) push += ch == 'P' || ch == 'M'; return push > 0; }
}  // namespace
// two threads, all programs up to a length
MC_SECTION(two, 8, 64) { auto ps = programs(3, c.thorough ? "PMOFKS" : "POFKS"); c.explore([&](mc::Chooser& ch) { int a = ch.choose((int)ps.size()); int b = ch.range(a, (int)ps.size() - 1); if (!useful({ps[a], ps[b]})) throw mc::Prune{}; bool sp = ch.flag(); run(c, {ps[a], ps[b]}, sp, {}); }); }
MC_SECTION(three, 8, 96) { auto ps = programs(2, "POFKS"); auto one = programs(1, "POKS"); c.explore([&](mc::Chooser& ch) { auto& a = ch.of(ps); int b = ch.choose((int)(c.thorough ? ps.size() : one.size())); int d = ch.range(c.thorough ? 0 : b, (int)one.size() - 1); auto& B = c.thorough ? ps[b] : one[b]; if (!useful({a, B, one[d]})) throw mc::Prune{}; run(c, {a, B, one[d]}, ch.flag() && c.thorough, {}); }); }
MC_SECTION(four, 4, 8) { c.explore([&](mc::Chooser& ch) { static const std::vector<std::string> a{"P", "O", "K", "F"}; int i = ch.choose(4), j = ch.range(i, 3), k = ch.range(j, 3); run(c, {"PP", a[i], a[j], a[k]}, false, {}); }); }
// longer one-producer one-consumer streams (the way the threaded sender uses the queue)
MC_SECTION(stream, 2, 4) { c.explore([&](mc::Chooser& ch) { static const std::vector<std::string> p{"PPP", "MMM", "PMPM", "PPPPP"}; static const std::vector<std::string> q{"KFKFKF", "OOO", "KFOKF", "FFF", "SOSOS", "KFKFKFKFKF"}; auto& a = ch.of(p); auto& b = ch.of(q); run(c, {a, b}, ch.flag(), {}); }); }
// the explorer itself: reduced and unreduced exploration must see the same outcomes
MC_SECTION(engine, 4, 8) {
  auto ps = programs(2, "POKS");
  c.explore([&](mc::Chooser& ch) {
    auto& a = ch.of(ps); auto& b = ch.of(ps); if (!useful({a, b})) throw mc::Prune{};
    std::set<uint64_t> seen[2]; uint64_t n[2];
    for (int m = 0; m < 2; ++m) {
      sched::Opts o; o.dpor = m == 0;
      auto st = sched::explore(o, [&]() -> std::function<bool(const sched::End&)> {
        struct S { Q q; std::vector<int> r; }; auto s = std::make_shared<S>(); s->r.resize(8, -1);
        int t = 0; for (auto& p : {a, b}) { sched::spawn("t", [s, p, t] { for (size_t k = 0; k < p.size(); ++k) { std::vector<unsigned char> v{(unsigned char)(t * 10 + k)}; int r = 50; switch (p[k]) { case 'P': s->q.PushBack(v); break; case 'O': r = s->q.Pop()[0]; break; case 'K': s->q.Peek(); break; default: r = (int)s->q.Size(); } s->r[t * 4 + k] = r; } }); ++t; }
        return [s, &seen, m](const sched::End& e) { uint64_t h = e.deadlock; for (int x : s->r) h = h * 131 + x + 2; seen[m].insert(h); return true; };
      });
      n[m] = st.executions; c.ops(st.transitions); c.cases(st.executions);
    }
    c.count("reduced", n[0]); c.count("unreduced", n[1]); c.checked();
    if (seen[0] != seen[1]) c.fail("engine/reduction-misses-outcomes", a + " " + b);
  });
}
