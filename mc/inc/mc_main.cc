#include <dirent.h>
// Supervisor: runs each section (shard) in a forked child, detects crashes and hangs, replays before reporting.
#include "mc.h"
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <time.h>
#include <unistd.h>
#include <cerrno>
#include <cstdlib>
#include <fstream>
#include <iostream>

namespace mc {
std::vector<Section>& sections() { static std::vector<Section> s; return s; }
extern "C" __attribute__((weak)) void mc_execution_done() {}

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

void Ctx::explore(const std::function<void(Chooser&)>& body, int bound, int shardDepth) {
  Chooser ch; ch.mBound = bound; ch.mShm = shm;
  Chooser* save = cur; cur = &ch;
  auto run = [&] {
    ch.begin();
    try { body(ch); traces++; }
    catch (const Skip&) { executions--; }
    catch (const Prune&) { count("pruned"); }
    catch (const std::exception& e) { fail(std::string("unexpected-exception/") + section + "/" + e.what(), std::string("unexpected exception: ") + e.what()); }
    executions++;
    if (shm) shm->beat++;
  };
  if (replay) { ch.mReplay = true; ch.mSeq = *replay; run(); cur = save; return; }
  ch.mShard = shard; ch.mShards = shards; ch.mShardDepth = shardDepth;
  uint64_t n = 0;
  do {
    run();
    if ((++n & 15) == 0 && deadline && now() > deadline) { capped = true; break; }
  } while (fails.size() < 40 && ch.next());
  states += ch.mNodes + 1;
  cur = save;
}

static std::string js(const std::string& s) {
  std::string o = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o + "\"";
}

static void dump(const Ctx& c, const std::string& path, bool complete) {
  std::ofstream o(path + ".tmp");
  o << "{\"section\":" << js(c.section) << ",\"complete\":" << (complete ? "true" : "false") << ",\"states\":" << c.states << ",\"transitions\":" << c.transitions
    << ",\"traces\":" << c.traces << ",\"executions\":" << c.executions << ",\"capped\":" << (c.capped ? "true" : "false");
  o << ",\"outcomes\":[";
  { bool f = true; size_t k = 0; for (auto h : c.outcomes) { if (k++ >= 5000) break; if (!f) o << ','; o << h; f = false; } }
  o << "],\"noutcomes\":" << c.outcomes.size() << ",\"counters\":{";
  { bool f = true; for (auto& kv : c.counters) { if (!f) o << ','; o << js(kv.first) << ':' << kv.second; f = false; } }
  o << "},\"samples\":[";
  { bool f = true; for (auto& s : c.samples) { if (!f) o << ','; o << js(s); f = false; } }
  o << "],\"fails\":[";
  { bool f = true; for (auto& kv : c.fails) { if (!f) o << ','; f = false; const Fail& x = kv.second;
      o << "{\"key\":" << js(x.key) << ",\"detail\":" << js(x.detail) << ",\"count\":" << x.count << ",\"choices\":["
        << join(x.choices) << "]}"; } }
  o << "]}\n"; o.close();
  rename((path + ".tmp").c_str(), path.c_str());
}

struct Job { int sec, shard, shards; pid_t pid = 0; Shm* shm = nullptr; uint64_t beat = 0; double beatCpu = 0; std::string out, err; bool hung = false; };

static double cpu_of(pid_t p) {   // CPU time of our own child
  char path[64]; snprintf(path, 64, "/proc/%d/stat", p);
  FILE* f = fopen(path, "r"); if (!f) return 0;
  char b[1024]; size_t n = fread(b, 1, 1023, f); fclose(f); b[n] = 0;
  char* r = strrchr(b, ')'); if (!r) return 0;
  unsigned long u = 0, s = 0; sscanf(r + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &u, &s);
  return double(u + s) / sysconf(_SC_CLK_TCK);
}

// every thread of our own child is asleep: it waits for something
static bool asleep(pid_t p) {
  char dir[64]; snprintf(dir, 64, "/proc/%d/task", p); DIR* d = opendir(dir); if (!d) return false; bool all = true, any = false;
  while (dirent* e = readdir(d)) { if (e->d_name[0] == '.') continue; std::string f = std::string(dir) + "/" + e->d_name + "/stat"; FILE* h = fopen(f.c_str(), "r"); if (!h) continue; char b[1024]; size_t n = fread(b, 1, 1023, h); fclose(h); b[n] = 0; char* r = strrchr(b, ')'); any = true; if (!r || r[2] != 'S') all = false; }
  closedir(d); return any && all;
}

static void child(Job& j, bool thorough, double deadline, std::vector<int>* replay) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);   // nothing stays behind when the check is stopped
  int fd = open(j.err.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0644); dup2(fd, 2); dup2(fd, 1); close(fd);
  setpgid(0, 0);
  struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
  Ctx* c = new Ctx; c->thorough = thorough; c->shard = j.shard; c->shards = j.shards; c->shm = j.shm; c->deadline = deadline; c->replay = replay;
  c->section = sections()[j.sec].name;
  std::string out = j.out;
  c->onfail = [c, out] { dump(*c, out, false); };
  try { sections()[j.sec].fn(*c); }
  catch (const std::exception& e) { c->fail("unexpected-exception/" + c->section + "/" + e.what(), e.what()); }
  if (c->transitions == 0) c->transitions = 0;
  dump(*c, out, true);
  _exit(0);
}

static std::string tail(const std::string& p, size_t n = 1500) {
  std::ifstream i(p); std::stringstream s; s << i.rdbuf(); std::string t = s.str();
  size_t k = t.find("ERROR: AddressSanitizer"); if (k == std::string::npos) k = t.find("WARNING: ThreadSanitizer");
  if (k != std::string::npos) return t.substr(k, n);
  return t.size() > n ? t.substr(t.size() - n) : t;
}
static std::string slurp(const std::string& p) { std::ifstream i(p); std::stringstream s; s << i.rdbuf(); std::string t = s.str(); while (!t.empty() && t.back() == '\n') t.pop_back(); return t; }
}  // namespace mc

using namespace mc;

int main(int argc, char** argv) {
  prctl(PR_SET_PDEATHSIG, SIGKILL);
  signal(SIGPIPE, SIG_DFL);
  bool thorough = false; int jobs = 8; double limit = 700, hang = 60; std::string only, outdir = "."; std::string rsec; std::vector<int> rch; bool rep = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (a == "--thorough") thorough = true;
    else if (a == "--jobs") jobs = atoi(argv[++i]);
    else if (a == "--limit") limit = atof(argv[++i]);
    else if (a == "--hang") hang = atof(argv[++i]);
    else if (a == "--out") outdir = argv[++i];
    else if (a == "--only") only = argv[++i];
    else if (a == "--replay") { rep = true; rsec = argv[++i]; std::stringstream s(argv[++i]); std::string t; while (std::getline(s, t, ',')) if (!t.empty()) rch.push_back(atoi(t.c_str())); }
  }
  double deadline = now() + limit;
  std::vector<Job> todo;
  for (size_t s = 0; s < sections().size(); ++s) {
    if (rep && sections()[s].name != rsec) continue;
    if (!only.empty() && sections()[s].name != only) continue;
    if (sections()[s].thorough_only && !thorough && !rep) continue;
    int n = rep ? 1 : (thorough ? sections()[s].shards_thorough : sections()[s].shards_quick);
    for (int k = 0; k < n; ++k) { Job j; j.sec = (int)s; j.shard = k; j.shards = n; j.out = outdir + "/" + sections()[s].name + "." + std::to_string(k) + ".json"; j.err = outdir + "/" + sections()[s].name + "." + std::to_string(k) + ".log"; todo.push_back(j); }
  }
  for (auto& j : todo) { j.shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }
  size_t nexti = 0, done = 0; std::vector<size_t> running;
  while (done < todo.size()) {
    while ((int)running.size() < jobs && nexti < todo.size()) {
      Job& j = todo[nexti]; unlink(j.out.c_str());
      fflush(stdout);
      pid_t p = fork();
      if (p == 0) { child(j, thorough, deadline, rep ? &rch : nullptr); }
      j.pid = p; running.push_back(nexti++);
    }
    usleep(3000);
    for (size_t r = 0; r < running.size();) {
      Job& j = todo[running[r]]; int st = 0; pid_t w = waitpid(j.pid, &st, WNOHANG);
      if (w == 0) {
        uint64_t b = j.shm->beat; double cpu = cpu_of(j.pid); static std::map<pid_t, double> wall; struct Idle { double since = 0, cpu = 0; int polls = 0; }; static std::map<pid_t, Idle> idle;
        Idle& z = idle[j.pid]; if (b != j.beat || cpu != z.cpu || !asleep(j.pid)) z = Idle{now(), cpu, 0}; else ++z.polls;
        if (b != j.beat || !wall.count(j.pid)) { j.beat = b; j.beatCpu = cpu; wall[j.pid] = now(); }
        else if (cpu - j.beatCpu > hang || now() - wall[j.pid] > 4 * hang || (z.polls > 1000 && now() - z.since > 25)) { j.hung = true; kill(-j.pid, SIGKILL); kill(j.pid, SIGKILL); }
        ++r; continue;
      }
      kill(-j.pid, SIGKILL);
      bool ok = WIFEXITED(st) && WEXITSTATUS(st) == 0;
      std::string base = slurp(j.out); if (base.empty()) base = "null";
      printf("{\"section\":%s,\"shard\":%d,\"ok\":%s,\"hung\":%s,\"status\":%d,\"result\":%s", js(sections()[j.sec].name).c_str(), j.shard, ok ? "true" : "false", j.hung ? "true" : "false", st, base.c_str());
      if (!ok) {
        printf(",\"note\":%s,\"choices\":[%s],\"log\":%s", js(j.shm->note).c_str(), join(std::vector<int>(j.shm->choices, j.shm->choices + j.shm->n)).c_str(), js(tail(j.err)).c_str());
      }
      printf("}\n"); fflush(stdout);
      ++done; running.erase(running.begin() + r);
    }
  }
  return 0;
}
