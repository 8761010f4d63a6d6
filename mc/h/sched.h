// A controlled scheduler: every thread of the code under test is a fiber, every synchronisation, socket or channel call
// is a scheduling point, and all inequivalent interleavings are explored (DPOR with sleep sets), or all interleavings
// with a bounded number of preemptions.
#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <string>
#include <vector>
namespace sched {
// Modes: W conflicts with everything, R with W, L (lock) with L, S with S, C with C (the two ends of a FIFO).
struct Acc { const void* o; char m; };
struct VC {
  std::vector<uint32_t> v;
  uint32_t get(size_t i) const { return i < v.size() ? v[i] : 0; }
  void set(size_t i, uint32_t x) { if (i >= v.size()) v.resize(i + 1); v[i] = x; }
  void join(const VC& o) { if (o.v.size() > v.size()) v.resize(o.v.size()); for (size_t i = 0; i < o.v.size(); ++i) if (o.v[i] > v[i]) v[i] = o.v[i]; }
};
struct Msg { VC d, s; };              // clocks carried by a message, a lock, ...
struct End {                          // how one execution ended
  bool deadlock = false, livelock = false; uint64_t steps = 0;
  std::vector<std::string> blocked;   // fibers that did not finish, and what they wait for
  std::vector<std::string> errors;    // uncaught exceptions, use of closed descriptors, ...
  std::vector<std::string> races;     // data races (only with instrumented objects)
  std::string str() const;
};
struct Opts {
  bool dpor = true; int preempt = -1;           // dpor=false: every interleaving with at most `preempt` preemptions (-1: all)
  uint64_t maxExec = 1u << 30, maxSteps = 400000; double maxSeconds = 240;
  int spurious = 0;                             // how often condition variables may wake each fiber up without a notification
  int frag = 0;                                 // sockets: 0 whole transfers, 1 choose {1 byte, all}, 2 choose every length
  int fragMax = -1;                             // at most this many short transfers in one execution (-1: any number)
  size_t pipeCap = 0;                           // bytes a socket buffers (0: unbounded)
};
struct Stats { uint64_t executions = 0, transitions = 0, choices = 0, redundant = 0, maxSteps = 0; bool complete = true; bool stopped = false; };
bool managed();
int self();
uint64_t tick();                      // increasing time stamps
// A scheduling point of the calling fiber: continues once the guard holds and the explorer picks this fiber.
void op(const char* name, std::initializer_list<Acc> acc, const std::function<bool()>& guard = nullptr);
unsigned choose(unsigned n);
void release(Msg& m);
void acquire(const Msg& m);
void error(const std::string& what);
const Opts& opts();
int spawn(const std::string& name, std::function<void()> f, const std::string& host = "127.0.0.1");
// body sets up one execution (spawns fibers) and returns the check of its end; the check returns false to stop exploring.
using Body = std::function<std::function<bool(const End&)>()>;
Stats explore(const Opts& o, const Body& body);

const std::string& host();             // of the calling fiber; threads inherit it
// reliable in-order channels between two parties
namespace fifo {
struct F;
F* make(const std::string& name); void reset();     // reset frees all of them
void send(F*, const void* p, size_t n); void recv(F*, void* p, size_t n);
void capacity(F*, size_t bytes);                    // bytes it buffers (0: unbounded)
size_t pending(F*); uint64_t total(F*);             // bytes not yet received / ever sent
}
// virtual sockets
namespace net {
struct Counters { uint64_t sockets, closed, listeners; };
int open_fds();                                   // virtual descriptors still open
int open_fds(const std::string& host);             // of that host
int open_listeners();
int is_open(int fd);
int closes(int fd);                               // how often close() succeeded on it
std::pair<int, int> pair(const std::string& hostA = "127.0.0.1", const std::string& hostB = "127.0.0.1");   // a connected pair of descriptors
std::vector<unsigned char> drain(int fd);          // bytes waiting to be read at fd
size_t pending(int fd);
void script(std::function<int(int fd, bool write, size_t n)> f);   // answers the next transfer: bytes to transfer, -errno, or INT_MIN for the default
void raw(std::function<ssize_t(int fd, bool write, const void* p, size_t n)> f);   // takes over every transfer: no byte is copied
void fault(std::function<int(const char* call, const std::string& host, int fd)> f);   // asked at every socket call of a fiber: 0, or the errno it fails with
void fail_close(int fd, int err);                   // close() reports an error (the descriptor is gone all the same)
void reset();                                       // a fresh virtual network (each execution starts with one)
}  // namespace net
}  // namespace sched
#endif
