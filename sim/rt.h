// Deterministic simulation runtime: decision streams, thread scheduler, heap, race detector,
// I/O and environment seams.  See DESIGN.md section 3.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>

namespace rt {

// ------------------------------------------------------------------ decision streams
// Every decision of a run is drawn from one of three streams, each a PRNG derived from the run
// seed (generation) or a recorded list (replay; exhausted => 0, the "nothing happens" choice).
enum Stream : int { W = 0 /*workload*/, F = 1 /*faults, environment*/, S = 2 /*schedule*/, NSTREAM = 3 };
constexpr uint32_t MAX_DEC = 1u << 16;
constexpr int MAX_OUT      = 512;
constexpr int OUT_TEXT     = 480;
constexpr int MAX_STAT     = 192;
constexpr int LOG_MAX      = 1 << 18;

uint32_t choose(Stream s, uint32_t n);                  // [0,n)
inline bool flip(Stream s, uint32_t den) { return den && choose(s, den) == 1; } // prob 1/den, 0 => no
uint32_t draw_geom(Stream s, uint32_t mean);            // >=1 in generation; 0 (=never) when exhausted
uint64_t draw64(Stream s);

// ------------------------------------------------------------------ results
struct Outcome {
  int32_t op;
  int32_t flags;  // bit0: compare between phases
  uint64_t hash;
  char text[OUT_TEXT];
};
struct Stat {
  char name[44];
  uint64_t n;
};
struct Result {           // shared memory between driver and the simulated process
  int32_t finished;       // child ran to the end
  int32_t nphases;        // asked for by phase 0
  int32_t violated;
  int32_t nout;
  char vkind[64];
  char vmsg[4096];
  uint64_t vpc[8];
  int32_t nvpc;
  uint64_t hash;          // event hash (addresses excluded)
  uint64_t sched_hash;    // interleaving measure
  uint64_t work_hash;     // workload hash
  uint64_t steps, switches, faults, sim_time_us;
  uint32_t ndec[NSTREAM];
  uint32_t dec[NSTREAM][MAX_DEC];
  Outcome out[MAX_OUT];
  int32_t nstat;
  Stat stat[MAX_STAT];
  uint32_t nversion;      // free data from phase 0 to later phases
  uint32_t version[4096];
  int32_t overflow;         // a decision stream was longer than MAX_DEC
  uint32_t loglen;
  char log[LOG_MAX];
};

struct Config {
  uint64_t seed       = 0;
  bool replay         = false;
  const uint32_t* dec[NSTREAM] = {nullptr, nullptr, nullptr};
  uint32_t ndec[NSTREAM]       = {0, 0, 0};
  int phase           = 0;
  bool verbose        = false;
  const char* dir     = nullptr;  // scratch directory of the simulated disk
  Result* res         = nullptr;
  const Result* phase0 = nullptr; // result of phase 0, for later phases
};

void child_begin(const Config&);
[[noreturn]] void child_end();
const Config& cfg();
int phase();

void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // text only when verbose; always hashed
void outcome(int op, const std::string& text, bool compare = true);
void stat(const char* name, uint64_t n = 1);   // probe counters
void set_phases(int n);
void work_hash(uint64_t);
[[noreturn]] void violation(const char* kind, const char* fmt, ...) __attribute__((format(printf, 2, 3)));

// ------------------------------------------------------------------ library calls
// Code under test runs only inside a Call scope: only there are memory accesses checked and
// scheduled, allocations taken from the simulated heap, and faults injected.
struct CallOpts {
  int oom_at       = -1;   // fail this allocation of the call (0-based)
  bool oom_persist = false;
};
struct Call {
  explicit Call(CallOpts o = {});
  ~Call();
  Call(const Call&) = delete;
};
uint64_t call_allocs();       // allocations attempted in the current/last call of this thread
bool call_faulted();          // some fault fired in the current/last call of this thread
void leave_call();            // leave the Call scope early (to run harness code in a handler)

// ------------------------------------------------------------------ threads
int spawn(std::function<void()> fn);   // creates a simulated thread (does not run yet)
void join_all();                       // lets the scheduler run until all threads ended
void sched_setup(bool fixed_none = false);  // draws the scheduling strategy of this run
int self_id();
void stall_threads();                  // threads spawned from now on may be suspended until all others are done; races are not looked for
uint64_t steps_done();         // of all threads, in this run
uint64_t work_done();                  // accesses of this thread so far; copying and clearing memory counts by its size
struct RwLock {                        // harness lock, visible to the race detector
  void rdlock(); void wrlock(); void unlock();
  int dummy = 0;
};
void pause_point();                    // optional preemption outside library calls
void fault_note(const char* name, uint64_t n = 1);  // counts an injected fault of this kind

// ------------------------------------------------------------------ heap
struct HeapPolicy {
  uint8_t fill_new = 0xAA, fill_free = 0xDD;
  int reuse = 0;      // 0 never, 1 most recent block first, 2 pseudo-random
  uint32_t gap = 0;   // layout noise (multiples of 16)
};
void heap_policy(const HeapPolicy&);
HeapPolicy draw_heap_policy();
uint64_t live_blocks();
uint64_t live_bytes();

// ------------------------------------------------------------------ simulated disk
enum IoFault : int { IO_NONE = 0, IO_FAIL = 1, IO_EINTR = 2, IO_SHORT = 3, IO_REPLACE = 4, IO_UNLINK = 5, IO_NFAULT = 6 };
struct IoPlan {            // at I/O event number ev (counted from arm) do `what`
  int n = 0;
  int ev[8]; int what[8]; int err[8];
  bool persist = false;    // keep failing from the first planned event on
};
void io_arm(const IoPlan&);     // for the calls of this thread
void io_disarm();
int io_events();                // I/O events seen since io_arm
int io_fired();                 // faults fired since io_arm
void io_on_event(std::function<void(int what)> cb);  // runs REPLACE/UNLINK actions
void disk_write(const char* name, const std::string& content);
void disk_replace(const char* name, const std::string& content);  // write temp + rename
void disk_unlink(const char* name);
void disk_touch(const char* name, int64_t us);   // sets the modification time (relative to the start)
std::string disk_path(const char* name);
void env_chdir(bool away);             // work in another directory; disk_path() goes on naming the same files
int open_fds();                 // descriptors the code under test holds on simulated files
int open_maps();                // mappings it holds on them
int real_fds();                 // all descriptors open in this process

// ------------------------------------------------------------------ environment
void env_locale(bool comma);    // switch LC_NUMERIC / C++ global locale
bool env_locale_available();
std::string env_signature();   // locale, working directory, rounding mode, environment variables of the process
void set_errno_noise(int e);
void env_vars(unsigned n);              // 0: the real environment; else what a call reads from it is noise
void env_clock_jump(int64_t us);
void env_advance(int64_t us);
int64_t env_now();
} // namespace rt
