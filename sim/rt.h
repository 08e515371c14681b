// Simulator runtime: owns threads, locks, the allocator, files and every random choice of a run.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace rt {

// ---------------------------------------------------------------- randomness
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed) {}
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
  bool chance(unsigned permille) { return below(1000) < permille; }
  // log-uniform in [1, hi]
  uint64_t logu(uint64_t hi) {
    unsigned bits = 0;
    while ((hi >> bits) > 1) bits++;
    uint64_t v = 1ull << below(bits + 1);
    v += below(v);
    return v > hi ? hi : v;
  }
};
inline uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t z = a ^ (b + 0x9E3779B97F4A7C15ull + (a << 6) + (a >> 2));
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

// ------------------------------------------------------------------ counters
enum Ctr {
  C_STEPS, C_SWITCH, C_FORCED, C_SYNC, C_STALL, C_EAGAIN, C_CONTENDED, C_ALLOC, C_OOM,
  C_OPEN_FAIL, C_WRITE_SHORT, C_WRITE_EINTR, C_WRITE_ENOSPC, C_WRITE_EIO, C_CLOSE_FAIL,
  C_READ_SHORT, C_READ_EINTR, C_READ_EIO, C_CRASH, C_POWERLOSS, C_STREAM_WFAIL, C_STREAM_RFAIL,
  C_STREAM_CHUNK, C_TRUNC, C_CORRUPT, C_ABANDON, C_REFUSED, C_LAYOUT, C_OPS, C_CANDS, C_QUERIES,
  C_DISTS, C_LOADS_OK, C_LOADS_NULL, C_SAVES_OK, C_SAVES_FAIL, C_MEMOHIT, C_RACECHK, C_SESSIONS,
  C_DICTS, C_REUSE, C_INTERLEAVED, C_MUTATE, C_OTHER, C_ENUMS, C_LOOKUPS, C_WEAK, C_META, C_LAWS, C_MINIMAL, C_SPURIOUS, C_CLOCK, C_PROGRAMS, C_PROGRAM_REFUSED, C_COSTS, C_N
};
extern const char *ctr_name[C_N];

// -------------------------------------------------------------------- result
struct Sw { uint64_t step; uint32_t target; uint32_t forced; };
constexpr uint32_t MAX_SW = 1u << 18;
struct Result {                       // lives in memory shared with the parent
  volatile int done;                  // 1 ok, 2 violation, 3 harness error, 4 ended by a violation of another property
  char cls[64];
  char msg[6000];
  uint64_t hash;                      // hash of the whole event log
  uint64_t sched_hash;                // hash of the interleaving alone
  uint64_t ctr[C_N];
  uint64_t extra[4];
  uint32_t nsw;
  uint32_t sw_overflow;
  Sw sw[MAX_SW];
};
extern Result *result;

[[noreturn]] void violation(const char *cls, const std::string &msg);
void soft_violation(const char *cls, const std::string &msg); // ends the run only if the class is of interest
void need_oom(bool);  // violations count only after an allocation failed
void child_timer();
void set_mask(const std::string &classes); // " a b c "; empty: all
[[noreturn]] void harness_error(const std::string &msg);
void log_event(uint64_t v);                       // folds into the event hash
void log_event(const std::string &s);
inline void count(Ctr c, uint64_t n = 1) { result->ctr[c] += n; }

// ----------------------------------------------------------------- run config
struct Config {
  uint64_t seed = 1;          // of the scheduler's and allocator's own choices
  int layout = 0;             // allocator policy
  unsigned fill = 0xCD;       // content of fresh memory
  unsigned gap = 0;           // mean number of accesses between preemptions; 0 = never
  unsigned sync_permille = 0; // extra preemption chance at a synchronisation point
  unsigned stall_permille = 0;// chance that a preempted thread is stalled
  unsigned eagain_permille = 0;
  bool prefer_writer = false;
  bool races = false;
  uint64_t step_cap = 400000000ull;
  const std::vector<Sw> *replay = nullptr;
};
void boot();                          // once, in the parent
void begin_run(const Config &);       // in the child, makes the caller simulated thread 0
void end_run();                       // checks that no lock is left behind
void spawn(std::function<void()> fn); // a simulated thread
void join_all();
void yield_point();                   // harness-level scheduling point
void set_layout(int policy);

// ------------------------------------------------------- library call scopes
// Inside a LibScope operator new serves from the simulated heap and may be made to fail.
struct LibScope { LibScope(); ~LibScope(); int saved; };
struct HostScope { HostScope(); ~HostScope(); int saved; };
void arm_oom(uint64_t at, bool persistent, bool lib_callers_only); // of the current thread
bool disarm_oom();                                                 // true if it fired
uint64_t live_blocks();
uint64_t live_bytes();
std::string describe_live(int max);
int thread_id();
uint64_t my_steps(); // memory accesses and synchronisation points of the current thread
bool lib_pc(const void *); // an address in the code under test

// ---------------------------------------------------------------------- files
// Files below the scratch directory are real files reached through interposed system calls.
enum FsFault { FF_NONE, FF_OPEN, FF_SHORT_W, FF_EINTR_W, FF_ENOSPC, FF_EIO_W, FF_CLOSE, FF_SHORT_R, FF_EINTR_R, FF_EIO_R, FF_CRASH_BYTES, FF_CRASH_CALL, FF_META, FF_N };
void fs_root(const std::string &dir);              // paths below it are simulated
void fs_only(const std::string &path); // faults hit this file only (empty: any file of the scratch directory)
void fs_arm(int kind, uint64_t p, uint64_t q);     // until fs_disarm
bool fs_disarm();                                  // true if the fault fired
constexpr int CRASH_EXIT = 77;
} // namespace rt
