#include "rt.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <link.h>
#include <linux/futex.h>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <cstdarg>
#include <sched.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
#include <unordered_map>

namespace rt {

const char *ctr_name[C_N] = {
  "steps", "preemptions", "forced_switches", "sync_points", "stalled_threads", "lock_eagain", "lock_contended", "allocations", "alloc_failures",
  "open_failures", "short_writes", "write_eintr", "disk_full", "write_eio", "close_failures",
  "short_reads", "read_eintr", "read_eio", "crashes", "power_losses", "stream_write_failures", "stream_read_failures",
  "stream_chunked_reads", "truncations", "corruptions", "abandoned_iterators", "refused_inputs", "layout_changes", "ops", "candidates", "queries",
  "distances", "loads_ok", "loads_null", "saves_ok", "saves_failed", "memo_repeats", "race_checked_accesses", "sessions",
  "dictionaries", "reused_blocks", "interleaved_steps", "mutation_attempts", "other_violations", "enumerations", "lookups", "weak_loads", "meta_failures", "laws", "minimal", "spurious_wakeups", "clock_jumps", "program_sessions", "program_refusals", "costs"};

Result *result = nullptr;

// ================================================================== threads
constexpr int MAXT = 8;
enum State { ST_NEW, ST_RUN, ST_BLOCK, ST_DONE };
struct Thr {
  int id = 0;
  std::atomic<int> go{0};
  State st = ST_NEW;
  const void *wait_on = nullptr;
  const char *wait_what = "";
  uint32_t vc[MAXT] = {0};
  int in_lib = 0;
  uint64_t oom_at = 0;
  bool oom_persist = false, oom_fired = false, oom_libonly = false;
  uint64_t stalled_until = 0;
  uint64_t own_steps = 0, since = 0; // steps taken before, and when it was last given the processor
  int locks_held = 0;
  void *(*start)(void *) = nullptr;
  void *arg = nullptr;
  void *ret = nullptr;
  pthread_t pt{};
  char *altstack = nullptr;
};
static Thr *threads[MAXT];
static int nthreads = 0;
static thread_local Thr *self __attribute__((tls_model("initial-exec"))) = nullptr;
static thread_local int in_rt __attribute__((tls_model("initial-exec"))) = 0;
static thread_local int lib_depth __attribute__((tls_model("initial-exec"))) = 0; // when not simulated
struct RtScope { RtScope() { in_rt++; } ~RtScope() { in_rt--; } };

static bool active = false;
static pthread_key_t end_key;
static void thread_end(void *p);
static Config cfg;
static Rng srng(1);  // scheduling
static Rng arng(1);  // allocator placement
static uint64_t slept_ns;     // simulated time spent asleep
static int64_t wall_skew_ns;  // how far the wall clock has jumped
static Rng erng(1);  // lock errors and wake-up order
static std::vector<Sw> *rp_pre;                       // replayed preemptions
static std::unordered_map<uint64_t, uint32_t> *rp_forced; // replayed choices at blocking points
static uint64_t steps = 0, next_switch = UINT64_MAX;
static size_t replay_pos = 0;

// -------------------------------------------------------------- event logging
void log_event(uint64_t v) { result->hash = mix(result->hash, v); }
void log_event(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
  log_event(h ^ s.size());
}
static void finish_child(int done, int code) {
  result->ctr[C_STEPS] = steps;
  result->done = done;
  _exit(code);
}
static std::string *mask;
void set_mask(const std::string &m) { mask = new std::string(m); }
static bool want_oom = false;
void need_oom(bool b) { want_oom = b; }
void child_timer() {
  struct itimerval tv{};
  tv.it_value.tv_sec = 60;
  setitimer(ITIMER_PROF, &tv, nullptr);
}
static bool wanted(const char *cls) {
  if (want_oom && !result->ctr[C_OOM]) return false;
  return !mask || mask->empty() || mask->find(std::string(" ") + cls + " ") != std::string::npos; }
void soft_violation(const char *cls, const std::string &msg) {
  if (wanted(cls)) violation(cls, msg);
  count(C_OTHER);
}
[[noreturn]] void violation(const char *cls, const std::string &msg) {
  active = false;
  in_rt++;
  snprintf(result->cls, sizeof result->cls, "%s", cls);
  snprintf(result->msg, sizeof result->msg, "[thread %d, step %llu] %s", self ? self->id : -1, (unsigned long long)steps, msg.c_str());
  finish_child(wanted(cls) ? 2 : 4, wanted(cls) ? 10 : 12);
  __builtin_unreachable();
}
[[noreturn]] void harness_error(const std::string &msg) {
  active = false;
  in_rt++;
  if (result) {
    snprintf(result->cls, sizeof result->cls, "harness-error");
    snprintf(result->msg, sizeof result->msg, "%s", msg.c_str());
    finish_child(3, 11);
  }
  fprintf(stderr, "llsim: %s\n", msg.c_str());
  _exit(2);
}

// ----------------------------------------------------------------- scheduling
static long raw_call(long n, long a, long b, long c, long d, long e, long f) {
  long r;
  register long r10 __asm__("r10") = d;
  register long r8 __asm__("r8") = e;
  register long r9 __asm__("r9") = f;
  __asm__ volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return r;
}
static void futex_wait(std::atomic<int> *a, int v) { raw_call(SYS_futex, (long)a, FUTEX_WAIT_PRIVATE, v, 0, 0, 0); }
static void futex_wake(std::atomic<int> *a) { raw_call(SYS_futex, (long)a, FUTEX_WAKE_PRIVATE, 1, 0, 0, 0); }
static void park(Thr *t) {
  while (t->go.load(std::memory_order_acquire) == 0) futex_wait(&t->go, 0);
  t->go.store(0, std::memory_order_relaxed);
}
static void hand_to(Thr *t) {
  if (self) self->own_steps += steps - self->since;
  t->since = steps;
  t->go.store(1, std::memory_order_release);
  futex_wake(&t->go);
}
static void draw_next_switch() {
  if (cfg.replay) {
    // once the recorded schedule is used up, switch rarely but fairly
    next_switch = replay_pos < rp_pre->size() ? (*rp_pre)[replay_pos].step : steps + 200000;
    if (next_switch <= steps) next_switch = steps + 1;
  } else if (cfg.gap == 0) {
    next_switch = UINT64_MAX;
  } else {
    // geometric-like gap: uniform in [1, 2*gap)
    next_switch = steps + 1 + srng.below(2ull * cfg.gap);
  }
  if (next_switch > cfg.step_cap) next_switch = cfg.step_cap;
}
static void record(Thr *t, bool forced) {
  if (result->nsw < MAX_SW) result->sw[result->nsw++] = {steps, (uint32_t)t->id, forced ? 1u : 0u};
  else result->sw_overflow = 1;
  result->sched_hash = mix(result->sched_hash, mix(steps, t->id * 2 + forced));
  log_event(mix(steps, 0x5151 + t->id));
  count(forced ? C_FORCED : C_SWITCH);
}
static void dead_end() {
  std::string m = "no thread can run:";
  for (int i = 0; i < nthreads; i++) {
    char b[160];
    Thr *t = threads[i];
    if (t->st == ST_BLOCK) {
      snprintf(b, sizeof b, " thread %d waits for %s;", i, t->wait_what);
      m += b;
    }
  }
  violation("deadlock", m);
}
// Picks another runnable thread (or, when forced, any runnable thread).
static Thr *pick(bool forced, Thr *me) {
  Thr *cand[MAXT];
  int n = 0;
  for (int pass = 0; pass < 2 && n == 0; pass++)
    for (int i = 0; i < nthreads; i++) {
      Thr *t = threads[i];
      if (t == me || t->st != ST_RUN) continue;
      if (pass == 0 && t->stalled_until > steps) continue;
      cand[n++] = t;
    }
  if (n == 0) return nullptr;
  if (cfg.replay) {
    int want = -1;
    if (forced) {
      auto it = rp_forced->find(steps);
      if (it != rp_forced->end()) want = (int)it->second;
    } else if (replay_pos < rp_pre->size()) {
      want = (int)(*rp_pre)[replay_pos].target;
    }
    for (int i = 0; i < n; i++) if (cand[i]->id == want) return cand[i];
    for (int i = 0; i < n; i++) if (cand[i]->id > me->id) return cand[i];
    return cand[0];
  }
  return cand[srng.below(n)];
}
static void switch_from(Thr *me, Thr *to) {
  hand_to(to);
  park(me);
}
static void preempt() { // called when steps reached next_switch
  Thr *me = self;
  RtScope g;
  if (steps >= cfg.step_cap) violation("no-progress", "the run did not finish within its step budget");
  Thr *to = pick(false, me);
  if (cfg.replay) replay_pos++;
  draw_next_switch();
  if (!to) return;
  if (!cfg.replay && cfg.stall_permille && srng.chance(cfg.stall_permille)) {
    me->stalled_until = steps + 1 + srng.logu(200000);
    count(C_STALL);
  }
  record(to, false);
  switch_from(me, to);
}
uint64_t my_steps() { return self ? self->own_steps + steps - self->since : 0; }
static inline void step() {
  if (__builtin_expect(++steps >= next_switch, 0)) preempt();
}
static void sync_step() { // a synchronisation point of a simulated thread
  steps++;
  count(C_SYNC);
  if (!cfg.replay && cfg.sync_permille && nthreads > 1 && srng.chance(cfg.sync_permille)) next_switch = steps;
  if (steps >= next_switch) preempt();
}
// The current thread cannot continue: run another one until somebody makes it runnable again.
static void block_on(const void *addr, const char *what) {
  Thr *me = self;
  me->st = ST_BLOCK;
  me->wait_on = addr;
  me->wait_what = what;
  Thr *to = pick(true, me);
  if (!to) dead_end();
  record(to, true);
  switch_from(me, to);
}
static void wake_all(const void *addr) {
  for (int i = 0; i < nthreads; i++)
    if (threads[i]->st == ST_BLOCK && threads[i]->wait_on == addr) { threads[i]->st = ST_RUN; threads[i]->wait_on = nullptr; }
}
void yield_point() {
  if (!self || !active) return;
  RtScope g;
  sync_step();
}

// -------------------------------------------------------- happens-before state
struct SyncObj {
  uint32_t wr[MAXT] = {0}, rd[MAXT] = {0};
  Thr *owner = nullptr;
  int depth = 0;
  int nreaders = 0;
  int readers[MAXT] = {0};
  int waiting_writers = 0;
  int once = 0; // 1 in progress, 2 done
  std::vector<Thr *> waiters;
};
static std::unordered_map<const void *, SyncObj> *objs;
static SyncObj &obj(const void *a) { return (*objs)[a]; }
static void join_vc(uint32_t *d, const uint32_t *s) { for (int i = 0; i < MAXT; i++) if (s[i] > d[i]) d[i] = s[i]; }
static void acquire(SyncObj &o, bool writer) {
  join_vc(self->vc, o.wr);
  if (writer) join_vc(self->vc, o.rd);
}
static void release(SyncObj &o, bool writer) {
  join_vc(writer ? o.wr : o.rd, self->vc);
  self->vc[self->id]++;
}

// ================================================================= the heap
constexpr uint64_t ASIZE = 512ull << 20;
constexpr uint64_t ALOW = 0x20000000ull;
static const uint64_t AHI[3] = {0x0ull, 0x1234ull, 0x3bcdull};
static inline uint64_t abase(int k) { return (AHI[k] << 32) | ALOW; }
struct Cell {
  uint32_t wclk;
  uint8_t wtid, wmask;
  uint8_t rmask[MAXT];
  uint32_t rclk[MAXT];
};
static uint8_t *shadow[3];
static Cell *cells[3];
static Cell *gcells; // for the library's own writable data
static uint64_t glo = 0, ghi = 0, tlo = 0, thi = 0;
static uint64_t bump_lo[3], bump_hi[3];
static uint64_t nlive = 0, blive = 0;
static unsigned alloc_turn = 0;
static uint64_t slot_off, slot_max; // of layout 3
struct Hdr { uint64_t size; uint32_t magic, total; };
constexpr uint64_t BIG = 1ull << 18;
constexpr uint32_t MAGIC = 0xA110CA7E, FREED = 0xDEADF4EE;
struct FreeList { std::unordered_map<uint64_t, std::vector<uint64_t>> m; };
static FreeList *freelist;
static std::unordered_map<uint64_t, std::pair<uint64_t, void *>> *live_set;

static inline int arena_of(uint64_t a) {
  if (((uint32_t)a & ~(uint32_t)(ASIZE - 1)) != (uint32_t)ALOW) return -1;
  uint64_t hi = a >> 32;
  return hi == AHI[0] ? 0 : hi == AHI[1] ? 1 : hi == AHI[2] ? 2 : -1;
}
static void *map_at(uint64_t addr, uint64_t len) {
  void *p = mmap((void *)addr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | (addr ? MAP_FIXED_NOREPLACE : 0), -1, 0);
  if (p == MAP_FAILED || (addr && (uint64_t)p != addr)) {
    fprintf(stderr, "llsim: cannot map the simulated heap at %llx\n", (unsigned long long)addr);
    _exit(2);
  }
  return p;
}
static void set_shadow(int k, uint64_t addr, uint64_t size) {
  uint64_t g = (addr - abase(k)) >> 3;
  uint64_t full = size >> 3;
  memset(shadow[k] + g, 8, full);
  if (size & 7) shadow[k][g + full] = (uint8_t)(size & 7);
}
static void clear_cells(int k, uint64_t addr, uint64_t size) {
  if (!cfg.races) return;
  uint64_t g = (addr - abase(k)) >> 3, n = (size + 7) >> 3;
  memset((void *)(cells[k] + g), 0, n * sizeof(Cell));
}
static uint64_t place(uint64_t total, int &k) {
  int pol = cfg.layout;
  auto take_free = [&](bool lifo) -> uint64_t {
    auto it = freelist->m.find(total);
    if (it == freelist->m.end() || it->second.empty()) return 0;
    uint64_t a;
    if (lifo) { a = it->second.back(); it->second.pop_back(); }
    else { size_t i = arng.below(it->second.size()); a = it->second[i]; it->second[i] = it->second.back(); it->second.pop_back(); }
    count(C_REUSE);
    return a;
  };
  uint64_t a = 0;
  if (pol == 1 && (a = take_free(true))) { k = arena_of(a); return a; }
  if (pol == 4 && arng.chance(700) && (a = take_free(false))) { k = arena_of(a); return a; }
  alloc_turn++;
  bool down = false;
  uint64_t pad = 0;
  switch (pol) {
  default: k = 0; break;                                 // ascending, low addresses, never reused
  case 1: k = 1; break;                                  // LIFO reuse, high addresses
  case 2: k = 1; down = true; break;                     // descending
  case 3: k = (int)(alloc_turn % 3); break;              // neighbours equal in the low 32 bits
  case 4: k = (int)arng.below(3); down = arng.chance(500); pad = arng.below(8) * 16; break; // scattered
  case 5: k = 2; pad = (alloc_turn % 5) * 16; break;
  }
  if (pol == 3) { // one bump pointer shared by the three regions: three consecutive blocks share their low bits
    if (alloc_turn % 3 == 0 || slot_max == 0) {
      for (int i = 0; i < 3; i++) bump_lo[i] = std::max(bump_lo[i], slot_off + slot_max);
      slot_off = (std::max(bump_lo[0], std::max(bump_lo[1], bump_lo[2])) + 63) & ~63ull;
      slot_max = 0;
    }
    slot_max = std::max(slot_max, total);
    if (slot_off + slot_max + 4096 > std::min(bump_hi[0], std::min(bump_hi[1], bump_hi[2]))) { k = -1; return 0; }
    for (int i = 0; i < 3; i++) bump_lo[i] = std::max(bump_lo[i], slot_off + slot_max);
    return abase(k) + slot_off;
  }
  for (int tries = 0; tries < 3; tries++) {
    if (bump_lo[k] + pad + total + 64 < bump_hi[k]) {
      if (down) { bump_hi[k] -= total + pad; return abase(k) + bump_hi[k]; }
      uint64_t r = abase(k) + bump_lo[k] + pad;
      bump_lo[k] += total + pad;
      return r;
    }
    if ((a = take_free(false))) { k = arena_of(a); return a; }
    k = (k + 1) % 3;
  }
  k = -1;
  return 0;
}
static void *sim_alloc(size_t size, size_t align, void *pc) {
  RtScope g;
  uint64_t usz = size ? size : 1;
  if (size > ASIZE / 2) return nullptr;
  if (align < 16) align = 16;
  uint64_t total = ((usz + 15) & ~15ull) + 32 + (align > 16 ? align : 0);
  if (total > BIG) { // big blocks are always reused, whatever the policy
    uint64_t t = BIG;
    while (t < total) t *= 2;
    total = t;
  }
  int k;
  uint64_t a = 0;
  if (total > BIG) {
    auto it = freelist->m.find(total);
    if (it != freelist->m.end() && !it->second.empty()) { a = it->second.back(); it->second.pop_back(); k = arena_of(a); }
  }
  if (!a) a = place(total, k);
  if (k < 0) {
    // the policy's regions are used up: fall back to plain reuse
    uint64_t best = 0;
    for (auto &e : freelist->m) if (e.first >= total && !e.second.empty() && (!best || e.first < best)) best = e.first;
    if (best) { auto &v = freelist->m[best]; a = v.back(); v.pop_back(); k = arena_of(a); total = best; }
    else violation("memory-exhausted", "the simulated heap is exhausted by a request for " + std::to_string(size) + " bytes; " + std::to_string(blive) + " bytes are in use");
  }
  uint64_t u = a + 16;
  u = (u + align - 1) & ~(uint64_t)(align - 1);
  Hdr *h = (Hdr *)(u - 16);
  h->size = size;
  h->magic = MAGIC;
  h->total = (uint32_t)total;
  memset((void *)u, (int)cfg.fill, std::min<uint64_t>(usz, BIG));
  set_shadow(k, u, usz);
  clear_cells(k, u, usz);
  nlive++;
  blive += size;
  (*live_set)[u] = {a, pc};
  count(C_ALLOC);
  return (void *)u;
}
static void range_access(uint64_t a, uint64_t n, bool w, void *pc);
static void sim_free(void *p, void *pc) {
  RtScope g;
  uint64_t u = (uint64_t)p;
  int k = arena_of(u);
  auto it = live_set->find(u);
  if (it == live_set->end()) {
    char b[200];
    Hdr *h = (Hdr *)(u - 16);
    snprintf(b, sizeof b, "%s of %p", h->magic == FREED ? "double release" : "release of a pointer that was never allocated", p);
    if (active) violation("bad-free", b);
    return;
  }
  Hdr *h = (Hdr *)(u - 16);
  if (h->magic != MAGIC) { if (active) violation("heap-corruption", "block header overwritten"); return; }
  uint64_t usz = h->size ? h->size : 1;
  // bytes after the block must be untouched by uninstrumented code as well: not filled, so not checked
  if (self && active && cfg.races && nthreads > 1) range_access(u, usz, true, pc);
  uint64_t gi = (u - abase(k)) >> 3;
  memset(shadow[k] + gi, 0, (usz + 7) >> 3);
  memset(p, 0xDD, std::min<uint64_t>(usz, BIG));
  h->magic = FREED;
  nlive--;
  blive -= h->size;
  uint64_t base = it->second.first, total = h->total;
  live_set->erase(it);
  freelist->m[total].push_back(base);
}
uint64_t live_blocks() { return nlive; }
uint64_t live_bytes() { return blive; }
static std::string where(void *pc) {
  char b[96];
  uint64_t a = (uint64_t)pc;
  if (a >= tlo && a < thi) snprintf(b, sizeof b, "lib+0x%llx", (unsigned long long)(a - 1 - tlo));
  else snprintf(b, sizeof b, "outside");
  return b;
}
std::string describe_live(int max) {
  std::string r;
  std::unordered_map<std::string, int> m;
  for (auto &e : *live_set) m[where(e.second.second)]++;
  std::vector<std::pair<std::string, int>> v(m.begin(), m.end());
  std::sort(v.begin(), v.end());
  for (auto &e : v) {
    if (max-- <= 0) break;
    r += e.first + " x" + std::to_string(e.second) + " ";
  }
  return r;
}
int thread_id() { return self ? self->id : -1; }
void set_layout(int policy) { cfg.layout = policy; slot_max = 0; count(C_LAYOUT); }

static int &depth_ref() { return self ? self->in_lib : lib_depth; }
LibScope::LibScope() { saved = depth_ref(); depth_ref() = 1; }
LibScope::~LibScope() { depth_ref() = saved; }
HostScope::HostScope() { saved = depth_ref(); depth_ref() = 0; }
HostScope::~HostScope() { depth_ref() = saved; }

bool lib_pc(const void *pc) { return (uint64_t)pc >= tlo && (uint64_t)pc < thi; }
void arm_oom(uint64_t at, bool persistent, bool libonly) {
  Thr *t = self;
  t->oom_at = at;
  t->oom_persist = persistent;
  t->oom_fired = false;
  t->oom_libonly = libonly;
}
bool disarm_oom() {
  self->oom_at = 0;
  return self->oom_fired;
}
static void *op_new(size_t n, size_t align, bool nothrow, void *pc) {
  Thr *t = self;
  bool lib = active && t && in_rt == 0 && t->in_lib;
  if (!lib) {
    void *p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
    if (!p) abort();
    return p;
  }
  bool fail = false;
  if (t->oom_at) {
    bool elig = true;
    if (t->oom_libonly) { uint64_t a = (uint64_t)pc; elig = a >= tlo && a < thi; }
    if (elig) {
      if (t->oom_at == 1) { fail = true; if (!t->oom_persist) t->oom_at = 0; }
      else t->oom_at--;
    }
  }
  if (nthreads > 1) { RtScope g; sync_step(); } else steps++;
  if (fail) {
    t->oom_fired = true;
    count(C_OOM);
    log_event(0x00B0ull + steps);
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  void *p = sim_alloc(n, align, pc);
  if (!p) {
    if (nothrow) return nullptr;
    throw std::bad_alloc();
  }
  return p;
}
static void op_delete(void *p, void *pc) {
  if (!p) return;
  if (arena_of((uint64_t)p) >= 0) sim_free(p, pc);
  else free(p);
}

// ============================================================ memory accesses
static void bad_access(uint64_t a, uint64_t n, bool w, void *pc) {
  int k = arena_of(a);
  const char *kind = "invalid";
  // find out whether the block was released
  for (uint64_t u = a & ~15ull; u > abase(k) + 16 && a - u < (1 << 20); u -= 16) {
    Hdr *h = (Hdr *)(u - 16);
    if (h->magic == FREED && a < u + h->size) { kind = "released"; break; }
    if (h->magic == MAGIC) { kind = "out-of-bounds"; break; }
  }
  char b[256];
  snprintf(b, sizeof b, "%s of %llu bytes of %s heap memory at %s", w ? "write" : "read", (unsigned long long)n, kind, where(pc).c_str());
  violation("invalid-access", b);
}
static inline bool valid(int k, uint64_t a, uint64_t n) {
  uint64_t off = a - abase(k);
  uint64_t g0 = off >> 3, g1 = (off + n - 1) >> 3;
  for (uint64_t g = g0; g <= g1; g++) {
    unsigned need = g == g1 ? (unsigned)((off + n - 1) & 7) + 1 : 8;
    if (shadow[k][g] < need) return false;
  }
  return true;
}
static void race(uint64_t a, bool w, bool ow, int otid, void *pc) {
  char b[300];
  snprintf(b, sizeof b, "unsynchronised %s by thread %d at %s conflicts with an earlier %s by thread %d (%s memory)", w ? "write" : "read", self->id,
           where(pc).c_str(), ow ? "write" : "read", otid, arena_of(a) >= 0 ? "heap" : "static");
  violation("data-race", b);
}
static inline void race_cell(Cell &c, unsigned mask, bool w, uint64_t a, void *pc) {
  Thr *t = self;
  int id = t->id;
  if (c.wmask & mask && c.wtid != id && c.wclk > t->vc[c.wtid]) race(a, w, true, c.wtid, pc);
  if (w) {
    for (int i = 0; i < MAXT; i++)
      if (i != id && (c.rmask[i] & mask) && c.rclk[i] > t->vc[i]) race(a, w, false, i, pc);
    if (c.wtid == id && c.wclk == t->vc[id]) c.wmask |= mask;
    else { c.wtid = (uint8_t)id; c.wclk = t->vc[id]; c.wmask = (uint8_t)mask; }
  } else {
    if (c.rclk[id] == t->vc[id]) c.rmask[id] |= mask;
    else { c.rclk[id] = t->vc[id]; c.rmask[id] = (uint8_t)mask; }
  }
}
static void race_range(Cell *base, uint64_t off, uint64_t n, bool w, uint64_t a, void *pc) {
  count(C_RACECHK);
  uint64_t end = off + n;
  while (off < end) {
    uint64_t g = off >> 3;
    unsigned lo = off & 7, hi = (unsigned)std::min<uint64_t>(8, lo + (end - off));
    unsigned mask = ((1u << hi) - 1) & ~((1u << lo) - 1);
    race_cell(base[g], mask, w, a, pc);
    off += hi - lo;
  }
}
static void range_access(uint64_t a, uint64_t n, bool w, void *pc) {
  if (!n) return;
  int k = arena_of(a);
  if (k >= 0) {
    if (!valid(k, a, n)) bad_access(a, n, w, pc);
    if (cfg.races && nthreads > 1) race_range(cells[k], a - abase(k), n, w, a, pc);
  } else if (a >= glo && a < ghi && cfg.races && nthreads > 1) {
    race_range(gcells, a - glo, n, w, a, pc);
  }
}
static inline void on_access(void *p, uint64_t n, bool w, void *pc) {
  Thr *t = self;
  if (!t || !active || in_rt) return;
  step();
  range_access((uint64_t)p, n, w, pc);
}

// ================================================================== lifecycle
static int phdr_cb(struct dl_phdr_info *i, size_t, void *) {
  if (!i->dlpi_name || !strstr(i->dlpi_name, "liblevsim")) return 0;
  for (int k = 0; k < i->dlpi_phnum; k++) {
    const ElfW(Phdr) &h = i->dlpi_phdr[k];
    uint64_t lo = i->dlpi_addr + h.p_vaddr, hi = lo + h.p_memsz;
    if (h.p_type == PT_LOAD && (h.p_flags & PF_X)) { thi = hi; }
    if (h.p_type == PT_LOAD && (h.p_flags & PF_W)) { glo = glo && glo < lo ? glo : lo; ghi = ghi > hi ? ghi : hi; }
  }
  tlo = i->dlpi_addr;
  return 1;
}
static void on_signal(int sig, siginfo_t *si, void *) {
  if (!active && !self) { signal(sig, SIG_DFL); raise(sig); return; }
  char b[160];
  if (sig == SIGPROF) snprintf(b, sizeof b, "processor-time limit of a run exceeded");
  else if (sig == SIGSEGV || sig == SIGBUS) {
    uint64_t a = (uint64_t)si->si_addr;
    snprintf(b, sizeof b, "signal %d (%s address)", sig, a < 4096 ? "null" : "wild");
  }
  else snprintf(b, sizeof b, "signal %d", sig);
  violation(sig == SIGPROF ? "hang" : "crash", b);
}
static void alt_stack(Thr *t) {
  stack_t ss{};
  t->altstack = (char *)malloc(65536);
  ss.ss_sp = t->altstack;
  ss.ss_size = 65536;
  sigaltstack(&ss, nullptr);
}
void boot() {
  for (int k = 0; k < 3; k++) {
    map_at(abase(k), ASIZE);
    shadow[k] = (uint8_t *)map_at(0, ASIZE >> 3);
    cells[k] = (Cell *)map_at(0, (ASIZE >> 3) * sizeof(Cell));
  }
  dl_iterate_phdr(phdr_cb, nullptr);
  if (!tlo) { fprintf(stderr, "llsim: library under test not found\n"); _exit(2); }
  gcells = (Cell *)map_at(0, ((ghi - glo) / 8 + 2) * sizeof(Cell));
  pthread_key_create(&end_key, thread_end);
  objs = new std::unordered_map<const void *, SyncObj>();
  freelist = new FreeList();
  live_set = new std::unordered_map<uint64_t, std::pair<uint64_t, void *>>();
}
void begin_run(const Config &c) {
  cfg = c;
  srng = Rng(mix(c.seed, 0xC0FFEE));
  arng = Rng(mix(c.seed, 0xA110C));
  erng = Rng(mix(c.seed, 0xEA6A1));
  rp_pre = new std::vector<Sw>();
  rp_forced = new std::unordered_map<uint64_t, uint32_t>();
  if (cfg.replay)
    for (const Sw &w : *cfg.replay) {
      if (w.forced) (*rp_forced)[w.step] = w.target;
      else rp_pre->push_back(w);
    }
  steps = 0;
  slept_ns = 0;
  wall_skew_ns = 0;
  replay_pos = 0;
  result->hash = 0x1234;
  result->sched_hash = 0x4321;
  for (int k = 0; k < 3; k++) { bump_lo[k] = 64; bump_hi[k] = ASIZE - 64; }
  if (cfg.layout == 3 || cfg.layout == 5) for (int k = 0; k < 3; k++) bump_lo[k] = 4096;
  struct sigaction sa{};
  sa.sa_sigaction = on_signal;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
  for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGPROF}) sigaction(s, &sa, nullptr);
  child_timer();
  Thr *t = new Thr();
  t->id = 0;
  t->st = ST_RUN;
  t->vc[0] = 1;
  threads[0] = t;
  nthreads = 1;
  alt_stack(t);
  self = t;
  active = true;
  draw_next_switch();
}
void end_run() {
  RtScope g;
  for (auto &e : *objs)
    if (e.second.owner || e.second.nreaders) violation("lock-left-held", "a lock is still held after every call returned");
  active = false;
  self = nullptr;
  struct itimerval tv{};
  setitimer(ITIMER_PROF, &tv, nullptr);
  result->ctr[C_STEPS] = steps;
}

// ----------------------------------------------------------- real functions
template <class F> static F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
#define REAL(name) ([]() { static auto f = rt::real<decltype(&::name)>(#name); return f; }())

// Runs after the thread_local destructors of the thread, which are still simulated.
static void thread_end(void *p) {
  Thr *t = (Thr *)p;
  in_rt++;
  if (t->locks_held) violation("lock-left-held", "a thread ended while holding a lock");
  // finishing is a release to whoever joins
  SyncObj &o = obj(t);
  release(o, true);
  t->st = ST_DONE;
  wake_all(t);
  steps++;
  Thr *to = pick(true, t);
  if (!to) dead_end();
  record(to, true);
  self = nullptr;
  hand_to(to);
}
static void *thread_main(void *p) {
  Thr *t = (Thr *)p;
  in_rt++;
  alt_stack(t);
  pthread_setspecific(end_key, t);
  park(t);
  self = t;
  in_rt--;
  void *r = t->start(t->arg);
  t->ret = r;
  return r;
}
static Thr *sim_create(void *(*fn)(void *), void *arg, pthread_t *out, const pthread_attr_t *attr) {
  RtScope g;
  if (nthreads >= MAXT) harness_error("too many simulated threads");
  Thr *t = new Thr();
  t->id = nthreads;
  t->start = fn;
  t->arg = arg;
  join_vc(t->vc, self->vc);
  t->vc[t->id] = 1;
  self->vc[self->id]++;
  t->st = ST_RUN;
  threads[nthreads++] = t;
  pthread_t pt;
  if (REAL(pthread_create)(&pt, attr, thread_main, t)) harness_error("pthread_create");
  t->pt = pt;
  if (out) *out = pt;
  return t;
}
static void sim_join(Thr *t) {
  RtScope g;
  while (t->st != ST_DONE) block_on(t, "a thread to finish");
  acquire(obj(t), true);
  void *r;
  REAL(pthread_join)(t->pt, &r);
}
static std::vector<Thr *> *spawned;
static void *run_fn(void *p) {
  auto *f = (std::function<void()> *)p;
  (*f)();
  return nullptr;
}
void spawn(std::function<void()> fn) {
  RtScope g;
  if (!spawned) spawned = new std::vector<Thr *>();
  spawned->push_back(sim_create(run_fn, new std::function<void()>(std::move(fn)), nullptr, nullptr));
}
void join_all() {
  if (!spawned) return;
  for (Thr *t : *spawned) sim_join(t);
  RtScope g;
  spawned->clear();
}

// =================================================================== the clock
// Simulated time: a quantum per step, sleeps and timeouts on top; the wall clock also jumps.
static uint64_t sim_mono() { return 1000000000ull + steps * 10 + slept_ns; }
static void sleep_until(uint64_t t) { uint64_t n = sim_mono(); if (t > n) slept_ns += t - n; }
static int64_t sim_wall() {
  if (erng.chance(30)) {
    count(C_CLOCK);
    static const int64_t j[] = {-3600000000000ll, -1000000ll, 1000000ll, 86400000000000ll};
    wall_skew_ns += j[erng.below(4)];
  }
  return 1700000000000000000ll + (int64_t)(cfg.seed % 1000003) * 1000000007ll + (int64_t)sim_mono() + wall_skew_ns;
}
static uint64_t ns_of(const struct timespec *t) { return t && t->tv_sec >= 0 ? (uint64_t)t->tv_sec * 1000000000ull + (uint64_t)t->tv_nsec : 0; }
static uint64_t until(clockid_t k, const struct timespec *t) { // as simulated monotonic time
  if (k == CLOCK_MONOTONIC) return ns_of(t);
  int64_t d = (int64_t)ns_of(t) - (1700000000000000000ll + (int64_t)(cfg.seed % 1000003) * 1000000007ll + wall_skew_ns);
  return d > 0 ? (uint64_t)d : 0;
}
static void let_others_run() { if (!cfg.replay) next_switch = steps; sync_step(); }
// A wait with a time limit: others run for a while, then what is waited for is there or time is up.
template <class F> static bool timed(uint64_t deadline, F ready) {
  uint64_t n = erng.chance(300) ? 0 : erng.logu(300);
  for (uint64_t i = 0; i <= n; i++) {
    if (ready()) return true;
    let_others_run();
  }
  sleep_until(deadline);
  return false;
}

// ================================================================ lock models
static bool sim() { return self && active && !in_rt; }
static int mutex_lock(const void *m, bool recursive, bool try_only) {
  RtScope g;
  sync_step();
  SyncObj &o = obj(m);
  for (;;) {
    if (!o.owner) break;
    if (o.owner == self && recursive) break;
    if (try_only) return EBUSY;
    if (o.owner == self) violation("deadlock", "a thread locks a mutex it already holds");
    count(C_CONTENDED);
    block_on(m, "a mutex");
  }
  o.owner = self;
  o.depth++;
  self->locks_held++;
  acquire(o, true);
  return 0;
}
static int mutex_unlock(const void *m) {
  RtScope g;
  SyncObj &o = obj(m);
  if (o.owner != self) violation("bad-unlock", "a mutex is unlocked by a thread that does not hold it");
  self->locks_held--;
  if (--o.depth == 0) {
    release(o, true);
    o.owner = nullptr;
    wake_all(m);
  }
  sync_step();
  return 0;
}
static int rw_rd(const void *m, bool try_only) {
  RtScope g;
  sync_step();
  SyncObj &o = obj(m);
  for (;;) {
    if (o.owner == self) { if (try_only) return EBUSY; violation("deadlock", "a thread read-locks a lock it holds for writing"); }
    bool blocked = o.owner || (cfg.prefer_writer && o.waiting_writers > 0);
    if (!blocked) break;
    if (try_only) return EBUSY;
    count(C_CONTENDED);
    block_on(m, "a reader lock");
  }
  o.nreaders++;
  o.readers[self->id]++;
  self->locks_held++;
  acquire(o, false);
  return 0;
}
static int rw_wr(const void *m, bool try_only) {
  RtScope g;
  sync_step();
  SyncObj &o = obj(m);
  o.waiting_writers++;
  for (;;) {
    if (!o.owner && !o.nreaders) break;
    if (try_only) { o.waiting_writers--; return EBUSY; }
    if (o.owner == self || o.readers[self->id]) violation("deadlock", "a thread write-locks a lock it already holds");
    count(C_CONTENDED);
    block_on(m, "a writer lock");
  }
  o.waiting_writers--;
  o.owner = self;
  self->locks_held++;
  acquire(o, true);
  return 0;
}
static int rw_unlock(const void *m) {
  RtScope g;
  SyncObj &o = obj(m);
  if (o.owner == self) {
    release(o, true);
    o.owner = nullptr;
  } else if (o.readers[self->id]) {
    release(o, false);
    o.readers[self->id]--;
    o.nreaders--;
  } else violation("bad-unlock", "a reader/writer lock is unlocked by a thread that does not hold it");
  self->locks_held--;
  wake_all(m);
  sync_step();
  return 0;
}
static bool in_line(const void *c) {
  for (Thr *t : obj(c).waiters) if (t == self) return true;
  return false;
}
static void leave_line(const void *c) {
  auto &w = obj(c).waiters;
  for (size_t i = 0; i < w.size(); i++) if (w[i] == self) { w.erase(w.begin() + (long)i); return; }
}
static bool spurious() {
  if (!cfg.eagain_permille || !erng.chance(30)) return false;
  count(C_SPURIOUS);
  return true;
}
// Until woken; for no reason at all once in a while.
static void wait_in_line(const void *c, const char *what, bool queued = false) {
  if (!queued) obj(c).waiters.push_back(self);
  if (spurious()) { let_others_run(); leave_line(c); return; }
  while (in_line(c)) block_on(c, what);
}
static bool wait_in_line_until(const void *c, uint64_t deadline, bool queued = false) {
  if (!queued) obj(c).waiters.push_back(self);
  if (spurious()) { let_others_run(); leave_line(c); return true; }
  if (timed(deadline, [&] { return !in_line(c); })) return true;
  leave_line(c);
  return false;
}
static int cond_wait(const void *c, pthread_mutex_t *m, const uint64_t *deadline = nullptr) {
  { RtScope g; obj(c).waiters.push_back(self); } // before the mutex is free: no signal may be missed
  mutex_unlock(m);
  bool woken = true;
  {
    RtScope g;
    if (deadline) woken = wait_in_line_until(c, *deadline, true);
    else wait_in_line(c, "a condition variable", true);
    acquire(obj(c), true);
  }
  mutex_lock(m, false, false);
  return woken ? 0 : ETIMEDOUT;
}
static int cond_wait_until(const void *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) {
  uint64_t d = until(k, t);
  return cond_wait(c, m, &d);
}
template <class F> static int lock_until(clockid_t k, const struct timespec *t, F try_lock) {
  uint64_t d = until(k, t);
  RtScope g;
  return timed(d, [&] { return try_lock() == 0; }) ? 0 : ETIMEDOUT;
}
// std::atomic::wait and what is built on it
static long sim_futex(int *a, int op, int val, const void *timeout) {
  RtScope g;
  bool real_clock = op & FUTEX_CLOCK_REALTIME;
  op &= ~(FUTEX_PRIVATE_FLAG | FUTEX_CLOCK_REALTIME);
  sync_step();
  if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
    if (__atomic_load_n(a, __ATOMIC_SEQ_CST) != val) return -EAGAIN;
    if (timeout) { // relative for FUTEX_WAIT, absolute otherwise
      uint64_t d = op == FUTEX_WAIT ? sim_mono() + ns_of((const struct timespec *)timeout) : until(real_clock ? CLOCK_REALTIME : CLOCK_MONOTONIC, (const struct timespec *)timeout);
      return wait_in_line_until(a, d) ? 0 : -ETIMEDOUT;
    }
    wait_in_line(a, "a change of an atomic");
    return 0;
  }
  if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
    long n = 0;
    SyncObj &o = obj(a);
    while (n < val && !o.waiters.empty()) {
      size_t i = erng.below(o.waiters.size());
      Thr *t = o.waiters[i];
      o.waiters.erase(o.waiters.begin() + (long)i);
      if (t->st == ST_BLOCK && t->wait_on == a) t->st = ST_RUN;
      n++;
    }
    sync_step();
    return n;
  }
  return -ENOSYS;
}
struct Sem { int n = 0; };
static std::unordered_map<const void *, Sem> *sems;
static Sem &sem_of(const void *s) {
  if (!sems) sems = new std::unordered_map<const void *, Sem>();
  auto r = sems->try_emplace(s);
  if (r.second) { int v = 0; sem_getvalue((sem_t *)s, &v); r.first->second.n = v; }
  return r.first->second;
}
static int sem_take(const void *s, bool try_only) {
  RtScope g;
  sync_step();
  while (sem_of(s).n == 0) {
    if (try_only) { errno = EAGAIN; return -1; }
    block_on(s, "a semaphore");
  }
  sem_of(s).n--;
  acquire(obj(s), true);
  return 0;
}
static void cond_wake(const void *c, bool all) {
  RtScope g;
  SyncObj &o = obj(c);
  release(o, true);
  while (!o.waiters.empty()) {
    size_t i = erng.below(o.waiters.size());
    Thr *t = o.waiters[i];
    o.waiters.erase(o.waiters.begin() + (long)i);
    if (t->st == ST_BLOCK && t->wait_on == c) t->st = ST_RUN;
    if (!all) break;
  }
  sync_step();
}
} // namespace rt

using namespace rt;
#define PC __builtin_return_address(0)
// ============================================================ interposed calls
void *operator new(size_t n) { return op_new(n, 16, false, PC); }
void *operator new[](size_t n) { return op_new(n, 16, false, PC); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return op_new(n, 16, true, PC); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return op_new(n, 16, true, PC); }
void *operator new(size_t n, std::align_val_t a) { return op_new(n, (size_t)a, false, PC); }
void *operator new[](size_t n, std::align_val_t a) { return op_new(n, (size_t)a, false, PC); }
void operator delete(void *p) noexcept { op_delete(p, PC); }
void operator delete[](void *p) noexcept { op_delete(p, PC); }
void operator delete(void *p, size_t) noexcept { op_delete(p, PC); }
void operator delete[](void *p, size_t) noexcept { op_delete(p, PC); }
void operator delete(void *p, const std::nothrow_t &) noexcept { op_delete(p, PC); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { op_delete(p, PC); }
void operator delete(void *p, std::align_val_t) noexcept { op_delete(p, PC); }
void operator delete[](void *p, std::align_val_t) noexcept { op_delete(p, PC); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { op_delete(p, PC); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { op_delete(p, PC); }

extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) noexcept { return sim() ? mutex_lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP, false) : REAL(pthread_mutex_lock)(m); }
int pthread_mutex_trylock(pthread_mutex_t *m) noexcept { return sim() ? mutex_lock(m, (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP, true) : REAL(pthread_mutex_trylock)(m); }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *t) noexcept { return sim() ? lock_until(CLOCK_REALTIME, t, [&] { return mutex_lock(m, false, true); }) : REAL(pthread_mutex_timedlock)(m, t); }
int pthread_mutex_unlock(pthread_mutex_t *m) noexcept { return sim() ? mutex_unlock(m) : REAL(pthread_mutex_unlock)(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t *m) noexcept {
  if (!sim()) return REAL(pthread_rwlock_rdlock)(m);
  {
    RtScope g;
    if (cfg.eagain_permille && erng.chance(cfg.eagain_permille)) { count(C_EAGAIN); steps++; return EAGAIN; }
  }
  return rw_rd(m, false);
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) noexcept { return sim() ? rw_rd(m, true) : REAL(pthread_rwlock_tryrdlock)(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t *m) noexcept { return sim() ? rw_wr(m, false) : REAL(pthread_rwlock_wrlock)(m); }
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) noexcept { return sim() ? rw_wr(m, true) : REAL(pthread_rwlock_trywrlock)(m); }
int pthread_rwlock_timedrdlock(pthread_rwlock_t *m, const struct timespec *t) noexcept { return sim() ? lock_until(CLOCK_REALTIME, t, [&] { return rw_rd(m, true); }) : REAL(pthread_rwlock_timedrdlock)(m, t); }
int pthread_rwlock_timedwrlock(pthread_rwlock_t *m, const struct timespec *t) noexcept { return sim() ? lock_until(CLOCK_REALTIME, t, [&] { return rw_wr(m, true); }) : REAL(pthread_rwlock_timedwrlock)(m, t); }
int pthread_rwlock_unlock(pthread_rwlock_t *m) noexcept { return sim() ? rw_unlock(m) : REAL(pthread_rwlock_unlock)(m); }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return sim() ? cond_wait(c, m) : REAL(pthread_cond_wait)(c, m); }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { return sim() ? cond_wait_until(c, m, CLOCK_REALTIME, t) : REAL(pthread_cond_timedwait)(c, m, t); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t k, const struct timespec *t) { return sim() ? cond_wait_until(c, m, k, t) : REAL(pthread_cond_clockwait)(c, m, k, t); }
int pthread_cond_signal(pthread_cond_t *c) noexcept { if (!sim()) return REAL(pthread_cond_signal)(c); cond_wake(c, false); return 0; }
int pthread_cond_broadcast(pthread_cond_t *c) noexcept { if (!sim()) return REAL(pthread_cond_broadcast)(c); cond_wake(c, true); return 0; }
int pthread_create(pthread_t *o, const pthread_attr_t *a, void *(*f)(void *), void *arg) noexcept {
  if (!sim()) return REAL(pthread_create)(o, a, f, arg);
  sim_create(f, arg, o, a);
  { RtScope g; sync_step(); }
  return 0;
}
int pthread_join(pthread_t p, void **r) {
  if (!sim()) return REAL(pthread_join)(p, r);
  for (int i = 0; i < nthreads; i++)
    if (threads[i]->id && pthread_equal(threads[i]->pt, p)) {
      sim_join(threads[i]);
      if (r) *r = threads[i]->ret;
      return 0;
    }
  return ESRCH;
}
int pthread_once(pthread_once_t *c, void (*f)(void)) {
  if (!sim()) return REAL(pthread_once)(c, f);
  {
    RtScope g;
    sync_step();
    SyncObj &o = obj(c);
    for (;;) {
      if (__atomic_load_n(c, __ATOMIC_ACQUIRE) & 2) { acquire(o, true); return 0; }
      if (o.once != 1) break;
      block_on(c, "a one-time initialisation");
    }
    o.once = 1;
  }
  try { f(); } catch (...) {
    RtScope g;
    obj(c).once = 0;
    wake_all(c);
    throw;
  }
  RtScope g;
  SyncObj &o = obj(c);
  o.once = 2;
  release(o, true);
  __atomic_store_n(c, 2, __ATOMIC_RELEASE);
  wake_all(c);
  return 0;
}
int __cxa_guard_acquire(uint64_t *gd) noexcept {
  char *b = (char *)gd;
  if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0;
  if (!sim()) { b[1] = 1; return 1; }
  RtScope g;
  sync_step();
  SyncObj &o = obj(gd);
  for (;;) {
    if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) { acquire(o, true); return 0; }
    if (o.once != 1) break;
    block_on(gd, "the initialisation of a static variable");
  }
  o.once = 1;
  return 1;
}
void __cxa_guard_release(uint64_t *gd) noexcept {
  char *b = (char *)gd;
  if (!sim()) { __atomic_store_n(b, 1, __ATOMIC_RELEASE); return; }
  RtScope g;
  SyncObj &o = obj(gd);
  o.once = 2;
  release(o, true);
  __atomic_store_n(b, 1, __ATOMIC_RELEASE);
  wake_all(gd);
}
void __cxa_guard_abort(uint64_t *gd) noexcept {
  if (!sim()) return;
  RtScope g;
  obj(gd).once = 0;
  wake_all(gd);
}
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t k, const struct timespec *t) noexcept { return sim() ? lock_until(k, t, [&] { return mutex_lock(m, false, true); }) : REAL(pthread_mutex_clocklock)(m, k, t); }
int pthread_rwlock_clockrdlock(pthread_rwlock_t *m, clockid_t k, const struct timespec *t) noexcept { return sim() ? lock_until(k, t, [&] { return rw_rd(m, true); }) : REAL(pthread_rwlock_clockrdlock)(m, k, t); }
int pthread_rwlock_clockwrlock(pthread_rwlock_t *m, clockid_t k, const struct timespec *t) noexcept { return sim() ? lock_until(k, t, [&] { return rw_wr(m, true); }) : REAL(pthread_rwlock_clockwrlock)(m, k, t); }
int pthread_spin_lock(pthread_spinlock_t *m) noexcept { return sim() ? mutex_lock((void *)m, false, false) : REAL(pthread_spin_lock)(m); }
int pthread_spin_trylock(pthread_spinlock_t *m) noexcept { return sim() ? mutex_lock((void *)m, false, true) : REAL(pthread_spin_trylock)(m); }
int pthread_spin_unlock(pthread_spinlock_t *m) noexcept { return sim() ? mutex_unlock((void *)m) : REAL(pthread_spin_unlock)(m); }
int sem_init(sem_t *s, int sh, unsigned v) noexcept {
  if (!sim()) return REAL(sem_init)(s, sh, v);
  RtScope g;
  if (!sems) sems = new std::unordered_map<const void *, Sem>();
  (*sems)[s].n = (int)v;
  return 0;
}
int sem_destroy(sem_t *s) noexcept { if (!sim()) return REAL(sem_destroy)(s); RtScope g; if (sems) sems->erase(s); return 0; }
int sem_wait(sem_t *s) { return sim() ? sem_take(s, false) : REAL(sem_wait)(s); }
static int sem_until(clockid_t k, sem_t *s, const struct timespec *t) { int r = lock_until(k, t, [&] { return sem_take(s, true); }); if (r) errno = r; return r ? -1 : 0; }
int sem_timedwait(sem_t *s, const struct timespec *t) { return sim() ? sem_until(CLOCK_REALTIME, s, t) : REAL(sem_timedwait)(s, t); }
int sem_clockwait(sem_t *s, clockid_t k, const struct timespec *t) { return sim() ? sem_until(k, s, t) : REAL(sem_clockwait)(s, k, t); }
int sem_trywait(sem_t *s) noexcept { return sim() ? sem_take(s, true) : REAL(sem_trywait)(s); }
int sem_post(sem_t *s) noexcept {
  if (!sim()) return REAL(sem_post)(s);
  RtScope g;
  sem_of(s).n++;
  release(obj(s), true);
  wake_all(s);
  sync_step();
  return 0;
}
long syscall(long n, ...) noexcept {
  va_list ap;
  va_start(ap, n);
  long a[6];
  for (auto &x : a) x = va_arg(ap, long);
  va_end(ap);
  long r = n == SYS_futex && sim() ? sim_futex((int *)a[0], (int)a[1], (int)a[2], (void *)a[3]) : raw_call(n, a[0], a[1], a[2], a[3], a[4], a[5]);
  if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
  return r;
}
int sched_yield(void) noexcept { if (!sim()) return REAL(sched_yield)(); RtScope g; let_others_run(); return 0; }
static int sim_sleep(uint64_t to, struct timespec *left) { RtScope g; timed(to, [] { return false; }); if (left) *left = {}; return 0; }
int nanosleep(const struct timespec *a, struct timespec *b) { return sim() ? sim_sleep(sim_mono() + ns_of(a), b) : REAL(nanosleep)(a, b); }
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) {
  if (!sim()) return REAL(clock_nanosleep)(c, f, a, b);
  return sim_sleep(f & TIMER_ABSTIME ? until(c, a) : sim_mono() + ns_of(a), b);
}
int usleep(useconds_t u) { return sim() ? sim_sleep(sim_mono() + u * 1000ull, nullptr) : REAL(usleep)(u); }
unsigned sleep(unsigned u) { return sim() ? (unsigned)sim_sleep(sim_mono() + u * 1000000000ull, nullptr) : REAL(sleep)(u); }
int clock_gettime(clockid_t k, struct timespec *t) noexcept {
  if (!sim()) return (int)syscall(SYS_clock_gettime, k, t);
  RtScope g;
  sync_step();
  int64_t n = k == CLOCK_REALTIME || k == CLOCK_REALTIME_COARSE || k == CLOCK_TAI ? sim_wall() : (int64_t)sim_mono();
  t->tv_sec = n / 1000000000;
  t->tv_nsec = n % 1000000000;
  return 0;
}
int gettimeofday(struct timeval *t, void *) noexcept {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  t->tv_sec = s.tv_sec;
  t->tv_usec = s.tv_nsec / 1000;
  return 0;
}
time_t time(time_t *t) noexcept {
  struct timespec s;
  clock_gettime(CLOCK_REALTIME, &s);
  if (t) *t = s.tv_sec;
  return s.tv_sec;
}

// ------------------------------------- compiler instrumentation of the library
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
  void __tsan_read##n(void *p) { on_access(p, n, false, PC); } \
  void __tsan_write##n(void *p) { on_access(p, n, true, PC); } \
  void __tsan_unaligned_read##n(void *p) { on_access(p, n, false, PC); } \
  void __tsan_unaligned_write##n(void *p) { on_access(p, n, true, PC); } \
  void __tsan_read##n##_pc(void *p, void *pc) { on_access(p, n, false, pc); } \
  void __tsan_write##n##_pc(void *p, void *pc) { on_access(p, n, true, pc); } \
  void __tsan_volatile_read##n(void *p) { on_access(p, n, false, PC); } \
  void __tsan_volatile_write##n(void *p) { on_access(p, n, true, PC); } \
  void __tsan_unaligned_volatile_read##n(void *p) { on_access(p, n, false, PC); } \
  void __tsan_unaligned_volatile_write##n(void *p) { on_access(p, n, true, PC); } \
  void __tsan_read_write##n(void *p) { on_access(p, n, true, PC); } \
  void __tsan_unaligned_read_write##n(void *p) { on_access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **p, void *v) { if (*p != v) on_access(p, 8, true, PC); }
void __tsan_vptr_read(void **p) { on_access(p, 8, false, PC); }
void __tsan_read_range(void *p, unsigned long n) { if (n) on_access(p, n, false, PC); }
void __tsan_write_range(void *p, unsigned long n) { if (n) on_access(p, n, true, PC); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void *__tsan_memcpy(void *d, const void *s, unsigned long n) { if (n) { on_access((void *)s, n, false, PC); on_access(d, n, true, PC); } return __builtin_memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, unsigned long n) { if (n) { on_access((void *)s, n, false, PC); on_access(d, n, true, PC); } return __builtin_memmove(d, s, n); }
int __wrap_memcmp(const void *a, const void *b, size_t n) { if (n) { on_access((void *)a, n, false, PC); on_access((void *)b, n, false, PC); } return memcmp(a, b, n); }
void *__wrap_memchr(const void *a, int c, size_t n) { void *r = (void *)memchr(a, c, n); size_t k = r ? (size_t)((char *)r - (char *)a) + 1 : n; if (k) on_access((void *)a, k, false, PC); return r; }
size_t __wrap_strlen(const char *s) { size_t n = strlen(s); on_access((void *)s, n + 1, false, PC); return n; }
void *__wrap_memcpy(void *d, const void *s, size_t n) { if (n) { on_access((void *)s, n, false, PC); on_access(d, n, true, PC); } return memcpy(d, s, n); }
void *__wrap_memmove(void *d, const void *s, size_t n) { if (n) { on_access((void *)s, n, false, PC); on_access(d, n, true, PC); } return memmove(d, s, n); }
void *__wrap_memset(void *d, int c, size_t n) { if (n) on_access(d, n, true, PC); return memset(d, c, n); }
void *__tsan_memset(void *d, int c, unsigned long n) { if (n) on_access(d, n, true, PC); return __builtin_memset(d, c, n); }

// Atomics: a scheduling point, synchronising unless relaxed; executed sequentially consistently.
static void atomic_pre() { if (sim()) { RtScope g; if (nthreads > 1) sync_step(); else steps++; } }
static void atomic_sync(const volatile void *p, int mo, bool ld, bool st) {
  if (!sim()) return;
  RtScope g;
  int k = arena_of((uint64_t)p);
  if (k >= 0 && !valid(k, (uint64_t)p, 1)) bad_access((uint64_t)p, 1, st, PC);
  if (mo == __ATOMIC_RELAXED) return;
  SyncObj &o = obj((const void *)p);
  if (ld) acquire(o, true);
  if (st) release(o, true);
}
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T *p, int mo) { atomic_pre(); T v = __atomic_load_n(p, __ATOMIC_SEQ_CST); atomic_sync(p, mo, true, false); return v; } \
  void __tsan_atomic##bits##_store(volatile T *p, T v, int mo) { atomic_pre(); atomic_sync(p, mo, false, true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_exchange(volatile T *p, T v, int mo) { atomic_pre(); atomic_sync(p, mo, true, true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int mo) { atomic_pre(); atomic_sync(p, mo, true, true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int mo) { atomic_pre(); atomic_sync(p, mo, true, true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int mo) { atomic_pre(); atomic_sync(p, mo, true, true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int mo) { atomic_pre(); atomic_sync(p, mo, true, true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int mo) { atomic_pre(); atomic_sync(p, mo, true, true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int mo) { atomic_pre(); atomic_sync(p, mo, true, true); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int mo, int) { atomic_pre(); atomic_sync(p, mo, true, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int mo, int) { atomic_pre(); atomic_sync(p, mo, true, true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int mo, int) { atomic_pre(); atomic_sync(p, mo, true, true); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
static char fence_obj;
void __tsan_atomic_thread_fence(int mo) { atomic_pre(); atomic_sync(&fence_obj, mo, true, true); }
void __tsan_atomic_signal_fence(int) {}
} // extern "C"
