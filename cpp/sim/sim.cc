// Compiled WITHOUT instrumentation.
#include "sim.h"

#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <new>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>

extern "C" char __libc_single_threaded;
extern "C" char __data_start, _end;

namespace sim {

bool g_verbose = false;

// ======================================================================= child
// Result area of one run, in memory shared with the parent.
struct RunResult {
  volatile int done;  // 1: run ended normally, 2: violation reported
  uint64_t hash;
  uint64_t steps;
  uint64_t switches;
  int nontrivial;
  int nsched;
  char cls[64];
  char msg[1600];
  char sample[400];
  struct {
    char name[40];
    uint64_t n;
  } counters[64];
  int ncounters;
  Switch sched[200000];
};
static RunResult* g_res = nullptr;

static constexpr int kMaxThreads = 8;
static constexpr uintptr_t kArenaBase = 0x100000000000ull;
static constexpr size_t kArenaSize = 512ull << 20;
static constexpr uintptr_t kBitmapBase = 0x110000000000ull;  // 1 bit per byte
static constexpr uintptr_t kShadowBase = 0x120000000000ull;  // per 8-byte granule
static constexpr uintptr_t kStackBase = 0x130000000000ull;
static constexpr size_t kStackSize = 16ull << 20;

// ---------------------------------------------------------------- thread state
struct VClock {
  uint32_t c[kMaxThreads + 1];
};
enum TState { kRunnable, kBlocked, kDone };
struct Thread {
  pthread_t pt;
  TState st = kRunnable;
  const void* blocked_on = nullptr;
  uint64_t yields = 0;
  uint32_t futex = 0;
  VClock vc{};
  VClock seen{};   // published by writes this thread has read without acquiring
  VClock fence{};  // this thread at its last releasing fence
  uintptr_t stack_lo = 0, stack_hi = 0;
  bool timed_wait = false;
  bool cond_signaled = false;
};
static Thread g_thr[kMaxThreads];
static VClock g_main_vc{};
static int g_n = 0;
static int g_cur = -1;  // running simulated thread
static bool g_running = false;
static uint64_t g_steps = 0, g_seq = 0, g_hash = 1469598103934665603ull, g_switches = 0;
static uint32_t g_main_futex = 0;
static const std::function<void(int)>* g_body = nullptr;
static uint64_t g_step_cap = 30000000;
static bool g_nontrivial = false;

static __thread int t_self = -1;
static __thread bool t_tracked = false;
static __thread int t_fail_countdown = 0;
static __thread bool t_fail_fired = false;
static __thread int t_in_runtime = 0;
static __thread uintptr_t t_stack_lo = 0, t_stack_hi = 0;

// scheduler configuration of this run
static Rng g_srng(1);
static bool g_explicit = false;
static std::map<std::pair<int, uint64_t>, int>* g_smap = nullptr;
static uint64_t g_countdown = 0;
static uint64_t g_gap = 50;
static int g_strategy = 0;  // 0 random walk, 1 PCT, 2 run-to-block (few switches)
static int g_prio[kMaxThreads];
static std::vector<uint64_t>* g_pct_points = nullptr;
static size_t g_pct_next = 0;

int self() { return t_self; }
uint64_t now_seq() { return ++g_seq; }
uint64_t steps() { return g_steps; }
static inline void mix(uint64_t v) { g_hash = (g_hash ^ v) * 1099511628211ull; g_hash ^= g_hash >> 29; }
void event(uint64_t tag, uint64_t value) {
  mix(tag * 31 + 7);
  mix(value);
  mix((uint64_t)(t_self + 1));
}

static void finish_child(int done) {
  g_res->hash = g_hash;
  g_res->steps = g_steps;
  g_res->switches = g_switches;
  g_res->nontrivial = g_nontrivial ? 1 : 0;
  __sync_synchronize();
  g_res->done = done;
  _exit(0);
}

[[noreturn]] void violation(const std::string& cls, const std::string& msg) {
  t_in_runtime++;
  if (g_res && !g_res->done) {
    snprintf(g_res->cls, sizeof g_res->cls, "%s", cls.c_str());
    snprintf(g_res->msg, sizeof g_res->msg, "%s", msg.c_str());
    if (g_verbose) fprintf(stderr, "[sim] violation %s: %s\n", cls.c_str(), msg.c_str());
    finish_child(2);
  }
  fprintf(stderr, "violation outside a run: %s: %s\n", cls.c_str(), msg.c_str());
  _exit(3);
}
[[noreturn]] static void violationf(const char* cls, const char* fmt, ...) {
  char b[1500];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  violation(cls, b);
}

void count(const char* name, uint64_t n) {
  for (int i = 0; i < g_res->ncounters; i++)
    if (!strcmp(g_res->counters[i].name, name)) {
      g_res->counters[i].n += n;
      return;
    }
  if (g_res->ncounters < 64) {
    snprintf(g_res->counters[g_res->ncounters].name, 40, "%s", name);
    g_res->counters[g_res->ncounters++].n = n;
  }
}
void mark_nontrivial() { g_nontrivial = true; }
void sample_note(const std::string& s) { snprintf(g_res->sample, sizeof g_res->sample, "%s", s.c_str()); }
void log(const char* fmt, ...) {
  if (!g_verbose) return;
  t_in_runtime++;
  char b[800];
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(b, sizeof b, fmt, ap);
  va_end(ap);
  fprintf(stderr, "[%8llu t%d] %s\n", (unsigned long long)g_steps, t_self, b);
  t_in_runtime--;
}

// ------------------------------------------------------------------ scheduling
static void futex_wait(uint32_t* f) {
  while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0) syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
  __atomic_store_n(f, 0, __ATOMIC_RELAXED);
}
static void futex_wake(uint32_t* f) {
  __atomic_store_n(f, 1, __ATOMIC_RELEASE);
  syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}
static void hand_to(int to) {
  int me = t_self;
  g_cur = to;
  if (to == me) return;
  futex_wake(&g_thr[to].futex);
  if (g_thr[me].st != kDone) futex_wait(&g_thr[me].futex);
}
static void record_switch(int from, uint64_t at, int to) {
  g_switches++;
  mix(0x51 + (uint64_t)from * 1315423911u + at * 2654435761u + (uint64_t)to);
  if (g_res->nsched < (int)(sizeof g_res->sched / sizeof g_res->sched[0])) g_res->sched[g_res->nsched++] = Switch{from, at, to};
}
static void draw_gap() {
  // geometric-like: uniform in [1, 2*gap]
  g_countdown = 1 + g_srng.below(2 * g_gap);
}
static int runnable(int* out) {
  int k = 0;
  for (int i = 0; i < g_n; i++)
    if (g_thr[i].st == kRunnable) out[k++] = i;
  return k;
}
static int choose_forced(int from, uint64_t at) {
  int r[kMaxThreads];
  int k = runnable(r);
  if (k == 0) return -1;
  if (g_explicit) {
    auto it = g_smap->find({from, at});
    if (it != g_smap->end() && it->second >= 0 && it->second < g_n && g_thr[it->second].st == kRunnable) return it->second;
    return r[0];
  }
  if (g_strategy == 1) {
    int best = r[0];
    for (int i = 1; i < k; i++)
      if (g_prio[r[i]] > g_prio[best]) best = r[i];
    return best;
  }
  return r[g_srng.below((uint64_t)k)];
}

// A scheduling point of the running thread.
static void yield_point(uint64_t site) {
  if (t_self < 0 || !g_running) return;
  Thread& me = g_thr[t_self];
  me.yields++;
  g_steps++;
  if (g_steps > g_step_cap) {
    t_in_runtime++;
    violationf("no-progress", "the simulated threads made no progress within %llu scheduling points", (unsigned long long)g_step_cap);
  }
  int to = t_self;
  if (g_explicit) {
    if (!g_smap->empty()) {
      auto it = g_smap->find({t_self, me.yields});
      if (it != g_smap->end() && it->second >= 0 && it->second < g_n && g_thr[it->second].st == kRunnable) to = it->second;
    }
    if (to == t_self && g_steps > 3000000 && (g_steps % 4096) == 0) {  // spin fairness
      int r[kMaxThreads];
      int k = runnable(r);
      for (int i = 0; i < k; i++)
        if (r[i] > t_self) { to = r[i]; break; }
      if (to == t_self) to = r[0];
    }
  } else if (g_strategy == 1) {
    if (g_pct_next < g_pct_points->size() && g_steps >= (*g_pct_points)[g_pct_next]) {
      g_prio[t_self] = -(int)g_pct_next - 1;
      g_pct_next++;
      to = choose_forced(t_self, me.yields);
    } else if (g_steps > 1500000 && (g_steps % 512) == 0) {
      int r[kMaxThreads];
      int k = runnable(r);
      to = r[g_srng.below((uint64_t)k)];
    }
  } else {
    if (--g_countdown == 0) {
      draw_gap();
      int r[kMaxThreads];
      int k = runnable(r);
      if (k > 1) to = r[g_srng.below((uint64_t)k)];
    }
  }
  if (to != t_self) {
    mix(site);
    record_switch(t_self, me.yields, to);
    hand_to(to);
  }
}
void point() {
  t_in_runtime++;
  yield_point(1);
  t_in_runtime--;
}
// give up the processor explicitly (sched_yield)
static void yield_hint() {
  if (t_self < 0 || !g_running) return;
  Thread& me = g_thr[t_self];
  me.yields++;
  g_steps++;
  if (g_steps > g_step_cap) violationf("no-progress", "threads spin without progress");
  int r[kMaxThreads];
  int k = runnable(r);
  int to = t_self;
  if (g_explicit) {
    auto it = g_smap->find({t_self, me.yields});
    if (it != g_smap->end() && it->second >= 0 && it->second < g_n && g_thr[it->second].st == kRunnable) to = it->second;
    else {
      for (int i = 0; i < k; i++)
        if (r[i] > t_self) { to = r[i]; break; }
      if (to == t_self) to = r[0];
    }
  } else {
    to = r[g_srng.below((uint64_t)k)];
    if (g_strategy == 1) g_prio[t_self] = -100 - (int)(g_steps & 0xffff);
  }
  if (to != t_self) {
    record_switch(t_self, me.yields, to);
    hand_to(to);
  }
}
// The running thread cannot go on.
static void block_on(const void* what) {
  Thread& me = g_thr[t_self];
  me.st = kBlocked;
  me.blocked_on = what;
  me.yields++;
  g_steps++;
  int to = choose_forced(t_self, me.yields);
  if (to < 0) {
    std::string s;
    for (int i = 0; i < g_n; i++)
      if (g_thr[i].st == kBlocked) s += " t" + std::to_string(i);
    violationf("deadlock", "no thread can go on; blocked:%s", s.c_str());
  }
  record_switch(t_self, me.yields, to);
  hand_to(to);
}
static void wake_all(const void* what) {
  for (int i = 0; i < g_n; i++)
    if (g_thr[i].st == kBlocked && g_thr[i].blocked_on == what) {
      g_thr[i].st = kRunnable;
      g_thr[i].blocked_on = nullptr;
    }
}

static VClock& my_vc() { return t_self < 0 ? g_main_vc : g_thr[t_self].vc; }
static int my_slot() { return t_self < 0 ? kMaxThreads : t_self; }
static void vc_join(VClock& a, const VClock& b) {
  for (int i = 0; i <= kMaxThreads; i++)
    if (b.c[i] > a.c[i]) a.c[i] = b.c[i];
}
static void vc_tick() { my_vc().c[my_slot()]++; }

// ------------------------------------------------------- synchronisation model
struct SyncObj {
  VClock vc{};
  int owner = -1;    // exclusive owner + 1, 0 free  (we store -1 free)
  int depth = 0;
  int readers = 0;
};
static std::unordered_map<uintptr_t, SyncObj>* g_sync = nullptr;
static SyncObj& sync_of(const void* p) { return (*g_sync)[(uintptr_t)p]; }

// ------------------------------------------------------------------ allocator
// Deterministic heap at a fixed address, with prompt reuse of freed blocks.
struct Hdr {
  uint32_t cls;
  uint32_t off;   // offset from the block start to the user pointer
  uint64_t size;
};
static uintptr_t g_brk = kArenaBase;
static std::map<size_t, std::vector<uintptr_t>>* g_free = nullptr;
static size_t g_live_blocks = 0, g_live_bytes = 0;
static bool g_shadow_used = true;
static bool g_quarantine = false;  // freed blocks are not handed out again
static bool g_races = true;        // report unsynchronised accesses

static inline bool in_arena(uintptr_t p) { return p - kArenaBase < kArenaSize; }
static inline bool in_data(uintptr_t p) { return p >= (uintptr_t)&__data_start && p < (uintptr_t)&_end; }
static inline unsigned char* bitmap(uintptr_t p) { return (unsigned char*)kBitmapBase + ((p - kArenaBase) >> 3); }
static void set_bits(uintptr_t p, size_t n, bool v) {
  while (n && (p & 7)) {
    if (v) *bitmap(p) |= (unsigned char)(1u << (p & 7));
    else *bitmap(p) &= (unsigned char)~(1u << (p & 7));
    p++; n--;
  }
  if (n >= 8) {
    memset(bitmap(p), v ? 0xff : 0, n >> 3);
    p += n & ~(size_t)7;
    n &= 7;
  }
  while (n) {
    if (v) *bitmap(p) |= (unsigned char)(1u << (p & 7));
    else *bitmap(p) &= (unsigned char)~(1u << (p & 7));
    p++; n--;
  }
}
struct Shadow {
  struct Acc {
    uint32_t clk;
    uint8_t tid;  // slot + 1; 0 = none
    uint8_t mask;
    uint16_t w;  // 1 write, 2 atomic write, 3 atomic read, 0 read
    uint32_t site;
  } a[5];
  uint32_t next;
};
static_assert(sizeof(Shadow) == 64);
static inline Shadow* arena_shadow(uintptr_t g) { return (Shadow*)(kShadowBase + ((g - kArenaBase) >> 3) * sizeof(Shadow)); }
static std::unordered_map<uintptr_t, Shadow>* g_gshadow = nullptr;

static void arena_init() {
  auto mm = [](uintptr_t a, size_t n) {
    void* p = mmap((void*)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)a) {
      fprintf(stderr, "cannot map simulated memory at %p: %s\n", (void*)a, strerror(errno));
      _exit(2);
    }
  };
  mm(kArenaBase, kArenaSize);
  mm(kBitmapBase, kArenaSize / 8);
  mm(kShadowBase, kArenaSize / 8 * sizeof(Shadow));
  mm(kStackBase, kStackSize * kMaxThreads);
}

static void* arena_alloc(size_t n, size_t align) {
  t_in_runtime++;
  if (n == 0) n = 1;
  size_t rounded = (n + 15) & ~(size_t)15;
  uintptr_t user = 0;
  bool recycled = false;
  size_t key = align > 16 ? (rounded | 1) + align * 2 : rounded;
  auto it = g_free->find(key);
  if (it != g_free->end() && !it->second.empty()) {
    user = it->second.back();
    it->second.pop_back();
    recycled = true;
  } else {
    uintptr_t p = g_brk + sizeof(Hdr) + 16;
    if (align < 16) align = 16;
    p = (p + align - 1) & ~(uintptr_t)(align - 1);
    if (p + rounded + 32 > kArenaBase + kArenaSize) {
      t_in_runtime--;
      violationf("resource-exhaustion", "the simulated heap of %zu MB is exhausted (allocation of %zu bytes)", kArenaSize >> 20, n);
    }
    user = p;
    g_brk = p + rounded + 16;
  }
  Hdr* h = (Hdr*)(user - sizeof(Hdr));
  h->cls = 0xA110C;
  h->off = 0;
  h->size = n;
  // stash key in the word before the header
  *(uint64_t*)(user - sizeof(Hdr) - 8) = key;
  set_bits(user, n, true);
  // The allocator orders a release before the reuse: accesses of the previous
  // owner cannot race with those of the new one.
  if (g_shadow_used) {
    uintptr_t lo = user & ~(uintptr_t)7, hi = (user + n + 7) & ~(uintptr_t)7;
    if (recycled) memset(arena_shadow(lo), 0, ((hi - lo) >> 3) * sizeof(Shadow));
  }
  if (n <= 65536) memset((void*)user, 0xA5, n);
  g_live_blocks++;
  g_live_bytes += n;
  t_in_runtime--;
  return (void*)user;
}
static void note_access(uintptr_t p, size_t n, int w, uintptr_t site);
static void arena_free(void* ptr, uintptr_t site) {
  uintptr_t user = (uintptr_t)ptr;
  t_in_runtime++;
  Hdr* h = (Hdr*)(user - sizeof(Hdr));
  if (h->cls != 0xA110C) violationf(h->cls == 0xF4EE ? "double-free" : "bad-free", "delete of %p at pc %p", ptr, (void*)site);
  size_t n = h->size;
  if (g_running && t_self >= 0) note_access(user, n, 1, site);
  h->cls = 0xF4EE;
  set_bits(user, n, false);
  memset(ptr, 0xDD, n <= 65536 ? n : 64);
  // Big blocks and, once half of the heap is used, all blocks are handed out again.
  if (!g_quarantine || n > 65536 || g_brk > kArenaBase + kArenaSize / 2) (*g_free)[*(uint64_t*)(user - sizeof(Hdr) - 8)].push_back(user);
  g_live_blocks--;
  g_live_bytes -= n;
  t_in_runtime--;
}
size_t live_blocks() { return g_live_blocks; }
size_t live_bytes() { return g_live_bytes; }
Tracked::Tracked() : old(t_tracked) { t_tracked = true; }
Tracked::~Tracked() { t_tracked = old; }
Untracked::Untracked() : old(t_tracked) { t_tracked = false; }
Untracked::~Untracked() { t_tracked = old; }
void arm_alloc_failure(int k) {
  t_fail_countdown = k;
  t_fail_fired = false;
}
bool alloc_failure_fired() { return t_fail_fired; }

static void* do_new(size_t n, size_t align, bool nothrow) {
  if (t_tracked && !t_in_runtime && g_res) {
    if (t_fail_countdown > 0 && --t_fail_countdown == 0) {
      t_fail_fired = true;
      count("fault:allocation-failure");
      mix(0xFA11);
      if (nothrow) return nullptr;
      throw std::bad_alloc();
    }
    return arena_alloc(n, align);
  }
  void* p = align > 16 ? aligned_alloc(align, (n + align - 1) / align * align) : malloc(n ? n : 1);
  if (!p && !nothrow) throw std::bad_alloc();
  return p;
}
static void do_delete(void* p, uintptr_t site) {
  if (!p) return;
  if (in_arena((uintptr_t)p)) arena_free(p, site);
  else free(p);
}

// -------------------------------------------------------------- access checks
static inline int acc_conflict(const Shadow::Acc& a, int slot, const VClock& vc, uint8_t mask, int w) {
  if (!a.tid || a.tid - 1 == slot || !(a.mask & mask)) return 0;
  bool aw = a.w == 1 || a.w == 2, nw = w == 1 || w == 2;
  if (!aw && !nw) return 0;
  bool aa = a.w >= 2, na = w >= 2;
  if (aa && na) return 0;
  return a.clk > vc.c[a.tid - 1];
}
static void note_granule(uintptr_t g, uint8_t mask, int w, uintptr_t site) {
  Shadow* s = in_arena(g) ? arena_shadow(g) : &(*g_gshadow)[g];
  int slot = my_slot();
  VClock& vc = my_vc();
  for (auto& a : s->a)
    if (acc_conflict(a, slot, vc, mask, w)) {
      violationf("data-race", "unsynchronised %s of %p by t%d (pc 0x%llx) and %s by t%d (pc 0x%x)", (w == 1 || w == 2) ? "write" : "read",
                 (void*)g, slot, (unsigned long long)site, (a.w == 1 || a.w == 2) ? "write" : "read", a.tid - 1, a.site);
    }
  // replace an entry of this thread and kind with a covered mask, else rotate
  for (auto& a : s->a)
    if (a.tid == slot + 1 && a.w == w && (a.mask & ~mask) == 0) {
      a.clk = vc.c[slot];
      a.mask = mask;
      a.site = (uint32_t)site;
      return;
    }
  Shadow::Acc* dst = nullptr;
  for (auto& a : s->a)
    if (!a.tid) { dst = &a; break; }
  if (!dst) dst = &s->a[s->next++ % 5];
  dst->tid = (uint8_t)(slot + 1);
  dst->clk = vc.c[slot];
  dst->mask = mask;
  dst->w = (uint16_t)w;
  dst->site = (uint32_t)site;
}
static void note_access(uintptr_t p, size_t n, int w, uintptr_t site) {
  if (!g_races) return;
  uintptr_t end = p + n;
  while (p < end) {
    uintptr_t g = p & ~(uintptr_t)7;
    unsigned lo = (unsigned)(p - g);
    unsigned hi = (unsigned)std::min<uintptr_t>(8, end - g);
    uint8_t mask = (uint8_t)(((1u << hi) - 1) & ~((1u << lo) - 1));
    note_granule(g, mask, w, site);
    p = g + 8;
  }
}
static void check_mapped(uintptr_t p, size_t n, bool w, uintptr_t site) {
  if (p + n > kArenaBase + kArenaSize) violationf("out-of-bounds", "%s of %zu bytes at %p", w ? "write" : "read", n, (void*)p);
  for (size_t i = 0; i < n;) {
    uintptr_t q = p + i;
    if ((q & 7) == 0 && n - i >= 8) {
      if (*bitmap(q) != 0xff) goto bad;
      i += 8;
    } else {
      if (!(*bitmap(q) & (1u << (q & 7)))) goto bad;
      i++;
    }
    continue;
  bad:
    violationf("invalid-access", "%s of %zu bytes at %p (+%zu) outside any live allocation (freed or out of bounds), t%d pc 0x%llx",
               w ? "write" : "read", n, (void*)p, i, t_self, (unsigned long long)site);
  }
}
// the per-access entry: kind 0 read, 1 write
static inline void access(const void* ptr, size_t n, int w, uintptr_t site) {
  uintptr_t p = (uintptr_t)ptr;
  bool ar = in_arena(p);
  if (!ar && !in_data(p)) return;
  if (t_in_runtime || !g_res) return;
  t_in_runtime++;
  if (ar) check_mapped(p, n, w == 1, site);
  if (g_running && t_self >= 0) {
    yield_point(site);
    if (ar) check_mapped(p, n, w == 1, site);  // may have been freed meanwhile
    note_access(p, n, w, site);
  }
  t_in_runtime--;
}
static inline void atomic_pre(const void* ptr, size_t n, uintptr_t site) {
  uintptr_t p = (uintptr_t)ptr;
  if (t_in_runtime || !g_res) return;
  t_in_runtime++;
  if (in_arena(p)) check_mapped(p, n, true, site);
  if (g_running && t_self >= 0) {
    yield_point(site);
    if (in_arena(p)) check_mapped(p, n, true, site);
  }
  t_in_runtime--;
}
static inline bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }
static inline void atomic_hb(const void* ptr, size_t n, int mo, bool ld, bool st, uintptr_t site) {
  if (t_in_runtime || !g_res || !g_running) return;
  t_in_runtime++;
  uintptr_t p = (uintptr_t)ptr;
  if (in_arena(p) || in_data(p)) note_access(p, n, st ? 2 : 3, site);
  SyncObj& o = sync_of(ptr);
  if (ld) vc_join(is_acq(mo) || t_self < 0 ? my_vc() : g_thr[t_self].seen, o.vc);
  if (st) {
    if (is_rel(mo)) {
      if (ld) vc_join(o.vc, my_vc());
      else o.vc = my_vc();
      vc_tick();
    } else {
      if (!ld) o.vc = VClock{};  // a relaxed store breaks the release sequence
      if (t_self >= 0) vc_join(o.vc, g_thr[t_self].fence);
    }
  }
  t_in_runtime--;
}

// ----------------------------------------------------------------- the clock
static Rng g_crng(7);
static uint64_t g_clock = 1000, g_clock_max = 0;
void clock_config(uint64_t seed, uint64_t max_step) {
  g_crng = Rng(seed ^ 0xC10C);
  g_clock_max = max_step;
}
uint64_t clock_read() {
  g_clock += 1 + (g_clock_max ? g_crng.below(g_clock_max) : 0);
  return g_clock;
}
uint64_t clock_peek() { return g_clock; }
void clock_advance(uint64_t d) { g_clock += d; }

// --------------------------------------------------------------- run_threads
static void* thread_main(void* arg) {
  int i = (int)(intptr_t)arg;
  t_in_runtime = 1;
  t_self = i;
  // per-thread alternate signal stack
  static char alts[kMaxThreads][65536];
  stack_t ss{};
  ss.ss_sp = alts[i];
  ss.ss_size = sizeof alts[i];
  sigaltstack(&ss, nullptr);
  futex_wait(&g_thr[i].futex);
  t_in_runtime = 0;
  (*g_body)(i);
  t_in_runtime = 1;
  t_tracked = false;
  Thread& me = g_thr[i];
  me.st = kDone;
  vc_tick();
  me.yields++;
  int r[kMaxThreads];
  if (runnable(r) == 0) {
    for (int k = 0; k < g_n; k++)
      if (g_thr[k].st == kBlocked) violationf("deadlock", "t%d stays blocked after all other threads ended", k);
    g_cur = -1;
    futex_wake(&g_main_futex);
    return nullptr;
  }
  int to = choose_forced(i, me.yields);
  record_switch(i, me.yields, to);
  g_cur = to;
  futex_wake(&g_thr[to].futex);
  return nullptr;
}

void run_threads(const Plan& plan, int n, const std::function<void(int)>& body) {
  t_in_runtime++;
  bool tr = t_tracked;
  t_tracked = false;
  if (n > kMaxThreads) n = kMaxThreads;
  g_n = n;
  g_body = &body;
  g_explicit = plan.explicit_sched;
  delete g_smap;
  g_smap = new std::map<std::pair<int, uint64_t>, int>();
  for (auto& s : plan.sched) (*g_smap)[{s.tid, s.at}] = s.to;
  g_srng = Rng(plan.seed ^ 0x5C4ED);
  g_strategy = (int)plan.get("strategy", 0);
  g_gap = (uint64_t)std::max<int64_t>(1, plan.get("gap", 50));
  delete g_pct_points;
  g_pct_points = new std::vector<uint64_t>();
  g_pct_next = 0;
  if (g_strategy == 1) {
    uint64_t len = (uint64_t)std::max<int64_t>(100, plan.get("pct_len", 3000));
    int d = (int)plan.get("pct_d", 3);
    for (int i = 0; i < d; i++) g_pct_points->push_back(1 + g_srng.below(len));
    std::sort(g_pct_points->begin(), g_pct_points->end());
    for (int i = 0; i < n; i++) g_prio[i] = 1 + (int)g_srng.below(1000);
  } else if (g_strategy == 2) {
    g_gap = 1000000000;
  }
  draw_gap();
  g_main_vc.c[kMaxThreads]++;
  for (int i = 0; i < n; i++) {
    g_thr[i] = Thread();
    g_thr[i].vc = g_main_vc;
    g_thr[i].seen = g_thr[i].fence = VClock{};
    g_thr[i].vc.c[i] = 1;
    g_thr[i].stack_lo = kStackBase + kStackSize * (size_t)i;
    g_thr[i].stack_hi = g_thr[i].stack_lo + kStackSize;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void*)g_thr[i].stack_lo, kStackSize);
    if (pthread_create(&g_thr[i].pt, &at, thread_main, (void*)(intptr_t)i)) {
      fprintf(stderr, "pthread_create failed\n");
      _exit(2);
    }
    pthread_attr_destroy(&at);
  }
  g_main_vc.c[kMaxThreads]++;
  g_running = true;
  uint64_t base = g_steps;
  (void)base;
  int first;
  if (g_explicit) {
    auto it = g_smap->find({-1, 0});
    first = it != g_smap->end() && it->second < n ? it->second : 0;
  } else if (g_strategy == 1) {
    first = choose_forced(-1, 0);
  } else {
    first = (int)g_srng.below((uint64_t)n);
  }
  record_switch(-1, 0, first);
  g_cur = first;
  futex_wake(&g_thr[first].futex);
  futex_wait(&g_main_futex);
  g_running = false;
  for (int i = 0; i < n; i++) {
    pthread_join(g_thr[i].pt, nullptr);
    vc_join(g_main_vc, g_thr[i].vc);
  }
  g_main_vc.c[kMaxThreads]++;
  t_tracked = tr;
  t_in_runtime--;
}

// =============================================================== serialisation
static std::string hex(const std::string& s) {
  static const char* d = "0123456789abcdef";
  std::string o;
  for (unsigned char c : s) {
    o += d[c >> 4];
    o += d[c & 15];
  }
  return o.empty() ? "-" : o;
}
static std::string unhex(const std::string& s) {
  std::string o;
  if (s == "-") return o;
  for (size_t i = 0; i + 1 < s.size(); i += 2) o += (char)strtol(s.substr(i, 2).c_str(), nullptr, 16);
  return o;
}
static void ser_ops(std::ostream& o, const char* tag, int t, const std::vector<Op>& v) {
  for (auto& op : v) {
    o << tag << " " << t << " " << op.kind;
    for (auto x : op.a) o << " " << x;
    o << " " << hex(op.data) << "\n";
  }
}
std::string serialize(const Plan& p) {
  std::ostringstream o;
  o << "seed " << p.seed << "\n";
  for (auto& c : p.cfg) o << "cfg " << c.first << " " << c.second << "\n";
  o << "nthreads " << p.threads.size() << "\n";
  ser_ops(o, "pre", 0, p.pre);
  for (size_t i = 0; i < p.threads.size(); i++) ser_ops(o, "op", (int)i, p.threads[i]);
  ser_ops(o, "post", 0, p.post);
  o << "explicit " << (p.explicit_sched ? 1 : 0) << "\n";
  for (auto& s : p.sched) o << "switch " << s.tid << " " << s.at << " " << s.to << "\n";
  return o.str();
}
bool parse(const std::string& text, Plan& p) {
  std::istringstream in(text);
  std::string line;
  while (std::getline(in, line)) {
    std::istringstream l(line);
    std::string k;
    l >> k;
    if (k == "seed") l >> p.seed;
    else if (k == "cfg") {
      std::string n;
      int64_t v;
      l >> n >> v;
      p.set(n, v);
    } else if (k == "nthreads") {
      size_t n;
      l >> n;
      p.threads.resize(n);
    } else if (k == "pre" || k == "op" || k == "post") {
      size_t t;
      Op op;
      std::string d;
      l >> t >> op.kind;
      for (auto& x : op.a) l >> x;
      l >> d;
      op.data = unhex(d);
      if (k == "pre") p.pre.push_back(op);
      else if (k == "post") p.post.push_back(op);
      else if (t < p.threads.size()) p.threads[t].push_back(op);
    } else if (k == "explicit") {
      int e;
      l >> e;
      p.explicit_sched = e;
    } else if (k == "switch") {
      Switch s;
      l >> s.tid >> s.at >> s.to;
      p.sched.push_back(s);
    }
  }
  return true;
}

// ==================================================================== parent
static void on_signal(int sig) {
  if (!g_res || g_res->done) _exit(4);
  const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGILL ? "SIGILL" : sig == SIGTRAP ? "SIGTRAP" : sig == SIGFPE ? "SIGFPE" : sig == SIGBUS ? "SIGBUS" : sig == SIGALRM ? "SIGALRM" : "SIG?";
  t_in_runtime++;
  if (sig == SIGALRM) violation("hang", "the run did not end (wall-clock guard)");
  violation(std::string("crash:") + n, sig == SIGABRT ? "std::terminate or abort: the code died on its own" : "the code died on its own (failed assertion, wild memory access or illegal operation)");
}
static void child_setup() {
  t_in_runtime++;
  static char alt[65536];
  stack_t ss{};
  ss.ss_sp = alt;
  ss.ss_size = sizeof alt;
  sigaltstack(&ss, nullptr);
  struct sigaction sa {};
  sa.sa_handler = on_signal;
  sa.sa_flags = SA_ONSTACK | SA_RESETHAND;
  for (int s : {SIGSEGV, SIGABRT, SIGILL, SIGTRAP, SIGFPE, SIGBUS, SIGALRM}) sigaction(s, &sa, nullptr);
  g_sync = new std::unordered_map<uintptr_t, SyncObj>();
  if (!g_free) g_free = new std::map<size_t, std::vector<uintptr_t>>();
  g_gshadow = new std::unordered_map<uintptr_t, Shadow>();
  memset(&g_main_vc, 0, sizeof g_main_vc);
  t_in_runtime--;
}

// Runs the plan in a forked child; the result is in `res`.
static bool run_plan(const Plan& plan, RunResult* res, bool verbose) {
  memset(res, 0, offsetof(RunResult, sched));
  res->nsched = 0;
  fflush(stdout);
  fflush(stderr);
  pid_t pid = fork();
  if (pid < 0) return false;
  if (pid == 0) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    g_res = res;
    g_verbose = verbose;
    if (!verbose) {
      int fd = open("/dev/null", O_RDWR);
      dup2(fd, 0);
      dup2(fd, 1);
      dup2(fd, 2);
    }
    child_setup();
    g_quarantine = plan.get("quarantine", 0) != 0;
    g_races = plan.get("races", 1) != 0;
    struct itimerval tv {};
    tv.it_value.tv_sec = 240;
    setitimer(ITIMER_REAL, &tv, nullptr);
    execute(plan);
    t_in_runtime++;
    finish_child(1);
  }
  int st;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
  }
  if (!res->done) {
    snprintf(res->cls, sizeof res->cls, "crash:exit");
    snprintf(res->msg, sizeof res->msg, "the process ended without finishing the run (status 0x%x)", st);
    res->done = 2;
  }
  return true;
}

static double now_s() {
  struct timespec ts;
  clock_gettime(CLOCK_MONOTONIC, &ts);
  return (double)ts.tv_sec + 1e-9 * (double)ts.tv_nsec;
}

static constexpr size_t kHashSlots = 1 << 22;
struct Shared {
  volatile uint64_t next_run;
  uint64_t runs, nontrivial, steps, switches;
  volatile int stop;
  int nviol;
  struct {
    uint64_t seed;
    char cls[64];
  } viol[16];
  pthread_mutex_t mu;
  int ncounters;
  struct {
    char name[40];
    uint64_t n, runs;
  } counters[128];
  int nsamples;
  char samples[8][600];
  uint64_t digest;  // order-independent digest of all run logs
  uint64_t distinct, distinct_nt;
  uint64_t hashes[kHashSlots];
};
static void* shared_alloc(size_t n) {
  void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    _exit(2);
  }
  return p;
}

static void add_schedule_strategy(Plan& p) {
  Rng r(p.seed ^ 0x57A7);
  uint64_t x = r.below(10);
  p.set("quarantine", (int64_t)r.below(2));
  if (p.get("strategy", -1) >= 0) return;
  if (x < 5) {
    p.set("strategy", 0);
    static const int gaps[] = {2, 4, 8, 15, 30, 60, 120, 300, 800};
    p.set("gap", gaps[r.below(9)]);
  } else if (x < 9) {
    p.set("strategy", 1);
    p.set("pct_d", (int64_t)r.range(1, 6));
    static const int lens[] = {300, 1000, 3000, 10000, 40000};
    p.set("pct_len", lens[r.below(5)]);
  } else {
    p.set("strategy", 2);
  }
}
static Plan make_plan(uint64_t seed, const std::string& variant) {
  Plan p;
  p.seed = seed;
  generate(seed, variant, p);
  p.seed = seed;
  add_schedule_strategy(p);
  return p;
}
static uint64_t run_seed(uint64_t base, uint64_t i) {
  Rng r(base * 1000003 + i);
  return r.next() >> 1;
}

static size_t plan_size(const Plan& p) {
  size_t n = p.pre.size() + p.post.size() + p.sched.size();
  for (auto& t : p.threads) n += t.size();
  return n;
}

// Greedy minimisation; keeps the violation class.
static Plan minimise(Plan best, const std::string& cls, RunResult* res, double budget, int* tries) {
  double end = now_s() + budget;
  auto fails = [&](const Plan& p) {
    (*tries)++;
    run_plan(p, res, false);
    return res->done == 2 && cls == res->cls;
  };
  bool progress = true;
  while (progress && now_s() < end) {
    progress = false;
    // switches in chunks
    for (size_t chunk = std::max<size_t>(1, best.sched.size() / 2); chunk >= 1 && now_s() < end; chunk /= 2) {
      for (size_t i = 0; i < best.sched.size() && now_s() < end;) {
        Plan c = best;
        c.sched.erase(c.sched.begin() + (long)i, c.sched.begin() + (long)std::min(c.sched.size(), i + chunk));
        if (fails(c)) {
          best = c;
          progress = true;
        } else
          i += chunk;
      }
      if (chunk == 1) break;
    }
    // ops
    auto drop = [&](auto get) {
      for (size_t chunk = std::max<size_t>(1, get(best).size() / 2); chunk >= 1 && now_s() < end; chunk /= 2) {
        for (size_t i = 0; i < get(best).size() && now_s() < end;) {
          Plan c = best;
          auto& v = get(c);
          v.erase(v.begin() + (long)i, v.begin() + (long)std::min(v.size(), i + chunk));
          if (fails(c)) {
            best = c;
            progress = true;
          } else
            i += chunk;
        }
        if (chunk == 1) break;
      }
    };
    for (size_t t = 0; t < best.threads.size(); t++) drop([t](Plan& p) -> std::vector<Op>& { return p.threads[t]; });
    drop([](Plan& p) -> std::vector<Op>& { return p.pre; });
    drop([](Plan& p) -> std::vector<Op>& { return p.post; });
    // drop an idle trailing thread
    while (best.threads.size() > 1 && best.threads.back().empty() && now_s() < end) {
      Plan c = best;
      c.threads.pop_back();
      if (!fails(c)) break;
      best = c;
      progress = true;
    }
    // harness specific simplification of single ops
    auto simp = [&](auto get) {
      for (size_t i = 0; i < get(best).size() && now_s() < end; i++) {
        bool again = true;
        while (again && now_s() < end) {
          again = false;
          std::vector<Op> alts;
          shrink_op(get(best)[i], alts);
          for (auto& a : alts) {
            if (now_s() >= end) break;
            Plan c = best;
            get(c)[i] = a;
            if (fails(c)) {
              best = c;
              progress = true;
              again = true;
              break;
            }
          }
        }
      }
    };
    for (size_t t = 0; t < best.threads.size(); t++) simp([t](Plan& p) -> std::vector<Op>& { return p.threads[t]; });
    simp([](Plan& p) -> std::vector<Op>& { return p.pre; });
    simp([](Plan& p) -> std::vector<Op>& { return p.post; });
  }
  return best;
}

static std::string jesc(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if ((unsigned char)c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
static std::string slurp(const char* f) {
  std::string s;
  FILE* h = fopen(f, "r");
  if (!h) return s;
  char b[65536];
  size_t n;
  while ((n = fread(b, 1, sizeof b, h)) > 0) s.append(b, n);
  fclose(h);
  return s;
}
static void spit(const std::string& f, const std::string& s) {
  FILE* h = fopen(f.c_str(), "w");
  if (!h) {
    perror(f.c_str());
    _exit(2);
  }
  fwrite(s.data(), 1, s.size(), h);
  fclose(h);
}

static int cmd_replay(const char* file, bool verbose) {
  std::string text = slurp(file);
  if (text.empty()) {
    fprintf(stderr, "cannot read %s\n", file);
    return 2;
  }
  Plan p;
  parse(text, p);
  RunResult* res = (RunResult*)shared_alloc(sizeof(RunResult));
  run_plan(p, res, verbose);
  printf("{\"done\": %d, \"class\": \"%s\", \"hash\": \"%016llx\", \"steps\": %llu, \"message\": \"%s\"}\n", res->done, jesc(res->cls).c_str(),
         (unsigned long long)res->hash, (unsigned long long)res->steps, jesc(res->msg).c_str());
  return res->done == 2 ? 1 : 0;
}

static int cmd_batch(int argc, char** argv) {
  uint64_t seed = 1, runs = 1000;
  int workers = 8;
  double budget = 30;
  std::string variant, out, replay_dir = ".";
  for (int i = 2; i + 1 < argc; i += 2) {
    std::string k = argv[i];
    if (k == "--seed") seed = strtoull(argv[i + 1], nullptr, 10);
    else if (k == "--runs") runs = strtoull(argv[i + 1], nullptr, 10);
    else if (k == "--workers") workers = atoi(argv[i + 1]);
    else if (k == "--time") budget = atof(argv[i + 1]);
    else if (k == "--variant") variant = argv[i + 1];
    else if (k == "--out") out = argv[i + 1];
    else if (k == "--replay") replay_dir = argv[i + 1];
  }
  const double slow = getenv("SIM_SLOW") ? atof(getenv("SIM_SLOW")) : 0;
  Shared* sh = (Shared*)shared_alloc(sizeof(Shared));
  pthread_mutexattr_t ma;
  pthread_mutexattr_init(&ma);
  pthread_mutexattr_setpshared(&ma, PTHREAD_PROCESS_SHARED);
  pthread_mutex_init(&sh->mu, &ma);
  double t0 = now_s();
  std::vector<pid_t> ws;
  for (int w = 0; w < workers; w++) {
    pid_t pid = fork();
    if (pid == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      RunResult* res = (RunResult*)shared_alloc(sizeof(RunResult));
      while (!sh->stop && now_s() - t0 < budget) {
        uint64_t i = __sync_fetch_and_add(&sh->next_run, 1);
        if (i >= runs) break;
        uint64_t s = run_seed(seed, i);
        Plan p = make_plan(s, variant);
        double rt0 = now_s();
        run_plan(p, res, false);
        if (slow > 0 && now_s() - rt0 > slow) fprintf(stderr, "slow seed %llu: %.1f s\n", (unsigned long long)s, now_s() - rt0);
        // every 64th run: same seed again, the logs must agree
        if (res->done == 1 && i % 64 == 0) {
          uint64_t h = res->hash;
          run_plan(p, res, false);
          if (res->done == 1 && res->hash != h) {
            snprintf(res->cls, sizeof res->cls, "NONDETERMINISM");
            res->done = 2;
          }
        }
        pthread_mutex_lock(&sh->mu);
        sh->runs++;
        sh->steps += res->steps;
        sh->switches += res->switches;
        sh->digest += Rng(res->hash ^ s).next();
        if (res->nontrivial) sh->nontrivial++;
        uint64_t slot = (res->hash * 0x9E3779B97F4A7C15ull) >> 42;
        for (int k = 0; k < 64; k++, slot = (slot + 1) % kHashSlots) {
          if (sh->hashes[slot] == res->hash) break;
          if (!sh->hashes[slot]) {
            sh->hashes[slot] = res->hash;
            sh->distinct++;
            if (res->nontrivial) sh->distinct_nt++;
            break;
          }
        }
        for (int c = 0; c < res->ncounters; c++) {
          int k = 0;
          for (; k < sh->ncounters; k++)
            if (!strcmp(sh->counters[k].name, res->counters[c].name)) break;
          if (k == sh->ncounters && k < 128) strcpy(sh->counters[sh->ncounters++].name, res->counters[c].name);
          if (k < 128) {
            sh->counters[k].n += res->counters[c].n;
            sh->counters[k].runs++;
          }
        }
        if (res->sample[0] && sh->nsamples < 3 && res->nontrivial)
          snprintf(sh->samples[sh->nsamples++], 600, "seed %llu: %s [%llu scheduling points, %llu switches]", (unsigned long long)s, res->sample,
                   (unsigned long long)res->steps, (unsigned long long)res->switches);
        if (res->done == 2 && sh->nviol < 16) {
          sh->viol[sh->nviol].seed = s;
          strcpy(sh->viol[sh->nviol].cls, res->cls);
          sh->nviol++;
          sh->stop = 1;
        }
        pthread_mutex_unlock(&sh->mu);
      }
      _exit(0);
    }
    ws.push_back(pid);
  }
  for (auto p : ws) {
    int st;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {
    }
  }
  double wall = now_s() - t0;
  RunResult* res = (RunResult*)shared_alloc(sizeof(RunResult));
  std::string vjson = "null";
  int rc = 0;
  // the violation with the smallest seed first, for a stable report
  std::vector<std::pair<uint64_t, std::string>> viols;
  for (int i = 0; i < sh->nviol; i++) viols.push_back({sh->viol[i].seed, sh->viol[i].cls});
  std::sort(viols.begin(), viols.end());
  for (auto& v : viols) {
    if (v.second == "NONDETERMINISM") {
      fprintf(stderr, "harness error: seed %llu gave two different logs\n", (unsigned long long)v.first);
      rc = 2;
      continue;
    }
    Plan p = make_plan(v.first, variant);
    run_plan(p, res, false);
    uint64_t h1 = res->hash;
    std::string c1 = res->done == 2 ? res->cls : "";
    std::vector<Switch> rec(res->sched, res->sched + res->nsched);
    run_plan(p, res, false);
    if (res->done != 2 || res->hash != h1 || c1 != res->cls || c1 != v.second) {
      fprintf(stderr, "harness error: violation %s of seed %llu did not reproduce identically (%s / %s)\n", v.second.c_str(),
              (unsigned long long)v.first, c1.c_str(), res->cls);
      rc = 2;
      continue;
    }
    Plan e = p;
    e.explicit_sched = true;
    e.sched = rec;
    run_plan(e, res, false);
    int tries = 0;
    Plan m = p;
    size_t before = plan_size(e);
    if (res->done == 2 && c1 == res->cls) m = minimise(e, c1, res, 40, &tries);
    run_plan(m, res, false);
    uint64_t hm = res->hash;
    std::string msg = res->msg;
    std::string path = replay_dir + "/" + kHarnessName + "-" + std::to_string(v.first) + ".replay";
    std::string hdr = "# " + std::string(kHarnessName) + " violation class " + c1 + "\n# seed " + std::to_string(v.first) + " variant " + (variant.empty() ? "-" : variant) + "\n# " + msg + "\n";
    spit(path, hdr + serialize(m));
    // fresh-process replay
    std::string cmd = std::string(argv[0]) + " replay '" + path + "'";
    FILE* ph = popen(cmd.c_str(), "r");
    std::string o;
    char b[4096];
    size_t n;
    while (ph && (n = fread(b, 1, sizeof b, ph)) > 0) o.append(b, n);
    int st = ph ? pclose(ph) : -1;
    char want[64];
    snprintf(want, sizeof want, "\"hash\": \"%016llx\"", (unsigned long long)hm);
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 1 || o.find(want) == std::string::npos || o.find("\"class\": \"" + jesc(c1) + "\"") == std::string::npos) {
      fprintf(stderr, "harness error: fresh-process replay of %s disagrees: %s (wanted %s)\n", path.c_str(), o.c_str(), want);
      rc = 2;
      continue;
    }
    std::ostringstream vj;
    vj << "{\"seed\": " << v.first << ", \"class\": \"" << jesc(c1) << "\", \"message\": \"" << jesc(msg) << "\", \"replay\": \"" << jesc(path)
       << "\", \"minimise_runs\": " << tries << ", \"trace_before\": " << before << ", \"trace_after\": " << plan_size(m) << "}";
    vjson = vj.str();
    rc = 1;
    break;
  }
  std::ostringstream o;
  o << "{\n  \"harness\": \"" << kHarnessName << "\", \"variant\": \"" << variant << "\", \"seed\": " << seed << ",\n  \"runs\": " << sh->runs
    << ", \"nontrivial\": " << sh->nontrivial << ", \"distinct\": " << sh->distinct << ", \"distinct_nontrivial\": " << sh->distinct_nt << ",\n  \"steps\": " << sh->steps
    << ", \"switches\": " << sh->switches << ", \"digest\": \"" << std::hex << sh->digest << std::dec << "\", \"wall_s\": " << wall << ",\n  \"counters\": {";
  for (int i = 0; i < sh->ncounters; i++)
    o << (i ? ", " : "") << "\"" << sh->counters[i].name << "\": {\"n\": " << sh->counters[i].n << ", \"runs\": " << sh->counters[i].runs << "}";
  o << "},\n  \"samples\": [";
  for (int i = 0; i < sh->nsamples; i++) o << (i ? ", " : "") << "\"" << jesc(sh->samples[i]) << "\"";
  o << "],\n  \"violation\": " << vjson << "\n}\n";
  if (!out.empty()) spit(out, o.str());
  else fputs(o.str().c_str(), stdout);
  return rc;
}

}  // namespace sim

__attribute__((weak)) void sim::shrink_op(const sim::Op&, std::vector<sim::Op>&) {}
__attribute__((weak)) void sim::prepare() {}

// Objects every run starts with: built once here, inherited by each child.
static void do_prepare() {
  using namespace sim;
  t_in_runtime++;
  g_sync = new std::unordered_map<uintptr_t, SyncObj>();
  g_free = new std::map<size_t, std::vector<uintptr_t>>();
  g_gshadow = new std::unordered_map<uintptr_t, Shadow>();
  g_res = new RunResult();
  t_in_runtime--;
  prepare();
  g_res = nullptr;
}

int main(int argc, char** argv) {
  using namespace sim;
  // Re-execute without address-space randomisation so that every address the
  // code computes with (hash seeds, pointer comparisons) repeats.
  int pers = personality(0xffffffff);
  if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NO_REEXEC")) {
    setenv("SIM_NO_REEXEC", "1", 1);
    if (personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  __libc_single_threaded = 0;
  t_in_runtime = 0;
  arena_init();
  do_prepare();
  if (argc >= 3 && !strcmp(argv[1], "replay")) return cmd_replay(argv[2], argc > 3);
  if (argc >= 2 && !strcmp(argv[1], "batch")) return cmd_batch(argc, argv);
  if (argc >= 3 && !strcmp(argv[1], "one")) {  // one SEED [VARIANT]
    Plan p = make_plan(strtoull(argv[2], nullptr, 10), argc > 3 ? argv[3] : "");
    fputs(serialize(p).c_str(), stdout);
    RunResult* res = (RunResult*)shared_alloc(sizeof(RunResult));
    run_plan(p, res, argc > 4);
    printf("done %d cls %s msg %s steps %llu switches %llu hash %016llx\n", res->done, res->cls, res->msg, (unsigned long long)res->steps,
           (unsigned long long)res->switches, (unsigned long long)res->hash);
    return 0;
  }
  fprintf(stderr, "usage: %s batch --seed S --runs N --workers W --time T --variant V --out F --replay DIR | replay FILE [-v] | one SEED [VARIANT] [-v]\n", argv[0]);
  return 2;
}

// ================================================== operators new and delete
#define SITE ((uintptr_t)__builtin_return_address(0))
void* operator new(size_t n) { return sim::do_new(n, 16, false); }
void* operator new[](size_t n) { return sim::do_new(n, 16, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return sim::do_new(n, 16, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return sim::do_new(n, 16, true); }
void* operator new(size_t n, std::align_val_t a) { return sim::do_new(n, (size_t)a, false); }
void* operator new[](size_t n, std::align_val_t a) { return sim::do_new(n, (size_t)a, false); }
void operator delete(void* p) noexcept { sim::do_delete(p, SITE); }
void operator delete[](void* p) noexcept { sim::do_delete(p, SITE); }
void operator delete(void* p, size_t) noexcept { sim::do_delete(p, SITE); }
void operator delete[](void* p, size_t) noexcept { sim::do_delete(p, SITE); }
void operator delete(void* p, std::align_val_t) noexcept { sim::do_delete(p, SITE); }
void operator delete[](void* p, std::align_val_t) noexcept { sim::do_delete(p, SITE); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { sim::do_delete(p, SITE); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { sim::do_delete(p, SITE); }

extern "C" {
// the heap of code written in another language
void* sim_alloc(size_t n, size_t align) { return sim::do_new(n, align < 16 ? 16 : align, true); }
void sim_free(void* p) { sim::do_delete(p, SITE); }
}

// ============================================================ pthread seam
using namespace sim;
extern "C" {
#define IN_SIM (t_self >= 0 && g_running && !t_in_runtime)

int pthread_mutex_lock(pthread_mutex_t* m) {
  if (!IN_SIM) {
    if (t_in_runtime || !g_res) {  // parent process or runtime: a plain process-shared lock
      int* w = (int*)m;
      while (__sync_lock_test_and_set(w, 1)) sched_yield();
      return 0;
    }
    t_in_runtime++;
    SyncObj& o = sync_of(m);
    if (o.owner == 100) violation("deadlock", "a lock is taken twice by the same thread");
    if (o.owner >= 0) violation("deadlock", "a lock is still held after its thread ended");
    o.owner = 100;
    vc_join(my_vc(), o.vc);
    t_in_runtime--;
    return 0;
  }
  t_in_runtime++;
  yield_point(2);
  for (;;) {
    SyncObj& o = sync_of(m);
    if (o.owner < 0) {
      o.owner = t_self;
      vc_join(my_vc(), o.vc);
      break;
    }
    if (o.owner == t_self) violation("deadlock", "a lock is taken twice by the same thread");
    block_on(m);
  }
  t_in_runtime--;
  return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
  if (!IN_SIM) {
    if (t_in_runtime || !g_res) return __sync_lock_test_and_set((int*)m, 1) ? EBUSY : 0;
    SyncObj& o = sync_of(m);
    if (o.owner >= 0) return EBUSY;
    o.owner = 100;
    return 0;
  }
  t_in_runtime++;
  yield_point(3);
  SyncObj& o = sync_of(m);
  int r = EBUSY;
  if (o.owner < 0) {
    o.owner = t_self;
    vc_join(my_vc(), o.vc);
    r = 0;
  }
  t_in_runtime--;
  return r;
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
  if (!IN_SIM) {
    if (t_in_runtime || !g_res) {
      __sync_lock_release((int*)m);
      return 0;
    }
    t_in_runtime++;
    SyncObj& o = sync_of(m);
    o.owner = -1;
    o.vc = my_vc();
    vc_tick();
    t_in_runtime--;
    return 0;
  }
  t_in_runtime++;
  SyncObj& o = sync_of(m);
  if (o.owner != t_self) violation("lock-misuse", "a lock is released by a thread that does not hold it");
  vc_join(o.vc, my_vc());
  vc_tick();
  o.owner = -1;
  wake_all(m);
  yield_point(4);
  t_in_runtime--;
  return 0;
}
// reader/writer locks
static int rw_lock(pthread_rwlock_t* m, bool w, bool wait) {
  if (t_in_runtime || !g_res || (t_self < 0)) return 0;
  t_in_runtime++;
  yield_point(5);
  for (;;) {
    SyncObj& o = sync_of(m);
    if (o.owner < 0 && (!w || o.readers == 0)) {
      if (w) o.owner = t_self;
      else o.readers++;
      vc_join(my_vc(), o.vc);
      break;
    }
    if (!wait) {
      t_in_runtime--;
      return EBUSY;
    }
    if (o.owner == t_self) violation("deadlock", "a lock is taken twice by the same thread");
    block_on(m);
  }
  t_in_runtime--;
  return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { return rw_lock(m, false, true); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { return rw_lock(m, true, true); }
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return rw_lock(m, false, false); }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return rw_lock(m, true, false); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) {
  if (t_in_runtime || !g_res || t_self < 0) return 0;
  t_in_runtime++;
  SyncObj& o = sync_of(m);
  vc_join(o.vc, my_vc());
  vc_tick();
  if (o.owner == t_self) o.owner = -1;
  else o.readers--;
  wake_all(m);
  yield_point(6);
  t_in_runtime--;
  return 0;
}
int pthread_spin_lock(pthread_spinlock_t* m) { return pthread_mutex_lock((pthread_mutex_t*)m); }
int pthread_spin_unlock(pthread_spinlock_t* m) { return pthread_mutex_unlock((pthread_mutex_t*)m); }
int pthread_spin_trylock(pthread_spinlock_t* m) { return pthread_mutex_trylock((pthread_mutex_t*)m); }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
  if (!IN_SIM) return 0;
  t_in_runtime++;
  SyncObj& o = sync_of(m);
  vc_join(o.vc, my_vc());
  vc_tick();
  o.owner = -1;
  wake_all(m);
  block_on(c);
  vc_join(my_vc(), sync_of(c).vc);
  t_in_runtime--;
  return pthread_mutex_lock(m);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) {
  (void)c;
  if (!IN_SIM) return ETIMEDOUT;
  pthread_mutex_unlock(m);
  t_in_runtime++;
  yield_hint();
  t_in_runtime--;
  pthread_mutex_lock(m);
  return ETIMEDOUT;
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* t) { return pthread_cond_timedwait(c, m, t); }
int pthread_cond_signal(pthread_cond_t* c) {
  if (!IN_SIM) return 0;
  t_in_runtime++;
  yield_point(7);
  vc_join(sync_of(c).vc, my_vc());
  vc_tick();
  for (int i = 0; i < g_n; i++)
    if (g_thr[i].st == kBlocked && g_thr[i].blocked_on == c) {
      g_thr[i].st = kRunnable;
      g_thr[i].blocked_on = nullptr;
      break;
    }
  t_in_runtime--;
  return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
  if (!IN_SIM) return 0;
  t_in_runtime++;
  yield_point(8);
  vc_join(sync_of(c).vc, my_vc());
  vc_tick();
  wake_all(c);
  t_in_runtime--;
  return 0;
}
int pthread_once(pthread_once_t* o, void (*f)(void)) {
  if (!g_res || t_in_runtime) {
    if (*(int*)o == 0) {
      *(int*)o = 2;
      f();
    }
    return 0;
  }
  t_in_runtime++;
  if (g_running && t_self >= 0) yield_point(9);
  while (*(int*)o == 1 && g_running && t_self >= 0) block_on(o);
  int st = *(int*)o;
  if (st == 2) vc_join(my_vc(), sync_of(o).vc);
  else *(int*)o = 1;
  t_in_runtime--;
  if (st == 2) return 0;
  f();
  t_in_runtime++;
  *(int*)o = 2;
  vc_join(sync_of(o).vc, my_vc());
  vc_tick();
  if (g_running) wake_all(o);
  t_in_runtime--;
  return 0;
}
int sched_yield(void) {
  if (!IN_SIM) return (int)syscall(SYS_sched_yield);
  t_in_runtime++;
  yield_hint();
  t_in_runtime--;
  return 0;
}
int nanosleep(const struct timespec* t, struct timespec* r) {
  if (!IN_SIM) return (int)syscall(SYS_nanosleep, t, r);
  t_in_runtime++;
  clock_advance((uint64_t)t->tv_sec * 1000000000ull + (uint64_t)t->tv_nsec);
  yield_hint();
  t_in_runtime--;
  return 0;
}
// function-local statics
int __cxa_guard_acquire(uint64_t* g) {
  for (;;) {
    unsigned char* b = (unsigned char*)g;
    if (b[0]) return 0;
    if (!b[1]) {
      b[1] = 1;
      return 1;
    }
    if (!IN_SIM) return 0;
    t_in_runtime++;
    yield_hint();
    t_in_runtime--;
  }
}
void __cxa_guard_release(uint64_t* g) {
  unsigned char* b = (unsigned char*)g;
  if (g_sync && g_running && !t_in_runtime) {
    t_in_runtime++;
    vc_join(sync_of(g).vc, my_vc());
    vc_tick();
    t_in_runtime--;
  }
  b[1] = 0;
  b[0] = 1;
}
void __cxa_guard_abort(uint64_t* g) { ((unsigned char*)g)[1] = 0; }

// ============================================================== tsan seam
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
#define RW(n)                                                                                  \
  void __tsan_read##n(void* p) { access(p, n, 0, SITE); }                                      \
  void __tsan_write##n(void* p) { access(p, n, 1, SITE); }                                     \
  void __tsan_unaligned_read##n(void* p) { access(p, n, 0, SITE); }                            \
  void __tsan_unaligned_write##n(void* p) { access(p, n, 1, SITE); }                           \
  void __tsan_volatile_read##n(void* p) { access(p, n, 0, SITE); }                             \
  void __tsan_volatile_write##n(void* p) { access(p, n, 1, SITE); }                            \
  void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, 0, SITE); }                   \
  void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, 1, SITE); }                  \
  void __tsan_read_write##n(void* p) { access(p, n, 1, SITE); }                                \
  void __tsan_unaligned_read_write##n(void* p) { access(p, n, 1, SITE); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { access(p, n, 0, SITE); }
void __tsan_write_range(void* p, unsigned long n) { access(p, n, 1, SITE); }
void __tsan_vptr_update(void** p, void*) { access(p, 8, 1, SITE); }
void __tsan_vptr_read(void** p) { access(p, 8, 0, SITE); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) {
  if (n) {
    access(s, n, 0, SITE);
    access(d, n, 1, SITE);
  }
  return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, unsigned long n) {
  if (n) {
    access(s, n, 0, SITE);
    access(d, n, 1, SITE);
  }
  return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, unsigned long n) {
  if (n) access(d, n, 1, SITE);
  return memset(d, c, n);
}

using a8 = unsigned char;
using a16 = unsigned short;
using a32 = unsigned int;
using a64 = unsigned long;
#define ATOMIC(sz, T)                                                                                      \
  T __tsan_atomic##sz##_load(const volatile T* a, int mo) {                                                \
    atomic_pre((void*)a, sizeof(T), SITE);                                                                 \
    T v = __atomic_load_n(a, __ATOMIC_SEQ_CST);                                                            \
    atomic_hb((void*)a, sizeof(T), mo, true, false, SITE);                                                 \
    return v;                                                                                              \
  }                                                                                                        \
  void __tsan_atomic##sz##_store(volatile T* a, T v, int mo) {                                             \
    atomic_pre((void*)a, sizeof(T), SITE);                                                                 \
    atomic_hb((void*)a, sizeof(T), mo, false, true, SITE);                                                 \
    __atomic_store_n(a, v, __ATOMIC_SEQ_CST);                                                              \
  }                                                                                                        \
  T __tsan_atomic##sz##_exchange(volatile T* a, T v, int mo) {                                             \
    atomic_pre((void*)a, sizeof(T), SITE);                                                                 \
    atomic_hb((void*)a, sizeof(T), mo, true, true, SITE);                                                  \
    return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST);                                                    \
  }                                                                                                        \
  T __tsan_atomic##sz##_fetch_add(volatile T* a, T v, int mo) {                                            \
    atomic_pre((void*)a, sizeof(T), SITE);                                                                 \
    atomic_hb((void*)a, sizeof(T), mo, true, true, SITE);                                                  \
    return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST);                                                     \
  }                                                                                                        \
  T __tsan_atomic##sz##_fetch_sub(volatile T* a, T v, int mo) {                                            \
    atomic_pre((void*)a, sizeof(T), SITE);                                                                 \
    atomic_hb((void*)a, sizeof(T), mo, true, true, SITE);                                                  \
    return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST);                                                     \
  }                                                                                                        \
  T __tsan_atomic##sz##_fetch_and(volatile T* a, T v, int mo) {                                            \
    atomic_pre((void*)a, sizeof(T), SITE);                                                                 \
    atomic_hb((void*)a, sizeof(T), mo, true, true, SITE);                                                  \
    return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST);                                                     \
  }                                                                                                        \
  T __tsan_atomic##sz##_fetch_or(volatile T* a, T v, int mo) {                                             \
    atomic_pre((void*)a, sizeof(T), SITE);                                                                 \
    atomic_hb((void*)a, sizeof(T), mo, true, true, SITE);                                                  \
    return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST);                                                      \
  }                                                                                                        \
  T __tsan_atomic##sz##_fetch_xor(volatile T* a, T v, int mo) {                                            \
    atomic_pre((void*)a, sizeof(T), SITE);                                                                 \
    atomic_hb((void*)a, sizeof(T), mo, true, true, SITE);                                                  \
    return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST);                                                     \
  }                                                                                                        \
  T __tsan_atomic##sz##_fetch_nand(volatile T* a, T v, int mo) {                                           \
    atomic_pre((void*)a, sizeof(T), SITE);                                                                 \
    atomic_hb((void*)a, sizeof(T), mo, true, true, SITE);                                                  \
    return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST);                                                    \
  }                                                                                                        \
  int __tsan_atomic##sz##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int fmo) {             \
    atomic_pre((void*)a, sizeof(T), SITE);                                                                 \
    bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);             \
    atomic_hb((void*)a, sizeof(T), ok ? mo : fmo, true, ok, SITE);                                         \
    return ok;                                                                                             \
  }                                                                                                        \
  int __tsan_atomic##sz##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int fmo) {               \
    return __tsan_atomic##sz##_compare_exchange_strong(a, c, v, mo, fmo);                                  \
  }                                                                                                        \
  T __tsan_atomic##sz##_compare_exchange_val(volatile T* a, T c, T v, int mo, int fmo) {                   \
    __tsan_atomic##sz##_compare_exchange_strong(a, &c, v, mo, fmo);                                        \
    return c;                                                                                              \
  }
ATOMIC(8, a8) ATOMIC(16, a16) ATOMIC(32, a32) ATOMIC(64, a64)
void __tsan_atomic_thread_fence(int mo) {
  if (!IN_SIM) return;
  t_in_runtime++;
  yield_point(10);
  Thread& t = g_thr[t_self];
  if (is_acq(mo)) vc_join(t.vc, t.seen);
  if (mo == 5) {  // sequentially consistent fences are ordered among themselves
    SyncObj& o = sync_of((void*)1);
    vc_join(t.vc, o.vc);
    vc_join(o.vc, t.vc);
  }
  if (is_rel(mo)) {
    t.fence = t.vc;
    vc_tick();
  }
  t_in_runtime--;
}
void __tsan_atomic_signal_fence(int) {}
}
