// Deterministic simulation runtime: caller threads run one at a time, the
// seeded scheduler decides at every instrumented memory access, atomic and
// lock operation which one goes on.  See DESIGN.md.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- randomness
struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return n ? next() % n : 0; }
  int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo + 1)); }
  bool chance(uint64_t num, uint64_t den) { return below(den) < num; }
  template <typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------------- plan
struct Op {
  int kind = 0;
  int64_t a[6] = {0, 0, 0, 0, 0, 0};
  std::string data;  // opaque bytes
};

struct Switch {  // when thread `tid` reaches its `at`-th yield, go on with `to`
  int tid;
  uint64_t at;
  int to;
};

struct Plan {
  uint64_t seed = 0;
  std::vector<std::pair<std::string, int64_t>> cfg;
  std::vector<Op> pre;                   // executed before the threads start
  std::vector<std::vector<Op>> threads;  // one program per simulated thread
  std::vector<Op> post;                  // executed after all threads are done
  // schedule: generated from the seed (explicit_sched == false) or listed
  bool explicit_sched = false;
  std::vector<Switch> sched;

  int64_t get(const std::string& k, int64_t def = 0) const {
    for (auto& p : cfg)
      if (p.first == k) return p.second;
    return def;
  }
  void set(const std::string& k, int64_t v) {
    for (auto& p : cfg)
      if (p.first == k) {
        p.second = v;
        return;
      }
    cfg.emplace_back(k, v);
  }
};

std::string serialize(const Plan&);
bool parse(const std::string& text, Plan&);

// ------------------------------------------------------------------- harness
// A harness defines these three.
extern const char* const kHarnessName;
void generate(uint64_t seed, const std::string& variant, Plan& plan);
void execute(const Plan& plan);  // runs in a forked child
// Optional: state built once, before any run, and inherited by every run.
void prepare();
// Optional: simplifications of one op, harness specific.
void shrink_op(const Op& op, std::vector<Op>& out);

// ------------------------------------------------------------ run-time control
// Runs body(i) for i in [0,n) as simulated threads; returns when all ended.
void run_threads(const Plan& plan, int n, const std::function<void(int)>& body);

int self();                 // current simulated thread, -1 outside
uint64_t now_seq();         // global event sequence number (increments)
uint64_t steps();           // scheduling points so far
void event(uint64_t tag, uint64_t value);  // mixes into the log hash
void point();               // an explicit scheduling point

[[noreturn]] void violation(const std::string& cls, const std::string& msg);

// Memory discipline: allocations made while `tracked` go to the simulated heap.
struct Tracked {
  bool old;
  Tracked();
  ~Tracked();
};
struct Untracked {
  bool old;
  Untracked();
  ~Untracked();
};
size_t live_blocks();
size_t live_bytes();

// The k-th (k>=1) tracked allocation of the current thread from now on throws
// std::bad_alloc; 0 disarms.  Returns whether the armed failure has fired.
void arm_alloc_failure(int k);
bool alloc_failure_fired();

// counters shown in the evidence (fault kinds, probes)
void count(const char* name, uint64_t n = 1);
// marks this run as non-trivial
void mark_nontrivial();
void sample_note(const std::string& s);

// simulated clock (ticks); advances by a seeded amount on every read
void clock_config(uint64_t seed, uint64_t max_step);
uint64_t clock_read();
uint64_t clock_peek();
void clock_advance(uint64_t d);

void log(const char* fmt, ...) __attribute__((format(printf, 1, 2)));  // verbose replay only
extern bool g_verbose;

}  // namespace sim
