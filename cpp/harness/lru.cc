// Simulated clients of the shared LRU cache (real code: cpp/common/lru_cache.h).
#include <algorithm>
#include <array>
#include <cstring>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <unordered_set>
#include <vector>

#include "common/lru_cache.h"
#include "sim.h"

namespace sim {
const char* const kHarnessName = "lru";

enum Kind { kGet = 0, kPut = 1, kGetOrInsert = 2, kClear = 3, kGetOrInsertThrow = 4 };
// a[0] key, a[1] value, a[2] work inside the factory (scheduling points),
// a[3] this copy of a key or value fails (0 none)

static int64_t g_key_span = 1;

struct ICache {
  virtual ~ICache() = default;
  virtual std::optional<int64_t> Get(int64_t k) = 0;
  virtual int64_t Put(int64_t k, int64_t v) = 0;
  virtual int64_t GetOrInsert(int64_t k, const std::function<int64_t()>& f) = 0;
  virtual void Clear() = 0;
};

struct FactoryError {};

// ---- key and value representations
struct IntCodec {
  using K = int64_t;
  using V = int64_t;
  using H = std::hash<int64_t>;
  static K key(int64_t k) { return k; }
  static V val(int64_t v) { return v; }
  static int64_t unval(const V& v) { return v; }
};
struct StrCodec {
  using K = std::string;
  using V = std::string;
  using H = std::hash<std::string>;
  static K key(int64_t k) { return "a-key-that-needs-the-heap-" + std::to_string(k); }
  static V val(int64_t v) { return "a-value-that-needs-the-heap-as-well-" + std::to_string(v); }
  static int64_t unval(const V& v) {
    const std::string p = "a-value-that-needs-the-heap-as-well-";
    if (v.size() <= p.size() || v.compare(0, p.size(), p) != 0) return -777;
    return std::stoll(v.substr(p.size()));
  }
};
// Keys and values whose copies and default constructions may fail; moves and
// swaps never do.  (Allocation failures inside the hash index are out of scope:
// the index library does not promise to survive them.)
struct CopyFailure {};
static thread_local int64_t t_copy_countdown = 0;
static void fault_point() {
  if (t_copy_countdown > 0 && --t_copy_countdown == 0) {
    count("fault:copy-fails");
    throw CopyFailure{};
  }
}
struct Fragile {
  std::string s;
  Fragile() { fault_point(); }
  explicit Fragile(std::string v) : s(std::move(v)) {}
  Fragile(const Fragile& o) : s(o.s) { fault_point(); }
  Fragile(Fragile&&) noexcept = default;
  Fragile& operator=(const Fragile& o) {
    fault_point();
    s = o.s;
    return *this;
  }
  Fragile& operator=(Fragile&&) noexcept = default;
  bool operator==(const Fragile& o) const { return s == o.s; }
};
struct FragileHash {
  size_t operator()(const Fragile& f) const noexcept { return std::hash<std::string>{}(f.s); }
};
struct FragileCodec {
  using K = Fragile;
  using V = Fragile;
  using H = FragileHash;
  static K key(int64_t k) { return Fragile(StrCodec::key(k)); }
  static V val(int64_t v) { return Fragile(StrCodec::val(v)); }
  static int64_t unval(const V& v) { return StrCodec::unval(v.s); }
};
struct Wide {
  uint64_t w[6];
  bool operator==(const Wide&) const = default;
};
struct WideHash {  // few distinct hashes: every probe sequence collides
  size_t operator()(const Wide& w) const noexcept { return w.w[0] & 1; }
};
struct WideCodec {
  using K = Wide;
  using V = Wide;
  using H = WideHash;
  static K key(int64_t k) {
    Wide w;
    for (int i = 0; i < 6; i++) w.w[i] = (uint64_t)k * (uint64_t)(i + 1);
    return w;
  }
  static V val(int64_t v) {
    Wide w;
    for (int i = 0; i < 6; i++) w.w[i] = (uint64_t)v ^ ((uint64_t)i << 40);
    return w;
  }
  static int64_t unval(const V& v) {
    for (int i = 0; i < 6; i++)
      if (v.w[i] != (v.w[0] ^ ((uint64_t)i << 40))) return -778;
    return (int64_t)v.w[0];
  }
};
struct SpCodec {
  struct Tok {
    int64_t v, chk;
  };
  using K = std::array<uint8_t, 32>;
  using V = std::shared_ptr<Tok>;
  struct H {
    size_t operator()(const K& k) const noexcept { return (size_t)k[31] * 0x9E3779B97F4A7C15ull; }
  };
  static K key(int64_t k) {
    K a{};
    a[31] = (uint8_t)k;
    a[0] = (uint8_t)(k >> 8);
    return a;
  }
  static V val(int64_t v) { return std::make_shared<Tok>(Tok{v, ~v}); }
  static int64_t unval(const V& v) {
    if (!v) return -779;
    if (v->chk != ~v->v) return -780;
    return v->v;
  }
};

template <typename C, size_t Cap>
struct CacheImpl : ICache {
  tosca::LruCache<typename C::K, typename C::V, Cap, typename C::H> c;
  std::optional<int64_t> Get(int64_t k) override {
    auto r = c.Get(C::key(k));
    if (!r) return std::nullopt;
    return C::unval(*r);
  }
  int64_t Put(int64_t k, int64_t v) override { return C::unval(c.InsertOrAssign(C::key(k), C::val(v))); }
  int64_t GetOrInsert(int64_t k, const std::function<int64_t()>& f) override {
    return C::unval(c.GetOrInsert(C::key(k), [&] { return C::val(f()); }));
  }
  void Clear() override { c.Clear(); }
};

template <typename C>
static ICache* make(int cap) {
  switch (cap) {
    case 1: return new CacheImpl<C, 1>();
    case 2: return new CacheImpl<C, 2>();
    case 3: return new CacheImpl<C, 3>();
    case 4: return new CacheImpl<C, 4>();
    case 7: return new CacheImpl<C, 7>();
    case 14: return new CacheImpl<C, 14>();
    case 64: return new CacheImpl<C, 64>();
    default: return new CacheImpl<C, 200>();
  }
}
static ICache* make_cache(int type, int cap) {
  switch (type) {
    case 0: return make<IntCodec>(cap);
    case 1: return make<StrCodec>(cap);
    case 2: return make<WideCodec>(cap);
    case 4: return make<FragileCodec>(cap);
    default: return make<SpCodec>(cap);
  }
}

// -------------------------------------------------------------------- history
struct Rec {
  int thread, kind;
  int64_t key, val;
  uint64_t inv, resp;
  uint64_t fstart = 0, fend = 0;
  bool threw = false, hit = false, factory = false;
  int64_t result = 0;
};

// --------------------------------------------------------------------- model
using State = std::vector<std::pair<int64_t, int64_t>>;  // most recent first
struct SubOp {
  enum T { GetHit, GetMiss, Put, AddNew, Clear, FailedGet, FailedPut, FailedClear } t;
  int64_t key, val, result;
  uint64_t inv, resp;
  int rec;
};

static bool touch(State& s, int64_t k) {
  for (size_t i = 0; i < s.size(); i++)
    if (s[i].first == k) {
      auto e = s[i];
      s.erase(s.begin() + (long)i);
      s.insert(s.begin(), e);
      return true;
    }
  return false;
}
static int64_t* find(State& s, int64_t k) {
  for (auto& e : s)
    if (e.first == k) return &e.second;
  return nullptr;
}
static void put(State& s, int64_t k, int64_t v, size_t cap, bool update_touches) {
  if (auto* p = find(s, k)) {
    *p = v;
    if (update_touches) touch(s, k);
    return;
  }
  if (s.size() >= cap) s.pop_back();
  s.insert(s.begin(), {k, v});
}

// all states reachable by the sub-operation, empty when its result contradicts
static void step(const State& s0, const SubOp& o, size_t cap, bool ut, std::vector<State>& out) {
  out.clear();
  State s = s0;
  switch (o.t) {
    case SubOp::GetHit: {
      auto* p = find(s, o.key);
      if (!p || *p != o.result) return;
      touch(s, o.key);
      out.push_back(s);
      return;
    }
    case SubOp::GetMiss:
      if (find(s, o.key)) return;
      out.push_back(s);
      return;
    case SubOp::Put:
      if (o.result != o.val) return;
      put(s, o.key, o.val, cap, ut);
      out.push_back(s);
      return;
    case SubOp::AddNew: {  // insertion step of GetOrInsert
      auto* p = find(s, o.key);
      if (p && *p == o.result && o.result != o.val) {
        out.push_back(s);
        State t = s;
        touch(t, o.key);
        if (t != s) out.push_back(t);
        return;
      }
      if (o.result != o.val) return;
      put(s, o.key, o.val, cap, ut);
      out.push_back(s);
      return;
    }
    case SubOp::Clear:
      out.push_back(State{});
      return;
    case SubOp::FailedGet: {
      out.push_back(s);
      State t = s;
      if (touch(t, o.key) && t != s) out.push_back(t);
      return;
    }
    case SubOp::FailedPut: {
      out.push_back(s);  // no effect
      if (!find(s, o.key) && s.size() >= cap) {
        State t = s;  // an unused entry was given up for it
        t.pop_back();
        out.push_back(t);
      }
      State t = s;
      put(t, o.key, o.val, cap, ut);
      if (t != s) out.push_back(t);
      if (find(s, o.key)) {  // kept, or dropped
        State u = s;
        touch(u, o.key);
        out.push_back(u);
      }
      return;
    }
    case SubOp::FailedClear:
      out.push_back(s);
      out.push_back(State{});
      return;
  }
}

struct Search {
  const std::vector<SubOp>& ops;
  size_t cap;
  bool ut;
  size_t nodes = 0, limit;
  std::unordered_set<std::string> seen;
  bool dfs(std::vector<bool>& done, size_t left, const State& s) {
    if (left == 0) return true;
    if (++nodes > limit) return true;  // inconclusive, counted by the caller
    std::string key;
    key.reserve(ops.size() / 8 + s.size() * 16 + 2);
    for (size_t i = 0; i < done.size(); i += 8) {
      char c = 0;
      for (size_t j = i; j < std::min(done.size(), i + 8); j++) c = (char)(c | (done[j] ? 1 << (j - i) : 0));
      key += c;
    }
    for (auto& e : s) {
      key.append((const char*)&e.first, 8);
      key.append((const char*)&e.second, 8);
    }
    if (!seen.insert(key).second) return false;
    uint64_t minresp = UINT64_MAX;
    for (size_t i = 0; i < ops.size(); i++)
      if (!done[i]) minresp = std::min(minresp, ops[i].resp);
    std::vector<State> next;
    for (size_t i = 0; i < ops.size(); i++) {
      if (done[i] || ops[i].inv > minresp) continue;
      step(s, ops[i], cap, ut, next);
      if (next.empty()) continue;
      auto states = next;
      done[i] = true;
      for (auto& t : states)
        if (dfs(done, left - 1, t)) return true;
      done[i] = false;
    }
    return false;
  }
};

static std::string describe(const std::vector<Rec>& h) {
  std::string s;
  static const char* n[] = {"Get", "InsertOrAssign", "GetOrInsert", "Clear", "GetOrInsert(throwing factory)"};
  for (auto& r : h) {
    s += "t" + std::to_string(r.thread) + ":" + n[r.kind] + "(" + std::to_string(r.key);
    if (r.kind == kPut || r.kind == kGetOrInsert) s += "," + std::to_string(r.val);
    s += ")";
    if (r.threw) s += "=threw";
    else if (r.kind == kGet && !r.hit) s += "=none";
    else if (r.kind != kClear) s += "=" + std::to_string(r.result) + (r.factory ? "(computed)" : "");
    s += "[" + std::to_string(r.inv) + "-" + std::to_string(r.resp) + "] ";
    if (s.size() > 1200) {
      s += "...";
      break;
    }
  }
  return s;
}

static void check(const std::vector<Rec>& hist, size_t cap) {
  std::vector<SubOp> ops;
  for (size_t i = 0; i < hist.size(); i++) {
    auto& r = hist[i];
    int ri = (int)i;
    switch (r.kind) {
      case kGet:
        if (r.threw) ops.push_back({SubOp::FailedGet, r.key, 0, 0, r.inv, r.resp, ri});
        else ops.push_back({r.hit ? SubOp::GetHit : SubOp::GetMiss, r.key, 0, r.result, r.inv, r.resp, ri});
        break;
      case kPut:
        ops.push_back({r.threw ? SubOp::FailedPut : SubOp::Put, r.key, r.val, r.result, r.inv, r.resp, ri});
        break;
      case kGetOrInsert:
      case kGetOrInsertThrow:
        if (!r.factory) {
          if (r.threw) ops.push_back({SubOp::FailedGet, r.key, 0, 0, r.inv, r.resp, ri});
          else ops.push_back({SubOp::GetHit, r.key, 0, r.result, r.inv, r.resp, ri});
        } else {
          ops.push_back({SubOp::GetMiss, r.key, 0, 0, r.inv, r.fstart, ri});
          if (r.fend) ops.push_back({r.threw ? SubOp::FailedPut : SubOp::AddNew, r.key, r.val, r.result, r.fend, r.resp, ri});
        }
        break;
      case kClear:
        ops.push_back({r.threw ? SubOp::FailedClear : SubOp::Clear, 0, 0, 0, r.inv, r.resp, ri});
        break;
    }
  }
  bool ok = false;
  for (bool ut : {false, true}) {
    Search s{ops, cap, ut, 0, 300000, {}};
    std::vector<bool> done(ops.size());
    if (s.dfs(done, ops.size(), State{})) {
      if (s.nodes > s.limit) count("lin-check-inconclusive");
      ok = true;
      break;
    }
  }
  if (!ok) violation("not-linearizable", "no sequential LRU cache of capacity " + std::to_string(cap) + " explains: " + describe(hist));
}

// ------------------------------------------------------------------ execution
static ICache* g_cache;
static std::vector<Rec> g_hist[9];

static void run_op(const Op& op, int t) {
  Rec r{};
  r.thread = t;
  r.kind = op.kind;
  r.key = op.a[0];
  r.val = op.a[1];
  r.inv = now_seq();
  uint64_t before = steps();
  t_copy_countdown = op.a[3];
  try {
    Tracked tr;
    switch (op.kind) {
      case kGet: {
        auto v = g_cache->Get(op.a[0]);
        r.hit = v.has_value();
        if (v) r.result = *v;
        break;
      }
      case kPut: r.result = g_cache->Put(op.a[0], op.a[1]); break;
      case kGetOrInsert:
      case kGetOrInsertThrow:
        r.result = g_cache->GetOrInsert(op.a[0], [&]() -> int64_t {
          r.factory = true;
          r.fstart = now_seq();
          for (int64_t i = 0; i < op.a[2]; i++) point();
          if (op.kind == kGetOrInsertThrow) {
            count("fault:factory-throws");
            throw FactoryError{};
          }
          r.fend = now_seq();
          return op.a[1];
        });
        break;
      case kClear: g_cache->Clear(); break;
    }
  } catch (const CopyFailure&) {
    r.threw = true;
  } catch (const FactoryError&) {
    r.threw = true;
    r.fend = 0;
  }
  t_copy_countdown = 0;
  r.resp = now_seq();
  (void)before;
  event((uint64_t)op.kind, (uint64_t)(r.threw ? -1 : r.result * 2 + r.hit));
  log("%d key %lld val %lld -> %s %lld", op.kind, (long long)r.key, (long long)r.val, r.threw ? "threw" : r.hit ? "hit" : "", (long long)r.result);
  {
    Untracked u;
    g_hist[t < 0 ? 8 : t].push_back(r);
  }
}

void execute(const Plan& p) {
  int cap = (int)p.get("cap", 2), type = (int)p.get("type", 0);
  size_t blocks0 = live_blocks();
  {
    Tracked tr;
    g_cache = make_cache(type, cap);
  }
  for (auto& o : p.pre) run_op(o, -1);
  if (p.threads.size() == 1) {
    for (auto& o : p.threads[0]) run_op(o, 0);
  } else if (!p.threads.empty()) {
    run_threads(p, (int)p.threads.size(), [&](int t) {
      for (auto& o : p.threads[(size_t)t]) run_op(o, t);
    });
  }
  for (auto& o : p.post) run_op(o, -1);
  {
    Tracked tr;
    delete g_cache;
  }
  if (live_blocks() != blocks0) violation("leak", std::to_string(live_blocks() - blocks0) + " heap blocks are still live after the cache is gone");
  std::vector<Rec> all;
  bool overlap = false;
  for (auto& h : g_hist)
    for (auto& r : h) all.push_back(r);
  std::sort(all.begin(), all.end(), [](const Rec& a, const Rec& b) { return a.inv < b.inv; });
  for (size_t i = 0; i + 1 < all.size(); i++)
    if (all[i + 1].inv < all[i].resp) overlap = true;
  bool faulted = false;
  for (auto& r : all) {
    faulted |= r.threw;
    if (r.factory && r.fend && r.result != r.val && !r.threw) count("probe:lost-factory-race");
  }
  if (overlap) count("probe:overlapping-operations");
  if (overlap || faulted) mark_nontrivial();
  if ((size_t)cap <= 4 || all.size() < 60) sample_note("cap " + std::to_string(cap) + " type " + std::to_string(type) + ": " + describe(all).substr(0, 260));
  check(all, (size_t)cap);
}

void generate(uint64_t seed, const std::string& variant, Plan& p) {
  Rng r(seed);
  bool faults = variant == "faults";
  static const int caps[] = {1, 2, 2, 3, 3, 4, 4, 7, 14, 64, 200};
  int cap = caps[r.below(11)];
  p.set("races", variant == "race");
  if (variant == "big") cap = (r.chance(1, 2)) ? 64 : 200;
  int type = (int)r.below(5);
  if (faults && r.chance(3, 4)) type = 4;
  p.set("cap", cap);
  p.set("type", type);
  int64_t next = 1;
  int64_t span = cap + 1 + (int64_t)r.below(3);
  int wget = (int)r.range(1, 8), wput = (int)r.range(1, 6), wgoi = (int)r.range(0, 6), wclr = r.chance(1, 4) ? 1 : 0, wthr = r.chance(1, 3) ? 1 : 0;
  if (faults) wthr = 2;
  auto op = [&](bool allow_fault) {
    Op o;
    int64_t x = r.range(1, wget + wput + wgoi + wclr + wthr);
    if ((x -= wget) <= 0) o.kind = kGet;
    else if ((x -= wput) <= 0) o.kind = kPut;
    else if ((x -= wgoi) <= 0) o.kind = kGetOrInsert;
    else if ((x -= wclr) <= 0) o.kind = kClear;
    else o.kind = kGetOrInsertThrow;
    o.a[0] = r.chance(1, 2) ? r.range(0, std::min<int64_t>(span, 3) - 1) : r.range(0, span - 1);
    o.a[1] = next++;
    o.a[2] = r.chance(1, 2) ? r.range(0, 12) : 0;
    if (faults && allow_fault && r.chance(1, 3)) o.a[3] = r.chance(1, 6) ? r.range(1, 2 * cap) : r.range(1, 6);
    return o;
  };
  int nthreads = (int)r.range(1, 4);
  if (variant == "race" && nthreads == 1) nthreads = 2;
  int npre = (int)r.range(0, cap <= 14 ? cap + 2 : 12);
  if (cap >= 64) {  // reach the eviction path: fill first
    for (int i = 0; i < cap - (int)r.below(3); i++) {
      Op o;
      o.kind = kPut;
      o.a[0] = i;
      o.a[1] = next++;
      p.pre.push_back(o);
    }
    npre = (int)r.range(0, 4);
  }
  for (int i = 0; i < npre; i++) {
    Op o = op(true);
    if (r.chance(2, 3)) o.kind = kPut;
    p.pre.push_back(o);
  }
  p.threads.resize((size_t)nthreads);
  int per = nthreads == 1 ? (int)r.range(4, 40) : nthreads == 2 ? (int)r.range(1, 7) : (int)r.range(1, 5);
  for (auto& t : p.threads)
    for (int i = 0; i < per; i++) t.push_back(op(true));
  int npost = (int)r.range(2, 12);
  for (int i = 0; i < npost; i++) {
    Op o = op(false);
    if (o.kind == kGetOrInsertThrow) o.kind = kGet;
    p.post.push_back(o);
  }
  // read everything back
  if (cap <= 14)
    for (int64_t k = 0; k < span; k++) {
      Op o;
      o.kind = kGet;
      o.a[0] = k;
      p.post.push_back(o);
    }
}

void shrink_op(const Op& op, std::vector<Op>& out) {
  if (op.a[2] > 0) {
    Op o = op;
    o.a[2] = 0;
    out.push_back(o);
  }
  if (op.a[3] > 0) {
    Op o = op;
    o.a[3] = 0;
    out.push_back(o);
  }
  if (op.kind == kGetOrInsert) {
    Op o = op;
    o.kind = kPut;
    out.push_back(o);
  }
}
}  // namespace sim
