// Many threads hash through one shared Keccak cache.
#include <array>
#include <cstring>

#include "sim.h"
#include "vm/evmzero/sha3_cache.h"

extern "C" void shim_keccak256(uint8_t* out, const uint8_t* data, size_t size) noexcept;

namespace sim {
const char* const kHarnessName = "sha3";
using tosca::evmzero::Sha3Cache;
// a0 size, a1 content id
static Sha3Cache* g_empty;
static Sha3Cache* g_full;

static std::string content(int64_t size, int64_t id) {
  std::string s((size_t)size, '\0');
  if (id >= 2000) {  // a few leading or trailing bytes, the rest zero
    for (int64_t i = 0; i < size && i < id % 3; i++) s[(size_t)(id & 4 ? size - 1 - i : i)] = (char)(id % 5);
    return s;
  }
  Rng r((uint64_t)(id / 4) + 17);
  for (auto& c : s) c = (char)r.next();
  // neighbours differ in one byte only
  if (id % 4 && size > 0) s[(size_t)((id % 4 - 1) * (size - 1) / 2)] ^= (char)(1 << (id % 7));
  return s;
}
__attribute__((no_sanitize("thread"), noinline)) static std::array<uint8_t, 32> want(const std::string& s) {
  std::array<uint8_t, 32> h;
  shim_keccak256(h.data(), (const uint8_t*)s.data(), s.size());
  return h;
}
void prepare() {
  Tracked t;
  g_empty = new Sha3Cache();
  g_full = new Sha3Cache();
  for (int64_t i = 0; i < 1022; i++)
    for (int64_t size : {32, 64}) {
      std::string s = content(size, 1000 + i);
      (void)g_full->Hash({(const uint8_t*)s.data(), s.size()});
    }
}
static void one(Sha3Cache* c, const Op& o, int t) {
  std::string s = content(o.a[0], o.a[1]);
  std::array<uint8_t, 32> w = want(s), got;
  {
    Tracked tr;
    tosca::evmzero::uint256_t v = c->Hash({(const uint8_t*)s.data(), s.size()});
    auto b = tosca::evmzero::ToEvmcBytes(v);
    Untracked u;
    memcpy(got.data(), b.bytes, 32);
  }
  event(1, got[0] | (uint64_t)got[1] << 8);
  if (got != w) violation("wrong-hash", "thread " + std::to_string(t) + ": the hash of " + std::to_string(o.a[0]) + " bytes (content " + std::to_string(o.a[1]) + ") is not their Keccak-256");
}
void execute(const Plan& p) {
  {
    std::string s = p.get("full") ? "cache two entries below capacity;" : "empty cache;";
    for (size_t t = 0; t < p.threads.size(); t++)
      for (auto& o : p.threads[t]) s += " t" + std::to_string(t) + ":" + std::to_string(o.a[0]) + "B#" + std::to_string(o.a[1]);
    sample_note(s.substr(0, 400));
  }
  Sha3Cache* c = p.get("full") ? g_full : g_empty;
  for (auto& o : p.pre) one(c, o, -1);
  int n = (int)p.threads.size(), busy = 0;
  bool overlap = false;
  run_threads(p, n, [&](int t) {
    for (auto& o : p.threads[(size_t)t]) {
      busy++;
      if (busy > 1) overlap = true;
      one(c, o, t);
      busy--;
    }
  });
  for (auto& o : p.post) one(c, o, -1);
  if (overlap || n == 1) mark_nontrivial();
  if (p.get("full")) count("near-capacity-runs");
}
void generate(uint64_t seed, const std::string& variant, Plan& p) {
  Rng r(seed);
  p.set("full", (int64_t)r.below(2));
  p.set("races", 1);
  int span = (int)r.range(1, 12);
  auto op = [&] {
    Op o;
    o.a[0] = r.chance(3, 4) ? (r.chance(1, 2) ? 32 : 64) : r.chance(1, 2) ? r.range(30, 66) : r.range(0, 300);
    o.a[1] = r.chance(1, 4) ? 2000 + (int64_t)r.below(30) : r.chance(1, 3) ? 1000 + (int64_t)r.below(1022) : (int64_t)r.below((uint64_t)span);
    return o;
  };
  int n = (int)r.range(1, 4);
  p.threads.resize((size_t)n);
  for (auto& t : p.threads) {
    int k = n == 1 ? (int)r.range(2, 30) : (int)r.range(1, 7);
    for (int i = 0; i < k; i++) t.push_back(op());
  }
  int k = (int)r.below(10);
  for (int i = 0; i < k; i++) p.pre.push_back(op());
  k = (int)r.below(10);
  for (int i = 0; i < k; i++) p.post.push_back(op());
}
}  // namespace sim
