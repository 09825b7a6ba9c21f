// Whole machines run against the simulated host: real code is everything in
// cpp/vm/evmzero and cpp/common (or, with EVMRS, in rust/src); the host, the
// world, the heap, the locks, the scheduler and the clock are simulated.
#include <algorithm>
#include <cstring>
#include <iostream>
#include <map>
#include <memory>
#include <streambuf>

#include <evmc/evmc.h>

#include "evmref.h"
#include "sim.h"

using namespace evmref;

extern "C" {
#ifdef EVMRS
evmc_vm_steppable* evmc_create_steppable_evmrs() noexcept;
void sim_rust_init() noexcept;
#else
evmc_vm* evmc_create_evmzero() noexcept;
evmc_vm_steppable* evmc_create_steppable_evmzero() noexcept;
void evmzero_dump_profile(evmc_vm* vm) noexcept;
void evmzero_reset_profiler(evmc_vm* vm) noexcept;
#endif
}
#define UNINST __attribute__((no_sanitize("thread"), noinline))

namespace sim {
#ifdef EVMRS
const char* const kHarnessName = "evmrs";
static evmc_vm_steppable* new_machine() { return evmc_create_steppable_evmrs(); }
static int64_t g_cache_limit = -1;  // capacity of every cache made from now on
#else
const char* const kHarnessName = "evmzero";
static evmc_vm_steppable* new_machine() { return evmc_create_steppable_evmzero(); }
#endif

// pre: kContract data=code a0=address index a1=balance; kSlot a0=address index a1=key a2=value
// tx:  kTx a0=target index a1=gas a2=value a3=static a4=fate seed a5=depth; data=input
enum Kind { kContract = 1, kSlot = 2, kTx = 10 };
static constexpr int kAddrs = 8;
static U addr_of(int i) { return i == 0 ? (U)0xaaaa : ((U)0x1000 + (U)i * 0x111) | ((U)i << 150); }

// mFull starts with a contract cache that is about to overflow.
enum Machine { mSolo = 0, mShared = 1, mOther = 2, mFull = 3 };
static evmc_vm_steppable* g_vms[4];
static const int kCodeCache = 1 << 16;

// ------------------------------------------------------------- evmc binding
struct Client {  // one simulated client: a transaction in progress
  Env* env;
  evmc_vm* vm;
  int hash_mode;  // 0 none, 1 pointer to zero, 2 the hash
  bool yields = false;
  uint64_t outstanding = 0, released = 0;
  std::vector<std::unique_ptr<Bytes>> keep;
  Rng rel{1};
  bool profile = false;
  std::map<int, uint64_t> ext_ticks;
  uint64_t in_host = 0;
};
static thread_local Client* t_client = nullptr;

UNINST static U u(const evmc_address& a) { return from_be(a.bytes, 20); }
UNINST static U u(const evmc_bytes32& a) { return from_be(a.bytes, 32); }
UNINST static evmc_address ad(U v) {
  evmc_address a;
  to_be(v, a.bytes, 20);
  return a;
}
UNINST static evmc_bytes32 by(U v) {
  evmc_bytes32 a;
  to_be(v, a.bytes, 32);
  return a;
}
#define ENTER Untracked un_; Client& c = *(Client*)ctx; Env& e = *c.env
UNINST static bool h_exists(evmc_host_context* ctx, const evmc_address* a) { ENTER; return e.exists(u(*a)); }
UNINST static evmc_bytes32 h_get(evmc_host_context* ctx, const evmc_address* a, const evmc_bytes32* k) { ENTER; return by(e.get_storage(u(*a), u(*k))); }
UNINST static evmc_storage_status h_set(evmc_host_context* ctx, const evmc_address* a, const evmc_bytes32* k, const evmc_bytes32* v) { ENTER; return (evmc_storage_status)e.set_storage(u(*a), u(*k), u(*v)); }
UNINST static evmc_uint256be h_bal(evmc_host_context* ctx, const evmc_address* a) { ENTER; return by(e.balance(u(*a))); }
UNINST static size_t h_csize(evmc_host_context* ctx, const evmc_address* a) { ENTER; return e.code(u(*a)).size(); }
UNINST static evmc_bytes32 h_chash(evmc_host_context* ctx, const evmc_address* a) { ENTER; return by(e.code_hash(u(*a))); }
UNINST static size_t h_copy(evmc_host_context* ctx, const evmc_address* a, size_t off, uint8_t* d, size_t n) {
  ENTER;
  const Bytes& b = e.code(u(*a));
  if (off >= b.size()) return 0;
  size_t k = std::min(n, b.size() - off);
  memcpy(d, b.data() + off, k);
  return k;
}
UNINST static bool h_sd(evmc_host_context* ctx, const evmc_address* a, const evmc_address* b) { ENTER; return e.selfdestruct(u(*a), u(*b)); }
UNINST static void release_result(const evmc_result* r) {
  Untracked un_;
  if (t_client) t_client->released++;
  delete[] r->output_data;
}
UNINST static Bytes read_vm(const uint8_t* p, size_t n) { return n ? Bytes(p, p + n) : Bytes(); }
UNINST static evmc_result h_call(evmc_host_context* ctx, const evmc_message* m) {
  ENTER;
  Msg r;
  r.kind = m->kind;
  r.flags = m->flags;
  r.depth = m->depth;
  r.gas = m->gas;
  r.recipient = u(m->recipient);
  r.sender = u(m->sender);
  r.value = u(m->value);
  r.salt = u(m->create2_salt);
  r.code_address = u(m->code_address);
  r.input = read_vm(m->input_data, m->input_size);
  if (r.kind == kCreate || r.kind == kCreate2) r.recipient = r.code_address = 0;
  if (r.kind != kCreate2) r.salt = 0;
  Res o = e.call(r);
  evmc_result x{};
  x.status_code = (evmc_status_code)o.raw;
  x.gas_left = o.gas_left;
  x.gas_refund = o.refund;
  x.create_address = ad(o.created);
  x.output_size = o.out.size();
  if (!o.out.empty()) {
    uint64_t how = c.rel.below(3);
    if (how == 0) {  // the host keeps the buffer
      c.keep.push_back(std::make_unique<Bytes>(o.out));
      x.output_data = c.keep.back()->data();
    } else {
      auto* p = new uint8_t[o.out.size()];
      memcpy(p, o.out.data(), o.out.size());
      x.output_data = p;
      x.release = release_result;
      c.outstanding++;
    }
  }
  return x;
}
UNINST static evmc_tx_context h_tx(evmc_host_context* ctx) {
  ENTER;
  if (e.hook) e.hook(20);
  evmc_tx_context t{};
  t.tx_gas_price = by(e.tx.gas_price);
  t.tx_origin = ad(e.tx.origin);
  t.block_coinbase = ad(e.tx.coinbase);
  t.block_number = e.tx.number;
  t.block_timestamp = e.tx.timestamp;
  t.block_gas_limit = e.tx.gas_limit;
  t.block_prev_randao = by(e.tx.prev_randao);
  t.chain_id = by(e.tx.chain_id);
  t.block_base_fee = by(e.tx.base_fee);
  t.blob_base_fee = by(e.tx.blob_base_fee);
  static evmc_bytes32 blobs[2] = {by(0x01aa), by(0x01bb)};
  t.blob_hashes = blobs;
  t.blob_hashes_count = e.tx.blob_hashes.size();
  return t;
}
UNINST static evmc_bytes32 h_bh(evmc_host_context* ctx, int64_t n) { ENTER; return by(e.block_hash(n)); }
UNINST static void h_log(evmc_host_context* ctx, const evmc_address* a, const uint8_t* d, size_t n, const evmc_bytes32* t, size_t k) {
  ENTER;
  std::vector<U> tt;
  for (size_t i = 0; i < k; i++) tt.push_back(u(t[i]));
  e.emit_log(u(*a), read_vm(d, n), tt);
}
UNINST static evmc_access_status h_aa(evmc_host_context* ctx, const evmc_address* a) { ENTER; return e.access_account(u(*a)) ? EVMC_ACCESS_WARM : EVMC_ACCESS_COLD; }
UNINST static evmc_access_status h_as(evmc_host_context* ctx, const evmc_address* a, const evmc_bytes32* k) { ENTER; return e.access_storage(u(*a), u(*k)) ? EVMC_ACCESS_WARM : EVMC_ACCESS_COLD; }
UNINST static evmc_bytes32 h_tget(evmc_host_context* ctx, const evmc_address* a, const evmc_bytes32* k) { ENTER; return by(e.get_trans(u(*a), u(*k))); }
UNINST static void h_tset(evmc_host_context* ctx, const evmc_address* a, const evmc_bytes32* k, const evmc_bytes32* v) { ENTER; e.set_trans(u(*a), u(*k), u(*v)); }
static const evmc_host_interface kHost = {h_exists, h_get, h_set, h_bal, h_csize, h_chash, h_copy, h_sd, h_call, h_tx, h_bh, h_log, h_aa, h_as, h_tget, h_tset};

UNINST static Status status_of(int raw) { return raw == EVMC_SUCCESS ? kSuccess : raw == EVMC_REVERT ? kRevert : kFailure; }

struct RawMsg {
  evmc_message m{};
  evmc_bytes32 hash{};
  Bytes input, code;
};
UNINST static void fill(RawMsg& r, const Msg& m, const Bytes& code, int hash_mode) {
  r.input = m.input;
  r.code = code;
  r.m.kind = (evmc_call_kind)m.kind;
  r.m.flags = m.flags;
  r.m.depth = m.depth;
  r.m.gas = m.gas;
  r.m.recipient = ad(m.recipient);
  r.m.sender = ad(m.sender);
  r.m.input_data = r.input.data();
  r.m.input_size = r.input.size();
  r.m.value = by(m.value);
  r.m.create2_salt = by(m.salt);
  r.m.code_address = ad(m.code_address);
  if (hash_mode == 2) r.hash = by(keccak(code));
  if (hash_mode > 2) {
    // hashes that agree in all bytes but two
    int id = code_id(code);
    r.hash = {};
    for (auto& b : r.hash.bytes) b = 0x5a;
    int at = (hash_mode - 3) % 31;
    r.hash.bytes[at] = (uint8_t)(id >> 8);
    r.hash.bytes[at + 1] = (uint8_t)id;
  }
  r.m.code_hash = hash_mode ? &r.hash : nullptr;
}
// Runs one message on a real machine.
UNINST static Res exec_real(Client& c, Env& e, const Msg& m, const Bytes& code) {
  RawMsg r;
  fill(r, m, code, c.hash_mode);
  evmc_result x;
  Client* outer = t_client;
  t_client = &c;
  {
    Tracked t;
    x = c.vm->execute(c.vm, &kHost, (evmc_host_context*)&c, (evmc_revision)e.rev, &r.m, r.code.data(), r.code.size());
  }
  Res o;
  o.raw = x.status_code;
  o.st = status_of(x.status_code);
  o.gas_left = x.gas_left;
  o.refund = x.gas_refund;
  o.out = read_vm(x.output_data, x.output_size);
  if (x.release) {
    Tracked t;
    x.release(&x);
  }
  t_client = outer;
  return o;
}

void prepare() {
  Tracked t;
#ifdef EVMRS
  sim_rust_init();
#endif
  for (auto& v : g_vms) v = new_machine();
#ifndef EVMRS
  auto* vm = g_vms[mFull]->vm;
  evmc_message m{};
  m.gas = 100;
  evmc_bytes32 h{};
  m.code_hash = &h;
  uint8_t stop[3] = {0x5b, 0x5b, 0};
  for (uint32_t i = 0; i < kCodeCache - 2; i++) {
    memcpy(h.bytes, &i, 4);
    h.bytes[31] = 1;
    evmc_result r = vm->execute(vm, &kHost, nullptr, EVMC_CANCUN, &m, stop, 3);
    if (r.release) r.release(&r);
  }
#endif
}

// ------------------------------------------------------------------ scenario
static Env base_env(const Plan& p) {
  Env e;
  e.rev = (Rev)p.get("rev", 7);
  e.tx.blob_hashes = {0x01aa, 0x01bb};
  e.tx.number = p.get("block", 1000);
  e.fate_mask = (uint64_t)p.get("fate_mask", -1);
  e.w.acc[addr_of(0)].balance = 1000000;
  for (auto& o : p.pre) {
    int i = (int)(o.a[0] % kAddrs);
    if (o.kind == kContract) {
      auto& a = e.w.acc[addr_of(i)];
      a.code.assign(o.data.begin(), o.data.end());
      a.balance = (U)(uint64_t)o.a[1];
      a.nonce = 1;
    } else if (o.kind == kSlot) {
      auto& a = e.w.acc[addr_of(i)];
      if (o.a[2]) {
        a.st[(U)(uint64_t)o.a[1]] = (U)(uint64_t)o.a[2];
        a.orig[(U)(uint64_t)o.a[1]] = (U)(uint64_t)o.a[2];
      }
    }
  }
  return e;
}
static Msg tx_msg(const Op& o) {
  Msg m;
  m.kind = kCall;
  m.sender = addr_of(0);
  m.recipient = m.code_address = addr_of((int)(o.a[0] % kAddrs));
  m.gas = o.a[1];
  m.value = (U)(uint64_t)o.a[2];
  m.flags = o.a[3] ? 1 : 0;
  if (m.flags) m.value = 0;
  m.depth = (int)o.a[5];
  m.input.assign(o.data.begin(), o.data.end());
  return m;
}
struct Outcome {
  Observed o;
  std::string breach;
  Env env;  // statistics
};
static Outcome run_ref(const Plan& p, const Op& o, bool instr = false) {
  Outcome r;
  r.env = base_env(p);
  r.env.fate_seed = (uint64_t)o.a[4];
  r.env.keep_instr = instr;
  r.env.exec = [](Env& e, const Msg& m, const Bytes& c) { return interpret(e, m, c); };
  r.o.res = r.env.top(tx_msg(o));
  r.o.trace = r.env.trace;
  r.o.world = r.env.w;
  r.breach = r.env.breach;
  return r;
}
typedef std::function<Res(Client&, Env&, const Msg&, const Bytes&)> Exec;
static Outcome run_on(const Plan& p, const Op& o, int machine, int hash_mode, bool yields, const Exec& ex = exec_real, const std::function<void(Client&, int)>& hk = nullptr) {
  Outcome r;
  r.env = base_env(p);
  r.env.fate_seed = (uint64_t)o.a[4];
  Client c;
  c.env = &r.env;
  c.vm = g_vms[machine]->vm;
  c.hash_mode = hash_mode;
  c.rel = Rng((uint64_t)o.a[4] + 99);
  r.env.exec = [&](Env& e, const Msg& m, const Bytes& code) { return ex(c, e, m, code); };
  r.env.hook = [&](int k) {
    if (hk) hk(c, k);
    if (yields) point();
  };
  r.o.res = r.env.top(tx_msg(o));
  r.o.trace = r.env.trace;
  r.o.world = r.env.w;
  r.breach = r.env.breach;
  if (c.released != c.outstanding)
    violation("result-release", "the host handed out " + std::to_string(c.outstanding) + " result buffers, " + std::to_string(c.released) + " were released");
  return r;
}
static void note(const Env& e) {
  for (auto& f : e.faults) count(f.first.c_str(), f.second);
}
static void log_outcome(const Outcome& r) {
  event(1, (uint64_t)r.o.res.gas_left);
  event(2, (uint64_t)r.o.res.st);
  event(3, r.o.trace.size());
  for (auto b : r.o.res.out) event(4, b);
  for (auto& f : r.o.trace) event(5, (uint64_t)f.kind * 1000 + (uint64_t)f.depth);
}
static std::string txname(const Plan& p, const Op& o) {
  return "transaction to account " + std::to_string(o.a[0] % kAddrs) + " gas " + std::to_string(o.a[1]) + " (revision " + std::to_string(p.get("rev", 7)) + ")";
}
static void setopt(int machine, const char* k, const char* v) {
  Tracked t;
  auto* vm = g_vms[machine]->vm;
  if (vm->set_option(vm, k, v) != EVMC_SET_OPTION_SUCCESS) violation("set-option", std::string("option ") + k + " refused");
}

// ----- message-call protocol against the reference (C06), static context (C07)
static void do_protocol(const Plan& p) {
  for (auto& o : p.threads[0]) {
    Outcome want = run_ref(p, o);
    note(want.env);
    Outcome got = run_on(p, o, mShared, (int)p.get("hash", 2), false);
    count("transactions");
    count("instructions", want.env.instructions);
    count("nested-messages", (uint64_t)want.env.ncalls);
    log_outcome(got);
    if (want.env.instructions > 3) mark_nontrivial();
    std::string d = diff(want.o, got.o);
    if (!d.empty()) violation("protocol", txname(p, o) + ": " + d);
  }
}
static void do_static(const Plan& p) {
  for (auto& o : p.threads[0]) {
    Outcome got = run_on(p, o, mShared, (int)p.get("hash", 2), false);
    note(got.env);
    count("transactions");
    count("nested-messages", (uint64_t)got.env.ncalls);
    log_outcome(got);
    bool st = o.a[3] != 0;
    for (auto& f : got.o.trace)
      if (f.kind == eCallMsg && (f.n[1] & 1)) st = true;
    if (st) {
      count("static-frames");
      mark_nontrivial();
    }
    if (!got.breach.empty()) violation("static-context", txname(p, o) + ": " + got.breach);
    if (st) {
      Outcome want = run_ref(p, o);
      std::string d = diff(want.o, got.o);
      if (!d.empty()) violation("static-context", txname(p, o) + ": " + d);
    }
    if (o.a[3]) {
      Env b = base_env(p);
      // nothing may change when the outermost frame is static; injected
      // callees respect their static flag
      if (!(got.o.world == b.w) && got.o.res.st == kSuccess) violation("static-context", txname(p, o) + ": a static execution changed the world");
    }
  }
}

// ----- many client threads on one machine (C05)
static void do_threads(const Plan& p) {
#ifdef EVMRS
  Machine shared = mShared;  // all machines of a process share their caches
  if (g_cache_limit > 0) count("runs-with-small-caches");
#else
  Machine shared = p.get("full", 0) ? mFull : mShared;
  if (shared == mFull) count("runs-with-cache-about-to-overflow");
#endif
  int n = (int)p.threads.size();
  std::vector<std::vector<Outcome>> want((size_t)n), got((size_t)n);
  bool solo_first = p.get("solo_first", 1) != 0;
  auto solo = [&] {
    for (int t = 0; t < n; t++)
      for (auto& o : p.threads[(size_t)t]) want[(size_t)t].push_back(run_on(p, o, mSolo, 0, false));
  };
  if (solo_first) solo();
  int running = 0, most = 0;
  uint64_t began = 0, overlap = 0;
  run_threads(p, n, [&](int t) __attribute__((no_sanitize("thread"))) {
    for (auto& o : p.threads[(size_t)t]) {
      running++;
      most = std::max(most, running);
      uint64_t b = ++began;
      got[(size_t)t].push_back(run_on(p, o, shared, (int)p.get("hash", 2), true));
      if (began != b || running > 1) overlap++;
      running--;
    }
  });
  if (!solo_first) solo();
  if (overlap) mark_nontrivial();
  count("overlapping-executions", overlap);
  for (int t = 0; t < n; t++)
    for (size_t i = 0; i < p.threads[(size_t)t].size(); i++) {
      note(got[(size_t)t][i].env);
      count("transactions");
      log_outcome(got[(size_t)t][i]);
      std::string d = diff_exact(want[(size_t)t][i].o, got[(size_t)t][i].o);
      if (!d.empty())
        violation("isolation", "thread " + std::to_string(t) + ", " + txname(p, p.threads[(size_t)t][i]) + ": with other clients on the machine: " + d);
    }
  // repeated work must not consume memory
  if (p.get("leak", 0) && !p.threads[0].empty()) {
    const Op& o = p.threads[0][0];
    run_on(p, o, shared, (int)p.get("hash", 2), false);
    size_t a = live_blocks();
    run_on(p, o, shared, (int)p.get("hash", 2), false);
    size_t b = live_blocks();
    run_on(p, o, shared, (int)p.get("hash", 2), false);
    size_t c = live_blocks();
    if (b > a && c > b) violation("leak", txname(p, o) + ": every repetition keeps " + std::to_string(c - b) + " more heap blocks");
  }
}

// ----- stepping with restores at arbitrary points (C08)
struct Snapshot {
  int step_status = EVMC_STEP_RUNNING, status = 0;
  uint64_t pc = 0;
  int64_t gas = 0, refund = 0;
  Bytes out, mem, last;
  std::vector<U> stack;
  bool operator==(const Snapshot&) const = default;
};
static std::string snap_diff(const Snapshot& a, const Snapshot& b) {
  auto n = [](int64_t x) { return std::to_string(x); };
  if (a.step_status != b.step_status) return "step status " + n(b.step_status) + " vs " + n(a.step_status);
  if (a.step_status == EVMC_STEP_FAILED) return a.gas == b.gas ? "" : "gas differs";
  if (a.pc != b.pc) return "pc " + n((int64_t)b.pc) + " vs " + n((int64_t)a.pc);
  if (a.gas != b.gas) return "gas " + n(b.gas) + " vs " + n(a.gas);
  if (a.refund != b.refund) return "refund " + n(b.refund) + " vs " + n(a.refund);
  if (a.stack != b.stack) return "the stacks differ";
  if (a.mem != b.mem) return "the memories differ";
  if (a.step_status == EVMC_STEP_RUNNING && a.last != b.last) return "the last return data differ";
  if (a.step_status != EVMC_STEP_RUNNING && a.out != b.out) return "the outputs differ";
  return "";
}
// One call of the stepping interface from durable state.
UNINST static Snapshot step_real(Client& c, evmc_vm_steppable* vm, Env& e, const Msg& m, const Bytes& code, const Snapshot& s, int steps) {
  RawMsg r;
  Msg mm = m;
  mm.gas = s.gas;
  fill(r, mm, code, c.hash_mode);
  std::vector<evmc_uint256be> st;
  for (auto& v : s.stack) st.push_back(by(v));
  Bytes mem = s.mem, last = s.last;
  evmc_step_result x;
  Client* outer = t_client;
  t_client = &c;
  {
    Tracked t;
    x = vm->step_n(vm, &kHost, (evmc_host_context*)&c, (evmc_revision)e.rev, &r.m, r.code.data(), r.code.size(), (evmc_step_status_code)s.step_status, s.pc, s.refund,
                   st.data(), st.size(), mem.data(), mem.size(), last.data(), last.size(), steps);
  }
  t_client = outer;
  Snapshot o;
  o.step_status = x.step_status_code;
  o.status = x.status_code;
  o.pc = x.pc;
  o.gas = x.gas_left;
  o.refund = x.gas_refund;
  o.out = read_vm(x.output_data, x.output_size);
  o.mem = read_vm(x.memory, x.memory_size);
  o.last = read_vm(x.last_call_return_data, x.last_call_return_data_size);
  for (size_t i = 0; i < x.stack_size; i++) o.stack.push_back(u(x.stack[i]));
  if (x.release) {
    Tracked t;
    x.release(&x);
  }
  return o;
}
static void do_step(const Plan& p) {
  for (auto& o : p.threads[0]) {
    Outcome full = run_on(p, o, mSolo, (int)p.get("hash", 2), false);
    note(full.env);
    count("transactions");
    log_outcome(full);
    int mode = (int)p.get("split", 0);
    Rng r((uint64_t)p.get("split_seed", 1));
    uint64_t chunks = 0, total = 0, max_chunks = 0;
    std::vector<Snapshot> single;  // state of the outermost frame after n steps
    Outcome ref = run_ref(p, o, true);
    std::vector<InstrRec> frame;  // what the reference executes in that frame
    int starts = 0;
    for (auto& i : ref.env.instr)
      if (i.depth == (int)o.a[5]) frame.push_back(i);
    for (auto& f : full.o.trace)
      if (f.kind == eCallMsg && f.depth < (int)o.a[5]) starts++;
    bool with_ref = !starts && diff(ref.o, full.o).empty();
    auto stepper = [&](bool by_one) {
      return [&, by_one](Client& c, Env& e, const Msg& m, const Bytes& code) -> Res {
        bool outer = m.depth == (int)o.a[5];
        if (!outer && mode != 2) return exec_real(c, e, m, code);
        Snapshot s;
        s.gas = m.gas;
        uint64_t at = 0;
        int vmi = mShared;
        while (s.step_status == EVMC_STEP_RUNNING) {
          int k = by_one ? 1 : mode == 1 ? (int)r.range(1, 3) : r.chance(1, 5) ? (int)r.range(20, 200) : (int)r.range(1, 9);
          if (!by_one) {
            if (r.chance(1, 12)) k = 0;                      // interrupted before any progress
            if (r.chance(1, 3)) vmi = vmi == mShared ? mOther : mShared;  // another machine takes over
            if (k == 0) count("fault:no-progress-step");
            count("fault:crash-restore");
          }
          Snapshot nx = step_real(c, g_vms[vmi], e, m, code, s, k);
          chunks++;
          if (k == 0) {
            std::string d = snap_diff(s, nx);
            if (!d.empty()) violation("stepping", txname(p, o) + ": executing zero steps changed the state: " + d);
          }
          if (nx.step_status == EVMC_STEP_RUNNING && nx.gas > s.gas) violation("stepping", txname(p, o) + ": gas grew from " + std::to_string(s.gas) + " to " + std::to_string(nx.gas));
          at += (uint64_t)k;
          if (by_one && outer) {
            if (with_ref && nx.step_status == EVMC_STEP_RUNNING) {
              std::string d;
              if (at >= frame.size()) d = "the execution should be over";
              else {
                auto& w = frame[at];
                if (w.pc != nx.pc) d = "the next instruction is at " + std::to_string(nx.pc) + ", expected " + std::to_string(w.pc);
                else if (w.gas != nx.gas) d = "gas " + std::to_string(nx.gas) + ", expected " + std::to_string(w.gas);
                else if (w.stack != nx.stack.size()) d = "stack size " + std::to_string(nx.stack.size()) + ", expected " + std::to_string(w.stack);
                else if (!w.empty && w.top != nx.stack.back()) d = "wrong value on top of the stack";
              }
              if (!d.empty()) violation("stepping", txname(p, o) + ": after exactly " + std::to_string(at) + " instructions: " + d);
              count("states-compared-with-reference");
            }
            if (single.size() < 4000) single.push_back(nx);
          } else if (outer && at >= 1 && nx.step_status == EVMC_STEP_RUNNING && at <= single.size()) {
            std::string d = snap_diff(single[at - 1], nx);
            if (!d.empty()) violation("stepping", txname(p, o) + ": after " + std::to_string(at) + " steps the state depends on where the execution was interrupted: " + d);
            total++;
          }
          s = nx;
          if (++max_chunks > 400000) violation("stepping", "no end");
        }
        Res res;
        res.raw = s.status;
        res.st = status_of(s.status);
        static const Status of[] = {kFailure, kSuccess, kSuccess, kRevert, kFailure};
        if (of[s.step_status] != res.st)
          violation("stepping", txname(p, o) + ": step status " + std::to_string(s.step_status) + " contradicts status code " + std::to_string(s.status));
        res.gas_left = s.gas;
        res.refund = res.st == kSuccess ? s.refund : 0;  // a state keeps its counter, a result does not
        res.out = s.out;
        // a finished execution does not move any more
        Snapshot again = step_real(c, g_vms[vmi], e, m, code, s, 5);
        if (again.step_status != s.step_status || again.gas != s.gas) violation("stepping", txname(p, o) + ": a finished execution went on");
        return res;
      };
    };
    Outcome one = run_on(p, o, mShared, (int)p.get("hash", 2), false, stepper(true));
    std::string d = diff(full.o, one.o);
    if (!d.empty()) violation("stepping", txname(p, o) + ": executed one instruction at a time: " + d);
    Outcome many = run_on(p, o, mShared, (int)p.get("hash", 2), false, stepper(false));
    d = diff(full.o, many.o);
    if (!d.empty()) violation("stepping", txname(p, o) + ": executed in " + std::to_string(chunks) + " pieces: " + d);
    count("restores", chunks);
    count("states-compared", total);
    if (chunks > 2) mark_nontrivial();
  }
}

// ----- caches, options and observers change nothing (C09)
struct Sink : std::streambuf {
  std::string data;
  int64_t room = -1;
  int overflow(int ch) override {
    if (room == 0) return traits_type::eof();
    if (room > 0) room--;
    data.push_back((char)ch);
    return ch;
  }
  std::streamsize xsputn(const char* s, std::streamsize n) override {
    for (std::streamsize i = 0; i < n; i++)
      if (overflow((unsigned char)s[i]) == traits_type::eof()) return i;
    return n;
  }
  int sync() override { return room == 0 ? -1 : 0; }
};
#ifdef EVMRS
static const char* const kOpts[] = {"logging"};
static const int kNumOpts = 1, kLogOpt = 0;
static Sink* g_sink = nullptr;
extern "C" {
long sim_stdout_write(const uint8_t* p, size_t n) {
  if (!g_sink) return (long)n;
  if (g_sink->room == 0) return -1;
  Untracked un_;
  return (long)g_sink->xsputn((const char*)p, (std::streamsize)n);
}
int sim_stdout_flush() { return g_sink && g_sink->room == 0 ? -1 : 0; }
size_t sim_cache_limit() { return (size_t)g_cache_limit; }
}
#else
static const char* const kOpts[] = {"analysis_cache", "sha3_cache", "logging", "profiling", "profiling_external"};
static const int kNumOpts = 5, kLogOpt = 2;
#endif
static std::string decimal(U v) {
  if (v == 0) return "0";
  std::string s;
  while (v != 0) {
    uint64_t part = (uint64_t)(v % (U)10000000000000000000ull);
    v /= (U)10000000000000000000ull;
    std::string d = std::to_string(part);
    s = (v != 0 ? std::string(19 - d.size(), '0') : "") + d + s;
  }
  return s;
}
static std::string hexadecimal(U v) {
  std::string s;
  do {
    s.insert(s.begin(), "0123456789abcdef"[(int)(v & 15)]);
    v >>= 4;
  } while (v != 0);
  return "0x" + s;
}
static void check_log(const std::vector<InstrRec>& in, const std::string& data, const std::string& tx) {
  size_t pos = 0, lines = 0;
  std::vector<size_t> at = {0};
  std::map<std::string, int> ops;  // a name stands for one instruction
  // a jump may execute the JUMPDEST it lands on itself
  auto unlogged = [&](size_t k) {
    bool last = k + 1 >= in.size() || in[k + 1].depth < in[k].depth;
    bool landed = in[k].op == 0x5b && k > 0 && in[k - 1].depth == in[k].depth && (in[k - 1].op == 0x56 || in[k - 1].op == 0x57);
    return last || landed;
  };
  // undefined instructions may share a name
  auto defined = [](int o) {
    return o <= 0x0b || (o >= 0x10 && o <= 0x1d) || o == 0x20 || (o >= 0x30 && o <= 0x4a) || (o >= 0x50 && o <= 0xa4) || (o >= 0xf0 && o <= 0xf5) || o == 0xfa || o == 0xfd || o == 0xff;
  };
  auto id = [&](int o) { return defined(o) ? o : 0xfe; };
  auto bad = [&](const std::string& why) { violation("options", tx + ": log line " + std::to_string(lines) + ": " + why); };
  while (pos < data.size()) {
    size_t e = data.find('\n', pos);
    if (e == std::string::npos) bad("incomplete");
    std::string l = data.substr(pos, e - pos);
    pos = e + 1;
    size_t c1 = l.find(", "), c2 = c1 == std::string::npos ? c1 : l.find(", ", c1 + 2);
    unsigned long long gas = 0;
    if (c2 == std::string::npos || sscanf(l.c_str() + c1 + 2, "%llu", &gas) != 1) bad("no gas: " + l);
    std::string name = l.substr(0, c1), top = l.substr(c2 + 2);
    // every place the line may stand for, given that some instructions have none
    std::vector<size_t> next;
    size_t furthest = 0;
    bool learn = true;
    for (size_t i : at) {
      for (; i < in.size(); i++) {
        auto& w = in[i];
        auto f = ops.find(name);
        furthest = std::max(furthest, i);
        if ((int64_t)gas == w.gas && (w.empty ? top == "-empty-" : top == decimal(w.top) || top == hexadecimal(w.top)) && (f == ops.end() || f->second == id(w.op))) {
          if (std::find(next.begin(), next.end(), i + 1) == next.end()) next.push_back(i + 1);
          learn = learn && !unlogged(i);
        }
        if (!unlogged(i)) break;
      }
    }
    if (next.empty()) {
      if (furthest + 1 >= in.size() && (in.empty() || unlogged(in.size() - 1))) bad("there is no such instruction: " + l);
      auto& w = in[furthest];
      bad("'" + l + "' for instruction " + std::to_string(w.op) + " with gas " + std::to_string(w.gas) + " and top " + (w.empty ? "-empty-" : decimal(w.top)));
    }
    if (learn && next.size() == 1) ops.emplace(name, id(in[next[0] - 1].op));
    at = next;
    lines++;
  }
  bool complete = false;
  for (size_t i : at) {
    while (i < in.size() && unlogged(i)) i++;
    complete = complete || i == in.size();
  }
  if (!complete) bad("missing");
  count("log-lines", lines);
}
static void do_options(const Plan& p) {
  int64_t bits = p.get("opts", 0);
  clock_config(p.seed, 4);
  Sink sink;
  sink.room = p.get("log_room", -1);
  std::streambuf* old = std::cout.rdbuf(&sink);
  std::cout.clear();
#ifdef EVMRS
  g_sink = &sink;
#endif
  for (int i = 0; i < kNumOpts; i++) setopt(mShared, kOpts[i], bits >> i & 1 ? "true" : "false");
  int64_t flips = p.get("flips", 0);
  Rng r((uint64_t)p.seed + 5);
  bool logging = bits >> kLogOpt & 1;
  for (auto& o : p.threads[0]) {
    for (int i = 0; i < 2 && i < kNumOpts; i++) setopt(mSolo, kOpts[i], "false");
    Outcome want = run_on(p, o, mSolo, 0, false);
    note(want.env);
    sink.data.clear();
    Outcome got = run_on(p, o, mShared, (int)p.get("hash", 2), false);
    count("transactions");
    log_outcome(got);
    if (want.o.trace.size() > 0) mark_nontrivial();
    std::string d = diff_exact(want.o, got.o);
#ifdef EVMRS
    if (logging && sink.room == 0) {
      // a lost log ends the execution; nothing is promised but that the next
      // one works
      sink.room = p.get("log_room", -1);
      count("fault:log-output-fails");
      logging = false;
      bits = 0;
      setopt(mShared, "logging", "false");
      got = run_on(p, o, mShared, (int)p.get("hash", 2), false);
      d = diff_exact(want.o, got.o);
    }
#endif
    if (!d.empty()) violation("options", txname(p, o) + ": with options " + std::to_string(bits) + ": " + d);
    if (logging && sink.room < 0 && p.get("log_check", 0)) {
      // one line per instruction, with its gas and the top of the stack;
      // instructions that do not exist (at the end of the code, or undefined)
      // or fail end their frame and may be unlogged
      Outcome ref = run_ref(p, o, true);
      if (diff(ref.o, got.o).empty()) check_log(ref.env.instr, sink.data, txname(p, o));
    }
    if (sink.room == 0) {
      count("fault:log-output-fails");
      std::cout.clear();
    }
    if (flips) {  // options may be changed between executions
      int k = (int)r.below(kNumOpts);
      bits ^= 1 << k;
      logging = bits >> kLogOpt & 1;
      setopt(mShared, kOpts[k], bits >> k & 1 ? "true" : "false");
      count("option-changes");
    }
  }
  std::cout.rdbuf(old);
#ifdef EVMRS
  g_sink = nullptr;
#endif
}

#ifndef EVMRS
// ----- the profile accounts for exactly what was executed (C10)
struct OpName {
  const char* name;
  int op;
  int cls;  // 0 plain, 1 asks the host, 2 call, 3 create
};
static const OpName kOpNames[] = {
#define EVMZERO_OPCODE(name, value) {#name, value, 0},
#define EVMZERO_OPCODE_EXTERNAL(name, value) {#name, value, 1},
#define EVMZERO_OPCODE_CALL(name, value) {#name, value, 2},
#define EVMZERO_OPCODE_CREATE(name, value) {#name, value, 3},
#include "vm/evmzero/opcodes.inc"
};
static const OpName* by_name(const std::string& n) {
  for (auto& o : kOpNames)
    if (n == o.name) return &o;
  return nullptr;
}
static const OpName* by_op(int op) {
  for (auto& o : kOpNames)
    if (op == o.op) return &o;
  return by_name("INVALID");
}
static void do_profile(const Plan& p) {
  bool full = p.get("full", 1) != 0;
  uint64_t step = (uint64_t)p.get("tick", 1);
  clock_config(p.seed, step);
  Sink sink;
  std::streambuf* old = std::cout.rdbuf(&sink);
  setopt(mShared, full ? "profiling" : "profiling_external", "true");
  std::map<int, uint64_t> calls, host_by_kind;
  uint64_t landed = 0, runs = 0, ticks_lo = 0, ticks_hi = 0;
  auto num = [](uint64_t x) { return std::to_string(x); };
  auto dump = [&]() {
    sink.data.clear();
    {
      Tracked t;
      evmzero_dump_profile(g_vms[mShared]->vm);
    }
    std::map<int, std::pair<uint64_t, uint64_t>> rep;
    uint64_t icalls = 0, iticks = 0;
    size_t pos = 0;
    bool seen = false;
    while (pos < sink.data.size()) {
      size_t e = sink.data.find('\n', pos);
      if (e == std::string::npos) e = sink.data.size();
      std::string l = sink.data.substr(pos, e - pos);
      pos = e + 1;
      size_t c1 = l.find(',');
      if (c1 == std::string::npos) continue;
      std::string name = l.substr(0, c1);
      unsigned long long a = 0, b = 0;
      if (sscanf(l.c_str() + c1 + 1, " %llu, %llu", &a, &b) < 2) continue;
      if (name == "INTERPRETER") {
        icalls = a;
        iticks = b;
        seen = true;
        continue;
      }
      if (auto* o = by_name(name)) rep[o->op] = {a, b};
    }
    if (!seen) violation("profile", "the report has no interpreter line");
    if (icalls != runs) violation("profile", "the report counts " + num(icalls) + " outermost runs, there were " + num(runs));
    uint64_t sum = 0;
    for (auto& o : kOpNames) {
      bool expected = full || o.cls != 0;
      if (rep.count(o.op) != (expected ? 1u : 0u)) violation("profile", std::string("instruction ") + o.name + (expected ? " is missing from" : " is unexpected in") + " the report");
      if (!expected) continue;
      uint64_t want = calls.count(o.op) ? calls[o.op] : 0, lo = want;
      if (o.op == 0x5b) lo = want > landed ? want - landed : 0;  // a jump may include its destination
      auto q = rep[o.op];
      if (q.first > want || q.first < lo) violation("profile", std::string("instruction ") + o.name + " was executed " + num(want) + " times, the report says " + num(q.first));
      sum += q.second;
      if (o.cls == 0 && q.second > q.first * step) violation("profile", std::string(o.name) + " is charged " + num(q.second) + " ticks for " + num(q.first) + " executions that took at most " + num(q.first * step));
    }
    if (iticks > ticks_hi || iticks < ticks_lo)
      violation("profile", "the interpreter ran for " + num(ticks_lo) + " to " + num(ticks_hi) + " ticks, the report says " + num(iticks));
    if (sum > ticks_hi) violation("profile", "the instructions add up to " + num(sum) + " ticks, more than the " + num(ticks_hi) + " that passed");
    // time spent inside the host belongs to the instruction that asked for it
    if (sum < ticks_lo) violation("profile", "the instructions add up to " + num(sum) + " ticks, less than the " + num(ticks_lo) + " spent in the host");
    struct Grp {
      const char* name;
      std::vector<int> ops, kinds;
    };
    static const std::vector<Grp> groups = {{"logs", {0xa0, 0xa1, 0xa2, 0xa3, 0xa4}, {10}}, {"BLOCKHASH", {0x40}, {12}}, {"TLOAD", {0x5c}, {6}}, {"TSTORE", {0x5d}, {7}},
        {"storage accesses", {0x54, 0x55}, {4, 5, 9}}, {"EXTCODEHASH", {0x3f}, {3}}, {"code reads", {0x3b, 0x3c}, {2}}, {"calls and creations", {0xf0, 0xf1, 0xf2, 0xf4, 0xf5, 0xfa}, {13}}, {"SELFDESTRUCT", {0xff}, {11}}};
    for (auto& g : groups) {
      uint64_t have = 0, need = 0;
      for (int o : g.ops) have += rep[o].second;
      for (int k : g.kinds) need += host_by_kind[k];
      if (have < need) violation("profile", std::string(g.name) + " are charged " + num(have) + " ticks, the host alone took " + num(need) + " for them");
    }
    count("reports-checked");
  };
  Rng hr(p.seed ^ 0x77);
  for (auto& o : p.threads[0]) {
    if (o.a[5] != 0) continue;
    Outcome ref = run_ref(p, o);
    uint64_t host = 0, outer_frames = 0, lo = 0, hi = 0;
    auto timed = [&](Client& c, Env& e, const Msg& m, const Bytes& code) -> Res {
      uint64_t t0 = clock_peek(), h0 = host;
      if (m.depth == 0) outer_frames++;
      Res r = exec_real(c, e, m, code);
      if (m.depth == 0) {
        hi += clock_peek() - t0;
        lo += host - h0;
      }
      return r;
    };
    auto hook = [&](Client&, int k) {
      if (hr.chance(1, 2)) {
        uint64_t d = (uint64_t)hr.range(1, 5000);
        clock_advance(d);
        host += d;
        host_by_kind[k] += d;
        count("fault:slow-host");
      }
    };
    Outcome got = run_on(p, o, mShared, (int)p.get("hash", 2), false, timed, hook);
    log_outcome(got);
    count("transactions");
    note(ref.env);
    if (!diff(ref.o, got.o).empty()) {  // another property's business
      count("skipped-wrong-result");
      std::cout.rdbuf(old);
      return;
    }
    runs += outer_frames;
    ticks_hi += hi;
    ticks_lo += lo;
    for (int k = 0; k < 256; k++)
      if (ref.env.executed[k]) calls[by_op(k)->op] += ref.env.executed[k];
    landed += ref.env.landed_jumpdests;
    if (ref.env.instructions > 3) mark_nontrivial();
    if (o.a[1] & 1) dump();
    if ((o.a[1] & 14) == 2) {
      Tracked t;
      evmzero_reset_profiler(g_vms[mShared]->vm);
      calls.clear();
      host_by_kind.clear();
      landed = runs = ticks_lo = ticks_hi = 0;
      count("profiler-resets");
    }
  }
  dump();
  std::cout.rdbuf(old);
}

#endif  // EVMRS

// ----------------------------------------------------------------- generator
void generate(uint64_t seed, const std::string& variant, Plan& p) {
  Rng r(seed);
  int mode = variant == "static" ? 1 : variant == "threads" || variant == "race" ? 2 : variant == "step" ? 3 : variant == "opts" ? 4 : variant == "prof" ? 5 : 0;
  p.set("mode", mode);
  int rev = (int)r.range(7, 12);
  p.set("rev", rev);
  p.set("hash", (int64_t)(r.chance(1, 5) ? r.below(2) : r.chance(1, 4) ? 3 + r.below(31) : 2));
  p.set("block", r.chance(1, 4) ? r.range(0, 300) : 1000);
  p.set("races", variant == "race" ? 1 : 0);
  GenCfg g;
  g.rev = (Rev)rev;
  for (int i = 0; i < kAddrs; i++) g.addrs.push_back(addr_of(i));
  int shape = (int)r.below(6);
  g.budget = mode == 2 ? 14 : shape == 0 ? 5 : shape == 1 ? 60 : 25;
  g.hashes = mode == 2 || mode == 4 ? r.chance(1, 2) : r.chance(1, 8);
  g.calls = !r.chance(1, 8);
  g.storage = mode == 1 ? true : !r.chance(1, 6);
  g.far = mode == 2 || mode == 5 ? 0 : 300;
  int nc = (int)r.range(1, mode == 2 ? 3 : 5);
  for (int i = 0; i < nc; i++) {
    Op o;
    o.kind = kContract;
    o.a[0] = 1 + i;
    o.a[1] = r.chance(1, 2) ? r.range(0, 1000) : 0;
    Bytes b = gen_contract(r, g);
    o.data.assign(b.begin(), b.end());
    p.pre.push_back(o);
    int ns = (int)r.below(4);
    for (int k = 0; k < ns; k++) {
      Op s;
      s.kind = kSlot;
      s.a[0] = 1 + i;
      s.a[1] = (int64_t)r.below(4);
      s.a[2] = (int64_t)r.range(1, 2);
      p.pre.push_back(s);
    }
  }
  int threads = mode == 2 ? (int)r.range(2, 4) : 1;
  int per = mode == 2 ? (int)r.range(1, 3) : (int)r.range(1, mode == 5 ? 6 : 4);
  if (mode == 3) per = (int)r.range(1, 2);
  p.threads.resize((size_t)threads);
  bool faults = r.chance(2, 3);
  for (auto& t : p.threads)
    for (int i = 0; i < per; i++) {
      Op o;
      o.kind = kTx;
      o.a[0] = r.chance(9, 10) ? 1 + (int64_t)r.below((uint64_t)nc) : (int64_t)r.below(kAddrs);
      uint64_t x = r.below(10);
      int64_t cap = mode == 2 ? 60000 : mode == 3 ? 60000 : mode == 4 ? 60000 : r.chance(1, 8) ? 200000 : 90000;
      o.a[1] = x < 2 ? r.range(0, 3000) : x < 5 ? r.range(1000, 60000) : x < 9 ? r.range(20000, cap) : r.range(cap, cap + cap / 2);
      if (r.chance(1, 16)) o.a[1] += (int64_t)1 << r.range(30, 61);
      o.a[2] = r.chance(1, 4) ? r.range(0, 2000) : 0;
      o.a[3] = r.chance(1, mode == 1 ? 2 : 8) ? 1 : 0;
      o.a[4] = faults ? (int64_t)(r.next() >> 8) : 0;
      o.a[5] = mode != 5 && r.chance(1, 40) ? r.range(1018, 1024) : 0;
      o.data.resize(r.chance(1, 3) ? 0 : r.below(100));
      for (auto& c : o.data) c = (char)r.next();
      t.push_back(o);
    }
  if (mode == 2) {
    p.set("solo_first", (int64_t)r.below(2));
    p.set("leak", (int64_t)r.chance(1, 8));
    p.set("full", (int64_t)r.chance(1, 3));
  }
#ifdef EVMRS
  p.set("cache", r.chance(2, 3) ? r.range(1, 4) : -1);
#endif
  if (mode == 3) {
    p.set("split", (int64_t)r.below(3));
    p.set("split_seed", (int64_t)(r.next() >> 8));
  }
  if (mode == 4) {
    p.set("opts", (int64_t)r.below(32));
    p.set("flips", (int64_t)r.below(2));
    p.set("log_room", r.chance(1, 3) ? (int64_t)r.below(400) : -1);
    p.set("log_check", 1);
  }
  if (mode == 5) {
    p.set("full", (int64_t)r.chance(2, 3));
    p.set("tick", r.chance(1, 2) ? 1 : (int64_t)r.range(2, 9));
  }
}
void shrink_op(const Op& op, std::vector<Op>& out) {
  auto with = [&](auto f) {
    Op o = op;
    f(o);
    out.push_back(o);
  };
  if (op.kind == kContract) {
    size_t n = op.data.size();
    for (size_t k = n / 2; k >= 1; k /= 2) {
      if (n > k) with([&](Op& o) { o.data.resize(n - k); });
      if (k == 1) break;
    }
    if (n > 4096)  // long fillers
      for (size_t i = 16; i < n; i += n / 32) with([&](Op& o) { std::fill(o.data.begin() + (long)i, o.data.begin() + (long)std::min(i + n / 32, n), 0x5b); });
    else for (size_t chunk : {32, 8, 1})
      for (size_t i = 0; i + chunk <= n; i += chunk) {
        bool plain = true;
        for (size_t j = i; j < i + chunk; j++) plain &= op.data[j] == 0x5b;
        if (!plain) with([&](Op& o) { std::fill(o.data.begin() + (long)i, o.data.begin() + (long)(i + chunk), 0x5b); });
      }
    if (op.a[1]) with([](Op& o) { o.a[1] = 0; });
  } else if (op.kind == kTx) {
    if (op.a[4]) with([](Op& o) { o.a[4] = 0; });
    if (!op.data.empty()) with([](Op& o) { o.data.clear(); });
    if (op.a[2]) with([](Op& o) { o.a[2] = 0; });
    if (op.a[3]) with([](Op& o) { o.a[3] = 0; });
    if (op.a[5]) with([](Op& o) { o.a[5] = 0; });
  }
}

// ------------------------------------------------------------------ dispatch
static std::string describe(const Plan& p) {
  std::string s = "revision " + std::to_string(p.get("rev", 7)) + ", mode " + std::to_string(p.get("mode"));
  for (auto& o : p.pre)
    if (o.kind == kContract && s.size() < 300) {
      s += "; account " + std::to_string(o.a[0]) + " code 0x";
      static const char* hx = "0123456789abcdef";
      for (size_t i = 0; i < o.data.size() && i < 40; i++) {
        s += hx[(uint8_t)o.data[i] >> 4];
        s += hx[(uint8_t)o.data[i] & 15];
      }
      if (o.data.size() > 40) s += "...";
    }
  for (size_t t = 0; t < p.threads.size(); t++)
    for (auto& o : p.threads[t])
      if (s.size() < 480) s += "; client " + std::to_string(t) + " calls " + std::to_string(o.a[0]) + " gas " + std::to_string(o.a[1]) + (o.a[3] ? " static" : "") + (o.a[4] ? " with faults" : "");
  return s;
}
// Amounts of gas beyond what runs can consume are kept for executions which
// end by themselves.
static bool ends(const Plan& p, const Op& o, uint64_t limit) {
  Outcome r;
  r.env = base_env(p);
  r.env.fate_seed = (uint64_t)o.a[4];
  r.env.limit = limit;
  r.env.exec = [](Env& e, const Msg& m, const Bytes& c) { return interpret(e, m, c); };
  try {
    r.env.top(tx_msg(o));
  } catch (TooLong&) {
    return false;
  }
  return true;
}

void execute(const Plan& plan) {
  if (plan.threads.empty()) return;
  Plan p = plan;
  for (auto& t : p.threads)
    for (auto& o : t)
      if (o.a[1] > 1000000) {
        if (ends(p, o, p.get("mode") == 2 ? 1000 : p.get("mode") == 3 ? 300 : 10000)) count("transactions-with-huge-gas");
        else o.a[1] %= 100000;
      }
  sample_note(describe(p));
#ifdef EVMRS
  g_cache_limit = p.get("cache", -1);
#endif
  switch (p.get("mode")) {
    case 0: do_protocol(p); break;
    case 1: do_static(p); break;
    case 2: do_threads(p); break;
    case 3: do_step(p); break;
    case 4: do_options(p); break;
#ifndef EVMRS
    case 5: do_profile(p); break;
#endif
  }
}
}  // namespace sim
