// Minimal host for demonstrations.
#pragma once
#include <evmc/evmc.h>
#include <array>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <vector>
extern "C" evmc_vm* evmc_create_evmrs() noexcept;
extern "C" evmc_vm_steppable* evmc_create_steppable_evmrs() noexcept;
// What the stand-ins expect.
inline long log_room = -1;      // bytes standard output still accepts
inline std::string log_data;    // what was written to it
inline size_t cache_limit = 0;  // capacity of caches made from now on, if any
extern "C" {
inline __attribute__((used)) void* sim_alloc(size_t n, size_t align) { return aligned_alloc(align < 16 ? 16 : align, (n + align + 15) / (align < 16 ? 16 : align) * (align < 16 ? 16 : align)); }
inline __attribute__((used)) void sim_free(void* p) { free(p); }
inline __attribute__((used)) long sim_stdout_write(const uint8_t* p, size_t n) {
  if (log_room == 0) return -1;
  if (log_room > 0 && (long)n > log_room) n = (size_t)log_room;
  if (log_room > 0) log_room -= (long)n;
  log_data.append((const char*)p, n);
  return (long)n;
}
inline __attribute__((used)) int sim_stdout_flush() { return 0; }
inline __attribute__((used)) size_t sim_cache_limit() { return cache_limit ? cache_limit : (size_t)-1; }
}
typedef std::vector<uint8_t> Bytes;
inline evmc_address addr(int i) { evmc_address a{}; a.bytes[19] = (uint8_t)i; return a; }
inline evmc_bytes32 word(uint64_t v) { evmc_bytes32 a{}; for (int i = 0; i < 8; i++) a.bytes[31 - i] = (uint8_t)(v >> (8 * i)); return a; }
inline uint64_t num(const evmc_bytes32& a) { uint64_t v = 0; for (int i = 24; i < 32; i++) v = v << 8 | a.bytes[i]; return v; }
struct CallOut { evmc_status_code st = EVMC_SUCCESS; int64_t left = 0; int64_t refund = 0; Bytes out; int created = 0; };
struct MiniHost {
  std::map<uint64_t, uint64_t> store, trans;
  uint64_t balance = 0;
  int writes = 0;
  std::vector<std::string> logs;
  std::vector<evmc_message> calls;
  std::vector<Bytes> inputs;
  std::function<CallOut(const evmc_message&)> on_call;
  bool warm = true, exists = true;
};
#define HOST_ MiniHost& h = *(MiniHost*)c; (void)h
inline void free_out(const evmc_result* r) { delete[] r->output_data; }
inline const evmc_host_interface& iface() {
  static const evmc_host_interface i = {
      [](evmc_host_context* c, const evmc_address*) { HOST_; return h.exists; },
      [](evmc_host_context* c, const evmc_address*, const evmc_bytes32* k) { HOST_; return word(h.store[num(*k)]); },
      [](evmc_host_context* c, const evmc_address*, const evmc_bytes32* k, const evmc_bytes32* v) { HOST_; h.store[num(*k)] = num(*v); h.writes++; return EVMC_STORAGE_ASSIGNED; },
      [](evmc_host_context* c, const evmc_address*) { HOST_; return word(h.balance); },
      [](evmc_host_context*, const evmc_address*) { return (size_t)0; },
      [](evmc_host_context*, const evmc_address*) { return word(0); },
      [](evmc_host_context*, const evmc_address*, size_t, uint8_t*, size_t) { return (size_t)0; },
      [](evmc_host_context* c, const evmc_address*, const evmc_address*) { HOST_; h.writes++; return true; },
      [](evmc_host_context* c, const evmc_message* m) {
        HOST_;
        h.calls.push_back(*m);
        h.inputs.push_back(Bytes(m->input_data, m->input_data + m->input_size));
        CallOut o;
        if (h.on_call) o = h.on_call(*m);
        evmc_result r{};
        r.status_code = o.st;
        r.gas_left = o.left;
        r.gas_refund = o.refund;
        r.create_address = addr(o.created);
        if (!o.out.empty()) {
          auto* p = new uint8_t[o.out.size()];
          memcpy(p, o.out.data(), o.out.size());
          r.output_data = p;
          r.output_size = o.out.size();
          r.release = free_out;
        }
        return r;
      },
      [](evmc_host_context*) { return evmc_tx_context{}; },
      [](evmc_host_context*, int64_t) { return word(0); },
      [](evmc_host_context* c, const evmc_address*, const uint8_t* d, size_t n, const evmc_bytes32*, size_t) { HOST_; h.logs.push_back(std::string((const char*)d, n)); h.writes++; },
      [](evmc_host_context* c, const evmc_address*) { HOST_; return h.warm ? EVMC_ACCESS_WARM : EVMC_ACCESS_COLD; },
      [](evmc_host_context* c, const evmc_address*, const evmc_bytes32*) { HOST_; return h.warm ? EVMC_ACCESS_WARM : EVMC_ACCESS_COLD; },
      [](evmc_host_context* c, const evmc_address*, const evmc_bytes32* k) { HOST_; return word(h.trans[num(*k)]); },
      [](evmc_host_context* c, const evmc_address*, const evmc_bytes32* k, const evmc_bytes32* v) { HOST_; h.trans[num(*k)] = num(*v); h.writes++; },
  };
  return i;
}
struct Out { int st; int64_t gas, refund; Bytes out; };
inline Out run(evmc_vm* vm, MiniHost& h, const Bytes& code, int64_t gas, uint32_t flags = 0, evmc_revision rev = EVMC_CANCUN, const Bytes& in = {}, const evmc_bytes32* hash = nullptr, int depth = 0, evmc_call_kind kind = EVMC_CALL) {
  evmc_message m{};
  m.kind = kind;
  m.flags = flags;
  m.gas = gas;
  m.depth = depth;
  m.recipient = m.code_address = addr(1);
  m.sender = addr(2);
  m.input_data = in.data();
  m.input_size = in.size();
  m.code_hash = hash;
  evmc_result r = vm->execute(vm, &iface(), (evmc_host_context*)&h, rev, &m, code.data(), code.size());
  Out o{r.status_code, r.gas_left, r.gas_refund, Bytes(r.output_data, r.output_data + r.output_size)};
  if (r.release) r.release(&r);
  return o;
}
struct StepState { int step = EVMC_STEP_RUNNING, st = EVMC_SUCCESS; uint64_t pc = 0; int64_t gas, refund = 0; std::vector<evmc_bytes32> stack; Bytes memory, ret, out; };
inline StepState steps(evmc_vm_steppable* vm, MiniHost& h, const Bytes& code, StepState s, int n, evmc_revision rev = EVMC_CANCUN) {
  evmc_message m{};
  m.gas = s.gas;
  m.recipient = m.code_address = addr(1);
  m.sender = addr(2);
  evmc_step_result r = vm->step_n(vm, &iface(), (evmc_host_context*)&h, rev, &m, code.data(), code.size(), (evmc_step_status_code)s.step, s.pc, s.refund, s.stack.data(), s.stack.size(), s.memory.data(), s.memory.size(), s.ret.data(), s.ret.size(), n);
  StepState o;
  o.step = r.step_status_code, o.st = r.status_code, o.pc = r.pc, o.gas = r.gas_left, o.refund = r.gas_refund;
  o.stack.assign(r.stack, r.stack + r.stack_size);
  o.memory.assign(r.memory, r.memory + r.memory_size);
  o.ret.assign(r.last_call_return_data, r.last_call_return_data + r.last_call_return_data_size);
  o.out.assign(r.output_data, r.output_data + r.output_size);
  if (r.release) r.release(&r);
  return o;
}
inline Bytes hex(const std::string& s) {
  Bytes b;
  for (size_t i = 0; i + 1 < s.size(); i += 2) b.push_back((uint8_t)strtol(s.substr(i, 2).c_str(), nullptr, 16));
  return b;
}
#define REQUIRE(c) do { if (!(c)) { fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
