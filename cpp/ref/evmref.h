// Executable reference for the EVM message/host protocol, the simulated host
// and world, and the generator of contracts.  Compiled without instrumentation.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <utility>
#include <vector>

#include "sim.h"

namespace evmref {
typedef unsigned _BitInt(256) U;
typedef std::vector<uint8_t> Bytes;
enum Rev { kIstanbul = 7, kBerlin = 8, kLondon = 9, kParis = 10, kShanghai = 11, kCancun = 12 };
enum Status { kSuccess = 0, kRevert = 1, kFailure = 2 };
enum Kind { kCall = 0, kDelegate = 1, kCallCode = 2, kCreate = 3, kCreate2 = 4 };

U from_be(const uint8_t* p, size_t n);
void to_be(U v, uint8_t* p, size_t n);
U keccak(const Bytes&);
std::string hex(U v);

struct Msg {
  int kind = 0;
  uint32_t flags = 0;
  int depth = 0;
  int64_t gas = 0;
  U recipient = 0, sender = 0, value = 0, salt = 0, code_address = 0;
  Bytes input;
};
struct Res {
  Status st = kSuccess;
  int raw = 0;  // evmc status code as the host reports it
  int64_t gas_left = 0, refund = 0;
  Bytes out;
  U created = 0;
};
struct Account {
  U balance = 0;
  uint64_t nonce = 0;
  Bytes code;
  std::map<U, U> st, orig;
  bool destructed = false;
  bool operator==(const Account& o) const {
    return balance == o.balance && nonce == o.nonce && code == o.code && st == o.st && destructed == o.destructed;
  }
};
struct World {
  std::map<U, Account> acc;
  std::map<std::pair<U, U>, U> trans;
  std::set<U> warm_a;
  std::set<std::pair<U, U>> warm_s;
  bool operator==(const World& o) const { return acc == o.acc && trans == o.trans; }
};
enum EffectKind { eStore, eTstore, eLog, eDestruct, eCallMsg, eCallRet };
struct Effect {
  EffectKind kind;
  int depth;
  std::vector<U> u;
  std::vector<int64_t> n;
  Bytes data;
  bool operator==(const Effect&) const = default;
};
std::string show(const Effect&);

struct TxCtx {
  U gas_price = 7, origin = 0xaaaa, coinbase = 0xc01b, prev_randao = 0x1234567, chain_id = 250, base_fee = 11, blob_base_fee = 3;
  int64_t number = 1000, timestamp = 1700000000, gas_limit = 30000000;
  std::vector<U> blob_hashes;
};

struct TooLong {};
struct InstrRec {
  int op;
  int64_t gas;
  bool empty;
  U top;
  int depth;
  uint64_t pc;
  size_t stack;
};

// The simulated host: one transaction against one world.
struct Env {
  World w;
  Rev rev = kIstanbul;
  TxCtx tx;
  uint64_t fate_seed = 0;  // 0: no injected callee behaviour
  uint64_t fate_mask = ~0ull;
  int ncalls = 0;
  std::vector<Effect> trace;
  struct Frame {
    bool is_static;
    U self;
    size_t first_effect;
  };
  std::vector<Frame> frames;
  std::string breach;  // first breach of the static-context discipline
  bool unwarm = false;
  std::map<std::string, uint64_t> faults;
  // interprets code; the reference interpreter or the machine under test
  std::function<Res(Env&, const Msg&, const Bytes& code)> exec;
  std::function<void(int)> hook;  // called on every host interaction

  // statistics of the reference interpreter
  uint64_t executed[256] = {};
  uint64_t landed_jumpdests = 0;
  uint64_t instructions = 0;
  uint64_t limit = 0;  // executions that need more instructions, or much memory, throw TooLong
  bool keep_instr = false;
  std::vector<InstrRec> instr;
  std::vector<uint64_t> external_ticks;  // used by the profiler check

  // host interface
  bool exists(U a);
  U balance(U a);
  const Bytes& code(U a);
  U code_hash(U a);
  U get_storage(U a, U k);
  int set_storage(U a, U k, U v);  // evmc storage status
  U get_trans(U a, U k);
  void set_trans(U a, U k, U v);
  bool access_account(U a);  // true: was warm
  bool access_storage(U a, U k);
  void emit_log(U a, const Bytes& data, const std::vector<U>& topics);
  bool selfdestruct(U a, U ben);
  U block_hash(int64_t n);
  Res call(const Msg& m);

  Res top(const Msg& m);  // the transaction's outermost message

 private:
  Res enter(const Msg& m);
  void must_not_be_static(const char* what);
};

Res interpret(Env& e, const Msg& m, const Bytes& code);

// One digest of everything a client of the machine can observe.
struct Observed {
  Res res;
  std::vector<Effect> trace;
  World world;
};
// Empty when equal, else a description. Failures are compared as one class.
std::string diff(const Observed& want, const Observed& got);
// The status codes of failures have to agree too.
std::string diff_exact(const Observed& want, const Observed& got);

// ---- generator
struct GenCfg {
  Rev rev = kIstanbul;
  std::vector<U> addrs;
  int budget = 20;       // snippets
  bool calls = true;
  bool hashes = false;   // many SHA3
  bool storage = true;
  uint64_t far = 0;      // one in that many contracts lies beyond the first 2^16 bytes of its code
};
Bytes gen_contract(sim::Rng& r, const GenCfg& c);
int code_id(const Bytes& code);  // numbers codes in the order of their first use
}  // namespace evmref
