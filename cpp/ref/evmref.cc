#include "evmref.h"

#include <algorithm>
#include <cstdio>
#include <cstring>

extern "C" void shim_keccak256(uint8_t* out, const uint8_t* data, size_t size) noexcept;

namespace evmref {
typedef signed _BitInt(256) S;
typedef unsigned _BitInt(512) D;

U from_be(const uint8_t* p, size_t n) {
  U v = 0;
  for (size_t i = 0; i < n; i++) v = (v << 8) | (U)p[i];
  return v;
}
void to_be(U v, uint8_t* p, size_t n) {
  for (size_t i = n; i-- > 0;) {
    p[i] = (uint8_t)(v & 0xff);
    v >>= 8;
  }
}
U keccak(const Bytes& b) {
  uint8_t h[32];
  shim_keccak256(h, b.data(), b.size());
  return from_be(h, 32);
}
std::string hex(U v) {
  uint8_t b[32];
  to_be(v, b, 32);
  std::string s = "0x";
  char t[3];
  bool on = false;
  for (int i = 0; i < 32; i++) {
    if (!b[i] && !on && i < 31) continue;
    on = true;
    snprintf(t, 3, "%02x", b[i]);
    s += t;
  }
  return s;
}
static std::string hexb(const Bytes& d) {
  std::string s;
  char t[3];
  for (size_t i = 0; i < d.size() && i < 80; i++) {
    snprintf(t, 3, "%02x", d[i]);
    s += t;
  }
  if (d.size() > 80) s += "...";
  return s + "(" + std::to_string(d.size()) + ")";
}
std::string show(const Effect& e) {
  static const char* names[] = {"set_storage", "set_transient", "log", "selfdestruct", "call", "call-result"};
  std::string s = std::string(names[e.kind]) + "@" + std::to_string(e.depth) + " u=[";
  for (auto& v : e.u) s += hex(v) + " ";
  s += "] n=[";
  for (auto v : e.n) s += std::to_string(v) + " ";
  return s + "] data=" + hexb(e.data);
}
static const U kAddrMask = (((U)1) << 160) - 1;

// ------------------------------------------------------------------- the host
void Env::must_not_be_static(const char* what) {
  if (!frames.empty() && frames.back().is_static && breach.empty())
    breach = std::string(what) + " requested by a frame running in a static context (depth " + std::to_string(frames.size() - 1) + ")";
}
#define HOOK(k) \
  if (hook) hook(k)

static bool present(const World& w, U a) {
  auto it = w.acc.find(a);
  return it != w.acc.end() && (it->second.balance != 0 || it->second.nonce || !it->second.code.empty());
}
bool Env::exists(U a) {
  HOOK(0);
  return present(w, a);
}
U Env::balance(U a) {
  HOOK(1);
  auto it = w.acc.find(a);
  return it == w.acc.end() ? (U)0 : it->second.balance;
}
const Bytes& Env::code(U a) {
  HOOK(2);
  static const Bytes none;
  auto it = w.acc.find(a);
  return it == w.acc.end() ? none : it->second.code;
}
U Env::code_hash(U a) {
  HOOK(3);
  if (!present(w, a)) return 0;
  return keccak(w.acc[a].code);
}
U Env::get_storage(U a, U k) {
  HOOK(4);
  auto it = w.acc.find(a);
  if (it == w.acc.end()) return 0;
  auto s = it->second.st.find(k);
  return s == it->second.st.end() ? (U)0 : s->second;
}
static U lookup(const std::map<U, U>& m, U k) {
  auto i = m.find(k);
  return i == m.end() ? (U)0 : i->second;
}
int Env::set_storage(U a, U k, U v) {
  HOOK(5);
  must_not_be_static("a storage write");
  auto& c = w.acc[a];
  U cur = lookup(c.st, k), org = lookup(c.orig, k);
  if (v == 0) c.st.erase(k);
  else c.st[k] = v;
  int s;
  if (cur == v) s = 0;
  else if (org == cur && org == 0) s = 1;                        // added
  else if (org == cur && v == 0) s = 2;                          // deleted
  else if (org == cur) s = 3;                                    // modified
  else if (org != 0 && cur == 0 && org != v) s = 4;              // deleted, then added
  else if (org != 0 && cur != 0 && v == 0) s = 5;                // modified, then deleted
  else if (org != 0 && cur == 0 && org == v) s = 6;              // deleted, then restored
  else if (org == 0 && cur != 0 && v == 0) s = 7;                // added, then deleted
  else if (org != 0 && cur != 0 && org == v) s = 8;              // modified, then restored
  else s = 0;
  trace.push_back({eStore, (int)frames.size() - 1, {a, k, v}, {s}, {}});
  return s;
}
U Env::get_trans(U a, U k) {
  HOOK(6);
  auto i = w.trans.find({a, k});
  return i == w.trans.end() ? (U)0 : i->second;
}
void Env::set_trans(U a, U k, U v) {
  HOOK(7);
  must_not_be_static("a transient storage write");
  if (v == 0) w.trans.erase({a, k});
  else w.trans[{a, k}] = v;
  trace.push_back({eTstore, (int)frames.size() - 1, {a, k, v}, {}, {}});
}
bool Env::access_account(U a) {
  HOOK(8);
  return !w.warm_a.insert(a).second;
}
bool Env::access_storage(U a, U k) {
  HOOK(9);
  return !w.warm_s.insert({a, k}).second;
}
void Env::emit_log(U a, const Bytes& data, const std::vector<U>& topics) {
  HOOK(10);
  must_not_be_static("a log");
  std::vector<U> u{a};
  u.insert(u.end(), topics.begin(), topics.end());
  trace.push_back({eLog, (int)frames.size() - 1, u, {}, data});
}
bool Env::selfdestruct(U a, U ben) {
  HOOK(11);
  must_not_be_static("a self-destruct");
  trace.push_back({eDestruct, (int)frames.size() - 1, {a, ben}, {}, {}});
  auto& c = w.acc[a];
  bool first = !c.destructed;
  c.destructed = true;
  U b = c.balance;
  c.balance = 0;
  if (a != ben) w.acc[ben].balance += b;
  else c.balance = b;
  return first;
}
U Env::block_hash(int64_t n) {
  HOOK(12);
  return ((U)0x6a09e667f3bcc908ull << 100) + (U)(uint64_t)n;
}

static uint64_t mixh(uint64_t a, uint64_t b) {
  sim::Rng r(a * 0x2545F4914F6CDD1Dull + b);
  return r.next();
}

Res Env::call(const Msg& m) {
  HOOK(13);
  bool create = m.kind == kCreate || m.kind == kCreate2;
  if (!frames.empty() && frames.back().is_static) {
    if (create) must_not_be_static("a contract creation");
    if (m.kind == kCall && m.value != 0) must_not_be_static("a value transfer");
    if (!create && !(m.flags & 1) && breach.empty()) breach = "a nested message of a static frame is not marked static";
  }
  trace.push_back({eCallMsg, (int)frames.size() - 1, {m.recipient, m.sender, m.value, m.salt, m.code_address}, {m.kind, m.flags, m.depth, m.gas}, m.input});
  int idx = ncalls++;
  Res r;
  bool done = false;
  if (fate_seed && (idx >= 64 || (fate_mask >> idx & 1))) {
    sim::Rng f(mixh(fate_seed, (uint64_t)idx));
    if (f.chance(2, 5)) {
      done = true;
      int which = (int)f.below(4);
      if (which == 0) {  // the callee's host fails outright
        static const int raw[] = {1, 3, 4, 8, 12, -1, -3, 10, 11};
        r.st = kFailure;
        r.raw = raw[f.below(9)];
        if (create && f.chance(1, 2)) r.out.resize((size_t)f.range(1, 40), 0x5a);  // leftovers nobody may see
        faults["fault:callee-fails"]++;
      } else if (which == 1) {  // refused before it started
        static const int raw[] = {-2, 17, 10, 1};
        r.st = kFailure;
        r.raw = raw[f.below(4)];
        r.gas_left = m.gas;
        faults["fault:callee-refused"]++;
      } else {  // an arbitrary callee
        int k = (int)f.below(5);
        r.st = k < 3 ? kSuccess : kRevert;
        r.raw = r.st == kSuccess ? 0 : 2;
        int64_t g[] = {0, m.gas, m.gas / 2, (int64_t)f.below((uint64_t)m.gas + 1)};
        r.gas_left = g[f.below(4)];
        if (r.st == kSuccess) r.refund = f.chance(1, 3) ? f.range(-5000, 20000) : 0;
        size_t n[] = {0, 1, 32, 33, (size_t)f.below(200), (size_t)f.below(20) == 0 ? (size_t)4000 : 64};
        r.out.resize(n[f.below(6)]);
        for (auto& b : r.out) b = (uint8_t)f.next();
        if (create && r.st == kSuccess) r.created = ((U)f.next() << 64 | (U)f.next()) & kAddrMask;
        if (create && r.st == kSuccess && f.chance(1, 2)) r.out.clear();
        if (f.chance(1, 2) && r.st == kSuccess && !(m.flags & 1) && !create) {  // it re-entered the caller
          auto& c = w.acc[m.sender];
          U key = (U)f.below(4);
          w.warm_s.insert({m.sender, key});
          if (f.chance(1, 2)) c.st[key] = (U)f.range(1, 3);
          else c.st.erase(key);
          faults["fault:callee-reenters"]++;
        }
        faults[r.st == kSuccess ? "fault:callee-arbitrary" : "fault:callee-reverts"]++;
      }
    }
  }
  if (!done) r = enter(m);
  trace.push_back({eCallRet, (int)frames.size() - 1, {}, {r.st, r.gas_left, r.refund}, r.out});
  return r;
}

static U create_address(const Msg& m, uint64_t nonce) {
  Bytes b(20);
  to_be(m.sender, b.data(), 20);
  if (m.kind == kCreate) {
    for (int i = 0; i < 8; i++) b.push_back((uint8_t)(nonce >> (8 * i)));
  } else {
    Bytes s(64);
    to_be(m.salt, s.data(), 32);
    to_be(keccak(m.input), s.data() + 32, 32);
    b.insert(b.end(), s.begin(), s.end());
    b.push_back(0xff);
  }
  return keccak(b) & kAddrMask;
}

Res Env::enter(const Msg& m) {
  Res r;
  r.st = kFailure;
  r.raw = 1;
  if (m.depth > 1024) {
    r.raw = 10;
    r.gas_left = m.gas;
    return r;
  }
  bool create = m.kind == kCreate || m.kind == kCreate2;
  bool moves = m.kind == kCall || create;
  if ((moves || m.kind == kCallCode) && m.value != 0) {
    auto it = w.acc.find(m.sender);
    if (it == w.acc.end() || it->second.balance < m.value) {
      r.raw = 17;
      r.gas_left = m.gas;
      return r;
    }
  }
  Msg mm = m;
  if (create) {
    auto& c = w.acc[m.sender];
    mm.recipient = create_address(m, c.nonce);
    mm.code_address = mm.recipient;
    c.nonce++;
    w.warm_a.insert(mm.recipient);
    auto it = w.acc.find(mm.recipient);
    if (it != w.acc.end() && (it->second.nonce || !it->second.code.empty())) return r;
  }
  World snap = w;
  if (moves && m.value != 0) {
    w.acc[m.sender].balance -= m.value;
    w.acc[mm.recipient].balance += m.value;
  }
  Bytes c;
  if (create) {
    w.acc[mm.recipient].nonce = 1;
    c = mm.input;
    mm.input.clear();
  } else {
    auto it = w.acc.find(m.code_address);
    if (it != w.acc.end()) c = it->second.code;
  }
  if (c.empty()) {
    r.st = kSuccess;
    r.raw = 0;
    r.gas_left = m.gas;
  } else {
    frames.push_back({(mm.flags & 1) != 0, mm.recipient, trace.size()});
    r = exec(*this, mm, c);
    // A failing frame may or may not have announced its last, unpaid write.
    if (r.st == kFailure)
      while (trace.size() > frames.back().first_effect && (trace.back().kind == eStore || trace.back().kind == eDestruct)) trace.pop_back();
    frames.pop_back();
  }
  if (create && r.st == kSuccess) {
    int64_t cost = (int64_t)r.out.size() * 200;
    if (r.out.size() > 24576 || r.gas_left < cost || (rev >= kLondon && !r.out.empty() && r.out[0] == 0xEF)) {
      r.st = kFailure;
      r.raw = 1;
      r.refund = 0;
      r.out.clear();
    } else {
      r.gas_left -= cost;
      w.acc[mm.recipient].code = r.out;
      r.created = mm.recipient;
      r.out.clear();
    }
  }
  if (r.st != kSuccess) w = snap;  // the machine itself has to give up the refund
  if (r.st == kFailure) {
    r.gas_left = 0;
    r.out.clear();
  }
  return r;
}
Res Env::top(const Msg& m) {
  w.warm_a.insert(m.sender);
  w.warm_a.insert(m.recipient);
  return enter(m);
}

// ------------------------------------------------------------- the interpreter
namespace {
struct Halt {
  Status st;
};
struct Interp {
  Env& e;
  const Msg& m;
  const Bytes& code;
  int64_t gas;
  int64_t refund = 0;
  std::vector<U> s;
  Bytes mem, ret, out;
  std::vector<bool> dest;
  size_t pc = 0;

  Interp(Env& e, const Msg& m, const Bytes& c) : e(e), m(m), code(c), gas(m.gas), dest(c.size()) {
    for (size_t i = 0; i < c.size(); i++) {
      if (c[i] >= 0x60 && c[i] <= 0x7f) i += (size_t)(c[i] - 0x5f);
      else if (c[i] == 0x5b) dest[i] = true;
    }
  }
  [[noreturn]] void fail() { throw Halt{kFailure}; }
  void use(int64_t g) {
    if (g > gas) fail();
    gas -= g;
  }
  void need(size_t pops, size_t pushes) {
    if (s.size() < pops) fail();
    if (s.size() - pops + pushes > 1024) fail();
  }
  U pop() {
    U v = s.back();
    s.pop_back();
    return v;
  }
  void push(U v) { s.push_back(v); }
  void not_static() {
    if (m.flags & 1) fail();
  }
  static int64_t words(uint64_t n) { return (int64_t)((n + 31) / 32); }
  static __int128 memfee(__int128 w) { return w * w / 512 + 3 * w; }
  uint64_t reach(U off, U size) {  // memory size required
    if (size == 0) return 0;
    U most = (U)1 << 42;  // not affordable, and not with the gas of limited runs either
    if (off > most || size > most) return (uint64_t)1 << 45;
    uint64_t end = (uint64_t)off + (uint64_t)size;
    // Interpreters may pay for and provide one of several areas before they
    // find out that another one is not affordable.
    if (e.limit && end > 1 << 20 && memfee(words(end)) - memfee((int64_t)mem.size() / 32) <= gas) throw TooLong{};
    return end;
  }
  int64_t expansion(uint64_t end) {
    if (end <= mem.size()) return 0;
    __int128 fee = memfee(words(end)) - memfee((int64_t)mem.size() / 32);
    if (fee > gas) fail();
    return (int64_t)fee;
  }
  void grow(uint64_t end) {
    if (end > mem.size()) mem.resize((size_t)words(end) * 32);
  }
  void touch(U off, U size) {
    uint64_t end = reach(off, size);
    use(expansion(end));
    grow(end);
  }
  Bytes view(U off, U size) {
    if (size == 0) return {};
    return Bytes(mem.begin() + (long)(uint64_t)off, mem.begin() + (long)((uint64_t)off + (uint64_t)size));
  }
  void copy_in(const Bytes& src, U mo, U so, U n) {  // zero-extended copy
    for (uint64_t i = 0; i < (uint64_t)n; i++) {
      U p = so + i;
      bool in = so < (U)src.size() && p < (U)src.size();
      mem[(size_t)((uint64_t)mo + i)] = in ? src[(size_t)(uint64_t)p] : 0;
    }
  }
  int64_t account_cost(U a) {
    if (e.rev < kBerlin) return 700;
    return e.access_account(a) ? 100 : 2600;
  }
  void sstore() {
    not_static();
    if (gas <= 2300) fail();
    U k = pop(), v = pop();
    U self = m.recipient;
    U cur = e.get_storage(self, k);
    U org = lookup(e.w.acc[self].orig, k);
    bool berlin = e.rev >= kBerlin;
    bool warm = berlin ? e.access_storage(self, k) : true;
    int64_t c, sload = berlin ? 100 : 800, clear = e.rev >= kLondon ? 4800 : 15000;
    if (v == cur) c = sload;
    else if (cur == org) c = org == 0 ? 20000 : berlin ? 2900 : 5000;
    else c = sload;
    if (!warm) c += 2100;
    use(c);
    if (v != cur) {
      if (cur == org) {
        if (org != 0 && v == 0) refund += clear;
      } else {
        if (org != 0) {
          if (cur == 0) refund -= clear;
          if (v == 0) refund += clear;
        }
        if (v == org) {
          // the write is undone: everything but the price of a read comes back
          if (org == 0) refund += 20000 - sload;
          else if (!berlin) refund += 5000 - 800;
          else refund += 5000 - 2100 - 100;
        }
      }
    }
    e.set_storage(self, k, v);
  }
  void create(int op) {
    not_static();
    need(op == 0xf0 ? 3 : 4, 1);
    use(32000);
    if (m.depth > 1024) fail();
    U value = pop(), off = pop(), size = pop(), salt = op == 0xf5 ? pop() : (U)0;
    touch(off, size);
    if (e.rev >= kShanghai) {
      if (size > 2 * 24576) fail();
      use(2 * words((uint64_t)size));
    }
    if (op == 0xf5) use(6 * words((uint64_t)size));
    ret.clear();
    if (value != 0 && e.balance(m.recipient) < value) {
      push(0);
      return;
    }
    Msg c;
    c.kind = op == 0xf0 ? kCreate : kCreate2;
    c.depth = m.depth + 1;
    c.gas = gas - gas / 64;
    c.sender = m.recipient;
    c.value = value;
    c.salt = salt;
    c.input = view(off, size);
    Res r = e.call(c);
    gas = gas - c.gas + r.gas_left;
    if (r.st == kSuccess) refund += r.refund;
    if (r.st == kRevert) ret = r.out;
    push(r.st == kSuccess ? r.created : (U)0);
  }
  void call(int op) {
    bool has_value = op == 0xf1 || op == 0xf2;
    need(has_value ? 7 : 6, 1);
    if (m.depth > 1024) fail();
    U g = pop(), to = pop() & kAddrMask, value = has_value ? pop() : (U)0;
    U io = pop(), is = pop(), oo = pop(), os = pop();
    uint64_t end = std::max(reach(io, is), reach(oo, os));
    use(expansion(end));
    if (op == 0xf1 && value != 0) not_static();
    use(account_cost(to));
    if (value != 0) use(9000);
    if (op == 0xf1 && value != 0 && !e.exists(to)) use(25000);
    grow(end);
    ret.clear();
    int64_t most = gas - gas / 64;
    Msg c;
    c.gas = g > (U)(uint64_t)most ? most : (int64_t)(uint64_t)g;
    use(c.gas);
    if (value != 0) c.gas += 2300;
    c.depth = m.depth + 1;
    c.flags = op == 0xfa ? 1 : m.flags;
    c.kind = op == 0xf4 ? kDelegate : op == 0xf2 ? kCallCode : kCall;
    c.recipient = op == 0xf1 || op == 0xfa ? to : m.recipient;
    c.sender = op == 0xf4 ? m.sender : m.recipient;
    c.value = op == 0xf4 ? m.value : value;
    c.code_address = to;
    c.input = view(io, is);
    if (value != 0 && e.balance(m.recipient) < value) {
      gas += c.gas;
      push(0);
      return;
    }
    Res r = e.call(c);
    gas += r.gas_left;
    if (r.st == kSuccess) refund += r.refund;
    ret = r.out;
    uint64_t n = std::min<uint64_t>((uint64_t)os, ret.size());
    for (uint64_t i = 0; i < n; i++) mem[(size_t)((uint64_t)oo + i)] = ret[i];
    push(r.st == kSuccess ? 1 : 0);
  }
  void step(int op) {
    const Rev v = e.rev;
    auto only = [&](Rev since) {
      if (v < since) fail();
    };
    auto bin = [&](int64_t g) {
      need(2, 1);
      use(g);
    };
    auto env = [&](U x) {
      need(0, 1);
      use(2);
      push(x);
    };
    if (op >= 0x5f && op <= 0x7f) {
      if (op == 0x5f) {
        only(kShanghai);
        return env(0);
      }
      need(0, 1);
      use(3);
      size_t n = (size_t)(op - 0x5f);
      U x = 0;
      for (size_t i = 1; i <= n; i++) x = (x << 8) | (U)(pc + i < code.size() ? code[pc + i] : 0);
      push(x);
      pc += n;
      return;
    }
    if (op >= 0x80 && op <= 0x8f) {
      size_t n = (size_t)(op - 0x7f);
      need(n, n + 1);
      use(3);
      return push(s[s.size() - n]);
    }
    if (op >= 0x90 && op <= 0x9f) {
      size_t n = (size_t)(op - 0x8f);
      need(n + 1, n + 1);
      use(3);
      return std::swap(s[s.size() - 1], s[s.size() - 1 - n]);
    }
    if (op >= 0xa0 && op <= 0xa4) {
      int n = op - 0xa0;
      not_static();
      need((size_t)n + 2, 0);
      use(375 * (n + 1));
      U off = pop(), size = pop();
      std::vector<U> t;
      for (int i = 0; i < n; i++) t.push_back(pop());
      touch(off, size);
      use(8 * (int64_t)(uint64_t)size);
      return e.emit_log(m.recipient, view(off, size), t);
    }
    switch (op) {
      case 0x00: throw Halt{kSuccess};
      case 0x01: { bin(3); U a = pop(), b = pop(); return push(a + b); }
      case 0x02: { bin(5); U a = pop(), b = pop(); return push(a * b); }
      case 0x03: { bin(3); U a = pop(), b = pop(); return push(a - b); }
      case 0x04: { bin(5); U a = pop(), b = pop(); return push(b == 0 ? (U)0 : a / b); }
      case 0x05: {
        bin(5);
        U a = pop(), b = pop();
        if (b == 0) return push(0);
        bool na = (S)a < 0, nb = (S)b < 0;
        U q = (na ? -a : a) / (nb ? -b : b);
        return push(na != nb ? -q : q);
      }
      case 0x06: { bin(5); U a = pop(), b = pop(); return push(b == 0 ? (U)0 : a % b); }
      case 0x07: {
        bin(5);
        U a = pop(), b = pop();
        if (b == 0) return push(0);
        bool na = (S)a < 0, nb = (S)b < 0;
        U q = (na ? -a : a) % (nb ? -b : b);
        return push(na ? -q : q);
      }
      case 0x08: { need(3, 1); use(8); U a = pop(), b = pop(), n = pop(); return push(n == 0 ? (U)0 : (U)(((D)a + (D)b) % (D)n)); }
      case 0x09: { need(3, 1); use(8); U a = pop(), b = pop(), n = pop(); return push(n == 0 ? (U)0 : (U)(((D)a * (D)b) % (D)n)); }
      case 0x0a: {
        bin(10);
        U a = pop(), x = pop(), r = 1;
        int64_t bytes = 0;
        for (U t = x; t != 0; t >>= 8) bytes++;
        use(50 * bytes);
        while (x != 0) {
          if (x & 1) r *= a;
          a *= a;
          x >>= 1;
        }
        return push(r);
      }
      case 0x0b: {
        bin(5);
        U k = pop(), x = pop();
        if (k < 31) {
          unsigned bit = (unsigned)(uint64_t)k * 8 + 7;
          U mask = ((U)1 << (bit + 1)) - 1;
          x = (x >> bit) & 1 ? x | ~mask : x & mask;
        }
        return push(x);
      }
      case 0x10: { bin(3); U a = pop(), b = pop(); return push(a < b ? 1 : 0); }
      case 0x11: { bin(3); U a = pop(), b = pop(); return push(a > b ? 1 : 0); }
      case 0x12: { bin(3); U a = pop(), b = pop(); return push((S)a < (S)b ? 1 : 0); }
      case 0x13: { bin(3); U a = pop(), b = pop(); return push((S)a > (S)b ? 1 : 0); }
      case 0x14: { bin(3); U a = pop(), b = pop(); return push(a == b ? 1 : 0); }
      case 0x15: { need(1, 1); use(3); U a = pop(); return push(a == 0 ? 1 : 0); }
      case 0x16: { bin(3); U a = pop(), b = pop(); return push(a & b); }
      case 0x17: { bin(3); U a = pop(), b = pop(); return push(a | b); }
      case 0x18: { bin(3); U a = pop(), b = pop(); return push(a ^ b); }
      case 0x19: { need(1, 1); use(3); U a = pop(); return push(~a); }
      case 0x1a: { bin(3); U i = pop(), x = pop(); return push(i < 32 ? (x >> (unsigned)(8 * (31 - (unsigned)(uint64_t)i))) & 0xff : (U)0); }
      case 0x1b: { bin(3); U n = pop(), x = pop(); return push(n < 256 ? x << (unsigned)(uint64_t)n : (U)0); }
      case 0x1c: { bin(3); U n = pop(), x = pop(); return push(n < 256 ? x >> (unsigned)(uint64_t)n : (U)0); }
      case 0x1d: { bin(3); U n = pop(), x = pop(); return push(n < 256 ? (U)((S)x >> (unsigned)(uint64_t)n) : (S)x < 0 ? ~(U)0 : (U)0); }
      case 0x20: {
        bin(30);
        U off = pop(), size = pop();
        touch(off, size);
        use(6 * words((uint64_t)size));
        return push(keccak(view(off, size)));
      }
      case 0x30: return env(m.recipient);
      case 0x31: { need(1, 1); U a = pop() & kAddrMask; use(account_cost(a)); return push(e.balance(a)); }
      case 0x32: return env(e.tx.origin);
      case 0x33: return env(m.sender);
      case 0x34: return env(m.value);
      case 0x35: {
        need(1, 1);
        use(3);
        U o = pop(), x = 0;
        for (unsigned i = 0; i < 32; i++) {
          U p = o + i;
          x = (x << 8) | (U)(p >= o && p < (U)m.input.size() ? m.input[(size_t)(uint64_t)p] : 0);
        }
        return push(x);
      }
      case 0x36: return env(m.input.size());
      case 0x37: case 0x39: {
        need(3, 0);
        use(3);
        U mo = pop(), so = pop(), n = pop();
        touch(mo, n);
        use(3 * words((uint64_t)n));
        return copy_in(op == 0x37 ? m.input : code, mo, so, n);
      }
      case 0x38: return env(code.size());
      case 0x3a: return env(e.tx.gas_price);
      case 0x3b: { need(1, 1); U a = pop() & kAddrMask; use(account_cost(a)); return push(e.code(a).size()); }
      case 0x3c: {
        need(4, 0);
        U a = pop() & kAddrMask, mo = pop(), so = pop(), n = pop();
        touch(mo, n);
        use(account_cost(a));
        use(3 * words((uint64_t)n));
        return copy_in(e.code(a), mo, so, n);
      }
      case 0x3d: return env(ret.size());
      case 0x3e: {
        need(3, 0);
        use(3);
        U mo = pop(), so = pop(), n = pop();
        if (so > (U)ret.size() || n > (U)ret.size() - so) fail();
        touch(mo, n);
        use(3 * words((uint64_t)n));
        return copy_in(ret, mo, so, n);
      }
      case 0x3f: { need(1, 1); U a = pop() & kAddrMask; use(account_cost(a)); return push(e.code_hash(a)); }
      case 0x40: {
        need(1, 1);
        use(20);
        U n = pop();
        int64_t cur = e.tx.number;
        if (n < (U)(uint64_t)cur && n + 256 >= (U)(uint64_t)cur) return push(e.block_hash((int64_t)(uint64_t)n));
        return push(0);
      }
      case 0x41: return env(e.tx.coinbase);
      case 0x42: return env((uint64_t)e.tx.timestamp);
      case 0x43: return env((uint64_t)e.tx.number);
      case 0x44: return env(e.tx.prev_randao);
      case 0x45: return env((uint64_t)e.tx.gas_limit);
      case 0x46: return env(e.tx.chain_id);
      case 0x47: need(0, 1); use(5); return push(e.balance(m.recipient));
      case 0x48: only(kLondon); return env(e.tx.base_fee);
      case 0x49: {
        only(kCancun);
        need(1, 1);
        use(3);
        U i = pop();
        return push(i < (U)e.tx.blob_hashes.size() ? e.tx.blob_hashes[(size_t)(uint64_t)i] : (U)0);
      }
      case 0x4a: only(kCancun); return env(e.tx.blob_base_fee);
      case 0x50: need(1, 0); use(2); s.pop_back(); return;
      case 0x51: { need(1, 1); use(3); U o = pop(); touch(o, 32); return push(from_be(&mem[(size_t)(uint64_t)o], 32)); }
      case 0x52: { need(2, 0); use(3); U o = pop(), x = pop(); touch(o, 32); return to_be(x, &mem[(size_t)(uint64_t)o], 32); }
      case 0x53: { need(2, 0); use(3); U o = pop(), x = pop(); touch(o, 1); mem[(size_t)(uint64_t)o] = (uint8_t)(x & 0xff); return; }
      case 0x54: {
        need(1, 1);
        U k = pop();
        if (v < kBerlin) use(800);
        else use(e.access_storage(m.recipient, k) ? 100 : 2100);
        return push(e.get_storage(m.recipient, k));
      }
      case 0x55: not_static(); need(2, 0); return sstore();
      case 0x56: case 0x57: {
        need(op == 0x56 ? 1 : 2, 0);
        use(op == 0x56 ? 8 : 10);
        U to = pop();
        bool go = op == 0x56 || pop() != 0;
        if (!go) return;
        if (to >= (U)code.size() || !dest[(size_t)(uint64_t)to]) fail();
        pc = (size_t)(uint64_t)to - 1;
        e.landed_jumpdests++;
        return;
      }
      case 0x58: return env(pc);
      case 0x59: return env(mem.size());
      case 0x5a: need(0, 1); use(2); return push((uint64_t)gas);
      case 0x5b: return use(1);
      case 0x5c: { only(kCancun); need(1, 1); use(100); U k = pop(); return push(e.get_trans(m.recipient, k)); }
      case 0x5d: { only(kCancun); not_static(); need(2, 0); use(100); U k = pop(), x = pop(); return e.set_trans(m.recipient, k, x); }
      case 0x5e: {
        only(kCancun);
        need(3, 0);
        use(3);
        U d = pop(), o = pop(), n = pop();
        uint64_t end = std::max(reach(d, n), reach(o, n));
        use(expansion(end));
        grow(end);
        use(3 * words((uint64_t)n));
        Bytes b = view(o, n);
        for (size_t i = 0; i < b.size(); i++) mem[(size_t)(uint64_t)d + i] = b[i];
        return;
      }
      case 0xf0: case 0xf5: return create(op);
      case 0xf1: case 0xf2: case 0xf4: case 0xfa: return call(op);
      case 0xf3: case 0xfd: {
        need(2, 0);
        U o = pop(), n = pop();
        touch(o, n);
        out = view(o, n);
        throw Halt{op == 0xf3 ? kSuccess : kRevert};
      }
      case 0xff: {
        not_static();
        need(1, 0);
        use(5000);
        U ben = pop() & kAddrMask;
        if (e.balance(m.recipient) != 0 && !e.exists(ben)) use(25000);
        if (v >= kBerlin && !e.access_account(ben)) use(2600);
        if (e.selfdestruct(m.recipient, ben) && v < kLondon) refund += 24000;
        throw Halt{kSuccess};
      }
      default: fail();
    }
  }
  Res run() {
    Res r;
    try {
      for (;; pc++) {
        int op = pc < code.size() ? code[pc] : 0;
        e.executed[op]++;
        e.instructions++;
        if (e.limit && e.instructions > e.limit) throw TooLong{};
        if (e.keep_instr) e.instr.push_back({op, gas, s.empty(), s.empty() ? (U)0 : s.back(), m.depth, pc, s.size()});
        step(op);
      }
    } catch (Halt& h) {
      r.st = h.st;
    }
    if (r.st == kFailure) {
      out.clear();
      gas = 0;
    }
    r.gas_left = gas;
    r.refund = r.st == kSuccess ? refund : 0;
    r.out = out;
    return r;
  }
};
}  // namespace
Res interpret(Env& e, const Msg& m, const Bytes& code) { return Interp(e, m, code).run(); }

static std::string diff_impl(const Observed& a, const Observed& b) {
  static const char* st[] = {"success", "revert", "failure"};
  for (size_t i = 0; i < std::max(a.trace.size(), b.trace.size()); i++) {
    if (i >= a.trace.size()) return "unexpected host interaction #" + std::to_string(i) + " " + show(b.trace[i]);
    if (i >= b.trace.size()) return "missing host interaction #" + std::to_string(i) + " " + show(a.trace[i]);
    if (!(a.trace[i] == b.trace[i])) return "host interaction #" + std::to_string(i) + " is " + show(b.trace[i]) + ", expected " + show(a.trace[i]);
  }
  if (a.res.st != b.res.st) return std::string("outcome ") + st[b.res.st] + ", expected " + st[a.res.st];
  if (a.res.gas_left != b.res.gas_left) return "gas left " + std::to_string(b.res.gas_left) + ", expected " + std::to_string(a.res.gas_left);
  if (a.res.refund != b.res.refund) return "refund " + std::to_string(b.res.refund) + ", expected " + std::to_string(a.res.refund);
  if (a.res.out != b.res.out) return "output " + hexb(b.res.out) + ", expected " + hexb(a.res.out);
  if (!(a.world == b.world)) return "the resulting world state differs";
  return "";
}
std::string diff(const Observed& a, const Observed& b) { return diff_impl(a, b); }
std::string diff_exact(const Observed& a, const Observed& b) {
  std::string d = diff_impl(a, b);
  if (d.empty() && a.res.raw != b.res.raw) return "status code " + std::to_string(b.res.raw) + ", expected " + std::to_string(a.res.raw);
  return d;
}

// ----------------------------------------------------------------- generator
namespace {
struct Gen {
  sim::Rng& r;
  const GenCfg& g;
  Bytes c;
  int h = 0;  // values left on the stack
  bool far = false;

  void op(int o) { c.push_back((uint8_t)o); }
  void push(U v, int force = 0) {
    int n = 0;
    for (U t = v; t != 0; t >>= 8) n++;
    if (v == 0 && g.rev >= kShanghai && r.chance(2, 3) && !force) {
      op(0x5f);
      return;
    }
    n = std::max(n, 1);
    if (force > n) n = force;
    else if (r.chance(1, 15)) n = (int)r.range(n, 32);
    op(0x5f + n);
    uint8_t b[32];
    to_be(v, b, 32);
    c.insert(c.end(), b + 32 - n, b + 32);
  }
  U val() {
    switch (r.below(12)) {
      case 0: case 1: case 2: return (U)r.below(4);
      case 3: return (U)r.below(64);
      case 4: return (U)r.below(70000);
      case 5: return ~(U)0 - (U)r.below(3);
      case 6: return ((U)1 << 255) + (U)r.below(2) - (U)r.below(2);
      case 7: return g.addrs[r.below(g.addrs.size())];
      case 8: return (U)r.next() << 64;
      case 9: return (U)r.next();
      case 10: return (U)1 << (unsigned)r.below(256);
      default: {
        U v = 0;
        for (int i = 0; i < 4; i++) v = (v << 64) | (U)r.next();
        return v;
      }
    }
  }
  U off() {
    uint64_t x = r.below(100);
    if (x < 45) return (U)(32 * r.below(5));
    if (x < 85) return (U)r.below(160);
    if (x < 95) return (U)r.below(2500);
    if (x < 97) return (U)0xffffffffull + (U)r.below(3);
    if (x < 99) return ~(U)0 - (U)r.below(40);
    return ((U)1 << 64) - (U)r.below(40);
  }
  U size() {
    uint64_t x = r.below(100);
    if (x < 20) return 0;
    if (x < 45) return 32;
    if (x < 60) return 64;
    if (x < 92) return (U)r.below(130);
    if (x < 97) return (U)r.below(1500);
    if (x < 98) return ~(U)0 - (U)r.below(40);
    if (x < 99) return ((U)1 << 64) - (U)r.below(40);
    return (U)50000;
  }
  U addr() { return r.chance(1, 14) ? val() : g.addrs[r.below(g.addrs.size())]; }
  void arg(U v) {  // a constant, or a value already computed
    if (h > 0 && r.chance(1, 8)) op(0x80 + (int)r.below((uint64_t)std::min(h, 16)));
    else push(v);
  }
  void keep() {  // one result is on the stack: make it observable
    h++;
    uint64_t x = r.below(10);
    if (x < 4) {
      push((U)(32 * r.below(6)));
      op(0x52);
      h--;
    } else if (x < 5 && g.storage) {
      push((U)r.below(4));
      op(0x55);
      h--;
    } else if (x < 7 || h > 12) {
      op(0x50);
      h--;
    }
  }
  void call() {
    int kinds[] = {0xf1, 0xf1, 0xf2, 0xf4, 0xfa};
    int k = kinds[r.below(5)];
    bool v = k == 0xf1 || k == 0xf2;
    push(size());
    push(off());
    push(size());
    push(off());
    if (v) push(r.chance(3, 4) ? (U)0 : r.chance(1, 6) ? val() : (U)r.below(5));
    push(addr());
    uint64_t x = r.below(8);
    if (x < 3) op(0x5a);
    else if (x < 4) push(val());
    else push((U)(r.below(60) * r.below(60) * r.below(60)));
    op(k);
    keep();
    if (r.chance(1, 3)) {
      op(0x3d);
      keep();
    }
    if (r.chance(1, 3)) {
      if (r.chance(1, 2)) op(0x3d);
      else push((U)r.below(70));
      push(r.chance(3, 4) ? (U)0 : (U)r.below(40));
      push(off());
      op(0x3e);
    }
    maybe_bail();
  }
  void bail() {  // shows everything at hand and ends, needs little gas
    for (int i = 0; i < 3 && h > 0; i++, h--) {
      push((U)(32 * i));
      op(0x52);
    }
    op(0x3d);
    push(96);
    op(0x52);
    op(0x5a);
    push(128);
    op(0x52);
    push(160);
    push(0);
    op(r.chance(1, 5) ? 0xfd : 0xf3);
  }
  // A conditional jump whose destination is patched later.
  size_t jumpi() {
    op(far ? 0x62 : 0x61);
    if (far) op(0);
    op(0); op(0); op(0x57);
    return c.size() - 3;
  }
  void patch(size_t at, size_t to) {
    c[at] = (uint8_t)(to >> 8);
    c[at + 1] = (uint8_t)to;
    if (far) c[at - 1] = (uint8_t)(to >> 16);
  }
  // Moves the rest of the code beyond its first 2^16 bytes, or around this limit.
  void filler() {
    far = true;
    size_t n = 65536 + r.below(400) - 200;
    if (r.chance(1, 4)) n = r.range(65536, 262144);
    uint64_t kind = r.below(4), x = r.next() | 1;
    op(0x62); op(0); op(0); op(0); op(0x56);
    while (c.size() < n) {
      if (kind == 0) op(0);
      else if (kind == 1) { op(0x5b); op(0); }
      else if (kind == 2) {
        op(0x7f);
        c.insert(c.end(), 32, 0);
      } else {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        op((int)(uint8_t)(x >> 40));
      }
    }
    c.insert(c.end(), 32, 0);  // whatever was pushed ends here
    patch(2, c.size());
    op(0x5b);
  }
  void maybe_bail() {
    if (!r.chance(1, 7)) return;
    bool always = r.chance(1, 2);
    size_t at = 0;
    if (!always) {  // only after a failure: the status is on top
      push(0);
      op(0x3d);
      op(0x11);
      op(0x15);
      at = jumpi();
    }
    int h0 = h;
    bail();
    h = h0;
    if (!always) {
      patch(at, c.size());
      op(0x5b);
    }
  }
  void create() {
    // init code of at most 32 bytes placed with one MSTORE
    Bytes init;
    auto a = [&](std::initializer_list<int> l) {
      for (int x : l) init.push_back((uint8_t)x);
    };
    switch (r.below(7)) {
      case 0: a({0x60, (int)r.below(64), 0x60, 0, 0xf3}); break;
      case 1: a({0x60, (int)r.below(64), 0x60, 0, 0xfd}); break;
      case 2: a({0x60, 1, 0x60, (int)r.below(4), 0x55, 0x60, 0x20, 0x60, 0, 0xf3}); break;
      case 3: a({0xfe}); break;
      case 4: a({0x33, 0x60, 0, 0x52, 0x60, 0x20, 0x60, 0, 0xf3}); break;
      case 5: a({0x60, 0xef, 0x60, 0, 0x53, 0x60, 1, 0x60, 0, 0xf3}); break;
      default: a({0x00}); break;
    }
    U w = from_be(init.data(), init.size()) << (unsigned)(8 * (32 - init.size()));
    push(w, 32);
    U at = (U)(32 * r.below(4));
    push(at);
    op(0x52);
    bool two = r.chance(1, 2);
    if (two) push((U)r.below(3));
    if (r.chance(1, 8)) {
      push(size());
      push(off());
    } else {
      push((U)init.size());
      push(at);
    }
    push(r.chance(3, 4) ? (U)0 : (U)r.below(4));
    op(two ? 0xf5 : 0xf0);
    keep();
    if (r.chance(1, 4)) {
      op(0x3d);
      keep();
    }
    maybe_bail();
  }
  void snippet(int depth) {
    uint64_t x = r.below(100);
    if (g.hashes && r.chance(1, 2)) x = 60;
    if (x < 22) {
      static const int bins[] = {1, 2, 3, 4, 5, 6, 7, 0x0a, 0x0b, 0x10, 0x11, 0x12, 0x13, 0x14, 0x16, 0x17, 0x18, 0x1a, 0x1b, 0x1c, 0x1d};
      int o = bins[r.below(21)];
      arg(val());
      h++;
      arg(r.chance(1, 3) ? (U)r.below(300) : val());
      h--;
      op(o);
      keep();
    } else if (x < 26) {
      arg(val());
      op(r.chance(1, 2) ? 0x15 : 0x19);
      keep();
    } else if (x < 29) {
      push(val());
      push(val());
      push(val());
      op(r.chance(1, 2) ? 0x08 : 0x09);
      keep();
    } else if (x < 36) {
      static const int env[] = {0x30, 0x32, 0x33, 0x34, 0x36, 0x38, 0x3a, 0x3d, 0x41, 0x42, 0x43, 0x44, 0x45, 0x46, 0x47, 0x48, 0x4a, 0x58, 0x59, 0x5a};
      int o = env[r.below(20)];
      if ((o == 0x48 && g.rev < kLondon) || (o == 0x4a && g.rev < kCancun)) o = 0x5a;
      op(o);
      keep();
    } else if (x < 40) {
      push(r.chance(1, 3) ? val() : (U)r.range(700, 1010));
      op(0x40);
      keep();
      if (g.rev >= kCancun) {
        push((U)r.below(4));
        op(0x49);
        keep();
      }
    } else if (x < 46) {
      arg(r.chance(1, 4) ? val() : (U)r.below(80));
      op(0x35);
      keep();
    } else if (x < 58) {
      switch (r.below(g.rev >= kCancun ? 6 : 5)) {
        case 0: arg(val()); h++; push(off()); h--; op(0x52); break;
        case 1: arg(val()); h++; push(off()); h--; op(0x53); break;
        case 2: push(off()); op(0x51); keep(); break;
        case 3: push(size()); push(r.chance(1, 4) ? val() : (U)r.below(80)); push(off()); op(r.chance(1, 2) ? 0x37 : 0x39); break;
        case 4: push(size()); push(r.chance(1, 4) ? val() : (U)r.below(80)); push(off()); push(addr()); op(0x3c); break;
        case 5: push(size()); push(off()); push(off()); op(0x5e); break;
      }
    } else if (x < 64) {
      push(r.chance(1, 2) ? (r.chance(1, 2) ? (U)32 : (U)64) : size());
      push(r.chance(1, 2) ? (U)(32 * r.below(3)) : off());
      op(0x20);
      keep();
    } else if (x < 70) {
      static const int acc[] = {0x31, 0x3b, 0x3f};
      push(addr());
      op(acc[r.below(3)]);
      keep();
    } else if (x < 80 && g.storage) {
      uint64_t y = r.below(g.rev >= kCancun ? 6 : 4);
      if (y < 2) { push(r.chance(1, 20) ? val() : (U)r.below(4)); op(0x54); keep(); }
      else if (y < 4) { push((U)r.below(3)); push((U)r.below(4)); op(0x55); }
      else if (y < 5) { push((U)r.below(4)); op(0x5c); keep(); }
      else { push((U)r.below(3)); push((U)r.below(4)); op(0x5d); }
    } else if (x < 83) {
      int n = (int)r.below(5);
      for (int i = 0; i < n; i++) push(val());
      push(size());
      push(off());
      op(0xa0 + n);
    } else if (x < 91 && g.calls) {
      if (r.chance(1, 5)) create();
      else call();
    } else if (x < 94 && depth < 2) {
      // if
      arg(r.chance(1, 2) ? (U)r.below(2) : val());
      size_t at = jumpi();
      int h0 = h;
      for (uint64_t i = 0; i < 1 + r.below(2); i++) snippet(depth + 1);
      while (h > h0) { op(0x50); h--; }
      patch(at, c.size());
      if (r.chance(1, 40)) c[at + 1]++;
      op(0x5b);
    } else if (x < 97 && depth < 2) {
      // loop
      push((U)r.range(1, 5));
      h++;
      size_t top = c.size();
      op(0x5b);
      int h0 = h;
      for (uint64_t i = 0; i < 1 + r.below(2); i++) snippet(depth + 1);
      while (h > h0) { op(0x50); h--; }
      if (h == h0) {
        push(1);
        op(0x90);
        op(0x03);
        op(0x80);
        patch(jumpi(), top);
      }
      op(0x50);
      h--;
    } else if (x < 98) {
      if (h > 1) op(0x90 + (int)r.below((uint64_t)std::min(h - 1, 16)));
    } else if (x < 99) {
      op(0x5b);
    } else {
      if (r.chance(1, 2)) op((int)r.below(256));
      else if (r.chance(1, 3)) {
        push(val());
        op(0x56);
      } else {
        push(addr());
        if (g.storage) op(0xff);
        else op(0x50);
      }
    }
  }
};
}  // namespace
Bytes gen_contract(sim::Rng& r, const GenCfg& cfg) {
  Gen g{r, cfg, {}};
  int n = (int)r.range(1, cfg.budget);
  if (cfg.far && r.chance(1, cfg.far)) g.filler();
  if (r.chance(1, 60)) {  // climb towards the stack limit
    int k = (int)r.range(1000, 1030);
    for (int i = 0; i < k; i++) g.op(0x5a);
    for (int i = 0; i < 8; i++) g.op(r.chance(1, 2) ? 0x50 : 0x80 + (int)r.below(16));
  }
  for (int i = 0; i < n; i++) g.snippet(0);
  uint64_t x = r.below(12);
  if (x < 7) {
    g.push(r.chance(1, 2) ? (U)192 : g.size());
    g.push(r.chance(3, 4) ? (U)0 : g.off());
    g.op(0xf3);
  } else if (x < 9) {
    g.push((U)r.below(100));
    g.push((U)r.below(64));
    g.op(0xfd);
  } else if (x < 10) {
    g.op(0x00);
  }
  if (r.chance(1, 8)) g.op(0x60 + (int)r.below(32));  // a truncated push
  return g.c;
}
int code_id(const Bytes& code) {
  static std::map<Bytes, int> known;
  return known.emplace(code, (int)known.size()).first->second;
}
}  // namespace evmref
