// Stand-in for the EVMC C++ interface.
#pragma once
#include <cstring>
#include <functional>
#include <initializer_list>
#include <string_view>

#include "evmc.h"

namespace evmc {
struct address : evmc_address {
  constexpr address(evmc_address a = {}) noexcept : evmc_address{a} {}
  constexpr explicit address(uint64_t v) noexcept : evmc_address{} {
    for (int i = 0; i < 8; i++) bytes[19 - i] = static_cast<uint8_t>(v >> (8 * i));
  }
  explicit operator bool() const noexcept {
    for (auto b : bytes)
      if (b) return true;
    return false;
  }
};
struct bytes32 : evmc_bytes32 {
  constexpr bytes32(evmc_bytes32 a = {}) noexcept : evmc_bytes32{a} {}
  constexpr explicit bytes32(uint64_t v) noexcept : evmc_bytes32{} {
    for (int i = 0; i < 8; i++) bytes[31 - i] = static_cast<uint8_t>(v >> (8 * i));
  }
  explicit operator bool() const noexcept {
    for (auto b : bytes)
      if (b) return true;
    return false;
  }
};
using uint256be = bytes32;
inline bool operator==(const address& a, const address& b) noexcept { return std::memcmp(a.bytes, b.bytes, 20) == 0; }
inline bool operator!=(const address& a, const address& b) noexcept { return !(a == b); }
inline bool operator<(const address& a, const address& b) noexcept { return std::memcmp(a.bytes, b.bytes, 20) < 0; }
inline bool operator==(const bytes32& a, const bytes32& b) noexcept { return std::memcmp(a.bytes, b.bytes, 32) == 0; }
inline bool operator!=(const bytes32& a, const bytes32& b) noexcept { return !(a == b); }
inline bool operator<(const bytes32& a, const bytes32& b) noexcept { return std::memcmp(a.bytes, b.bytes, 32) < 0; }

class Result : private evmc_result {
 public:
  using evmc_result::create_address;
  using evmc_result::gas_left;
  using evmc_result::gas_refund;
  using evmc_result::output_data;
  using evmc_result::output_size;
  using evmc_result::status_code;
  explicit Result(const evmc_result& r) noexcept : evmc_result{r} {}
  Result(Result&& o) noexcept : evmc_result{o} { o.release = nullptr; }
  Result(const Result&) = delete;
  ~Result() noexcept {
    if (release) release(this);
  }
};

class HostInterface {
 public:
  virtual ~HostInterface() noexcept = default;
  virtual bool account_exists(const address&) const noexcept = 0;
  virtual bytes32 get_storage(const address&, const bytes32&) const noexcept = 0;
  virtual evmc_storage_status set_storage(const address&, const bytes32&, const bytes32&) noexcept = 0;
  virtual uint256be get_balance(const address&) const noexcept = 0;
  virtual size_t get_code_size(const address&) const noexcept = 0;
  virtual bytes32 get_code_hash(const address&) const noexcept = 0;
  virtual size_t copy_code(const address&, size_t, uint8_t*, size_t) const noexcept = 0;
  virtual bool selfdestruct(const address&, const address&) noexcept = 0;
  virtual Result call(const evmc_message&) noexcept = 0;
  virtual evmc_tx_context get_tx_context() const noexcept = 0;
  virtual bytes32 get_block_hash(int64_t) const noexcept = 0;
  virtual void emit_log(const address&, const uint8_t*, size_t, const bytes32[], size_t) noexcept = 0;
  virtual evmc_access_status access_account(const address&) noexcept = 0;
  virtual evmc_access_status access_storage(const address&, const bytes32&) noexcept = 0;
  virtual bytes32 get_transient_storage(const address&, const bytes32&) const noexcept = 0;
  virtual void set_transient_storage(const address&, const bytes32&, const bytes32&) noexcept = 0;
};

class HostContext : public HostInterface {
  const evmc_host_interface* host;
  evmc_host_context* context;

 public:
  HostContext(const evmc_host_interface& h, evmc_host_context* c) noexcept : host{&h}, context{c} {}
  bool account_exists(const address& a) const noexcept final { return host->account_exists(context, &a); }
  bytes32 get_storage(const address& a, const bytes32& k) const noexcept final { return host->get_storage(context, &a, &k); }
  evmc_storage_status set_storage(const address& a, const bytes32& k, const bytes32& v) noexcept final { return host->set_storage(context, &a, &k, &v); }
  uint256be get_balance(const address& a) const noexcept final { return host->get_balance(context, &a); }
  size_t get_code_size(const address& a) const noexcept final { return host->get_code_size(context, &a); }
  bytes32 get_code_hash(const address& a) const noexcept final { return host->get_code_hash(context, &a); }
  size_t copy_code(const address& a, size_t o, uint8_t* d, size_t n) const noexcept final { return host->copy_code(context, &a, o, d, n); }
  bool selfdestruct(const address& a, const address& b) noexcept final { return host->selfdestruct(context, &a, &b); }
  Result call(const evmc_message& m) noexcept final { return Result{host->call(context, &m)}; }
  evmc_tx_context get_tx_context() const noexcept final { return host->get_tx_context(context); }
  bytes32 get_block_hash(int64_t n) const noexcept final { return host->get_block_hash(context, n); }
  void emit_log(const address& a, const uint8_t* d, size_t n, const bytes32 t[], size_t k) noexcept final { host->emit_log(context, &a, d, n, t, k); }
  evmc_access_status access_account(const address& a) noexcept final { return host->access_account(context, &a); }
  evmc_access_status access_storage(const address& a, const bytes32& k) noexcept final { return host->access_storage(context, &a, &k); }
  bytes32 get_transient_storage(const address& a, const bytes32& k) const noexcept final { return host->get_transient_storage(context, &a, &k); }
  void set_transient_storage(const address& a, const bytes32& k, const bytes32& v) noexcept final { host->set_transient_storage(context, &a, &k, &v); }
};
}  // namespace evmc

template <>
struct std::hash<evmc::address> {
  size_t operator()(const evmc::address& a) const noexcept {
    uint64_t h = 0x9E3779B97F4A7C15ull;
    for (auto b : a.bytes) h = (h ^ b) * 1099511628211ull;
    return h;
  }
};
template <>
struct std::hash<evmc::bytes32> {
  size_t operator()(const evmc::bytes32& a) const noexcept {
    uint64_t h = 0x9E3779B97F4A7C15ull;
    for (auto b : a.bytes) h = (h ^ b) * 1099511628211ull;
    return h;
  }
};
