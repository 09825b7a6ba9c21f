// Stand-in for the intx big integer library (submodule not part of this checkout).
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstring>
#include <string>
#include <type_traits>

namespace intx {
struct uint256 {
  uint64_t w[4] = {0, 0, 0, 0};
  constexpr uint256() noexcept = default;
  template <typename T, typename = std::enable_if_t<std::is_convertible_v<T, uint64_t> && !std::is_class_v<T>>>
  constexpr uint256(T v) noexcept : w{static_cast<uint64_t>(v), 0, 0, 0} {}
  constexpr uint256(uint64_t a, uint64_t b, uint64_t c, uint64_t d) noexcept : w{a, b, c, d} {}
  constexpr uint64_t& operator[](size_t i) noexcept { return w[i]; }
  constexpr const uint64_t& operator[](size_t i) const noexcept { return w[i]; }
  template <typename T, typename = std::enable_if_t<std::is_integral_v<T>>>
  constexpr explicit operator T() const noexcept {
    if constexpr (std::is_same_v<T, bool>) return (w[0] | w[1] | w[2] | w[3]) != 0;
    else return static_cast<T>(w[0]);
  }
};
using u128 = unsigned __int128;
constexpr bool operator==(const uint256& a, const uint256& b) noexcept { return a.w[0] == b.w[0] && a.w[1] == b.w[1] && a.w[2] == b.w[2] && a.w[3] == b.w[3]; }
constexpr bool operator!=(const uint256& a, const uint256& b) noexcept { return !(a == b); }
constexpr bool operator<(const uint256& a, const uint256& b) noexcept {
  for (int i = 3; i >= 0; i--)
    if (a.w[i] != b.w[i]) return a.w[i] < b.w[i];
  return false;
}
constexpr bool operator>(const uint256& a, const uint256& b) noexcept { return b < a; }
constexpr bool operator<=(const uint256& a, const uint256& b) noexcept { return !(b < a); }
constexpr bool operator>=(const uint256& a, const uint256& b) noexcept { return !(a < b); }
#define INTX_SCALAR(op)                                                                                           \
  template <typename T, typename = std::enable_if_t<std::is_integral_v<T>>>                                       \
  constexpr bool operator op(const uint256& a, T b) noexcept { return a op uint256(b); }                          \
  template <typename T, typename = std::enable_if_t<std::is_integral_v<T>>>                                       \
  constexpr bool operator op(T a, const uint256& b) noexcept { return uint256(a) op b; }
INTX_SCALAR(==) INTX_SCALAR(!=) INTX_SCALAR(<) INTX_SCALAR(>) INTX_SCALAR(<=) INTX_SCALAR(>=)
#undef INTX_SCALAR
struct result_with_carry { uint256 value; bool carry; };
constexpr result_with_carry addc(const uint256& a, const uint256& b, bool c = false) noexcept {
  uint256 r;
  u128 t = c;
  for (int i = 0; i < 4; i++) {
    t += (u128)a.w[i] + b.w[i];
    r.w[i] = (uint64_t)t;
    t >>= 64;
  }
  return {r, t != 0};
}
constexpr uint256 operator~(const uint256& a) noexcept { return {~a.w[0], ~a.w[1], ~a.w[2], ~a.w[3]}; }
constexpr uint256 operator+(const uint256& a, const uint256& b) noexcept { return addc(a, b).value; }
constexpr uint256 operator-(const uint256& a) noexcept { return ~a + uint256(1); }
constexpr uint256 operator-(const uint256& a, const uint256& b) noexcept { return addc(a, ~b, true).value; }
constexpr uint256 operator&(const uint256& a, const uint256& b) noexcept { return {a.w[0] & b.w[0], a.w[1] & b.w[1], a.w[2] & b.w[2], a.w[3] & b.w[3]}; }
constexpr uint256 operator|(const uint256& a, const uint256& b) noexcept { return {a.w[0] | b.w[0], a.w[1] | b.w[1], a.w[2] | b.w[2], a.w[3] | b.w[3]}; }
constexpr uint256 operator^(const uint256& a, const uint256& b) noexcept { return {a.w[0] ^ b.w[0], a.w[1] ^ b.w[1], a.w[2] ^ b.w[2], a.w[3] ^ b.w[3]}; }
constexpr uint256 operator*(const uint256& a, const uint256& b) noexcept {
  uint256 r;
  for (int i = 0; i < 4; i++) {
    u128 c = 0;
    for (int j = 0; i + j < 4; j++) {
      c += (u128)a.w[i] * b.w[j] + r.w[i + j];
      r.w[i + j] = (uint64_t)c;
      c >>= 64;
    }
  }
  return r;
}
constexpr uint256 shl(const uint256& a, uint64_t s) noexcept {
  if (s >= 256) return {};
  uint256 r;
  int ws = (int)(s / 64), bs = (int)(s % 64);
  for (int i = 3; i >= 0; i--) {
    uint64_t v = 0;
    if (i - ws >= 0) v = a.w[i - ws] << bs;
    if (bs && i - ws - 1 >= 0) v |= a.w[i - ws - 1] >> (64 - bs);
    r.w[i] = v;
  }
  return r;
}
constexpr uint256 shr(const uint256& a, uint64_t s) noexcept {
  if (s >= 256) return {};
  uint256 r;
  int ws = (int)(s / 64), bs = (int)(s % 64);
  for (int i = 0; i < 4; i++) {
    uint64_t v = 0;
    if (i + ws < 4) v = a.w[i + ws] >> bs;
    if (bs && i + ws + 1 < 4) v |= a.w[i + ws + 1] << (64 - bs);
    r.w[i] = v;
  }
  return r;
}
constexpr uint64_t clamp_shift(const uint256& s) noexcept { return (s.w[1] | s.w[2] | s.w[3]) ? 256 : s.w[0]; }
template <typename T, typename = std::enable_if_t<std::is_integral_v<T>>>
constexpr uint256 operator<<(const uint256& a, T s) noexcept { return shl(a, (uint64_t)s); }
template <typename T, typename = std::enable_if_t<std::is_integral_v<T>>>
constexpr uint256 operator>>(const uint256& a, T s) noexcept { return shr(a, (uint64_t)s); }
constexpr uint256 operator<<(const uint256& a, const uint256& s) noexcept { return shl(a, clamp_shift(s)); }
constexpr uint256 operator>>(const uint256& a, const uint256& s) noexcept { return shr(a, clamp_shift(s)); }
struct div_result { uint256 quot, rem; };
constexpr bool bit(const uint256& a, int i) noexcept { return (a.w[i / 64] >> (i % 64)) & 1; }
// Implemented in intxops.cc: arithmetic on values, no shared state.
extern "C" {
void shim_udivrem(uint64_t* q, uint64_t* r, const uint64_t* a, const uint64_t* b) noexcept;
void shim_addmod(uint64_t* r, const uint64_t* a, const uint64_t* b, const uint64_t* m) noexcept;
void shim_mulmod(uint64_t* r, const uint64_t* a, const uint64_t* b, const uint64_t* m) noexcept;
void shim_exp(uint64_t* r, const uint64_t* a, const uint64_t* b) noexcept;
}
inline div_result udivrem(const uint256& a, const uint256& b) noexcept {
  div_result r{};
  shim_udivrem(r.quot.w, r.rem.w, a.w, b.w);
  return r;
}
inline uint256 operator/(const uint256& a, const uint256& b) noexcept { return udivrem(a, b).quot; }
inline uint256 operator%(const uint256& a, const uint256& b) noexcept { return udivrem(a, b).rem; }
inline div_result sdivrem(const uint256& a, const uint256& b) noexcept {
  bool an = bit(a, 255), bn = bit(b, 255);
  auto r = udivrem(an ? -a : a, bn ? -b : b);
  return {an != bn ? -r.quot : r.quot, an ? -r.rem : r.rem};
}
constexpr bool slt(const uint256& a, const uint256& b) noexcept {
  bool an = bit(a, 255), bn = bit(b, 255);
  return an != bn ? an : a < b;
}
#define INTX_OP(op)                                                                          \
  inline uint256& operator op##=(uint256& a, const uint256& b) noexcept { return a = a op b; }
INTX_OP(+) INTX_OP(-) INTX_OP(*) INTX_OP(/) INTX_OP(%) INTX_OP(&) INTX_OP(|) INTX_OP(^)
#undef INTX_OP
template <typename T>
constexpr uint256& operator<<=(uint256& a, const T& s) noexcept { return a = a << s; }
template <typename T>
constexpr uint256& operator>>=(uint256& a, const T& s) noexcept { return a = a >> s; }
inline uint256 addmod(const uint256& a, const uint256& b, const uint256& m) noexcept {
  uint256 r;
  shim_addmod(r.w, a.w, b.w, m.w);
  return r;
}
inline uint256 mulmod(const uint256& a, const uint256& b, const uint256& m) noexcept {
  uint256 r;
  shim_mulmod(r.w, a.w, b.w, m.w);
  return r;
}
inline uint256 exp(const uint256& base, const uint256& e) noexcept {
  uint256 r;
  shim_exp(r.w, base.w, e.w);
  return r;
}
constexpr uint64_t bswap(uint64_t v) noexcept { return __builtin_bswap64(v); }
constexpr uint256 bswap(const uint256& v) noexcept { return {bswap(v.w[3]), bswap(v.w[2]), bswap(v.w[1]), bswap(v.w[0])}; }
constexpr unsigned count_significant_bytes(const uint256& v) noexcept {
  for (int i = 31; i >= 0; i--)
    if ((v.w[i / 8] >> (8 * (i % 8))) & 0xff) return (unsigned)i + 1;
  return 0;
}
inline uint8_t* as_bytes(uint256& v) noexcept { return reinterpret_cast<uint8_t*>(v.w); }
inline const uint8_t* as_bytes(const uint256& v) noexcept { return reinterpret_cast<const uint8_t*>(v.w); }
inline std::string to_string(uint256 v, int base = 10) {
  std::string s;
  if (v == uint256(0)) return "0";
  while (v != uint256(0)) {
    auto r = udivrem(v, uint256(base));
    s += "0123456789abcdef"[r.rem.w[0]];
    v = r.quot;
  }
  std::reverse(s.begin(), s.end());
  return s;
}
namespace be {
template <typename I, typename T>
inline I load(const T& t) noexcept {
  constexpr size_t n = sizeof(t.bytes);
  I r;
  for (size_t i = 0; i < n; i++) r.w[i / 8] |= (uint64_t)t.bytes[n - 1 - i] << (8 * (i % 8));
  return r;
}
template <typename T>
inline T trunc(const uint256& v) noexcept {
  T t{};
  constexpr size_t n = sizeof(t.bytes);
  for (size_t i = 0; i < n; i++) t.bytes[n - 1 - i] = (uint8_t)(v.w[i / 8] >> (8 * (i % 8)));
  return t;
}
template <typename T>
inline T store(const uint256& v) noexcept { return trunc<T>(v); }
}  // namespace be
}  // namespace intx
