// Stand-in for ethash's Keccak-256 (submodule not part of this checkout).
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
namespace ethash {
union hash256 {
  uint64_t word64s[4];
  uint32_t word32s[8];
  uint8_t bytes[32];
};
}
extern "C" void shim_keccak256(uint8_t* out, const uint8_t* data, size_t size) noexcept;
namespace ethash {
inline hash256 keccak256(const uint8_t* data, size_t size) noexcept {
  hash256 h;
  shim_keccak256(h.bytes, data, size);
  return h;
}
}  // namespace ethash
