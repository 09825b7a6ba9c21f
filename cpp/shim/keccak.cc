// Keccak-256, compiled without instrumentation.
#include <cstddef>
#include <cstdint>
#include <cstring>
static const uint64_t RC[24] = {0x1ull, 0x8082ull, 0x800000000000808aull, 0x8000000080008000ull, 0x808bull, 0x80000001ull, 0x8000000080008081ull, 0x8000000000008009ull, 0x8aull, 0x88ull, 0x80008009ull, 0x8000000aull, 0x8000808bull, 0x800000000000008bull, 0x8000000000008089ull, 0x8000000000008003ull, 0x8000000000008002ull, 0x8000000000000080ull, 0x800aull, 0x800000008000000aull, 0x8000000080008081ull, 0x8000000000008080ull, 0x80000001ull, 0x8000000080008008ull};
static inline uint64_t rol(uint64_t x, int s) { return s ? (x << s) | (x >> (64 - s)) : x; }
static void f(uint64_t* s) {
  static const int rot[24] = {1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44};
  static const int pil[24] = {10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1};
  for (int r = 0; r < 24; r++) {
    uint64_t c[5], t;
    for (int i = 0; i < 5; i++) c[i] = s[i] ^ s[i + 5] ^ s[i + 10] ^ s[i + 15] ^ s[i + 20];
    for (int i = 0; i < 5; i++) {
      t = c[(i + 4) % 5] ^ rol(c[(i + 1) % 5], 1);
      for (int j = 0; j < 25; j += 5) s[j + i] ^= t;
    }
    t = s[1];
    for (int i = 0; i < 24; i++) {
      uint64_t b = s[pil[i]];
      s[pil[i]] = rol(t, rot[i]);
      t = b;
    }
    for (int j = 0; j < 25; j += 5) {
      for (int i = 0; i < 5; i++) c[i] = s[j + i];
      for (int i = 0; i < 5; i++) s[j + i] ^= ~c[(i + 1) % 5] & c[(i + 2) % 5];
    }
    s[0] ^= RC[r];
  }
}
extern "C" void shim_keccak256(uint8_t* out, const uint8_t* data, size_t size) noexcept {
  uint64_t s[25] = {};
  uint8_t* b = (uint8_t*)s;
  const size_t rate = 136;
  while (size >= rate) {
    for (size_t i = 0; i < rate; i++) b[i] ^= data[i];
    f(s);
    data += rate;
    size -= rate;
  }
  for (size_t i = 0; i < size; i++) b[i] ^= data[i];
  b[size] ^= 0x01;
  b[rate - 1] ^= 0x80;
  f(s);
  memcpy(out, s, 32);
}
