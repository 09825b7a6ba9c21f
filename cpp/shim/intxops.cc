// Division-like operations of the intx stand-in; built without instrumentation.
#include <cstdint>
#include <cstring>
typedef unsigned _BitInt(256) U;
typedef unsigned _BitInt(512) W;
static U ld(const uint64_t* a) { return (U)a[0] | (U)a[1] << 64 | (U)a[2] << 128 | (U)a[3] << 192; }
static void st(uint64_t* r, U v) {
  for (int i = 0; i < 4; i++) r[i] = (uint64_t)(v >> (64 * i));
}
extern "C" {
void shim_udivrem(uint64_t* q, uint64_t* r, const uint64_t* a, const uint64_t* b) noexcept {
  U x = ld(a), y = ld(b);
  st(q, x / y);
  st(r, x % y);
}
void shim_addmod(uint64_t* r, const uint64_t* a, const uint64_t* b, const uint64_t* m) noexcept { st(r, (U)(((W)ld(a) + (W)ld(b)) % (W)ld(m))); }
void shim_mulmod(uint64_t* r, const uint64_t* a, const uint64_t* b, const uint64_t* m) noexcept { st(r, (U)(((W)ld(a) * (W)ld(b)) % (W)ld(m))); }
void shim_exp(uint64_t* r, const uint64_t* a, const uint64_t* b) noexcept {
  U x = ld(a), e = ld(b), v = 1;
  for (; e; e >>= 1, x *= x)
    if (e & 1) v *= x;
  st(r, v);
}
}
