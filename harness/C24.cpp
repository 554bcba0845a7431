// @sources kenlm/util/bit_packing.cc kenlm/util/exception.cc
// @bounds ints: every width 1..57 (25 for the 32-bit form) at every bit offset 0..7, every value of that width, over a buffer whose other bits are arbitrary
// @bounds ints, ints25, floats, row: offsets counted from the memory or from 2^31, 2^32 or 5*2^34 bits before it
// @bounds floats: every 32-bit pattern (every non-positive float for the 31-bit form) at every bit offset, arbitrary other bits
// @bounds row: three adjacent fields of solver-chosen widths at every offset, all values
// @bounds bits: RequiredBits and BitsMask for every 64-bit maximum
// @harness ints quick=20 thorough=100
// @harness ints25 quick=10 thorough=60
// @harness floats quick=10 thorough=60
// @harness row quick=15 thorough=200
// @harness bits quick=10 thorough=60
#include "common.h"
#include "util/bit_packing.hh"
#include <cstring>
using namespace util;
typedef unsigned __int128 u128;
static uint64_t u64sym(const char *n, const char *m) { return (uint64_t)(uint32_t)sx::Int64(n, 0, 0xffffffffLL) | (uint64_t)sx::Int64(m, 0, 0xffffffffLL) << 32; }
struct Mem {
  unsigned char a[40], b[40];
  Mem() { static const uint64_t F[] = {0, 1ULL << 31, 1ULL << 32, 5ULL << 34}; far = F[sx::Pick("far", 0, 3)]; for (int i = 0; i < 40; i++) a[i] = 0; for (int i = 0; i < 16; i++) a[8 + i] = sx::Byte(nm("mem", i)); }
  uint64_t far; // a multiple of 8 that the base lies before the memory
  char *base() { return (char *)((uintptr_t)a + 8 - far / 8); }
  void clear(int off, int len) { for (int i = 0; i < len; i++) a[8 + (off + i) / 8] &= ~(1 << ((off + i) & 7)); memcpy(b, a, 40); }
  // expected bits computed byte by byte
  bool onlyField(int off, int len, uint64_t v) {
    bool ok = true;
    for (int i = 0; i < 40; i++) {
      unsigned e = b[i];
      for (int k = 0; k < 8; k++) { int bit = (i - 8) * 8 + k - off; if (bit >= 0 && bit < len) e |= (unsigned)((v >> bit) & 1) << k; }
      ok &= a[i] == e;
    }
    return ok;
  }
};
SX_HARNESS(ints) {
  int len = sx::Pick("width", 1, 57), off = sx::Pick("offset", 0, 7) + 8 * sx::Pick("byte", 0, sx::Q(0, 3));
  uint64_t mask = (1ULL << len) - 1, v = u64sym("vlo", "vhi") & mask;
  Mem m; m.clear(off, len);
  WriteInt57(m.base(), m.far + off, len, v);
  sx::Assert(ReadInt57(m.base(), m.far + off, len, mask) == v, "ReadInt57 returns the value written");
  sx::Assert(m.onlyField(off, len, v), "WriteInt57 leaves the other bits alone");
  sx::Assert(ReadInt57(m.base(), m.far + off, len, BitsMask::ByBits(len).mask) == v, "the mask for a width is the one used");
  sx::Reach("end");
}
SX_HARNESS(ints25) {
  int len = sx::Pick("width", 1, 25), off = sx::Pick("offset", 0, 7) + 8 * sx::Pick("byte", 0, 3);
  uint32_t mask = (1U << len) - 1, v = (uint32_t)sx::Int64("v", 0, 0xffffffffLL) & mask;
  Mem m; m.clear(off, len);
  WriteInt25(m.base(), m.far + off, len, v);
  sx::Assert(ReadInt25(m.base(), m.far + off, len, mask) == v, "ReadInt25 returns the value written");
  sx::Assert(m.onlyField(off, len, v), "WriteInt25 leaves the other bits alone");
  sx::Reach("end");
}
static uint32_t bitsOf(const float &f) { uint32_t r; memcpy(&r, &f, 4); return r; }
SX_HARNESS(floats) {
  int off = sx::Pick("offset", 0, 15), kind = sx::Pick("kind", 0, 1);
  uint32_t v = (uint32_t)sx::Int64("bits", 0, 0xffffffffLL); if (kind) v |= 0x80000000u;
  float f; memcpy(&f, &v, 4);
  Mem m; m.clear(off, kind ? 31 : 32);
  float r;
  if (kind) { WriteNonPositiveFloat31(m.base(), m.far + off, f); r = ReadNonPositiveFloat31(m.base(), m.far + off); }
  else { WriteFloat32(m.base(), m.far + off, f); r = ReadFloat32(m.base(), m.far + off); }
  sx::Assert(bitsOf(r) == v, "a packed float is read back bit for bit");
  sx::Assert(m.onlyField(off, kind ? 31 : 32, kind ? v & 0x7fffffffu : v), "writing a float leaves the other bits alone");
  float s = f; SetSign(s); sx::Assert(bitsOf(s) == (v | 0x80000000u), "SetSign"); s = f; UnsetSign(s); sx::Assert(bitsOf(s) == (v & 0x7fffffffu), "UnsetSign");
  sx::Reach("end");
}
SX_HARNESS(row) {
  int off = sx::Pick("offset", 0, 7); static const int ws[] = {1, 2, 7, 8, 13, 24, 25, 31};
  int n = sx::Q(6, 8), w[3]; uint64_t v[3]; Mem m; int total = 0;
  for (int i = 0; i < 3; i++) { w[i] = ws[sx::Pick(nm("width", i), 0, n - 1)]; v[i] = (uint64_t)sx::Int64(nm("v", i), 0, 0xffffffffLL) & ((1ULL << w[i]) - 1); total += w[i]; }
  m.clear(off, total);
  static const int orders[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  const int *o = orders[sx::Tier() ? sx::Pick("order", 0, 5) : sx::Pick("order", 0, 1) * 5]; int at[3] = {off, off + w[0], off + w[0] + w[1]};
  for (int k = 0; k < 3; k++) if (w[o[k]] <= 25 && k != 1) WriteInt25(m.base(), m.far + at[o[k]], w[o[k]], v[o[k]]); else WriteInt57(m.base(), m.far + at[o[k]], w[o[k]], v[o[k]]);
  bool ok = true;
  for (int k = 0; k < 3; k++) ok &= ReadInt57(m.base(), m.far + at[k], w[k], (1ULL << w[k]) - 1) == v[k];
  sx::Assert(ok, "adjacent fields keep their values");
  sx::Reach("end");
}
SX_HARNESS(bits) {
  uint64_t v = u64sym("lo", "hi");
  int b = RequiredBits(v);
  sx::Assert(b >= 64 || v < (1ULL << b), "RequiredBits is enough bits");
  sx::Assert(b == 0 || v >= (1ULL << (b - 1)), "RequiredBits is not too many");
  if (b <= 57) { BitsMask m = BitsMask::ByMax(v); sx::Assert(m.bits == b && (v & m.mask) == v && m.mask == (1ULL << b) - 1, "BitsMask::ByMax"); }
  BitPackingSanity();
  sx::Reach("end");
}
