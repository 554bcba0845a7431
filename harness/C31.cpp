// @sources marisa/marisa/grimoire/vector/bit-vector.cc marisa/marisa/grimoire/io/reader.cc marisa/marisa/grimoire/io/writer.cc marisa/marisa/grimoire/io/mapper.cc
// @bounds lane, popcount: words with two arbitrary adjacent bytes; every 64-bit word 
// @bounds small: every bit sequence of length 0..10 (thorough 13)
// @bounds window: sequences of 1..1100 bits of one of four fillings with a window of 5 (thorough 8) arbitrary bits at chosen offsets around the 8, 64, 512 and 1024 bit borders; rank and select at every position, before and after writing and reading or mapping
// @bounds dense: sequences of 1600 bits of one density per 512-bit block (every combination of 4 densities), every rank and select
// @bounds sparse: sequences of 9000..17000 bits with the ones (or the zeros) 1..23 apart, possibly with a block of ones in the middle, so that blocks are found by search, every rank and select
// @bounds flat: every vector whose largest value has s bits (s 0..32, all other bits and values arbitrary) long enough to cross a 64-bit unit
// @harness lane quick=15 thorough=60
// @harness popcount quick=40 thorough=200 path=150
// @harness small quick=10 thorough=60
// @harness window quick=25 thorough=300
// @harness dense quick=15 thorough=60
// @harness sparse quick=25 thorough=60
// @harness flat quick=20 thorough=100
#include "common.h"
#include <marisa/grimoire/vector/pop-count.h>
#include <marisa/grimoire/vector/bit-vector.h>
#include <marisa/grimoire/vector/flat-vector.h>
namespace mv = marisa::grimoire::vector; namespace mio = marisa::grimoire::io;
// rank and select by counting
static void judge(const mv::BitVector &v, const std::vector<bool> &b, bool s0, bool s1, const char *w) {
  size_t ones = 0, zeros = 0; bool ok = v.size() == b.size(), r1 = true, r0 = true, q1 = true, q0 = true;
  for (size_t i = 0; i < b.size() && ok; i++) {
    ok = v[i] == b[i]; r1 &= v.rank1(i) == ones; r0 &= v.rank0(i) == zeros;
    if (b[i]) { if (s1) q1 &= v.select1(ones) == i; ones++; } else { if (s0) q0 &= v.select0(zeros) == i; zeros++; }
  }
    sx::Assert(ok, w); sx::Assert(r1, "rank1 counts the ones before a position"); sx::Assert(r0, "rank0 counts the zeros before a position");
  sx::Assert(q1, "select1 finds the position of each one"); sx::Assert(q0, "select0 finds the position of each zero"); sx::Assert(v.num_1s() == ones && v.num_0s() == zeros, "the totals are the counts");
}
static void whole(const std::vector<bool> &b, bool s0, bool s1, int io) {
  mv::BitVector v; for (size_t i = 0; i < b.size(); i++) v.push_back(b[i]);
  v.build(s0, s1); judge(v, b, s0, s1, "the bits pushed are the bits read");
  if (!io) return;
  std::ostringstream os; mio::Writer w; w.open(os); v.write(w); std::string img = os.str(); mv::BitVector u;
  sx::Assert(img.size() == v.io_size(), "the size announced is the size written");
  if (io == 1) { std::istringstream is(img); mio::Reader r; r.open(is); u.read(r); judge(u, b, s0, s1, "bits read back from a stream"); sx::Reach("read"); }
  else { std::vector<uint64_t> al(img.size() / 8 + 1); memcpy(&al[0], img.data(), img.size()); mio::Mapper m; m.open(&al[0], img.size()); u.map(m); judge(u, b, s0, s1, "bits of a mapped image"); sx::Reach("mapped"); }
}
// counts the bits of a word one by one, added pairwise (narrow sums keep the equivalence easy for the solver)
static uint8_t ones8(uint8_t v) { uint8_t s[8]; for (int i = 0; i < 8; i++) s[i] = (v >> i) & 1; return ((s[0] + s[1]) + (s[2] + s[3])) + ((s[4] + s[5]) + (s[6] + s[7])); }
static void lanes(uint64_t x) {
  mv::PopCount p(x); uint8_t pre[8], n = 0; for (int i = 0; i < 8; i++) { n += ones8((uint8_t)(x >> (8 * i))); pre[i] = n; }
  sx::Assert((uint8_t)p.lo8() == pre[0], "ones of the lowest 8 bits"); sx::Assert((uint8_t)p.lo16() == pre[1], "ones of the lowest 16 bits"); sx::Assert((uint8_t)p.lo24() == pre[2], "ones of the lowest 24 bits"); sx::Assert((uint8_t)p.lo32() == pre[3], "ones of the lowest 32 bits");
  sx::Assert((uint8_t)p.lo40() == pre[4], "ones of the lowest 40 bits"); sx::Assert((uint8_t)p.lo48() == pre[5], "ones of the lowest 48 bits"); sx::Assert((uint8_t)p.lo56() == pre[6], "ones of the lowest 56 bits"); sx::Assert((uint8_t)p.lo64() == pre[7], "ones of all bits");
  sx::Assert((uint8_t)mv::PopCount::count(x) == pre[7], "ones of a word"); sx::Assert(p.lo64() < 65 && mv::PopCount::count(x) < 65, "a word has at most 64 ones");
}
SX_HARNESS(lane) {
  static const uint64_t F[] = {0, ~0ULL, 0x5a5a5a5a5a5a5a5aULL, 0x0123456789abcdefULL}; int k = sx::Pick("byte", 0, 6); uint64_t x = F[sx::Pick("others", 0, 3)], w = sx::Int("two bytes", 0, 65535);
  lanes((x & ~(0xffffULL << (8 * k))) | (w << (8 * k))); sx::Reach("end");
}
SX_HARNESS(popcount) { lanes(((uint64_t)(uint32_t)sx::Int64("high", 0, 0xffffffffLL) << 32) | (uint64_t)sx::Int64("low", 0, 0xffffffffLL)); sx::Reach("end"); }
SX_HARNESS(small) {
  int n = sx::Pick("length", 0, sx::Q(10, 13)); std::vector<bool> b(n); for (int i = 0; i < n; i++) b[i] = sx::Pick(nm("bit", i), 0, 1);
  whole(b, true, true, 1); sx::Reach("end");
}
static bool fill(int kind, int i) { return kind == 0 ? false : kind == 1 ? true : kind == 2 ? i % 2 == 0 : i % 37 == 5; }
// @reach window read
// @reach window mapped
SX_HARNESS(window) {
  static const int at[] = {0, 3, 8, 59, 62, 120, 250, 445, 508, 512, 700, 1020, 1024}, extra[] = {0, 1, 11, 64, 500};
  int k = sx::Pick("filling", 0, 3), o = at[sx::Pick("offset", 0, 12)], w = sx::Q(5, 8), e = extra[sx::Pick("bits after", 0, 4)], n = o + w + e, io = sx::Pick("serialise", 0, 2), sel = sx::Pick("select tables", 0, sx::Q(0, 3)); std::vector<bool> b(n);
  for (int i = 0; i < n; i++) b[i] = fill(k, i);
  for (int i = 0; i < w; i++) b[o + i] = sx::Pick(nm("bit", i), 0, 1);
  whole(b, !(sel & 1), !(sel & 2), io); sx::Reach("end");
}
SX_HARNESS(dense) {
  std::vector<bool> b; unsigned z = 12345; int d[4]; for (int k = 0; k < 4; k++) d[k] = sx::Pick(nm("density", k), 0, 3);
  int tail = sx::Pick("last block", 0, 64) ; for (int i = 0; i < 1536 + tail; i++) { z = z * 1103515245u + 12345u; int p = d[i / 512]; b.push_back(p == 0 ? false : p == 3 ? true : p == 1 ? (z >> 16) % 16 == 0 : (z >> 16) % 16 != 0); }
  if (tail % 21) sx::Assume(d[3] == 0);
  whole(b, true, true, 0); sx::Reach("end");
}
SX_HARNESS(sparse) {
  static const int gap[] = {16, 11, 23, 10, 13, 17}; int g = gap[sx::Pick("distance", 0, 5)], off = sx::Pick("first", 0, 9); bool inv = sx::Pick("zeros", 0, 1), blk = sx::Pick("block in the middle", 0, 1); std::vector<bool> b; int n = g * 540 + (blk ? 1500 : 0) + off;
  for (int i = 0; i < n; i++) b.push_back((i % g == off % g || (blk && i > n / 2 && i < n / 2 + 700)) != inv);
  whole(b, true, true, 0); sx::Reach("end");
}
SX_HARNESS(flat) {
  int s = sx::Pick("bits of the largest", 0, 32), n = s ? 66 / s + 2 : sx::Pick("zeros", 0, 3); mv::Vector<marisa::UInt32> v; std::vector<uint32_t> x(n); int io = sx::Pick("serialise", 0, 1);
  for (int i = 0; i < n; i++) {
    int64_t top = s ? 1LL << (s - 1) : 0;
    if (i == n - 1 && s) x[i] = (uint32_t)(sx::Int64(nm("value", i), 0, top - 1) | top); else { x[i] = (uint32_t)sx::Int64(nm("value", i), 0, s ? 2 * top - 1 : 0); }
  }
  for (int i = 0; i + 1 < n; i++) sx::Assume(x[i] <= x[0]);
  if (n) { sx::Assume(s == 0 || x[n - 1] >= x[0]); for (int i = 0; i < n; i++) v.push_back(x[n - 1 - i]); }
  mv::FlatVector f; f.build(v); sx::Assert(f.size() == (size_t)n && f.empty() == (n == 0), "the number of values is kept");
  bool ok = true; for (int i = 0; i < n; i++) ok = sx::And(ok, f[i] == x[n - 1 - i]); sx::Assert(ok, "every stored value is returned");
  if (io) {
    std::ostringstream os; mio::Writer w; w.open(os); f.write(w); std::string img = os.str(); sx::Assert(img.size() == f.io_size(), "the size announced is the size written"); mv::FlatVector g, h;
    std::istringstream is(img); mio::Reader r; r.open(is); g.read(r);
    std::vector<uint64_t> al(img.size() / 8 + 1); memcpy(&al[0], img.data(), img.size()); mio::Mapper m; m.open(&al[0], img.size()); h.map(m);
    ok = g.size() == (size_t)n && h.size() == (size_t)n; for (int i = 0; i < n && i < (int)g.size() && i < (int)h.size(); i++) ok = sx::And(ok, sx::And(g[i] == x[n - 1 - i], h[i] == x[n - 1 - i])); sx::Assert(ok, "every stored value is returned after saving and loading"); sx::Reach("saved");
  }
  sx::Reach("end");
}
// @reach flat saved
