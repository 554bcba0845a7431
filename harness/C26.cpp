// @sources
// @bounds small: every sorted array of 0..5 (thorough 6) values in 0..7 (repeats allowed) and every key 0..7, binary search, 32-bit and 64-bit interpolation
// @bounds wide: sorted arrays of 1..5 (thorough 6) arbitrary 8-bit (thorough 16-bit) values (offsets times width below 2^64) and any key, 32-bit pivot: values stay symbolic
// @bounds bounded: bounded search between two given bounds over arrays of up to 4 values in 0..7
// @bounds scaled: as small, with values multiplied by large factors up to 2^61 so that the float pivot rounds, and 32-bit values up to 2^32
// @harness binary quick=15 thorough=100
// @harness wide quick=20 thorough=200
// @harness small quick=20 thorough=200
// @harness bounded quick=15 thorough=100
#include "common.h"
#include "util/sorted_uniform.hh"
using namespace util;
// guards: an access outside the array is an assertion failure, not just undefined behaviour
template <class T> struct Checked { typedef T Key; const T *b, *e; Checked(const T *x, const T *y) : b(x), e(y) {} T operator()(const T *p) const { sx::Assert(p >= b && p < e, "the search stays inside the array"); return *p; } };
template <class T> static void judge(const std::vector<T> &a, T key, bool found, const T *out) {
  bool present = false; for (size_t i = 0; i < a.size(); i++) present |= a[i] == key;
  sx::Assert(found == present, "a key is found if and only if it is present");
  if (found) { sx::Assert(out >= &a[0] && out < &a[0] + a.size(), "the position found is inside the array"); sx::Assert(*out == key, "the position found holds the key"); }
}
template <class T> static const T *base(const std::vector<T> &a) { static T none[1]; return a.empty() ? none : &a[0]; }
SX_HARNESS(binary) {
  int n = sx::Pick("n", 0, sx::Q(5, 7)); std::vector<uint64_t> a(n);
  for (int i = 0; i < n; i++) { a[i] = sx::Int64(nm("a", i), 0, 0x7fffffffffffffffLL); if (i) sx::Assume(a[i - 1] <= a[i]); }
  uint64_t k = sx::Int64("key", 0, 0x7fffffffffffffffLL); const uint64_t *p = base(a), *out = 0;
  bool f = BinaryFind<const uint64_t *, Checked<uint64_t> >(Checked<uint64_t>(p, p + n), p, p + n, k, out);
  judge(a, k, f, out); sx::Reach("end");
}
SX_HARNESS(wide) {
  int n = sx::Pick("n", 1, sx::Q(5, 6)); std::vector<uint16_t> a(n); int top = sx::Q(255, 65535);
  for (int i = 0; i < n; i++) { a[i] = sx::Int(nm("a", i), 0, top); if (i) sx::Assume(a[i - 1] <= a[i]); }
  uint16_t k = sx::Int("key", 0, top); const uint16_t *p = base(a), *out = 0;
  bool f = SortedUniformFind<const uint16_t *, Checked<uint16_t>, Pivot32>(Checked<uint16_t>(p, p + n), p, p + n, k, out);
  judge(a, k, f, out); sx::Reach("end");
}
SX_HARNESS(small) {
  int n = sx::Pick("n", 0, sx::Q(4, 5)), mode = sx::Pick("mode", 0, 2); static const uint64_t mul[] = {1, 0x123456789ULL, 0x1fffffffffffffffULL};
  std::vector<uint64_t> a(n); std::vector<uint32_t> b(n); int prev = 0;
  for (int i = 0; i < n; i++) { prev = sx::Pick(nm("a", i), prev, 7); a[i] = prev * mul[mode]; b[i] = prev * (mode ? 0x24924924u : 1u); }
  int kk = sx::Pick("key", 0, 7); uint64_t k = kk * mul[mode] + (mode ? sx::Pick("plus", 0, 2) - (kk ? 1 : 0) : 0); const uint64_t *p = base(a), *out = 0;
  bool f = SortedUniformFind<const uint64_t *, Checked<uint64_t>, Pivot64>(Checked<uint64_t>(p, p + n), p, p + n, k, out);
  judge(a, k, f, out);
  if (mode < 2) { uint32_t kb = kk * (mode ? 0x24924924u : 1u) + (mode ? (uint32_t)(k - kk * mul[mode]) : 0u); const uint32_t *q = base(b), *o = 0; f = SortedUniformFind<const uint32_t *, Checked<uint32_t>, PivotSelect<4>::T>(Checked<uint32_t>(q, q + n), q, q + n, kb, o); judge(b, kb, f, o); }
  sx::Reach("end");
}
SX_HARNESS(bounded) {
  int n = sx::Pick("n", 0, sx::Q(4, 5)), lo = sx::Pick("low", 0, 2), hi = sx::Pick("high", 5, 7), prev = lo; std::vector<uint64_t> a(n);
  for (int i = 0; i < n; i++) { prev = sx::Pick(nm("a", i), prev, hi); a[i] = prev; }
  uint64_t k = sx::Pick("key", lo, hi); const uint64_t *p = base(a), *out = 0;
  bool f = BoundedSortedUniformFind<const uint64_t *, Checked<uint64_t>, Pivot64>(Checked<uint64_t>(p, p + n), p - 1, lo, p + n, hi, k, out); judge(a, k, f, out);
  f = BoundedSortedUniformFind<const uint64_t *, Checked<uint64_t>, Pivot32>(Checked<uint64_t>(p, p + n), p - 1, lo, p + n, hi, k, out); judge(a, k, f, out);
  sx::Reach("end");
}
