// @sources
// @bounds joint: every key array of length 0..5 (thorough 6) with symbolic keys, and one of length 17..20 (above the insertion sort threshold) with keys in 0..2 at 2 (thorough 4) symbolic places over four backgrounds, ascending and descending
// @bounds sized: arrays of 0..4 (thorough 5) records of 1, 4, 7 or 12 bytes with a symbolic key byte
// @harness joint quick=20 thorough=200
// @harness longer quick=20 thorough=200
// @harness sized quick=20 thorough=200
#include "common.h"
#include "util/joint_sort.hh"
#include "util/sized_iterator.hh"
#include <cstring>
struct Greater { bool operator()(int a, int b) const { return a > b; } };
static void judge(const std::vector<int> &k0, const std::vector<int> &k, const std::vector<int> &v, bool desc) {
  int n = k.size(); bool sorted = true, attached = true, perm = true; std::vector<int> seen(n, 0);
  for (int i = 0; i < n; i++) {
    if (i) sorted &= desc ? k[i - 1] >= k[i] : k[i - 1] <= k[i];
    bool in = v[i] >= 100 && v[i] < 100 + n; perm &= in; if (in) { seen[v[i] - 100]++; attached &= k0[v[i] - 100] == k[i]; }
  }
  for (int i = 0; i < n; i++) perm &= seen[i] == 1;
  sx::Assert(perm, "the values are a permutation of the values"); sx::Assert(sorted, "the keys are in order"); sx::Assert(attached, "every value stays with its key");
}
SX_HARNESS(joint) {
  int n = sx::Pick("n", 0, sx::Q(5, 6)); bool desc = sx::Pick("descending", 0, 1); std::vector<int> k(n), v(n);
  for (int i = 0; i < n; i++) { k[i] = sx::Int(nm("key", i), -100, 100); v[i] = 100 + i; }
  std::vector<int> k0 = k;
  if (desc) util::JointSort(k.begin(), k.end(), v.begin(), Greater()); else util::JointSort(k.begin(), k.end(), v.begin());
  judge(k0, k, v, desc); sx::Reach("end");
}
SX_HARNESS(longer) {
  int n = sx::Pick("n", 16, 20); std::vector<int> k(n), v(n);
  int pat = sx::Pick("pattern", 0, 3);
  for (int i = 0; i < n; i++) { k[i] = pat == 0 ? i : pat == 1 ? -i : pat == 2 ? i * 7 % 5 : 0; v[i] = 100 + i; }
  for (int j = 0; j < sx::Q(2, 4); j++) k[j * 5 + 1] = sx::Int(nm("key", j), -20, 20);
  std::vector<int> k0 = k; util::JointSort(&k[0], &k[0] + n, v.begin()); judge(k0, k, v, false); sx::Reach("end");
}
struct ByteLess { bool operator()(const void *a, const void *b) const { return *(const unsigned char *)a < *(const unsigned char *)b; } };
SX_HARNESS(sized) {
  static const int sizes[] = {1, 4, 7, 12}; int n = sx::Pick("n", 0, sx::Q(5, 6)), sz = sizes[sx::Pick("size", 0, 3)];
  std::vector<unsigned char> d(n * sz + 2, 0xab), keys(n);
  for (int i = 0; i < n; i++) { d[1 + i * sz] = keys[i] = sx::Byte(nm("key", i)); for (int j = 1; j < sz; j++) d[1 + i * sz + j] = 16 * (i + 1) + j; }
  std::sort(util::SizedIt(&d[1], sz), util::SizedIt(&d[1] + n * sz, sz), util::SizedCompare<ByteLess>());
  sx::Assert(d[0] == 0xab && d[1 + n * sz] == 0xab, "nothing outside the records is touched");
  bool sorted = true, perm = true; std::vector<int> seen(n, 0), cntA(256, 0);
  for (int i = 0; i < n; i++) {
    const unsigned char *r = &d[1 + i * sz]; if (i) sorted &= d[1 + (i - 1) * sz] <= r[0];
    if (sz > 1) { int id = r[1] / 16 - 1; sx::Assert(id >= 0 && id < n, "record payload intact"); seen[id]++; perm &= r[0] == keys[id]; for (int j = 1; j < sz; j++) sx::Assert(r[j] == 16 * (id + 1) + j, "records move as a whole"); }
    else { int c1 = 0, c2 = 0; for (int j = 0; j < n; j++) { c1 += d[1 + j] == r[0]; c2 += keys[j] == r[0]; } perm &= c1 == c2; }
  }
  if (sz > 1) for (int i = 0; i < n; i++) perm &= seen[i] == 1;
  sx::Assert(sorted, "records are in order"); sx::Assert(perm, "the records are a permutation"); sx::Reach("end");
}
