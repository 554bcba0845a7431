// @sources lib/sparse-map.cc lib/dict.cc lib/util.cc lib/cfg-data.cc
// @bounds ctor: every list of up to 4 (thorough 5) pairs with symbolic keys in 0..2 in any order with repetitions, values m/2, |m| <= 8
// @bounds ops: two vectors of up to 2 and 2 (thorough 4 and 3) entries built by Add in any order, then one of +, -, +=, -=, scaling, dot product; and chains of two in-place operations
// @bounds maps: the same for hash maps, mixed map/vector operands, L1 normalisation to a power of two
// @bounds grow: vectors of 0..9 (thorough 0..16) coordinates, then Add at every existing, intermediate or outer coordinate
// @bounds masks: two vectors over every subset of 5 (thorough 7) coordinates with fixed values (in units of 1, 2^-40 or 2^40) that cancel on some coordinates, all operations, vectors and maps
// @harness grow quick=5 thorough=20
// @harness masks quick=15 thorough=150
// @harness ctor quick=10 thorough=100
// @harness ops quick=20 thorough=200
// @harness chain quick=25 thorough=150
// @harness maps quick=20 thorough=200
#include "common.h"
#include <travatar/sparse-map.h>
using namespace travatar;
static const int K = 3;
struct Model { double v[K]; Model() { for (int i = 0; i < K; i++) v[i] = 0; } };
static bool sorted(const SparseVector &s) {
  const std::vector<SparsePair> &p = s.GetImpl(); bool ok = true;
  for (size_t i = 1; i < p.size(); i++) ok &= p[i - 1].first < p[i].first;
  return ok;
}
static bool agrees(const SparseVector &s, const Model &m) {
  bool ok = true;
  for (int k = 0; k < K; k++) { double x = 0; for (SparseVector::SparseVectorImpl::const_iterator it = s.begin(); it != s.end(); it++) x += it->first == k ? it->second : 0.0; ok &= x == m.v[k]; }
  return ok;
}
static bool agreesM(const SparseMap &s, const Model &m) {
  bool ok = true;
  for (int k = 0; k < K; k++) { SparseMap::const_iterator it = s.find(k); ok &= (it == s.end() ? 0.0 : it->second) == m.v[k]; }
  return ok;
}
SX_HARNESS(ctor) {
  int n = sx::Pick("n", 0, sx::Q(4, 5)); std::vector<SparsePair> in; Model m;
  for (int i = 0; i < n; i++) {
    int k = sx::Int(nm("key", i), 0, K - 1); double v = sx::Fix(nm("val", i), -8, 8, 1);
    in.push_back(SparsePair(k, v)); for (int j = 0; j < K; j++) m.v[j] += j == k ? v : 0.0;
  }
  SparseVector s(in);
  SX_ASSERT(sorted(s)); sx::Assert(agrees(s, m), "a vector built from pairs has the sum of the values at every coordinate");
  sx::Reach("end");
}
static void build(const char *p, int n, SparseVector &s, Model &m, bool pick) {
  for (int i = 0; i < n; i++) {
    int k = pick ? sx::Pick(nm(p, i, 1), 0, K - 1) : sx::Int(nm(p, i, 1), 0, K - 1); double v = sx::Fix(nm(p, i, 2), -8, 8, 1);
    s.Add(k, v); for (int j = 0; j < K; j++) m.v[j] += j == k ? v : 0.0;
  }
  sx::Assert(sorted(s), "coordinates are sorted after Add"); sx::Assert(agrees(s, m), "Add adds");
}
static void apply(int op, SparseVector &a, Model &x, const SparseVector &b, const Model &y) {
  Model r; double dot = 0;
  for (int k = 0; k < K; k++) { r.v[k] = op == 0 || op == 2 ? x.v[k] + y.v[k] : op == 1 || op == 3 ? x.v[k] - y.v[k] : x.v[k]; dot += x.v[k] * y.v[k]; }
  if (op == 0) a = a + b; else if (op == 1) a = a - b; else if (op == 2) a += b; else if (op == 3) a -= b;
  else if (op == 4) sx::Assert(a * b == dot && b * a == dot, "dot product");
  else if (op == 5) { double f = sx::Fix("f", -6, 6, 1); for (int k = 0; k < K; k++) r.v[k] = x.v[k] * f; a = a * f; }
  sx::Assert(sorted(a), "coordinates are sorted and distinct after an operation"); sx::Assert(agrees(a, r), "the operation acts coordinate by coordinate");
  x = r;
}
SX_HARNESS(ops) {
  SparseVector a, b; Model x, y; int M = sx::Q(2, 4);
  int op = sx::Pick("op", 0, 5);
  build("a", sx::Pick("na", 0, M), a, x, true); build("b", sx::Pick("nb", 0, op < 5 ? sx::Q(2, 3) : 0), b, y, true);
  SparseVector b0 = b;
  apply(op, a, x, b, y);
  sx::Assert(agrees(b, y), "the right operand is unchanged"); sx::Assert(b == b0 && !(b != b0), "equality is reflexive");
  sx::Reach("end");
}
SX_HARNESS(chain) {
  SparseVector a, b; Model x, y;
  build("a", sx::Pick("na", 0, 2), a, x, true); build("b", sx::Pick("nb", 1, 2), b, y, true);
  apply(sx::Pick("op1", 2, 3), a, x, b, y);
  apply(sx::Pick("op2", 0, 3), a, x, b, y);
  SparseVector c; Model z; c.Add(1, 0.5); z.v[1] = 0.5;
  apply(sx::Pick("op3", 2, 3), c, z, a, x);
  sx::Reach("end");
}
static SparseMap mapOf(const SparseVector &s) { SparseMap m; for (SparseVector::SparseVectorImpl::const_iterator it = s.begin(); it != s.end(); it++) m.insert(*it); return m; }
SX_HARNESS(maps) {
  SparseVector a, b; Model x, y, sum, dif, sc; double dot = 0, l1 = 0;
  build("a", sx::Pick("na", 0, 2), a, x, true); build("b", sx::Pick("nb", 0, sx::Q(2, 3)), b, y, true);
  for (int k = 0; k < K; k++) { sum.v[k] = x.v[k] + y.v[k]; dif.v[k] = x.v[k] - y.v[k]; dot += x.v[k] * y.v[k]; sc.v[k] = x.v[k] * 0.5; l1 += x.v[k] < 0 ? -x.v[k] : x.v[k]; }
  SparseMap ma = mapOf(a), mb = mapOf(b);
  sx::Assert(agreesM(a.ToMap(), x), "conversion to a map");
  sx::Assert(agreesM(ma + mb, sum), "map + map"); sx::Assert(agreesM(ma - mb, dif), "map - map");
  sx::Assert(agreesM(ma + b, sum), "map + vector"); sx::Assert(agreesM(ma - b, dif), "map - vector");
  sx::Assert(ma * mb == dot && mb * ma == dot, "map . map"); sx::Assert(ma * b == dot, "map . vector"); sx::Assert(agreesM(ma * 0.5, sc), "map * scalar");
  SparseMap t = ma; t += mb; sx::Assert(agreesM(t, sum), "map += map"); t -= mb; sx::Assert(agreesM(t, x), "map -= map");
  t = ma; t += b; sx::Assert(agreesM(t, sum), "map += vector"); t -= b; sx::Assert(agreesM(t, x), "map -= vector");
  t = ma; sx::Assert(t == ma, "map equality"); t[0] += 1; sx::Assert(t != ma, "map inequality");
  sx::Assume(l1 == 4); t = ma; NormalizeL1(t, 2.0); bool ok = true;
  for (int k = 0; k < K; k++) { SparseMap::const_iterator it = t.find(k); ok &= (it == t.end() ? 0.0 : it->second) == x.v[k] * 0.5; }
  sx::Assert(ok, "L1 normalisation scales to the requested norm");
  sx::Reach("end");
}

SX_HARNESS(grow) {
  int n = sx::Pick("n", 0, sx::Q(9, 16)), k = sx::Pick("key", -1, 2 * n), rev = sx::Pick("descending", 0, 1); SparseVector v; std::map<int, double> m;
  for (int i = 0; i < n; i++) { int c = 2 * (rev ? n - 1 - i : i); v.Add(c, 1 + c); m[c] = 1 + c; }
  double x = sx::Fix("value", 1, 8, 1); v.Add(k, x); m[k] += x;
  sx::Assert(v.size() == m.size() && sorted(v), "coordinates are sorted and distinct after Add");
  size_t at = 0; for (std::map<int, double>::iterator it = m.begin(); it != m.end(); it++, at++) sx::Assert(v.GetImpl()[at].first == it->first && v.GetImpl()[at].second == it->second, "Add adds at its coordinate");
  sx::Reach("end");
}
SX_HARNESS(masks) {
  int N = sx::Q(5, 7), ma = sx::Pick("left", 0, (1 << N) - 1), mb = sx::Pick("right", 0, (1 << N) - 1); bool maps = sx::Pick("maps", 0, 1); static const double U[] = {1, 1.0 / (1ll << 40), 1ll << 40}; const double u = U[sx::Pick("unit", 0, 2)];
  SparseVector a, b; SparseMap am, bm; std::vector<double> x(N, 0), y(N, 0);
  for (int i = 0; i < N; i++) { if (ma >> i & 1) { a.Add(i, x[i] = u * (1 + i)); am[i] = x[i]; } if (mb >> i & 1) { b.Add(i, y[i] = u * (i == 1 || i == 4 ? -1 - i : i == 2 ? 1 + i : 7)); bm[i] = y[i]; } }
  for (int op = 0; op < 6; op++) {
    SparseVector r; SparseMap rm; double dot = 0, got = 0;
    if (!maps) { r = a; if (op == 0) r = a + b; else if (op == 1) r = a - b; else if (op == 2) r += b; else if (op == 3) r -= b; else if (op == 4) got = a * b; else r = a * 2.0; }
    else { rm = am; if (op == 0) rm = am + bm; else if (op == 1) rm = am - bm; else if (op == 2) rm += bm; else if (op == 3) rm -= bm; else if (op == 4) got = am * bm; else rm = am * 2.0; }
    for (int i = 0; i < N; i++) {
      double want = op == 0 || op == 2 ? x[i] + y[i] : op == 1 || op == 3 ? x[i] - y[i] : op == 5 ? 2 * x[i] : x[i], have = 0; dot += x[i] * y[i];
      if (maps) { SparseMap::const_iterator it = rm.find(i); have = it == rm.end() ? 0 : it->second; } else { BOOST_FOREACH(const SparsePair &kv, r.GetImpl()) if (kv.first == i) have += kv.second; }
      sx::Assert(want == have, "the operation acts coordinate by coordinate");
    }
    if (!maps) sx::Assert(sorted(r), "coordinates are sorted and distinct after an operation");
    if (op == 4) sx::Assert(got == dot, "dot product");
  }
  if (!maps) { SparseVector c = a; c += b; c -= b; sx::Assert(ma == 0 || c * c == a * a, "adding and subtracting restores"); }
  sx::Reach("end");
}
