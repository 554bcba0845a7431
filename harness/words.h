// Symbolic sentences and n-gram counting that does not branch on the words.
#ifndef SX_WORDS_H
#define SX_WORDS_H
#include "common.h"
typedef std::vector<int> Sent;
inline Sent sent(const char *name, int len, int lo, int hi) { Sent s; for (int i = 0; i < len; i++) s.push_back(sx::Int(nm(name, i), lo, hi)); return s; }
inline bool same(const Sent &a, int i, const Sent &b, int j, int n) { bool r = true; for (int k = 0; k < n; k++) r = sx::And(r, a[i + k] == b[j + k]); return r; }
// occurrences of the n-gram at position i of a in b, restricted to start positions below `before`
inline int occ(const Sent &a, int i, const Sent &b, int n, int before = 1 << 20) { int c = 0; for (int j = 0; j + n <= (int)b.size() && j < before; j++) c += same(a, i, b, j, n) ? 1 : 0; return c; }
// sum over the n-grams of sys of min(count in sys, count in ref)
inline int clipped(const Sent &ref, const Sent &sys, int n) { int m = 0; for (int i = 0; i + n <= (int)sys.size(); i++) m += occ(sys, i, sys, n, i) < occ(sys, i, ref, n) ? 1 : 0; return m; }
#endif
