// Harness-side API of the symbolic engine. The same harness source is compiled
//  (a) by clang with the instrumentation pass and linked with rt.cpp (symbolic run), and
//  (b) by g++ without it and linked with native.cpp (replay of one concrete input).
#ifndef SX_H
#define SX_H
#include <stdint.h>
#include <string>
#include <vector>
extern "C" {
int64_t __sx_api_int(const char *name, int64_t lo, int64_t hi);
int64_t __sx_api_char(const char *name, const char *alphabet);
double __sx_api_fix(const char *name, int64_t lo, int64_t hi, int scale);
void __sx_api_assume(int cond);
void __sx_api_assert(int cond, const char *msg);
int64_t __sx_api_conc(int64_t v);
double __sx_api_concd(double v);
void __sx_api_reach(const char *name);
void __sx_api_note(const char *name);
int __sx_api_tier(void);   // 0 quick, 1 thorough
void __sx_api_concbuf(const char *p, uint64_t n);
void __sx_api_stop(void);
}
namespace sx {
inline int Int(const char *n, int lo, int hi) { return (int)__sx_api_int(n, lo, hi); }
inline int64_t Int64(const char *n, int64_t lo, int64_t hi) { return __sx_api_int(n, lo, hi); }
inline uint8_t Byte(const char *n) { return (uint8_t)__sx_api_int(n, 0, 255); }
inline bool Bool(const char *n) { return __sx_api_int(n, 0, 1) != 0; }
// m * 2^-scale with lo <= m <= hi, as an exact double
inline double Fix(const char *n, int64_t lo, int64_t hi, int scale) { return __sx_api_fix(n, lo, hi, scale); }
inline void Assume(bool c) { __sx_api_assume(c); }
inline void Assert(bool c, const char *m) { __sx_api_assert(c, m); }
inline int Conc(int v) { return (int)__sx_api_conc(v); }
inline double Concd(double v) { return __sx_api_concd(v); }
// an int with one solver-enumerated path per feasible value
inline int Pick(const char *n, int lo, int hi) { return (int)__sx_api_conc(__sx_api_int(n, lo, hi)); }
inline void Reach(const char *n) { __sx_api_reach(n); }
inline int Tier() { return __sx_api_tier(); }
inline int Q(int quick, int thorough) { return __sx_api_tier() ? thorough : quick; }
// a character drawn from an alphabet (stays symbolic: an ite chain over the index)
inline char Char(const char *n, const char *alphabet) {
  return (char)__sx_api_char(n, alphabet);
}
inline std::string Str(const char *n, int len, const char *alphabet) {
  std::string s(len, 'x');
  for (int i = 0; i < len; i++) s[i] = Char(n, alphabet);
  return s;
}
inline bool And(bool a, bool b) { return a & b; }
inline bool Or(bool a, bool b) { return a | b; }
inline void ConcStr(const std::string &s) { __sx_api_concbuf(s.data(), s.size()); }
}
typedef void (*sx_fn)(void);
extern "C" void __sx_harness(const char *name, sx_fn f);
#define SX_HARNESS(NAME) static void NAME(); \
  struct SxReg_##NAME { SxReg_##NAME() { __sx_harness(#NAME, NAME); } } sxreg_##NAME; static void NAME()
#define SX_ASSERT(c) sx::Assert((c), #c)
#endif
