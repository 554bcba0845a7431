// Native (uninstrumented) backend: runs one harness on one concrete input.
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <map>
#include <deque>
#include <sstream>
#include <fstream>
#include <unistd.h>
static std::map<std::string, sx_fn> &reg() { static std::map<std::string, sx_fn> m; return m; }
static std::vector<int64_t> vals; static std::map<std::string, std::deque<int64_t> > byName; static size_t nexti = 0; static int tier = 0;
extern "C" {
void __sx_harness(const char *name, sx_fn f) { reg()[name] = f; }
static int64_t nextv(const char *n) {
  // by name where names are recorded: the order of input calls may differ between compilers
  if (byName.size()) { std::deque<int64_t> &q = byName[n]; if (q.empty()) return 0; int64_t v = q.front(); q.pop_front(); return v; }
  int64_t v = nexti < vals.size() ? vals[nexti] : 0; nexti++;
  return v;
}
int64_t __sx_api_int(const char *n, int64_t lo, int64_t hi) { if (hi <= lo) { printf("  %s = %lld\n", n, (long long)lo); return lo; }
  int64_t r = (int64_t)((uint64_t)lo + (uint64_t)nextv(n));
  printf("  %s = %lld\n", n, (long long)r); return r; }
int64_t __sx_api_char(const char *n, const char *alphabet) { char c = alphabet[alphabet[1] ? nextv(n) : 0]; printf("  %s = '%c' (%d)\n", n, c, c); return (unsigned char)c; }
double __sx_api_fix(const char *n, int64_t lo, int64_t hi, int scale) { double r = std::ldexp((double)(lo + (hi <= lo ? 0 : nextv(n))), -scale);
  printf("  %s = %.17g\n", n, r); return r; }
void __sx_api_assume(int c) { if (!c) { printf("SX-ASSUME-FALSE\n"); fflush(stdout); _exit(43); } }
void __sx_api_assert(int c, const char *m) { if (!c) { printf("SX-ASSERT-FAIL %s\n", m); fflush(stdout); _exit(42); } }
int64_t __sx_api_conc(int64_t v) { return v; }
double __sx_api_concd(double v) { return v; }
void __sx_api_reach(const char *) {}
void __sx_api_note(const char *) {}
int __sx_api_tier(void) { return tier; }
void __sx_api_concbuf(const char *, uint64_t) {}
void __sx_api_stop(void) { fflush(stdout); _exit(0); }
}
int main(int argc, char **argv) {
  if (argc < 2) return 2;
  std::ifstream in(argv[1]);
  std::string h, line; std::getline(in, h); in >> tier; int64_t v; uint64_t u;
  std::getline(in, line); std::getline(in, line); std::istringstream ls(line);
  std::string tok; while (ls >> tok) { u = strtoull(tok.c_str(), 0, 10); v = (int64_t)u; vals.push_back(v); }
  if (std::getline(in, line) && line.compare(0, 7, "#names ") == 0) { size_t i = 7, k = 0; while (i < line.size() && k < vals.size()) { size_t e = line.find('\x1f', i); if (e == std::string::npos) break; byName[line.substr(i, e - i)].push_back(vals[k++]); i = e + 1; } }
  if (!reg().count(h)) { printf("no harness %s\n", h.c_str()); return 2; }
  printf("harness %s, input:\n", h.c_str());
  alarm(60);
  reg()[h]();
  printf("SX-OK\n"); fflush(stdout);
  _exit(0);
}
