// @sources lib/dict.cc lib/global-debug.cc lib/util.cc lib/sparse-map.cc lib/cfg-data.cc
// @bounds args: every command line of 3 (thorough 4) words of 0..2 characters over {-, a, b, 1}, two options with defaults, limits on the number of main arguments
// @bounds file: every file of 4 (thorough 5) lines out of 11 kinds (headers, comments, blank lines, values, malformed headers)
// @bounds numbers: every string of up to 3 (thorough 4) characters over {0, 1, 7, -, +, ., e, x, blank} as integer and as real
// @bounds lists: every string of up to 3 (thorough 4) characters over {1, 2, |, blank, x}
// @bounds setters: integers -2^31, 2^31-1 and -20..20, reals k/64 and k/3, truth values
// @bounds overflow: integers just inside and outside the range of int
// @stub exit() in config-base.cc (after the usage message) throws instead of ending the process
// @harness args quick=20 thorough=200
// @harness file quick=20 thorough=200
// @harness numbers quick=20 thorough=200
// @harness lists quick=10 thorough=100
// @harness setters quick=10 thorough=60
// @harness overflow quick=5 thorough=30
// @reach args accepted
// @reach args rejected
// @reach file accepted
// @reach file rejected
// @reach numbers accepted
// @reach numbers rejected
#include "common.h"
#include <travatar/config-base.h>
#include <travatar/global-debug.h>
#include <boost/algorithm/string.hpp>
#include <boost/lexical_cast.hpp>
#include <fstream>
#include <iomanip>
#include <cerrno>
#include <climits>
#include <cctype>
#include <cstdlib>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
struct Exited : std::exception {};
#define exit(x) throw Exited()
#include <lib/config-base.cc>
#undef exit
struct Conf : ConfigBase { Conf(int lo = 0, int hi = 255) { minArgs_ = lo; maxArgs_ = hi; SetUsage("usage"); AddConfigEntry("a", "x", "first"); AddConfigEntry("b", "2", "second"); AddConfigEntry("a1", "", "third"); } };
typedef std::pair<const std::string, std::string> KV;
static std::string str(const char *n, int max, const char *alpha) { int len = sx::Pick(nm(n, 99), 0, max); std::string s; for (int i = 0; i < len; i++) s += alpha[sx::Pick(nm(n, i), 0, strlen(alpha) - 1)]; return s; }
SX_HARNESS(args) {
  int n = sx::Q(3, 4); std::vector<std::string> a(1, "prog"); for (int i = 0; i < n; i++) a.push_back(str(nm("arg", i), 2, "-a1b"));
  std::vector<char *> v; for (int i = 0; i <= n; i++) v.push_back(&a[i][0]); v.push_back(0); int lo = 0, hi = sx::Pick("most main arguments", 1, 2);
  std::map<std::string, std::string> want; want["a"] = "x"; want["b"] = "2"; want["a1"] = ""; std::vector<std::string> rest; bool ok = true;
  for (int i = 1; i <= n && ok; i++) { if (a[i].empty() || a[i][0] != '-') { rest.push_back(a[i]); continue; } std::string o = a[i].substr(1); if (!want.count(o)) ok = false; else if (i < n && (a[i + 1].empty() || a[i + 1][0] != '-')) want[o] = a[++i]; else want[o] = "true"; }
  if ((int)rest.size() > hi) ok = false;
  Conf c(lo, hi); bool took; std::vector<std::string> r; SX_NOTHROW(r = c.LoadConfig(n + 1, &v[0], sx::Pick("print", 0, 0)), took);
  sx::Assert(took == ok, "a command line is accepted when it has known options and the right number of arguments");
  if (ok) { sx::Assert(r == rest && c.GetMainArgs() == rest, "the remaining words are the main arguments"); BOOST_FOREACH(const KV &p, want) sx::Assert(c.GetString(p.first) == p.second, "options have the last value given, or their default");
    bool out; SX_NOTHROW(c.GetMainArg(rest.size()), out); sx::Assert(!out, "there are no further arguments"); for (size_t i = 0; i < rest.size(); i++) sx::Assert(c.GetMainArg(i) == rest[i], "arguments by position"); sx::Reach("accepted"); } else sx::Reach("rejected");
  sx::Reach("end");
}
SX_HARNESS(file) {
  static const char *L[] = {"[a]", "", "v", "[b]", "# c", "w x", "[]", "[a", "[zz]", "b]", "[a1]"}; int n = sx::Q(4, 5); std::vector<std::string> l; std::string text; for (int i = 0; i < n; i++) { l.push_back(L[sx::Pick(nm("line", i), 0, 10)]); text += l[i]; if (i < n - 1 || sx::Pick("newline at the end", 0, 1)) text += "\n"; }
  std::map<std::string, std::string> want; want["a"] = "x"; want["b"] = "2"; want["a1"] = ""; bool ok = true;
  for (int i = 0; i < n && ok; i++) { if (l[i].empty() || l[i][0] == '#') continue; if (l[i].size() < 3 || l[i][0] != '[' || l[i][l[i].size() - 1] != ']') { ok = false; break; } std::string k = l[i].substr(1, l[i].size() - 2), v; int c = 0; while (i + 1 < n && !l[i + 1].empty()) v += (c++ ? " " : "") + l[++i]; if (!c || !want.count(k)) ok = false; else want[k] = v; i++; }
  int f = memfd_create("conf", 0); int fd = fcntl(f, F_DUPFD, 200); close(f); if (write(fd, text.data(), text.size()) != (ssize_t)text.size()) abort(); char name[40]; snprintf(name, 40, "/proc/self/fd/%d", fd);
  Conf c; bool took; SX_NOTHROW(c.LoadConfig(std::string(name)), took); close(fd); sx::Assert(took == ok, "a file is accepted when it is a list of known options with values");
  if (ok) { BOOST_FOREACH(const KV &p, want) sx::Assert(c.GetString(p.first) == p.second, "options have the value of the file, or their default"); sx::Reach("accepted"); char p0[] = "p", p1[] = "-a", p2[] = "cmd"; char *v[] = {p0, p1, p2, 0}; c.LoadConfig(3, v, false); sx::Assert(c.GetString("a") == "cmd" && c.GetString("b") == want["b"], "the command line goes over the file"); } else sx::Reach("rejected");
  sx::Reach("end");
}
// number: optional sign, digits; real: also a fraction and an exponent; blanks around
static bool isNum(const std::string &t, bool real, double &val) {
  size_t b = 0, e = t.size(); while (b < e && t[b] == ' ') b++; while (e > b && t[e - 1] == ' ') e--; std::string s = t.substr(b, e - b); size_t i = 0; double sign = 1, m = 0, sc = 1; int ex = 0; if (i < s.size() && (s[i] == '-' || s[i] == '+')) { if (s[i] == '-') sign = -1; i++; }
  size_t d = 0; while (i < s.size() && isdigit(s[i])) { m = m * 10 + (s[i++] - '0'); d++; } if (real && i < s.size() && s[i] == '.') { i++; while (i < s.size() && isdigit(s[i])) { m = m * 10 + (s[i++] - '0'); sc *= 10; d++; } } if (!d) return false;
  if (real && i < s.size() && s[i] == 'e') { size_t j = i + 1; int es = 1; if (j < s.size() && (s[j] == '-' || s[j] == '+')) { if (s[j] == '-') es = -1; j++; } size_t k = j; while (k < s.size() && isdigit(s[k])) ex = ex * 10 + (s[k++] - '0'); if (k == j) return false; ex *= es; i = k; }
  if (i != s.size()) return false; val = sign * m / sc; for (int q = 0; q < ex; q++) val *= 10; for (int q = 0; q > ex; q--) val /= 10; return true;
}
SX_HARNESS(numbers) {
  bool real = sx::Pick("real", 0, 1); std::string s = str("text", sx::Q(3, 4), "017-+.ex "); Conf c; c.SetString("a", s); double val = 0; bool ok = isNum(s, real, val), took; double got = 0;
  if (s.size() >= 2 && s.find('x') != std::string::npos && real && s.find("0x") != std::string::npos) { sx::Reach("end"); return; }   // hexadecimal
  if (real) { SX_NOTHROW(got = c.GetReal("a"), took) } else { SX_NOTHROW(got = c.GetInt("a"), took) }
  sx::Assert(took == ok, "a value is accepted as a number exactly when it is one"); if (ok) { double d = got - val, t = (val < 0 ? -val : val) * 1e-12; sx::Assert(d <= t && d >= -t, "the value of the number"); sx::Reach("accepted"); } else sx::Reach("rejected");
  bool b = false; SX_NOTHROW(b = c.GetBool("a"), took); sx::Assert(!took, "numbers are not truth values"); sx::Reach("end");
}
SX_HARNESS(lists) {
  std::string s = str("text", sx::Q(3, 4), "12| x"); Conf c; c.SetString("b", s); std::vector<std::string> want; if (s.size()) { want.push_back(""); for (size_t i = 0; i < s.size(); i++) if (s[i] == '|' || s[i] == ' ') want.push_back(""); else want.back() += s[i]; }
  sx::Assert(c.GetStringArray("b") == want, "lists are split at bars and blanks"); bool ok = true, took; std::vector<int> v, r; BOOST_FOREACH(const std::string &w, want) { double x = 0; if (!isNum(w, false, x)) ok = false; v.push_back(x); } SX_NOTHROW(r = c.GetIntArray("b"), took); sx::Assert(took == ok, "a list of integers is accepted when all are integers"); if (ok) sx::Assert(r == v, "the integers of a list");
  SX_NOTHROW(c.GetString("nope"), took); sx::Assert(!took, "unknown names are rejected"); SX_NOTHROW(c.SetString("nope", s), took); sx::Assert(!took, "unknown names cannot be set"); SX_NOTHROW(c.GetStringArray("nope"), took); sx::Assert(!took, "unknown lists are rejected"); sx::Assert(c.GetString("a") == "x" && c.GetString("a1") == "", "others are left alone"); sx::Reach("end");
}
SX_HARNESS(setters) {
  Conf c; int k = sx::Pick("number", -21, 21), v = k == -21 ? INT_MIN : k == 21 ? INT_MAX : k; c.SetInt("a", v); sx::Assert(c.GetInt("a") == v, "an integer that is set is got back"); bool b = sx::Pick("truth", 0, 1); c.SetBool("b", b); bool ok, g = !b; SX_NOTHROW(g = c.GetBool("b"), ok); sx::Assert(ok && g == b, "a truth value that is set is got back");
  double r = sx::Pick("thirds", 0, 1) ? k / 3.0 : k / 64.0; c.SetReal("a1", r); sx::Assert(c.GetReal("a1") == r, "a real that is set is got back"); sx::Assert(c.GetInt("a") == v, "others are left alone"); sx::Reach("end");
}
SX_HARNESS(overflow) { static const char *S[] = {"2147483647", "2147483648", "-2147483648", "-2147483649", "99999999999999999999", "4294967297"}; int k = sx::Pick("text", 0, 5); Conf c; c.SetString("a", S[k]); bool ok; int v = 0; SX_NOTHROW(v = c.GetInt("a"), ok); sx::Assert(ok == (k == 0 || k == 2), "integers out of range are rejected"); if (ok) sx::Assert(v == (k ? INT_MIN : INT_MAX), "extreme integers"); sx::Reach("end"); }
