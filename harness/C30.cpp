// @sources kenlm/util/file_piece.cc kenlm/util/read_compressed.cc kenlm/util/exception.cc kenlm/util/ersatz_progress.cc kenlm/util/string_piece.cc kenlm/util/double-conversion/bignum.cc kenlm/util/double-conversion/bignum-dtoa.cc kenlm/util/double-conversion/cached-powers.cc kenlm/util/double-conversion/diy-fp.cc kenlm/util/double-conversion/double-conversion.cc kenlm/util/double-conversion/fast-dtoa.cc kenlm/util/double-conversion/fixed-dtoa.cc kenlm/util/double-conversion/strtod.cc
// @stub the operating system (open, size, page size, mmap, read, seek, close) is an in-memory file: maps are separate buffers wiped when released, every read returns a solver-chosen number of bytes, mapping may fail at a solver-chosen call
// @assume files do not begin with the magic number of a compressed file (no decompressor is compiled in)
// @bounds tokens: every text of length 0..5 (thorough 6) over {a, comma, semicolon} split by one, several, any-of and table-of delimiters, with and without empty pieces
// @bounds mapped/read/stream/fallback: every file of 0..6 (thorough 8) bytes over {a,1,space,newline} (read: after a fixed prefix of 5 or 8 bytes (thorough also none)), buffers of 2 and 4 bytes that move and grow, read by lines, tokens, words of a line, characters or numbers to the end, and once more after it
// @bounds mixed: as above with a solver-chosen operation at every step
// @bounds reals: decimal numbers [-]d[d][.d[d]] split over every buffer boundary read back as strtod reads them
// @harness tokens quick=10 thorough=100
// @harness mapped quick=25 thorough=300
// @harness readfd quick=25 thorough=300
// @harness stream quick=15 thorough=200
// @harness mixed quick=25 thorough=400
// @harness reals quick=10 thorough=100
#include "common.h"
#include "util/file_piece.hh"
#include "util/tokenize_piece.hh"
#include <string.h>
#include <stdlib.h>
// ---- the operating system the reader sees
static std::string g_file; static size_t g_pos; static long g_page; static int g_mapfail, g_maps, g_chunks; static bool g_sized;
namespace util {
long SizePage() { return g_page; }
uint64_t SizeFile(int) { return g_sized ? g_file.size() : kBadSize; }
int OpenReadOrThrow(const char *) { return 7; }
std::string NameFromFD(int) { return "memory"; }
scoped_fd::~scoped_fd() {}
EndOfFileException::EndOfFileException() throw() {}
EndOfFileException::~EndOfFileException() throw() {}
void *MallocOrThrow(std::size_t n) { return malloc(n); }
void scoped_memory::reset(void *d, std::size_t n, Alloc a) { if (data_) { memset(data_, 'Z', size_); free(data_); } data_ = d; size_ = n; source_ = a; }
void scoped_memory::call_realloc(std::size_t n) { void *d = malloc(n); memcpy(d, data_, size_ < n ? size_ : n); memset(data_, 'Z', size_); free(data_); data_ = d; size_ = n; }
void MapRead(LoadMethod, int, uint64_t off, std::size_t n, scoped_memory &out) {
  if (!n || g_maps++ == g_mapfail) throw ErrnoException();
  sx::Assert(g_maps < 60, "mapping makes progress");
  sx::Assert(off % g_page == 0 && off + n <= g_file.size(), "maps start at a page and lie inside the file");
  void *d = malloc(n); memcpy(d, g_file.data() + off, n); out.reset(d, n, scoped_memory::MMAP_ALLOCATED);
}
void SeekOrThrow(int, uint64_t off) { g_pos = off; }
std::size_t PartialRead(int, void *to, std::size_t n) {
  size_t left = g_file.size() - g_pos; if (left > n) left = n;
  if (left > 1) left = sx::Pick(nm("chunk", g_chunks++), 1, (int)left);
  memcpy(to, g_file.data() + g_pos, left); g_pos += left; return left;
}
std::size_t ReadOrEOF(int fd, void *to, std::size_t n) { size_t got = 0; while (got < n) { size_t k = PartialRead(fd, (char *)to + got, n - got); if (!k) break; got += k; } return got; }
}
using namespace util;
static std::string str(const StringPiece &p) { return std::string(p.data(), p.size()); }
// ---- naive reader of the same text
static bool space(char c) { return c == ' ' || (c >= 9 && c <= 13); }
struct Naive {
  std::string s; size_t p;
  explicit Naive(const std::string &t) : s(t), p(0) {}
  bool get(char &c) { if (p >= s.size()) return false; c = s[p++]; return true; }
  bool line(std::string &o) { if (p >= s.size()) return false; size_t b = p; while (p < s.size() && s[p] != '\n') p++; o = s.substr(b, p - b); if (p < s.size()) p++; return true; }
  bool token(std::string &o) { while (p < s.size() && space(s[p])) p++; if (p >= s.size()) return false; size_t b = p; while (p < s.size() && !space(s[p])) p++; o = s.substr(b, p - b); return true; }
  bool word(std::string &o) { while (p < s.size() && space(s[p]) && s[p] != '\n') p++; if (p >= s.size() || s[p] == '\n') return false; size_t b = p; while (p < s.size() && !space(s[p])) p++; o = s.substr(b, p - b); return true; }
  bool number(unsigned long &v) { while (p < s.size() && space(s[p])) p++; size_t b = p; v = 0; while (p < s.size() && s[p] >= '0' && s[p] <= '9') v = v * 10 + (s[p++] - '0'); return p > b; }
};
static bool readEOF(FilePiece &f, int op, std::string &o, char &c) {
  try { if (op == 0) c = f.get(); else if (op == 1) o = str(f.ReadLine()); else o = str(f.ReadDelimited()); } catch (const EndOfFileException &) { return false; }
  return true;
}
// one operation on both; false at the end (or when no number follows)
static bool step(FilePiece &f, Naive &r, int op) {
  std::string a, b; char ca = 0, cb = 0; bool x, y;
  switch (op) {
    case 0: x = readEOF(f, 0, a, ca); y = r.get(cb); sx::Assert(x == y, "a character is read unless the end is reached"); if (y) sx::Assert(ca == cb, "characters come in order"); return y;
    case 1: x = readEOF(f, 1, a, ca); y = r.line(b); sx::Assert(x == y, "a line is read unless the end is reached"); if (y) sx::Assert(a == b, "lines are the text between line ends"); return y;
    case 2: x = readEOF(f, 2, a, ca); y = r.token(b); sx::Assert(x == y, "a token is read unless the end is reached"); if (y) sx::Assert(a == b, "tokens are the runs without white space"); return y;
    case 3: {
      StringPiece w("keep"); x = f.ReadWordSameLine(w); y = r.word(b); sx::Assert(x == y, "a word is read unless the line or file ends"); if (x) sx::Assert(str(w) == b, "words of the line are the runs without white space"); if (y) return true;
      // what follows is the line end or the end of the file
      x = readEOF(f, 0, a, ca); y = r.get(cb); sx::Assert(x == y && (!y || (ca == '\n' && cb == '\n')), "after the last word of a line comes its line end"); return y; }
    default: {
      unsigned long v = 0, w = 0; x = true; try { v = f.ReadULong(); } catch (const EndOfFileException &) { x = false; } catch (const ParseNumberException &) { x = false; }
      y = r.number(w); sx::Assert(x == y, "a number is read exactly when one follows"); if (y) sx::Assert(v == w, "numbers have the value written"); return y; }
  }
}
static bool magic(const std::string &s) { return !s.empty() && (s[0] == 0x1f || s[0] == 'B' || s[0] == (char)0xFD); }
static void setup(const std::string &text, int page, bool sized, int fail) { sx::Assume(!magic(text)); g_file = text; g_pos = 0; g_page = page; g_sized = sized; g_mapfail = fail; g_maps = g_chunks = 0; }
static void readAll(FilePiece &f, const std::string &text, int op) {
  Naive r(text); int guard = 0;
  while (step(f, r, op)) sx::Assert(++guard < 40, "reading ends");
  if (op < 3) { std::string a; char c; sx::Assert(!readEOF(f, op, a, c), "the end is still reported when reading again"); StringPiece w; sx::Assert(!f.ReadLineOrEOF(w), "no line after the end"); }
  if (op == 0) sx::Reach("characters"); if (op == 1) sx::Reach("lines"); if (op == 3) sx::Reach("words"); if (op == 4) sx::Reach("numbers");
  sx::Reach("end");
}
// @reach mapped characters
// @reach mapped lines
// @reach mapped words
// @reach mapped numbers
SX_HARNESS(mapped) {
  int page = sx::Pick("page", 1, 2), op = sx::Pick("operation", 0, 4), n = sx::Pick("length", 0, sx::Q(6, 8)), fail = sx::Pick("mapping fails at", -1, sx::Q(1, 2)); if (!sx::Tier()) sx::Assume(fail < 0 || n < 6);
  std::string t = sx::Str("text", n, op == 4 ? "1a\n" : op == 1 ? "\na" : op == 0 ? "a" : " \na"); setup(t, page, true, fail); if (op == 0) for (size_t i = 0; i < t.size(); i++) g_file[i] = t[i] = 'a' + i;
  FilePiece f("memory", 0, 1); readAll(f, t, op);
}
SX_HARNESS(readfd) {
  int page = sx::Pick("page", 1, 2), op = sx::Pick("operation", 0, 4), pre = sx::Pick("prefix", 0, sx::Q(0, 3)), n = sx::Pick("length", 0, sx::Q(3, 6));
  static const char *const P[] = {"a\n a1", "1 1\n11111", "", "aaaaa1"}; std::string t = std::string(P[sx::Tier() ? pre : op == 4]) + sx::Str("text", n, op == 4 ? "1\na" : op == 1 ? "\na" : op == 0 ? "a" : " \na"); setup(t, page, false, -1);
  FilePiece f(7, "memory", 0, 1); readAll(f, t, op);
}
SX_HARNESS(stream) {
  int page = sx::Pick("page", 1, 2), op = sx::Pick("operation", 0, 4), n = sx::Pick("length", 0, sx::Q(5, 7));
  std::string t = sx::Str("text", n, op == 4 ? "1\na" : op == 1 ? "\na" : op == 0 ? "a" : " \na"); setup(t, page, false, -1);
  std::istringstream in(t); FilePiece f(in, "memory", 1); readAll(f, t, op);
}
SX_HARNESS(mixed) {
  int mode = sx::Pick("mode", 0, 2), page = sx::Pick("page", 1, 2), n = sx::Q(4, 8); std::string t = sx::Str("text", n, "1 \n"); setup(t, page, mode == 0, -1);
  std::istringstream in(t); FilePiece *f = mode == 2 ? new FilePiece(in, "memory", 1) : new FilePiece(7, "memory", 0, 1);
  Naive r(t); int ops = sx::Q(3, 6), i = 0;
  for (; i < ops; i++) if (!step(*f, r, sx::Pick(nm("operation", i), 0, 4))) break;
  if (i == ops) while (step(*f, r, 1)) {}
  sx::Reach("end"); delete f;
}
SX_HARNESS(reals) {
  int mode = sx::Pick("mode", 0, 1), page = sx::Pick("page", 1, sx::Q(2, 3)), lead = sx::Pick("spaces before", 0, sx::Q(1, 3)), whole = sx::Pick("digits", 1, 2), frac = sx::Pick("decimals", 0, 2), expo = sx::Pick("exponent", 0, sx::Q(1, 2)), dbl = sx::Pick("double", 0, 1); bool neg = sx::Pick("negative", 0, 1) == 1;
  std::string v = neg ? "-" : ""; static const char *const D[] = {"1", "73"}, *const F[] = {"", ".5", ".19"}, *const E[] = {"", "e-1", "e2"}; v += D[whole - 1]; v += F[frac]; v += E[expo];
  std::string t = std::string(lead, ' ') + v + (sx::Pick("newline at the end", 0, 1) ? "\n" : "") ; bool more = sx::Tier() && sx::Pick("second number", 0, 1) == 1; if (more) t += " " + v;
  setup(t, page, mode == 0, -1); FilePiece f(7, "memory", 0, 1);
  for (int k = 0; k < (more ? 2 : 1); k++) {
    if (dbl) sx::Assert(f.ReadDouble() == strtod(v.c_str(), 0), "reals have the value written"); else sx::Assert(f.ReadFloat() == strtof(v.c_str(), 0), "reals have the value written");
  }
  bool x = true; try { f.ReadFloat(); } catch (const EndOfFileException &) { x = false; } catch (const ParseNumberException &) { x = false; } sx::Assert(!x, "no number is read after the last one"); sx::Reach("end");
}
// ---- splitting
template <class F> static std::vector<std::string> pieces(const std::string &s, const F &f, bool skip) {
  std::vector<std::string> r; StringPiece p(s.data(), s.size());
  if (skip) { for (TokenIter<F, true> i(p, f); i; ++i) r.push_back(str(*i)); } else for (TokenIter<F, false> i(p, f); i; ++i) r.push_back(str(*i));
  return r;
}
SX_HARNESS(tokens) {
  int n = sx::Pick("length", 0, sx::Q(5, 6)), kind = sx::Pick("kind", 0, 3), skip = sx::Pick("skip empty", 0, 1); std::string s = sx::Str("text", n, kind == 0 ? "a," : "a,;");
  std::vector<std::string> got, want; bool table[256]; BoolCharacter::Build(",;", table);
  if (kind == 0) got = pieces(s, SingleCharacter(','), skip); else if (kind == 1) got = pieces(s, MultiCharacter(",;"), skip); else if (kind == 2) got = pieces(s, AnyCharacter(",;"), skip); else got = pieces(s, BoolCharacter(table), skip);
  std::string cur; size_t i = 0;
  while (i < s.size()) {
    size_t len = kind == 1 ? (s[i] == ',' && i + 1 < s.size() && s[i + 1] == ';' ? 2 : 0) : (s[i] == ',' || (kind && s[i] == ';')) ? 1 : 0;
    if (len) { want.push_back(cur); cur.clear(); i += len; } else cur += s[i++];
  }
  want.push_back(cur);
  if (skip) { std::vector<std::string> w; for (size_t k = 0; k < want.size(); k++) if (!want[k].empty()) w.push_back(want[k]); want = w; }
  sx::Assert(got == want, "the pieces are exactly the text between delimiters"); sx::Reach("end");
}
