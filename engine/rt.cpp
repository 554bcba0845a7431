// Runtime of the symbolic engine: expression DAG, shadow memory, path exploration
// (fork server, generational search) and the Z3 back end.
#define __STDC_LIMIT_MACROS
#define __STDC_FORMAT_MACROS
#include <execinfo.h>
#include <minisat/core/Solver.h>
#include <z3.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <poll.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/personality.h>
#include <new>
#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "sx.h"
typedef uint8_t u8; typedef uint32_t u32; typedef uint64_t u64; typedef int64_t i64; typedef __int128 i128;

// ---------------------------------------------------------------- allocator
static int in_rt = 0;
struct RtGuard { RtGuard() { in_rt++; } ~RtGuard() { in_rt--; } };
static char *const ARENA = (char *)0x100000000000ULL;
static const u64 ARENA_SZ = 6ULL << 30;
static char *arena_cur = 0;
static void die_child(const char *kind);
extern "C" void __sx_clear(void *p, u64 n);
struct Hdr { u64 size; u64 magic; };
static const u64 MAGIC = 0x5ac3d1e0badc0deULL, FREED = 0x0f4eedf4eedf4eedULL, CAN = 0xa5c35a3ca5c35a3cULL;
static void *arena_alloc(u64 n) {
  if (!arena_cur) {
    void *m = mmap(ARENA, ARENA_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (m != (void *)ARENA) { fprintf(stderr, "sx: arena mmap failed\n"); _exit(99); }
    arena_cur = ARENA;
  }
  u64 r = (n + 15) & ~15ULL;
  if (n > (2ULL << 30) || arena_cur + r + 48 > ARENA + ARENA_SZ) return 0;
  Hdr *h = (Hdr *)arena_cur;
  h->size = n; h->magic = MAGIC;
  char *p = (char *)(h + 1);
  arena_cur += sizeof(Hdr) + r + 16;
  if (n <= 65536) memset(p, 0xCD, r);
  memset(p + n, 0x5A, r - n + 16);
  return p;
}
static bool in_arena(void *p) { return (char *)p >= ARENA && (char *)p < ARENA + ARENA_SZ; }
static void arena_free(void *p) {
  if (!p) return;
  Hdr *h = (Hdr *)p - 1;
  if (h->magic == FREED) die_child("double free");
  if (h->magic != MAGIC) die_child("invalid free");
  u64 r = (h->size + 15) & ~15ULL;
  for (u64 i = h->size; i < r + 16; i++) if (((u8 *)p)[i] != 0x5A) die_child("heap buffer overflow");
  h->magic = FREED;
  __sx_clear(p, h->size);
  memset(p, 0xDD, h->size <= 65536 ? h->size : 65536);
}
extern "C" {
void *__sx_malloc(size_t n) { return arena_alloc(n); }
void __sx_free(void *p) { if (in_arena(p)) arena_free(p); else free(p); }
void *__sx_calloc(size_t a, size_t b) { void *p = arena_alloc(a * b); if (p) memset(p, 0, a * b); return p; }
extern void __sx_memcpy(void *d, void *s, u64 n);
void *__sx_realloc(void *p, size_t n) {
  if (!p) return arena_alloc(n);
  if (!in_arena(p)) return realloc(p, n);
  Hdr *h = (Hdr *)p - 1;
  void *q = arena_alloc(n);
  u64 m = h->size < n ? h->size : n;
  __sx_memcpy(q, p, m); memcpy(q, p, m);
  arena_free(p);
  return q;
}
}
static void *do_new(size_t n) {
  void *p = in_rt ? malloc(n) : arena_alloc(n);
  if (!p) throw std::bad_alloc();
  return p;
}
static void do_delete(void *p) { if (in_arena(p)) arena_free(p); else free(p); }
void *operator new(size_t n) { return do_new(n); }
void *operator new[](size_t n) { return do_new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return in_rt ? malloc(n) : arena_alloc(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return in_rt ? malloc(n) : arena_alloc(n); }
void operator delete(void *p) noexcept { do_delete(p); }
void operator delete[](void *p) noexcept { do_delete(p); }
void operator delete(void *p, size_t) noexcept { do_delete(p); }
void operator delete[](void *p, size_t) noexcept { do_delete(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { do_delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { do_delete(p); }

// ---------------------------------------------------------------- expressions
enum Op : u8 { CONST, VAR, NOT, ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
               EQ, ULT, SLT, ITE, ZEXT, SEXT, EXTRACT, CONCAT, FIX };
struct Expr {
  Op op; u8 w; bool fixed; u8 nk;
  u32 hash; u32 id;
  u64 val; i64 lo, hi;   // signed interval (w==1: 0..1)
  u64 aux;
  Expr *k[3];
  Z3_ast z;
  Expr *next;
};
static u32 nexpr = 0;
static const u32 HT = 1 << 15;
static Expr *htab[HT];
static inline u64 mask(int w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static inline i64 sx64(u64 v, int w) { if (w >= 64) return (i64)v; u64 s = 1ULL << (w - 1); v &= mask(w); return (i64)((v ^ s) - s); }
static inline i64 smin(int w) { return w == 1 ? 0 : (i64)(~0ULL << (w - 1)); }
static inline i64 smax(int w) { return w == 1 ? 1 : (i64)(mask(w) >> 1); }
static u64 mix(u64 h, u64 v) { h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdULL; return h ^ (h >> 33); }

// fatal inconsistency of the engine itself
static void engine_error(const char *fmt, ...);

static char *pool = 0, *pool_end = 0;
static Expr *alloc_expr() {
  if (pool + sizeof(Expr) > pool_end) { pool = (char *)malloc(1 << 20); pool_end = pool + (1 << 20); }
  Expr *e = (Expr *)pool; pool += sizeof(Expr); memset(e, 0, sizeof(*e)); return e;
}
static bool isC(Expr *e) { return e->op == CONST; }
static bool fitsS(i128 v, int w) { return v >= (i128)smin(w) && v <= (i128)smax(w); }

static u64 evalOp(Op op, int w, u64 aux, Expr **k) {
  u64 a = k[0] ? k[0]->val : 0, b = k[1] ? k[1]->val : 0; int kw = k[0] ? k[0]->w : 0;
  u64 r = 0;
  switch (op) {
    case NOT: r = ~a; break;
    case ADD: r = a + b; break;
    case SUB: r = a - b; break;
    case MUL: r = a * b; break;
    case UDIV: r = b ? a / b : ~0ULL; break;
    case UREM: r = b ? a % b : a; break;
    case SDIV: { i64 x = sx64(a, w), y = sx64(b, w); if (!y) r = x < 0 ? 1 : ~0ULL; else if (y == -1) r = (u64)0 - (u64)x; else r = x / y; break; }
    case SREM: { i64 x = sx64(a, w), y = sx64(b, w); if (!y) r = x; else if (y == -1) r = 0; else r = x % y; break; }
    case AND: r = a & b; break;
    case OR: r = a | b; break;
    case XOR: r = a ^ b; break;
    case SHL: r = b >= (u64)w ? 0 : a << b; break;
    case LSHR: r = b >= (u64)w ? 0 : a >> b; break;
    case ASHR: { i64 x = sx64(a, w); r = b >= (u64)w ? (x < 0 ? ~0ULL : 0) : (u64)(x >> b); break; }
    case EQ: r = a == b; break;
    case ULT: r = a < b; break;
    case SLT: r = sx64(a, kw) < sx64(b, kw); break;
    case ITE: r = a ? b : k[2]->val; break;
    case ZEXT: r = a; break;
    case SEXT: r = (u64)sx64(a, kw); break;
    case EXTRACT: r = a >> aux; break;
    case CONCAT: r = (a << k[1]->w) | b; break;
    default: break;
  }
  return r & mask(w);
}
static void setRange(Expr *e) {
  int w = e->w; i128 lo = smin(w), hi = smax(w);
  Expr *a = e->k[0], *b = e->k[1], *c = e->k[2];
  auto set = [&](i128 l, i128 h) { if (fitsS(l, w) && fitsS(h, w) && l <= h) { lo = l; hi = h; } };
  if (w == 1) { e->lo = 0; e->hi = 1; if (e->op == CONST) e->lo = e->hi = (i64)e->val; return; }
  switch (e->op) {
    case CONST: lo = hi = sx64(e->val, w); break;
    case ADD: set((i128)a->lo + b->lo, (i128)a->hi + b->hi); break;
    case SUB: set((i128)a->lo - b->hi, (i128)a->hi - b->lo); break;
    case MUL: { i128 p[4] = {(i128)a->lo * b->lo, (i128)a->lo * b->hi, (i128)a->hi * b->lo, (i128)a->hi * b->hi};
      set(*std::min_element(p, p + 4), *std::max_element(p, p + 4)); break; }
    case AND: if (a->lo >= 0 && b->lo >= 0) set(0, std::min(a->hi, b->hi)); else if (b->lo >= 0) set(0, b->hi); else if (a->lo >= 0) set(0, a->hi); break;
    case OR: case XOR: if (a->lo >= 0 && b->lo >= 0) { u64 m = (u64)(a->hi | b->hi); int k = m ? 64 - __builtin_clzll(m) : 0; set(0, (i128)mask(k ? k : 1)); } break;
    case SHL: if (isC(b) && b->val < (u64)w && b->val < 63) set((i128)a->lo << b->val, (i128)a->hi << b->val); break;
    case LSHR: if (isC(b) && b->val < (u64)w) { if (a->lo >= 0) set(a->lo >> b->val, a->hi >> b->val); else if (b->val > 0) set(0, (i128)(mask(w) >> b->val)); }
      else if (a->lo >= 0) set(0, a->hi); break;
    case ASHR: if (isC(b) && b->val < (u64)w) set(a->lo >> b->val, a->hi >> b->val); break;
    case UDIV: if (a->lo >= 0 && b->lo > 0) set(a->lo / b->hi, a->hi / b->lo); break;
    case UREM: if (b->lo > 0) set(0, (a->lo >= 0 && a->hi < b->hi - 1) ? a->hi : b->hi - 1); break;
    case SDIV: if (isC(b) && (i64)sx64(b->val, w) > 0) { i64 d = sx64(b->val, w); set(a->lo / d, a->hi / d); } break;
    case SREM: if (isC(b) && (i64)sx64(b->val, w) > 0) { i64 d = sx64(b->val, w); set(a->lo >= 0 ? 0 : -(d - 1), a->hi <= 0 ? 0 : (d - 1)); } break;
    case ITE: set(std::min(b->lo, c->lo), std::max(b->hi, c->hi)); break;
    case ZEXT: if (a->w == 1 || a->lo >= 0) set(a->lo, a->hi); else set(0, (i128)mask(a->w)); break;
    case SEXT: if (a->w == 1) set(-1, 0); else set(a->lo, a->hi); break;
    case EXTRACT: if (e->aux == 0) set(a->lo, a->hi); break;
    case CONCAT: if (a->lo >= 0) { i128 bl = b->lo >= 0 ? b->lo : 0, bh = b->lo >= 0 ? b->hi : (i128)mask(b->w);
        set(((i128)a->lo << b->w) + bl, ((i128)a->hi << b->w) + bh); } break;
    default: break;
  }
  e->lo = (i64)lo; e->hi = (i64)hi;
}
static Expr *cons(Op op, int w, u64 aux, Expr *a, Expr *b, Expr *c, u64 val) {
  u64 h = mix(mix(mix(mix(op * 131 + w, aux), a ? a->id : 0), b ? b->id : 0), c ? c->id : 0);
  if (op == CONST) h = mix(h, val);
  u32 ix = h & (HT - 1);
  for (Expr *e = htab[ix]; e; e = e->next)
    if (e->op == op && e->w == w && e->aux == aux && e->k[0] == a && e->k[1] == b && e->k[2] == c && (op != CONST || e->val == val)) return e;
  Expr *e = alloc_expr();
  e->op = op; e->w = w; e->aux = aux; e->k[0] = a; e->k[1] = b; e->k[2] = c; e->id = ++nexpr; e->hash = (u32)h;
  e->val = op == CONST || op == VAR || op == FIX ? val : evalOp(op, w, aux, e->k);
  if (op == CONST) e->fixed = true;
  e->next = htab[ix]; htab[ix] = e;
  if (op != FIX && op != VAR) setRange(e);
  return e;
}
static Expr *C(u64 v, int w) { return cons(CONST, w, 0, 0, 0, 0, v & mask(w)); }
static Expr *mk(Op op, int w, Expr *a, Expr *b = 0, Expr *c = 0, u64 aux = 0);
static inline Expr *nf(Expr *e) { if (e && e->fixed && e->op != CONST && e->op != FIX) return C(e->val, e->w); return e; }
static Expr *mkNot(Expr *a) { return mk(NOT, a->w, a); }
static bool constTree(Expr *e, int depth) { if (isC(e)) return true; if (e->op != ITE || depth <= 0) return false; return constTree(e->k[1], depth - 1) && constTree(e->k[2], depth - 1); }

static Expr *mk(Op op, int w, Expr *a, Expr *b, Expr *c, u64 aux) {
  a = nf(a); b = nf(b); c = nf(c);
  // constant folding
  if (a && isC(a) && (!b || isC(b)) && (!c || isC(c))) { Expr *k[3] = {a, b, c}; return C(evalOp(op, w, aux, k), w); }
  switch (op) {
    case NOT:
      if (a->op == NOT) return a->k[0];
      break;
    case ADD:
      if (isC(a)) std::swap(a, b);
      if (isC(b)) { if (b->val == 0) return a;
        if (a->op == ADD && isC(a->k[1])) return mk(ADD, w, a->k[0], C(a->k[1]->val + b->val, w)); }
      if (a == b) return mk(SHL, w, a, C(1, w));
      break;
    case SUB:
      if (a == b) return C(0, w);
      if (isC(b)) return mk(ADD, w, a, C(0 - b->val, w));
      if (a->op == ADD && b->op == ADD && isC(a->k[1]) && isC(b->k[1])) return mk(ADD, w, mk(SUB, w, a->k[0], b->k[0]), C(a->k[1]->val - b->k[1]->val, w));
      if (a->op == ADD && isC(a->k[1])) return mk(ADD, w, mk(SUB, w, a->k[0], b), a->k[1]);
      if (b->op == ADD && isC(b->k[1])) return mk(ADD, w, mk(SUB, w, a, b->k[0]), C(0 - b->k[1]->val, w));
      break;
    case MUL:
      if (isC(a)) std::swap(a, b);
      if (isC(b)) { if (b->val == 0) return C(0, w); if (b->val == 1) return a;
        if ((b->val & (b->val - 1)) == 0) return mk(SHL, w, a, C(__builtin_ctzll(b->val), w)); }
      break;
    case UDIV: if (isC(b) && b->val == 1) return a;
      if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return mk(LSHR, w, a, C(__builtin_ctzll(b->val), w));
      break;
    case UREM: if (isC(b) && b->val == 1) return C(0, w);
      if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return mk(AND, w, a, C(b->val - 1, w));
      if (isC(b) && a->lo >= 0 && b->lo > 0 && a->hi < b->lo) return a;
      break;
    case SDIV: if (isC(b) && b->val == 1) return a;
      if (a->lo >= 0 && b->lo > 0) return mk(UDIV, w, a, b); break;
    case SREM: if (a->lo >= 0 && b->lo > 0) return mk(UREM, w, a, b); break;
    case AND:
      if (isC(a)) std::swap(a, b);
      if (a == b) return a;
      if (isC(b)) { if (b->val == 0) return C(0, w); if (b->val == mask(w)) return a;
        if (w > 1 && a->lo >= 0) { u64 m = (u64)a->hi; int k = m ? 64 - __builtin_clzll(m) : 0; u64 mm = k ? mask(k) : 0; if ((b->val & mm) == mm) return a; }
        if (a->op == AND && isC(a->k[1])) return mk(AND, w, a->k[0], C(a->k[1]->val & b->val, w));
        if (a->op == ZEXT && a->k[0]->w == 1) return (b->val & 1) ? a : C(0, w); }
      if (w == 1 && ((a->op == NOT && a->k[0] == b) || (b->op == NOT && b->k[0] == a))) return C(0, 1);
      break;
    case OR:
      if (isC(a)) std::swap(a, b);
      if (a == b) return a;
      if (isC(b)) { if (b->val == 0) return a; if (b->val == mask(w)) return b; }
      if (w == 1 && ((a->op == NOT && a->k[0] == b) || (b->op == NOT && b->k[0] == a))) return C(1, 1);
      break;
    case XOR:
      if (isC(a)) std::swap(a, b);
      if (a == b) return C(0, w);
      if (isC(b)) { if (b->val == 0) return a; if (b->val == mask(w)) return mk(NOT, w, a); 
        if (a->op == ZEXT && a->k[0]->w == 1 && b->val == 1) return mk(ZEXT, w, mkNot(a->k[0])); }
      break;
    case SHL: case LSHR: case ASHR:
      if (isC(b)) { if (b->val == 0) return a; if (b->val >= (u64)w && op != ASHR) return C(0, w); }
      if (op == ASHR && a->lo >= 0) return mk(LSHR, w, a, b);
      if (op == LSHR && isC(b) && a->op == ZEXT && b->val >= a->k[0]->w) return C(0, w);
      break;
    case EQ: {
      if (a == b) return C(1, 1);
      if (isC(a)) std::swap(a, b);
      if (a->w == 1) { if (isC(b)) return b->val ? a : mkNot(a); return mkNot(mk(XOR, 1, a, b)); }
      if (a->hi < b->lo || b->hi < a->lo) return C(0, 1);
      if (isC(b)) {
        if (a->op == ZEXT) { if (b->val > mask(a->k[0]->w)) return C(0, 1); return mk(EQ, 1, a->k[0], C(b->val, a->k[0]->w)); }
        if (a->op == SEXT) { i64 v = sx64(b->val, w = a->w); int kw = a->k[0]->w; if (kw == 1) { return v == 0 ? mkNot(a->k[0]) : (v == -1 ? a->k[0] : C(0, 1)); }
          if (v < smin(kw) || v > smax(kw)) return C(0, 1); return mk(EQ, 1, a->k[0], C((u64)v, kw)); }
        if (a->op == ADD && isC(a->k[1])) return mk(EQ, 1, a->k[0], C(b->val - a->k[1]->val, a->w));
        if (a->op == XOR && isC(a->k[1])) return mk(EQ, 1, a->k[0], C(b->val ^ a->k[1]->val, a->w));
        if (a->op == NOT) return mk(EQ, 1, a->k[0], C(~b->val, a->w));
        if (a->op == CONCAT) { Expr *h = a->k[0], *l = a->k[1];
          return mk(AND, 1, mk(EQ, 1, h, C(b->val >> l->w, h->w)), mk(EQ, 1, l, C(b->val, l->w))); }
        if (a->op == SUB && b->val == 0) return mk(EQ, 1, a->k[0], a->k[1]);
        if (a->op == ITE && (isC(a->k[1]) || isC(a->k[2])) && constTree(a, 300)) {
          Expr *t = mk(EQ, 1, a->k[1], b), *f = mk(EQ, 1, a->k[2], b);
          return mk(ITE, 1, a->k[0], t, f);
        }
      } else {
        if ((a->op == ZEXT && b->op == ZEXT && a->k[0]->w == b->k[0]->w) || (a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w))
          return mk(EQ, 1, a->k[0], b->k[0]);
        if (a->op == ADD && b->op == ADD && a->k[1] == b->k[1]) return mk(EQ, 1, a->k[0], b->k[0]);
        if (a->id > b->id) std::swap(a, b);
      }
      break; }
    case ULT:
      if (a == b) return C(0, 1);
      if (a->w == 1) return mk(AND, 1, mkNot(a), b);
      if (a->lo >= 0 && b->lo >= 0) return mk(SLT, 1, a, b);
      if (a->lo >= 0 && b->hi < 0) return C(1, 1);
      if (a->hi < 0 && b->lo >= 0) return C(0, 1);
      if (isC(b) && b->val == 0) return C(0, 1);
      break;
    case SLT:
      if (a == b) return C(0, 1);
      if (a->w == 1) return mk(AND, 1, a, mkNot(b));   // signed 1-bit: 1 is -1
      if (a->hi < b->lo) return C(1, 1);
      if (a->lo >= b->hi) return C(0, 1);
      if (isC(b) && a->hi == sx64(b->val, a->w) && a->lo + 1 == a->hi) return mk(EQ, 1, a, C((u64)a->lo, a->w));
      if (isC(b) && a->op == ITE && constTree(a, 300)) return mk(ITE, 1, a->k[0], mk(SLT, 1, a->k[1], b), mk(SLT, 1, a->k[2], b));
      if (isC(a) && b->op == ITE && constTree(b, 300)) return mk(ITE, 1, b->k[0], mk(SLT, 1, a, b->k[1]), mk(SLT, 1, a, b->k[2]));
      break;
    case ITE:
      if (isC(a)) return a->val ? b : c;
      if (b == c) return b;
      if (a->op == NOT) return mk(ITE, w, a->k[0], c, b);
      if (w == 1) {
        if (isC(b)) return b->val ? mk(OR, 1, a, c) : mk(AND, 1, mkNot(a), c);
        if (isC(c)) return c->val ? mk(OR, 1, mkNot(a), b) : mk(AND, 1, a, b);
      }
      if (isC(b) && isC(c) && b->val == 1 && c->val == 0) return mk(ZEXT, w, a);
      if (isC(b) && isC(c) && b->val == 0 && c->val == 1) return mk(ZEXT, w, mkNot(a));
      break;
    case ZEXT:
      if (a->w == w) return a;
      if (a->op == ZEXT) return mk(ZEXT, w, a->k[0]);
      break;
    case SEXT:
      if (a->w == w) return a;
      if (a->w > 1 && a->lo >= 0) return mk(ZEXT, w, a);
      if (a->op == SEXT) return mk(SEXT, w, a->k[0]);
      break;
    case EXTRACT:
      if (aux == 0 && a->w == w) return a;
      if (w == 1) {   // bit test
        if (a->op == ZEXT && a->k[0]->w == 1) return aux == 0 ? a->k[0] : C(0, 1);
        if (a->op == SEXT && a->k[0]->w == 1) return a->k[0];
        return mkNot(mk(EQ, 1, mk(AND, a->w, a, C(1ULL << aux, a->w)), C(0, a->w)));
      }
      if (a->op == EXTRACT) return mk(EXTRACT, w, a->k[0], 0, 0, a->aux + aux);
      if (a->op == ZEXT || a->op == SEXT) {
        int kw = a->k[0]->w;
        if (aux + w <= (u64)kw) return mk(EXTRACT, w, a->k[0], 0, 0, aux);
        if (aux == 0) return mk(a->op, w, a->k[0]);
        if (a->op == ZEXT && aux >= (u64)kw) return C(0, w);
      }
      if (a->op == CONCAT) { int lw = a->k[1]->w;
        if (aux >= (u64)lw) return mk(EXTRACT, w, a->k[0], 0, 0, aux - lw);
        if (aux + w <= (u64)lw) return mk(EXTRACT, w, a->k[1], 0, 0, aux); }
      if (aux == 0 && (a->op == ADD || a->op == SUB || a->op == MUL || a->op == AND || a->op == OR || a->op == XOR))
        return mk(a->op, w, mk(EXTRACT, w, a->k[0], 0, 0, 0), mk(EXTRACT, w, a->k[1], 0, 0, 0));
      if (a->op == AND || a->op == OR || a->op == XOR)
        return mk(a->op, w, mk(EXTRACT, w, a->k[0], 0, 0, aux), mk(EXTRACT, w, a->k[1], 0, 0, aux));
      if (a->op == ITE && (isC(a->k[1]) || isC(a->k[2])))
        return mk(ITE, w, a->k[0], mk(EXTRACT, w, a->k[1], 0, 0, aux), mk(EXTRACT, w, a->k[2], 0, 0, aux));
      if (aux == 0 && a->op == SHL && isC(a->k[1])) return mk(SHL, w, mk(EXTRACT, w, a->k[0], 0, 0, 0), C(a->k[1]->val >= (u64)w ? w : a->k[1]->val, w));
      break;
    case CONCAT:
      if (isC(a) && a->val == 0) return mk(ZEXT, w, b);
      if (a->op == EXTRACT && b->op == EXTRACT && a->k[0] == b->k[0] && a->aux == b->aux + b->w) return mk(EXTRACT, w, a->k[0], 0, 0, b->aux);
      if (a->op == EXTRACT && b == a->k[0] && a->aux == b->w) return mk(EXTRACT, w, a->k[0], 0, 0, 0);
      break;
    default: break;
  }
  return cons(op, w, aux, a, b, c, 0);
}
// -------- exact fixed point doubles: value = m * 2^-scale
static double fixval(Expr *m, int scale) { return ldexp((double)(i64)m->val, -scale); }
static u64 dbits(double d) { u64 r; memcpy(&r, &d, 8); return r; }
static u64 fbits(float d) { u32 r; memcpy(&r, &d, 4); return r; }
static double bitsd(u64 b, int w) { if (w == 32) { u32 x = (u32)b; float f; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &b, 8); return d; }
static i64 fixlim(int w) { return w == 32 ? (1LL << 24) : (1LL << 53); }
static Expr *mkFix(Expr *m, int scale, int w) {
  m = nf(m);
  double d = fixval(m, scale);
  u64 bits = w == 32 ? fbits((float)d) : dbits(d);
  if (isC(m)) return C(bits, w);
  return cons(FIX, w, scale, m, 0, 0, bits);
}
// represent constant double exactly as m*2^-s
static bool fixConst(double c, i64 &m, int &s) {
  if (!(fabs(c) < 9e15)) return false;
  for (s = 0; s <= 40; s++) {
    double x = ldexp(c, s);
    if (fabs(x) > 4503599627370496.0) return false;
    if (x == floor(x)) { m = (i64)x; return true; }
  }
  return false;
}

// ---------------------------------------------------------------- shadow memory
struct Page { u64 key; Page *next; u32 live; Expr *e[4096]; u8 ix[4096]; };
extern "C" {
u8 __sx_tag[1 << 20];
void *__sx_args[24]; void *__sx_rets[8]; void *__sx_callee, *__sx_retfn;
}
static Page *ptab[1 << 20];
static Page *findPage(u64 a, bool create) {
  u64 key = a >> 12; u32 ix = key & 0xFFFFF;
  for (Page *p = ptab[ix]; p; p = p->next) if (p->key == key) return p;
  if (!create) return 0;
  Page *p = (Page *)calloc(1, sizeof(Page)); p->key = key; p->next = ptab[ix]; ptab[ix] = p;
  __sx_tag[ix] = 1; __sx_tag[(ix - 1) & 0xFFFFF] = 1;
  return p;
}
static inline bool tagged(u64 a) { return __sx_tag[(a >> 12) & 0xFFFFF]; }
static Expr *getByte(u64 a, u8 &ix) {
  if (!tagged(a)) return 0;
  Page *p = findPage(a, false); if (!p) return 0;
  Expr *e = p->e[a & 4095]; if (!e) return 0;
  ix = p->ix[a & 4095];
  return e;
}
static void setByte(u64 a, Expr *e, u8 ix) {
  Page *p = findPage(a, e != 0); if (!p) return;
  p->e[a & 4095] = e; p->ix[a & 4095] = ix;
}

// ---------------------------------------------------------------- run state
struct Item { u32 bound; u64 hash; std::vector<u64> vals; };
struct VarInfo { std::string name; Expr *e; u64 n; };   // raw value in [0,n]
static Z3_context ctx; static Z3_solver solver; static void zinit();
static std::vector<VarInfo> *vars;
static std::vector<u64> *inVals;
static u32 bound, dec; static u64 phash, expectHash;
static std::string *out;            // records to the parent
static int outfd = -1;
static bool running = false;
struct Stats { u64 dec, queries, sat, unsat, unknown, solver_us, conc, concvals, stale, exprs, asserts, asserts_q, diverged, overflow, tableread, known, z3q; };
static Stats st;
static std::set<std::string> *reached, *extnames, *notes, *fallbacks;
static std::set<std::string> known_ext;    // in parent: already reported
static bool pcFailed = false; static int tierv = 0; static u32 maxConc = 3000; static std::string curHarness;
static std::set<u32> *sites;

struct FRow { void *fn; const char *name, *file; u64 line, ninst; };
struct FTab { FRow *rows; u64 n; u8 *flags; };
static FTab *ftabs = 0; static size_t nftab = 0, cftab = 0;
static std::unordered_set<void *> *instSet = 0;
static std::unordered_map<std::string, sx_fn> *harnesses = 0;
static std::vector<std::string> *hnames = 0;
extern "C" void __sx_harness(const char *name, sx_fn f) { RtGuard g;
  if (!harnesses) { harnesses = new std::unordered_map<std::string, sx_fn>(); hnames = new std::vector<std::string>(); } (*harnesses)[name] = f; hnames->push_back(name); }
extern "C" void __sx_register(FRow *rows, u64 n, u8 *flags) { RtGuard g;
  if (nftab == cftab) { cftab = cftab ? cftab * 2 : 64; ftabs = (FTab *)realloc(ftabs, cftab * sizeof(FTab)); }
  ftabs[nftab++] = FTab{rows, n, flags}; }
static bool isInst(void *f) { return instSet && instSet->count(f); }

static void put(const void *p, size_t n) { out->append((const char *)p, n); }
static void put32(u32 v) { put(&v, 4); }
static void put64(u64 v) { put(&v, 8); }
static void putStr(const std::string &s) { put32(s.size()); put(s.data(), s.size()); }
static void putVals(const std::vector<u64> &v) { put32(v.size()); put(v.data(), v.size() * 8); }
static void putNames() { std::string r; for (auto &x : *vars) { r += x.name; r += '\x1f'; } putStr(r); }
static std::vector<u64> curVals() { std::vector<u64> v; for (auto &x : *vars) v.push_back(x.e->val); return v; }
static void dbg(const char *w) { if (!getenv("SX_DBG")) return; struct rusage r; getrusage(RUSAGE_SELF, &r); fprintf(stderr, "%s: minflt %ld user %ld us sys %ld us solver %llu us exprs %u q %llu arena %ld\n", w, r.ru_minflt, r.ru_utime.tv_usec, r.ru_stime.tv_usec, (unsigned long long)st.solver_us, nexpr, (unsigned long long)st.queries, (long)(arena_cur - ARENA)); }
static void flushAndExit(int code) {
  dbg("end"); if (getenv("SX_SMAPS")) { char b[256]; snprintf(b, sizeof b, "cat /proc/%d/smaps > /tmp/smaps.%d", getpid(), getpid()); in_rt++; if (system(b)) {} }
  RtGuard g;
  st.exprs = nexpr;
  out->push_back('S'); put(&st, sizeof st); put32(dec);
  put32(reached->size()); for (auto &s : *reached) putStr(s);
  put32(extnames->size()); for (auto &s : *extnames) putStr(s);
  put32(notes->size()); for (auto &s : *notes) putStr(s);
  put32(fallbacks->size()); for (auto &s : *fallbacks) putStr(s);
  put32(sites->size()); for (u32 s : *sites) put32(s);
  std::vector<std::pair<u32, u32>> fl;
  for (size_t t = 0; t < nftab; t++) for (u64 i = 0; i < ftabs[t].n; i++) if (ftabs[t].flags[i] == 1) fl.push_back({t, i});
  put32(fl.size()); put(fl.data(), fl.size() * 8);
  out->push_back('E');
  const char *p = out->data(); size_t n = out->size();
  while (n) { ssize_t k = write(outfd, p, n); if (k < 0) { if (errno == EINTR) continue; break; } p += k; n -= k; }
  _exit(code);
}
static void abnormal(const char *kind) {
  RtGuard g;
  if (!running) { fprintf(stderr, "sx: %s outside a run\n", kind); _exit(98); }
  running = false;
  out->push_back('C'); putStr(kind); putVals(curVals()); putNames();
  flushAndExit(1);
}
static void die_child(const char *kind) { abnormal(kind); }
#include <stdarg.h>
static void engine_error(const char *fmt, ...) {
  char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  RtGuard g;
  if (!running) { fprintf(stderr, "sx engine error: %s\n", b); _exit(97); }
  running = false;
  out->push_back('X'); putStr(b); putVals(curVals());
  flushAndExit(1);
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- Z3
static u32 zrlimit = 0; static bool zsmt = false; 
// Z3 is created on first use (mostly in a child that falls back to it), which keeps the forking parent small.
static void zinit() {
  if (ctx) return;
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg);
  Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) { engine_error("z3: %s", Z3_get_error_msg(c, e)); });
  if (zsmt) solver = Z3_mk_simple_solver(ctx); else solver = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
  Z3_solver_inc_ref(ctx, solver);
  if (zrlimit) { Z3_params ps = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, ps); Z3_params_set_uint(ctx, ps, Z3_mk_string_symbol(ctx, "rlimit"), zrlimit); Z3_solver_set_params(ctx, solver, ps); }
}
static Z3_sort bvs[65]; 
static Z3_sort bv(int w) { if (!bvs[w]) { bvs[w] = w == 1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, w); } return bvs[w]; }
// Terms are lowered at the narrowest width their interval allows: the low n bits of a term only
// need the low n bits of its operands for the ring operations, and a term whose signed interval
// fits n bits equals the sign extension of its low n bits.
static Z3_ast lower(Expr *e);
static Z3_ast lowerN(Expr *e, int n);
static Z3_sort bvn(int n) { return Z3_mk_bv_sort(ctx, n); }
static Z3_ast num(u64 v, int n) { return Z3_mk_unsigned_int64(ctx, v & mask(n), bvn(n)); }
static Z3_ast b2v(Z3_ast x, u64 t, int n) { return Z3_mk_ite(ctx, x, num(t, n), num(0, n)); }
static int sbits(Expr *e) {
  if (e->w <= 2) return e->w;
  i64 l = e->lo, h = e->hi; u64 m = (u64)(l < 0 ? ~l : l) | (u64)(h < 0 ? ~h : h);
  int n = m ? 65 - __builtin_clzll(m) : 1;
  if (n < 2) n = 2;
  return n < e->w ? n : e->w;
}
static Z3_ast zvar(Expr *e) { char b[64]; snprintf(b, sizeof b, "v%llu", (unsigned long long)e->aux); return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, b), bv(e->w)); }
static Z3_ast lowerBool(Expr *e) {
  Expr *a = e->k[0], *b = e->k[1], *c = e->k[2];
  switch (e->op) {
    case VAR: return zvar(e);
    case CONST: return e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
    case NOT: return Z3_mk_not(ctx, lower(a));
    case EQ: case ULT: case SLT: {
      if (a->w == 1) {
        Z3_ast x = lower(a), y = lower(b);
        if (e->op == EQ) return Z3_mk_eq(ctx, x, y);
        Z3_ast v[2] = {Z3_mk_not(ctx, x), y}, v2[2] = {x, Z3_mk_not(ctx, y)};
        return Z3_mk_and(ctx, 2, e->op == ULT ? v : v2);
      }
      int n = std::max(sbits(a), sbits(b));
      if (e->op == EQ) return Z3_mk_eq(ctx, lowerN(a, n), lowerN(b, n));
      if (e->op == SLT) return Z3_mk_bvslt(ctx, lowerN(a, n), lowerN(b, n));
      if (a->lo >= 0 && b->lo >= 0) return Z3_mk_bvslt(ctx, lowerN(a, n), lowerN(b, n));
      return Z3_mk_bvult(ctx, lower(a), lower(b)); }
    case ITE: return Z3_mk_ite(ctx, lower(a), lower(b), lower(c));
    case EXTRACT: { Z3_ast x = lowerN(a, (int)e->aux + 1 < 2 ? 2 : (int)e->aux + 1); return Z3_mk_eq(ctx, Z3_mk_extract(ctx, e->aux, e->aux, x), num(1, 1)); }
    case AND: case MUL: { Z3_ast v[2] = {lower(a), lower(b)}; return Z3_mk_and(ctx, 2, v); }
    case OR: { Z3_ast v[2] = {lower(a), lower(b)}; return Z3_mk_or(ctx, 2, v); }
    case XOR: case ADD: case SUB: return Z3_mk_xor(ctx, lower(a), lower(b));
    default: engine_error("bool op %d", e->op); return 0;
  }
}
static Z3_ast lowFull(Expr *e) {   // operations with no narrow form, at full width
  Z3_ast x = lower(e->k[0]), y = e->k[1] ? lower(e->k[1]) : 0;
  switch (e->op) {
    case UDIV: return Z3_mk_bvudiv(ctx, x, y);
    case SDIV: return Z3_mk_bvsdiv(ctx, x, y);
    case UREM: return Z3_mk_bvurem(ctx, x, y);
    case SREM: return Z3_mk_bvsrem(ctx, x, y);
    case SHL: return Z3_mk_bvshl(ctx, x, y);
    case LSHR: return Z3_mk_bvlshr(ctx, x, y);
    case ASHR: return Z3_mk_bvashr(ctx, x, y);
    default: engine_error("lower op %d", e->op); return 0;
  }
}
static Z3_ast fit(Z3_ast x, int from, int n, bool sgn) {
  if (from == n) return x;
  if (n < from) return Z3_mk_extract(ctx, n - 1, 0, x);
  return sgn ? Z3_mk_sign_ext(ctx, n - from, x) : Z3_mk_zero_ext(ctx, n - from, x);
}
static Z3_ast lowOp(Expr *e, int n) {
  Expr *a = e->k[0], *b = e->k[1], *c = e->k[2];
  switch (e->op) {
    case CONST: return num(e->val, n);
    case VAR: if (!e->z) { e->z = zvar(e); Z3_inc_ref(ctx, e->z); } return fit(e->z, e->w, n, false);
    case NOT: return Z3_mk_bvnot(ctx, lowerN(a, n));
    case ADD: return Z3_mk_bvadd(ctx, lowerN(a, n), lowerN(b, n));
    case SUB: return Z3_mk_bvsub(ctx, lowerN(a, n), lowerN(b, n));
    case MUL: return Z3_mk_bvmul(ctx, lowerN(a, n), lowerN(b, n));
    case AND: return Z3_mk_bvand(ctx, lowerN(a, n), lowerN(b, n));
    case OR: return Z3_mk_bvor(ctx, lowerN(a, n), lowerN(b, n));
    case XOR: return Z3_mk_bvxor(ctx, lowerN(a, n), lowerN(b, n));
    case ITE: return Z3_mk_ite(ctx, lower(a), lowerN(b, n), lowerN(c, n));
    case ZEXT: if (a->w == 1) return b2v(lower(a), 1, n); if (n <= a->w) return lowerN(a, n); return Z3_mk_zero_ext(ctx, n - a->w, lower(a));
    case SEXT: if (a->w == 1) return b2v(lower(a), ~0ULL, n); if (n <= a->w) return lowerN(a, n); return Z3_mk_sign_ext(ctx, n - a->w, lower(a));
    case EXTRACT: return e->aux == 0 ? lowerN(a, n) : Z3_mk_extract(ctx, (int)e->aux + n - 1, e->aux, lowerN(a, std::max<int>(2, e->aux + n)));
    case CONCAT: {
      if (n <= b->w && b->w > 1) return lowerN(b, n);
      Z3_ast l = b->w == 1 ? b2v(lower(b), 1, 1) : lower(b);
      int k = n - b->w;
      Z3_ast h = a->w == 1 ? b2v(lower(a), 1, 1) : k >= 2 ? lowerN(a, k) : Z3_mk_extract(ctx, 0, 0, lowerN(a, 2));
      return Z3_mk_concat(ctx, h, l); }
    case SHL: if (isC(b)) return b->val >= (u64)n ? num(0, n) : Z3_mk_bvshl(ctx, lowerN(a, n), num(b->val, n)); break;
    case LSHR: if (isC(b) && a->lo >= 0) { int k = sbits(a); return fit(b->val >= (u64)k ? num(0, k) : Z3_mk_bvlshr(ctx, lowerN(a, k), num(b->val, k)), k, n, true); } break;
    case ASHR: if (isC(b)) { int k = sbits(a); return fit(Z3_mk_bvashr(ctx, lowerN(a, k), num(std::min<u64>(b->val, k - 1), k)), k, n, true); } break;
    case UDIV: case UREM: if (a->lo >= 0 && b->lo > 0) { int k = std::max(sbits(a), sbits(b)); Z3_ast x = lowerN(a, k), y = lowerN(b, k);
        return fit(e->op == UDIV ? Z3_mk_bvudiv(ctx, x, y) : Z3_mk_bvurem(ctx, x, y), k, n, true); } break;
    case SDIV: case SREM: if (b->lo > 0) { int k = std::max(sbits(a), sbits(b)); Z3_ast x = lowerN(a, k), y = lowerN(b, k);
        return fit(e->op == SDIV ? Z3_mk_bvsdiv(ctx, x, y) : Z3_mk_bvsrem(ctx, x, y), k, n, true); } break;
    default: break;
  }
  return fit(lowFull(e), e->w, n, false);
}
static std::unordered_map<u64, Z3_ast> *ncache = 0;
static Z3_ast lowerN(Expr *e, int n) {
  if (n > e->w) return Z3_mk_sign_ext(ctx, n - e->w, lower(e));
  if (!ncache) ncache = new std::unordered_map<u64, Z3_ast>();
  u64 key = ((u64)e->id << 7) | (u64)n;
  auto it = ncache->find(key);
  if (it != ncache->end()) return it->second;
  int m = sbits(e);
  Z3_ast r = n > m && e->op != CONST ? Z3_mk_sign_ext(ctx, n - m, lowerN(e, m)) : lowOp(e, n);
  Z3_inc_ref(ctx, r);
  (*ncache)[key] = r;
  return r;
}
static Z3_ast lower(Expr *e) {
  if (!e->z) { e->z = e->w == 1 ? lowerBool(e) : lowerN(e, e->w); Z3_inc_ref(ctx, e->z); }
  return e->z;
}
#include "sat.h"
// Solver front: constraints with push/pop.  backend 0 = bit-blasting + MiniSat, 1 = Z3; with `cross`
// every query is answered by both and a disagreement is an engine error.
static int backend = 0; static bool cross = false, zlive = false; static u64 crossN = 0;
static std::vector<Expr *> *cons_ = 0; static std::vector<size_t> *cmarks = 0; static size_t zdone = 0;
static void zsync() {   // bring Z3 up to date with the constraint stack (all at one level)
  for (size_t i = zdone; i < vars->size(); i++) { auto &x = (*vars)[i]; if (x.n != mask(x.e->w)) Z3_solver_assert(ctx, solver, x.e->w == 1 ? lower(x.e) : Z3_mk_bvule(ctx, lower(x.e), Z3_mk_unsigned_int64(ctx, x.n, bvn(x.e->w)))); }
  zdone = vars->size();
}
static void zassert(Expr *c) {
  cons_->push_back(c);
  if (backend == 0) { if (cmarks->empty()) S->addClause(lit(c)); else assum->push_back(lit(c)); }
}
static void zpush() { cmarks->push_back(cons_->size()); amarks->push_back(assum->size()); }
static void zpop() { cons_->resize(cmarks->back()); cmarks->pop_back(); assum->resize(amarks->back()); amarks->pop_back(); }
static size_t zbase = 0;
static int zcheck() {
  zinit();
  size_t base = cmarks->empty() ? cons_->size() : (*cmarks)[0];
  zsync();
  for (; zbase < base; zbase++) Z3_solver_assert(ctx, solver, lower((*cons_)[zbase]));
  Z3_solver_push(ctx, solver);
  for (size_t i = base; i < cons_->size(); i++) Z3_solver_assert(ctx, solver, lower((*cons_)[i]));
  Z3_lbool r = Z3_solver_check(ctx, solver);
  return r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
}
static bool modelFromZ3 = false;
static std::vector<u64> *zmodel = 0;
// mark c (a bool known to hold) and simple consequences as fixed
static void markFixed(Expr *e) {
  if (e->fixed) return;
  e->fixed = true;
  Expr *a = e->k[0], *b = e->k[1];
  if (e->w == 1) {
    if (e->op == NOT) markFixed(a);
    else if (e->op == EQ && e->val && isC(b)) markFixed(a);
    else if (e->op == EQ && e->val && b->fixed && !a->fixed) markFixed(a);
    else if (e->op == EQ && e->val && a->fixed && !b->fixed) markFixed(b);
    else if (e->op == AND && e->val) { markFixed(a); markFixed(b); }
    else if (e->op == OR && !e->val) { markFixed(a); markFixed(b); }
    return;
  }
  switch (e->op) {
    case ZEXT: case SEXT: case NOT: markFixed(a); break;
    case ADD: case XOR: if (b->fixed) markFixed(a); else if (a->fixed) markFixed(b); break;
    case SUB: if (b->fixed) markFixed(a); else if (a->fixed) markFixed(b); break;
    case CONCAT: markFixed(a); markFixed(b); break;
    case ITE: if (isC(b) && isC(e->k[2]) && b->val != e->k[2]->val) markFixed(a);
      else if (constTree(e, 300)) {   // chain of constants: the condition selecting val, when it is unique
        // leave as is: the value is fixed, not necessarily the index
      }
      break;
    default: break;
  }
}
static std::vector<u64> z3Vals() {
  Z3_model m = Z3_solver_get_model(ctx, solver);
  Z3_model_inc_ref(ctx, m);
  std::vector<u64> v;
  for (auto &x : *vars) {
    Z3_ast r; u64 val = x.e->val;
    if (x.e->z) {
      if (Z3_model_eval(ctx, m, x.e->z, false, &r) && Z3_get_ast_kind(ctx, r) == Z3_NUMERAL_AST) { uint64_t q; Z3_get_numeral_uint64(ctx, r, &q); val = q; }
      else if (x.e->w == 1) { Z3_lbool b = Z3_get_bool_value(ctx, r); if (b != Z3_L_UNDEF) val = b == Z3_L_TRUE; }
    }
    v.push_back(val);
  }
  Z3_model_dec_ref(ctx, m);
  return v;
}
static int check() {
  double t = now(); int r = -1;
  zmodel->clear();
  if (backend == 0) {
    Minisat::vec<Lit> as; for (auto l : *assum) as.push(l);
    S->setConfBudget(200000); S->setPropBudget(300000000);
    Minisat::lbool q = S->okay() ? S->solveLimited(as) : Minisat::lbool((uint8_t)1);
    r = q == Minisat::lbool((uint8_t)0) ? 1 : q == Minisat::lbool((uint8_t)1) ? 0 : -1;
    if (r == 1) *zmodel = satModel();
    if (cross || r < 0) {
      int z = zcheck(); st.z3q++;
      if (z >= 0 && r >= 0 && z != r) engine_error("solver disagreement: sat %d z3 %d", r, z);
      if (r < 0 && z == 1) *zmodel = z3Vals();
      if (r < 0) r = z;
      Z3_solver_pop(ctx, solver, 1);
    }
  } else {
    r = zcheck(); if (r == 1) *zmodel = z3Vals();
    Z3_solver_pop(ctx, solver, 1);
  }
  st.queries++; st.solver_us += (u64)((now() - t) * 1e6);
  if (r == 1) st.sat++; else if (r == 0) st.unsat++; else { st.unknown++; }
  if (r == 1 && st.queries % 16 == 1) {   // the model must satisfy every constraint under the engine's own evaluator
    std::unordered_map<u32, u64> memo;
    for (Expr *c : *cons_) if (!evalModel(c, *zmodel, memo)) engine_error("model does not satisfy a constraint");
  }
  return r;
}
static std::vector<u64> modelVals(Expr *e = 0, u64 *ev = 0) {
  if (e) { std::unordered_map<u32, u64> memo; *ev = evalModel(e, *zmodel, memo); }
  return *zmodel;
}
static void emit(const std::vector<u64> &v, u64 h) { out->push_back('I'); put32(dec + 1); put64(h); putVals(v); }
static int trace = 0;
static bool enterDecision() {
  // returns true when alternatives must be explored here
  if (dec == bound && bound > 0 && phash != expectHash) { st.diverged++; engine_error("path divergence at decision %u", dec); }
  return dec >= bound;
}
static void leaveDecision(u32 site, u64 outcome) {  if (trace) dprintf(trace, "D%u site %u out %llu\n", dec, site, (unsigned long long)outcome); phash = mix(mix(phash, site), outcome); dec++; st.dec++; }

static bool cbt = getenv("SX_CBT") != 0;
static void bttrace() { void *bt[40]; in_rt++; int k = backtrace(bt, 40); backtrace_symbols_fd(bt, k, 2); in_rt--; fprintf(stderr, "----\n"); }
static void branch(Expr *e, u32 site) {
  if (e->fixed) { st.known++; return; }
  bool taken = e->val;
  Expr *cond = taken ? e : mkNot(e);
  if (cond->fixed) { markFixed(e); return; }
  sites->insert(site);
  if (cbt) bttrace();
  bool explore = enterDecision();
  if (explore) {
    Expr *alt = mkNot(cond);
    zpush();
    zassert(alt);
    int r = check();
    if (r == 1) emit(modelVals(), mix(mix(phash, site), !taken));
    zpop();
    if (r != 0) zassert(cond);
  } else zassert(cond);
  markFixed(e); markFixed(cond);
  leaveDecision(site, taken);
}
// some constant of the choice occurs twice: enumerating the distinct values takes fewer decisions than following the conditions
static void leaves(Expr *e, std::vector<u64> &v) { if (isC(e)) v.push_back(e->val); else { leaves(e->k[1], v); leaves(e->k[2], v); } }
static bool repeats(Expr *e) { std::vector<u64> v; leaves(e, v); if (v.size() < 3) return false; std::sort(v.begin(), v.end()); return std::adjacent_find(v.begin(), v.end()) != v.end(); }
static void concretize(Expr *e, u32 site) {
  if (e->fixed) return;
  if (e->op == FIX) { concretize(e->k[0], site); e->fixed = true; return; }
  if (e->w == 1) { branch(e, site); return; }
  if (e->op == ITE && e->w == 64 && constTree(e, 300) && !repeats(e)) {   // a choice of two constants (pointers): the condition is the decision
    Expr *c = e->k[0], *t = c->val ? e->k[1] : e->k[2];
    branch(c, site); if (!isC(t)) concretize(t, site); e->fixed = true; return;
  }
  Expr *eq = mk(EQ, 1, e, C(e->val, e->w));
  if (isC(eq)) { if (!eq->val) engine_error("concretize const mismatch"); e->fixed = true; return; }
  sites->insert(site);
  if (cbt) bttrace();
  bool explore = enterDecision();
  st.conc++;
  if (explore) {
    zpush();
    zassert(mkNot(eq));
    u32 n = 0; int r;
    while ((r = check()) == 1) {
      u64 v; auto mv = modelVals(e, &v);
      emit(mv, mix(mix(phash, site), v)); st.concvals++;
      zassert(mkNot(mk(EQ, 1, e, C(v, e->w))));
      if (++n > maxConc) { st.overflow++; break; }
    }
    zpop();
    if (n || r < 0) zassert(eq);
  } else zassert(eq);
  markFixed(eq); markFixed(e);
  leaveDecision(site, e->val);
}
static void fallback(const char *what, u32 site, Expr *e) {
  if (!e || e->fixed) return;
  if (fallbacks->size() < 200) fallbacks->insert(what);
  concretize(e, site);
}

// ---------------------------------------------------------------- shadow API
static Expr *coerce(Expr *s, u64 conc, int w, u32 site) {   // integer operand of width w
  if (!s) return C(conc, w);
  if (s->op == FIX) { fallback("float bits used as integer", site, s); return C(conc, w); }
  if (s->w != w) engine_error("width mismatch %d vs %d op %d", s->w, w, s->op);
  if (s->val != (conc & mask(w))) engine_error("concrete mismatch %llx vs %llx op %d", (unsigned long long)s->val, (unsigned long long)conc, s->op);
  return nf(s);
}
static void *shadow(Expr *e) { return (!e || isC(e) || e->fixed) ? 0 : e; }
struct FV { bool fix; Expr *m; int s; double c; };   // fix: m*2^-s ; else constant c
static FV fval(Expr *s, u64 conc, int w, u32 site) {
  FV r; r.fix = false; r.m = 0; r.s = 0; r.c = bitsd(conc, w);
  if (!s || s->fixed) return r;
  if (s->op != FIX) { fallback("integer bits used as float", site, s); return r; }
  if (s->w != w) engine_error("float width mismatch");
  if (bitsd(s->val, w) != r.c) engine_error("float concrete mismatch %g vs %g", bitsd(s->val, w), r.c);
  Expr *m = nf(s->k[0]);
  if (isC(m)) return r;
  r.fix = true; r.m = m; r.s = s->aux;
  return r;
}
static Expr *shl64(Expr *m, int d) { return d ? mk(MUL, 64, m, C(1ULL << d, 64)) : m; }
static bool scaleOK(Expr *m, int d) { if (d > 50) return false; i128 l = (i128)m->lo << d, h = (i128)m->hi << d; return l >= -((i128)1 << 62) && h <= ((i128)1 << 62); }
// bring two float values to a common scale; false if impossible
static bool align(FV &a, FV &b, int &s) {
  if (!a.fix) { i64 m; int k; if (!fixConst(a.c, m, k)) return false; a.m = C(m, 64); a.s = k; }
  if (!b.fix) { i64 m; int k; if (!fixConst(b.c, m, k)) return false; b.m = C(m, 64); b.s = k; }
  s = std::max(a.s, b.s);
  if (!scaleOK(a.m, s - a.s) || !scaleOK(b.m, s - b.s)) return false;
  a.m = shl64(a.m, s - a.s); b.m = shl64(b.m, s - b.s);
  return true;
}
static bool rangeOK(Expr *m, int w) { i64 L = fixlim(w); return m->lo >= -L && m->hi <= L; }

#include "llvm_ops.h"

extern "C" {
void __sx_conc(void *s, u32 site) { RtGuard g; concretize((Expr *)s, site); }

static void *fbinop(u32 op, int w, u64 a, Expr *sa, u64 b, Expr *sb, u32 site) {
  FV x = fval(sa, a, w, site), y = fval(sb, b, w, site);
  if (!x.fix && !y.fix) return 0;
  if (op == OP_FADD || op == OP_FSUB) {
    // absorbing constants
    for (int k = 0; k < 2; k++) {
      FV &f = k ? y : x, &c = k ? x : y;
      if (f.fix && !c.fix) {
        if (!std::isfinite(c.c)) return 0;
        double mx = ldexp((double)std::max(f.m->hi < 0 ? -f.m->hi : f.m->hi, f.m->lo < 0 ? -f.m->lo : f.m->lo), -f.s);
        int ex; frexp(c.c, &ex);
        if (c.c != 0 && mx < ldexp(1.0, ex - (w == 32 ? 24 : 53) - 2)) return 0;
      }
    }
    int s;
    if (align(x, y, s)) {
      Expr *m = mk(op == OP_FADD ? ADD : SUB, 64, x.m, y.m);
      i128 lo = op == OP_FADD ? (i128)x.m->lo + y.m->lo : (i128)x.m->lo - y.m->hi, hi = op == OP_FADD ? (i128)x.m->hi + y.m->hi : (i128)x.m->hi - y.m->lo;
      if (lo >= -(i128)fixlim(w) && hi <= (i128)fixlim(w) && rangeOK(m, w)) return shadow(mkFix(m, s, w));
    }
  } else if (op == OP_FMUL) {
    FV p = x, q = y;
    bool ok = true;
    if (!p.fix) { i64 m; int k; if (fixConst(p.c, m, k)) { p.m = C(m, 64); p.s = k; } else ok = false; }
    if (!q.fix) { i64 m; int k; if (fixConst(q.c, m, k)) { q.m = C(m, 64); q.s = k; } else ok = false; }
    if (ok && p.s + q.s <= 60) {
      i128 v[4] = {(i128)p.m->lo * q.m->lo, (i128)p.m->lo * q.m->hi, (i128)p.m->hi * q.m->lo, (i128)p.m->hi * q.m->hi};
      i128 lo = *std::min_element(v, v + 4), hi = *std::max_element(v, v + 4);
      if (lo >= -(i128)fixlim(w) && hi <= (i128)fixlim(w)) return shadow(mkFix(mk(MUL, 64, p.m, q.m), p.s + q.s, w));
    }
  } else if (op == OP_FDIV && x.fix && !y.fix) {
    int ex; double fr = frexp(fabs(y.c), &ex);
    if (fr == 0.5 && ex - 1 >= 0 && ex - 1 + x.s <= 60) {
      Expr *m = x.m; if (y.c < 0) m = mk(SUB, 64, C(0, 64), m);
      return shadow(mkFix(m, x.s + ex - 1, w));
    }
    if (fr == 0.5 && ex - 1 < 0 && scaleOK(x.m, 1 - ex)) {
      Expr *m = shl64(x.m, 1 - ex); if (y.c < 0) m = mk(SUB, 64, C(0, 64), m);
      if (rangeOK(m, w)) return shadow(mkFix(m, x.s, w));
    }
  }
  static const char *nm[] = {"fadd", "fsub", "fmul", "fdiv", "frem"};
  const char *what = op == OP_FADD ? nm[0] : op == OP_FSUB ? nm[1] : op == OP_FMUL ? nm[2] : op == OP_FDIV ? nm[3] : nm[4];
  fallback(what, site, sa); fallback(what, site + 1, sb);
  return 0;
}
void *__sx_binop(u32 op, u32 ty, u64 a, void *sa_, u64 b, void *sb_, u32 site) {
  RtGuard g; Expr *sa = (Expr *)sa_, *sb = (Expr *)sb_;
  if (ty >= 100) return fbinop(op, ty == 100 ? 32 : 64, a, sa, b, sb, site);
  Expr *x = coerce(sa, a, ty, site), *y = coerce(sb, b, ty, site);
  Op o;
  switch (op) {
    case OP_Add: o = ADD; break; case OP_Sub: o = SUB; break; case OP_Mul: o = MUL; break;
    case OP_UDiv: o = UDIV; break; case OP_SDiv: o = SDIV; break; case OP_URem: o = UREM; break; case OP_SRem: o = SREM; break;
    case OP_And: o = AND; break; case OP_Or: o = OR; break; case OP_Xor: o = XOR; break;
    case OP_Shl: o = SHL; break; case OP_LShr: o = LSHR; break; case OP_AShr: o = ASHR; break;
    default: engine_error("binop %u", op); return 0;
  }
  if (o == UDIV || o == SDIV || o == UREM || o == SREM) {
    if (!isC(y)) { Expr *z = mk(EQ, 1, y, C(0, ty)); if (!isC(z)) branch(z, site); y = nf(y); }
    x = nf(x);
    if (isC(y) && y->val == 0) return 0;    // traps natively
  }
  return shadow(mk(o, ty, x, y));
}
static Expr *icmp(u32 pred, int w, Expr *x, Expr *y) {
  switch (pred) {
    case 32: return mk(EQ, 1, x, y);
    case 33: return mkNot(mk(EQ, 1, x, y));
    case 34: return mk(ULT, 1, y, x);
    case 35: return mkNot(mk(ULT, 1, x, y));
    case 36: return mk(ULT, 1, x, y);
    case 37: return mkNot(mk(ULT, 1, y, x));
    case 38: return mk(SLT, 1, y, x);
    case 39: return mkNot(mk(SLT, 1, x, y));
    case 40: return mk(SLT, 1, x, y);
    case 41: return mkNot(mk(SLT, 1, y, x));
  }
  engine_error("icmp %u", pred); return 0;
}
void *__sx_cmp(u32 pred, u32 ty, u64 a, void *sa_, u64 b, void *sb_, u32 site) {
  RtGuard g; Expr *sa = (Expr *)sa_, *sb = (Expr *)sb_;
  if (ty < 100) return shadow(icmp(pred, ty, coerce(sa, a, ty, site), coerce(sb, b, ty, site)));
  int w = ty == 100 ? 32 : 64;
  FV x = fval(sa, a, w, site), y = fval(sb, b, w, site);
  if (!x.fix && !y.fix) return 0;
  if (pred == 0 || pred == 15) return 0;
  if ((!x.fix && std::isnan(x.c)) || (!y.fix && std::isnan(y.c))) return 0;
  if (pred == 7 || pred == 8) return 0;
  u32 p = pred & 7;   // 1 eq 2 gt 3 ge 4 lt 5 le 6 ne
  if (!x.fix) { std::swap(x, y); static const u32 sw[8] = {0, 1, 4, 5, 2, 3, 6, 7}; p = sw[p]; }
  if (y.fix) {
    int s;
    if (!align(x, y, s)) { fallback("fcmp align", site, sa); fallback("fcmp align", site + 1, sb); return 0; }
  } else {
    double c = ldexp(y.c, x.s);
    if (!(c < 9e18 && c > -9e18)) return 0;   // beyond every value: constant outcome
    double fl = floor(c);
    bool exact = fl == c;
    if (exact) y.m = C((u64)(i64)fl, 64);
    else {
      if (p == 1 || p == 6) return 0;
      // x > c  <=> m > floor ; x >= c <=> m > floor ; x < c <=> m <= floor ; x<=c <=> m<=floor
      y.m = C((u64)(i64)fl, 64);
      if (p == 3) p = 2;
      if (p == 4) p = 5;
    }
  }
  static const u32 ip[8] = {0, 32, 38, 39, 40, 41, 33, 0};
  return shadow(icmp(ip[p], 64, x.m, y.m));
}
void *__sx_cast(u32 op, u32 fty, u32 tty, u64 a, void *s_, u32 site) {
  RtGuard g; Expr *s = (Expr *)s_;
  int tw = tty == 100 ? 32 : tty == 101 ? 64 : tty;
  int fw = fty == 100 ? 32 : fty == 101 ? 64 : fty;
  switch (op) {
    case OP_BitCast: return s;
    case OP_IntToPtr: case OP_PtrToInt: {
      if (s->op == FIX) { fallback("float as pointer", site, s); return 0; }
      Expr *x = coerce(s, a, fw, site);
      if (tw == fw) return shadow(x);
      if (tw > fw) return shadow(mk(ZEXT, tw, x));
      return shadow(mk(EXTRACT, tw, x, 0, 0, 0)); }
    case OP_ZExt: return shadow(mk(ZEXT, tw, coerce(s, a, fw, site)));
    case OP_SExt: return shadow(mk(SEXT, tw, coerce(s, a, fw, site)));
    case OP_Trunc: return shadow(mk(EXTRACT, tw, coerce(s, a, fw, site), 0, 0, 0));
    case OP_SIToFP: case OP_UIToFP: {
      Expr *x = coerce(s, a, fw, site);
      if (isC(x)) return 0;
      Expr *m;
      if (x->w == 64) { m = x; if (op == OP_UIToFP && x->lo < 0) { fallback("uitofp", site, x); return 0; } }
      else m = mk(op == OP_SIToFP ? SEXT : ZEXT, 64, x);
      if (!rangeOK(m, tw)) { fallback("int to float out of exact range", site, x); return 0; }
      return shadow(mkFix(m, 0, tw)); }
    case OP_FPToSI: case OP_FPToUI: {
      FV x = fval(s, a, fw, site); if (!x.fix) return 0;
      Expr *m = x.s ? mk(SDIV, 64, x.m, C(1ULL << x.s, 64)) : x.m;
      return shadow(mk(EXTRACT, tw, m, 0, 0, 0)); }
    case OP_FPExt: case OP_FPTrunc: {
      FV x = fval(s, a, fw, site); if (!x.fix) return 0;
      if (!rangeOK(x.m, tw)) { fallback("fptrunc", site, s); return 0; }
      return shadow(mkFix(x.m, x.s, tw)); }
  }
  fallback("cast", site, s);
  return 0;
}
void *__sx_gep(u64 base, void *bs, u64 idx, void *is_, u32 iw, u64 scale) {
  RtGuard g;
  Expr *b = coerce((Expr *)bs, base, 64, 0);
  Expr *i;
  if (is_) { Expr *ie = (Expr *)is_; i = coerce(ie, idx & mask(iw), iw, 0); if (iw < 64) i = mk(SEXT, 64, i); }
  else i = C(idx, 64);
  return shadow(mk(ADD, 64, b, mk(MUL, 64, i, C(scale, 64))));
}
void *__sx_select(void *sc_, u64 c, u32 ty, u64 t, void *st_, u64 f, void *sf_, u32 site) {
  RtGuard g; Expr *sc = coerce((Expr *)sc_, c, 1, site), *a = (Expr *)st_, *b = (Expr *)sf_;
  if (isC(sc)) return shadow(c ? a : b);
  bool fp = ty >= 100 || (a && a->op == FIX) || (b && b->op == FIX);
  int w = ty == 100 ? 32 : ty == 101 ? 64 : ty;
  if (!fp) return shadow(mk(ITE, w, sc, coerce(a, t, w, site), coerce(b, f, w, site)));
  if (!a && !b && t == f) return 0;
  if ((!a || a->op != FIX) && (!b || b->op != FIX) && (a || b)) return shadow(mk(ITE, w, sc, coerce(a, t, w, site), coerce(b, f, w, site)));   // raw bits on both sides
  FV x = fval(a, t, w, site), y = fval(b, f, w, site);
  int s;
  if (!align(x, y, s)) { branch(sc, site); return shadow(c ? a : b); }
  Expr *m = mk(ITE, 64, sc, x.m, y.m);
  if (!rangeOK(m, w)) { branch(sc, site); return shadow(c ? a : b); }
  return shadow(mkFix(m, s, w));
}
void __sx_branch(void *s, u64 c, u32 site) {
  RtGuard g; Expr *e = (Expr *)s;
  if (e->w != 1 || e->val != c) engine_error("branch mismatch w=%d", e->w);
  branch(e, site);
}
void __sx_switch(void *s_, u64 v, u32 n, u64 *cases, u64 *tgts, u32 defid, u32 site) {
  RtGuard g; Expr *e = coerce((Expr *)s_, v, ((Expr *)s_)->w, site);
  if (isC(e)) return;
  // outcome groups by target
  u32 taken = defid;
  for (u32 i = 0; i < n; i++) if (cases[i] == v) taken = tgts[i];
  u32 ng = defid; for (u32 i = 0; i < n; i++) ng = std::max(ng, (u32)tgts[i]);
  std::vector<Expr *> grp(ng + 1, C(0, 1));
  Expr *any = C(0, 1);
  for (u32 i = 0; i < n; i++) {
    Expr *q = mk(EQ, 1, e, C(cases[i], e->w));
    grp[tgts[i]] = mk(OR, 1, grp[tgts[i]], q); any = mk(OR, 1, any, q);
  }
  grp[defid] = mk(OR, 1, grp[defid], mkNot(any));
  Expr *cond = grp[taken];
  if (isC(cond) || cond->fixed) return;
  sites->insert(site);
  bool explore = enterDecision();
  if (explore) for (u32 k = 0; k <= ng; k++) {
    if (k == taken || isC(grp[k])) continue;
    zpush(); zassert(grp[k]);
    if (check() == 1) emit(modelVals(), mix(mix(phash, site), 1000 + k));
    zpop();
  }
  zassert(cond);
  markFixed(cond);
  leaveDecision(site, 1000 + taken);
}
void *__sx_fun(u32 k, u32 ty, u64 a, void *s_, u32 site) {
  RtGuard g; Expr *s = (Expr *)s_; int w = ty == 100 ? 32 : ty == 101 ? 64 : ty;
  if (ty >= 100) {
    if (s && s->op != FIX && (k == 1 || k == 3)) {   // raw bits: sign bit operations
      Expr *x = coerce(s, a, w, site); u64 sb = 1ULL << (w - 1);
      return shadow(k == 1 ? mk(XOR, w, x, C(sb, w)) : mk(AND, w, x, C(sb - 1, w)));
    }
    FV x = fval(s, a, w, site); if (!x.fix) return 0;
    Expr *z = C(0, 64);
    switch (k) {
      case 1: return shadow(mkFix(mk(SUB, 64, z, x.m), x.s, w));
      case 3: if (x.m->lo >= 0) return s; return shadow(mkFix(mk(ITE, 64, mk(SLT, 1, x.m, z), mk(SUB, 64, z, x.m), x.m), x.s, w));
      case 8: return shadow(mkFix(mk(ASHR, 64, x.m, C(x.s, 64)), 0, w));
      case 9: return shadow(mkFix(mk(SUB, 64, z, mk(ASHR, 64, mk(SUB, 64, z, x.m), C(x.s, 64))), 0, w));
      case 10: return shadow(mkFix(mk(SDIV, 64, x.m, C(1ULL << x.s, 64)), 0, w));
    }
    fallback("float function", site, s);
    return 0;
  }
  Expr *x = coerce(s, a, w, site);
  if (isC(x)) return 0;
  switch (k) {
    case 2: return shadow(mk(ITE, w, mk(SLT, 1, x, C(0, w)), mk(SUB, w, C(0, w), x), x));
    case 4: { Expr *r = C(0, w); for (int i = 0; i < w; i++) r = mk(ADD, w, r, mk(AND, w, mk(LSHR, w, x, C(i, w)), C(1, w))); return shadow(r); }
    case 5: { Expr *r = C(w, w); for (int i = 0; i < w; i++) r = mk(ITE, w, mk(EQ, 1, mk(AND, w, x, C(1ULL << i, w)), C(0, w)), r, C(w - 1 - i, w)); return shadow(r); }
    case 6: { Expr *r = C(w, w); for (int i = w - 1; i >= 0; i--) r = mk(ITE, w, mk(EQ, 1, mk(AND, w, x, C(1ULL << i, w)), C(0, w)), r, C(i, w)); return shadow(r); }
    case 7: { Expr *r = mk(EXTRACT, 8, x, 0, 0, 0); for (int i = 8; i < w; i += 8) r = mk(CONCAT, i + 8, r, mk(EXTRACT, 8, x, 0, 0, i)); return shadow(r); }
  }
  fallback("int function", site, s);
  return 0;
}
void *__sx_fun2(u32 k, u32 ty, u64 a, void *sa_, u64 b, void *sb_, u32 site) {
  RtGuard g; Expr *sa = (Expr *)sa_, *sb = (Expr *)sb_; int w = ty == 100 ? 32 : ty == 101 ? 64 : ty;
  if (ty >= 100) {
    if (k == 7 || k == 8) {
      FV x = fval(sa, a, w, site), y = fval(sb, b, w, site); int s;
      if (!x.fix && !y.fix) return 0;
      if (align(x, y, s)) {
        Expr *c = mk(SLT, 1, x.m, y.m), *m = k == 7 ? mk(ITE, 64, c, y.m, x.m) : mk(ITE, 64, c, x.m, y.m);
        if (rangeOK(m, w)) return shadow(mkFix(m, s, w));
      }
    }
    fallback("float function 2", site, sa); fallback("float function 2", site + 1, sb); return 0;
  }
  Expr *x = coerce(sa, a, w, site), *y = coerce(sb, b, w, site);
  switch (k) {
    case 1: return shadow(mk(ITE, w, mk(SLT, 1, x, y), y, x));
    case 2: return shadow(mk(ITE, w, mk(SLT, 1, x, y), x, y));
    case 3: return shadow(mk(ITE, w, mk(ULT, 1, x, y), y, x));
    case 4: return shadow(mk(ITE, w, mk(ULT, 1, x, y), x, y));
    case 5: { Expr *r = mk(ADD, w, x, y); return shadow(mk(ITE, w, mk(ULT, 1, r, x), C(~0ULL, w), r)); }
    case 6: return shadow(mk(ITE, w, mk(ULT, 1, x, y), C(0, w), mk(SUB, w, x, y)));
  }
  fallback("int function 2", site, sa); fallback("int function 2", site + 1, sb);
  return 0;
}
void *__sx_ovf(u32 kind, u32 ty, u64 a, void *sa_, u64 b, void *sb_, u32 site) {
  RtGuard g; int w = ty; Expr *x = coerce((Expr *)sa_, a, w, site), *y = coerce((Expr *)sb_, b, w, site);
  auto fits = [&](i128 l, i128 h) { return fitsS(l, w) && fitsS(h, w); };
  switch (kind) {
    case 1: return shadow(mk(ULT, 1, mk(ADD, w, x, y), x));
    case 2: return shadow(mk(ULT, 1, x, y));
    case 0: {
      if (x->lo >= 0 && y->lo >= 0 && (i128)x->hi * y->hi <= (i128)mask(w)) return 0;
      if (isC(y) && y->val) return shadow(mk(ULT, 1, C(mask(w) / y->val, w), x));
      if (isC(x) && x->val) return shadow(mk(ULT, 1, C(mask(w) / x->val, w), y));
      break; }
    case 4: if (fits((i128)x->lo + y->lo, (i128)x->hi + y->hi)) return 0; break;
    case 5: if (fits((i128)x->lo - y->hi, (i128)x->hi - y->lo)) return 0; break;
    case 3: { i128 p[4] = {(i128)x->lo * y->lo, (i128)x->lo * y->hi, (i128)x->hi * y->lo, (i128)x->hi * y->hi};
      if (fits(*std::min_element(p, p + 4), *std::max_element(p, p + 4))) return 0; break; }
  }
  if (kind == 4 || kind == 5) {
    Expr *r = mk(kind == 4 ? ADD : SUB, w, x, y), *z = C(0, w);
    Expr *sx = mk(SLT, 1, x, z), *sy = mk(SLT, 1, y, z), *sr = mk(SLT, 1, r, z);
    Expr *same = mk(EQ, 1, sx, sy); if (kind == 5) same = mkNot(same);
    return shadow(mk(AND, 1, same, mkNot(mk(EQ, 1, sx, sr))));
  }
  fallback("mul overflow", site, (Expr *)sa_); fallback("mul overflow", site + 1, (Expr *)sb_);
  return 0;
}
void *__sx_fma(u32 ty, u64 a, void *sa, u64 b, void *sb, u64 c, void *sc, u32 site) {
  RtGuard g;
  int w = ty == 100 ? 32 : 64;
  Expr *p = (Expr *)fbinop(OP_FMUL, w, a, (Expr *)sa, b, (Expr *)sb, site);
  double ab = bitsd(a, w) * bitsd(b, w); u64 abb = w == 32 ? fbits((float)ab) : dbits(ab);
  if (!p && !sc) return 0;
  return fbinop(OP_FADD, w, abb, p, c, (Expr *)sc, site + 7);
}
void *__sx_fsh(u32 left, u32 ty, u64 a, void *sa, u64 b, void *sb, u64 c) {
  RtGuard g; int w = ty; Expr *x = coerce((Expr *)sa, a, w, 0), *y = coerce((Expr *)sb, b, w, 0);
  int k = c % w; if (!left) k = (w - k) % w;
  if (!left && k == 0 && c % w == 0) return shadow(y);
  if (k == 0) return shadow(left ? x : y);
  return shadow(mk(OR, w, mk(SHL, w, x, C(k, w)), mk(LSHR, w, y, C(w - k, w))));
}
// ---- memory
static u64 rd(u64 a, u32 n) { u64 v = 0; memcpy(&v, (void *)a, n); return v; }
// a fixed-point term does not distinguish the two zeros
static bool negZero(Expr *e, u8 ix, u8 actual) { return e->op == FIX && e->val == 0 && ix == e->w / 8 - 1 && actual == 0x80; }
static Expr *loadExpr(u64 a, u32 n, bool &fixpart) {
  // returns BV of width 8n (or the FIX expr itself), or null
  u8 ix[8]; Expr *e[8]; bool any = false;
  for (u32 i = 0; i < n; i++) {
    e[i] = getByte(a + i, ix[i]);
    if (e[i]) {
      if (e[i]->fixed) { e[i] = 0; continue; }
      u8 actual = *(u8 *)(a + i);
      if (actual != (u8)(e[i]->val >> (8 * ix[i])) && !negZero(e[i], ix[i], actual)) { e[i] = 0; setByte(a + i, 0, 0); st.stale++; continue; }
      any = true;
    }
  }
  if (!any) return 0;
  bool whole = e[0] && e[0]->w == 8 * n;
  for (u32 i = 0; i < n && whole; i++) if (e[i] != e[0] || ix[i] != i) whole = false;
  if (whole) return e[0];
  Expr *r = 0;
  for (u32 i = 0; i < n; i++) {
    Expr *b;
    if (e[i] && e[i]->op == FIX) { fallback("partial float load", 77 + i, e[i]); e[i] = 0; }
    if (e[i]) b = mk(EXTRACT, 8, nf(e[i]), 0, 0, 8 * ix[i]);
    else b = C(*(u8 *)(a + i), 8);
    r = r ? mk(CONCAT, 8 * (i + 1), b, r) : b;
  }
  return isC(r) ? 0 : r;
}
void *__sx_load(void *p, u32 n, u32 ty) {
  RtGuard g;
  if (!running) return 0;
  bool fp = false;
  Expr *e = loadExpr((u64)p, n, fp);
  if (!e) return 0;
  if (e->op == FIX) return shadow(e);
  int w = ty >= 100 ? (ty == 100 ? 32 : 64) : ty;
  if (e->w > w) e = mk(EXTRACT, w, e, 0, 0, 0);
  return shadow(e);
}
void __sx_store(void *p, u32 n, void *s) {
  RtGuard g; u64 a = (u64)p; Expr *e = (Expr *)s;
  if (e && (isC(e) || (e->fixed))) e = 0;
  if (e && e->op != FIX && e->w < 8 * n) e = mk(ZEXT, 8 * n, e);
  if (e && isC(e)) e = 0;
  for (u32 i = 0; i < n; i++) setByte(a + i, e, i);
}
void __sx_clear(void *p, u64 n) {
  u64 a = (u64)p, end = a + n;
  while (a < end) {
    u64 pe = std::min(end, (a | 4095) + 1);
    if (tagged(a)) { Page *pg = findPage(a, false); if (pg) { memset(&pg->e[a & 4095], 0, (pe - a) * sizeof(Expr *)); } }
    a = pe;
  }
}
static bool anyTag(u64 a, u64 n) { for (u64 x = a & ~4095ULL; x < a + n; x += 4096) if (tagged(x)) return true; return false; }
void __sx_memcpy(void *d, void *s, u64 n) {
  if (!n) return;
  u64 a = (u64)d, b = (u64)s;
  if (!anyTag(a, n) && !anyTag(b, n)) return;
  RtGuard g;
  if (!anyTag(b, n)) { __sx_clear(d, n); return; }
  if (a <= b) for (u64 i = 0; i < n; i++) { u8 ix = 0; Expr *e = getByte(b + i, ix); setByte(a + i, e, ix); }
  else for (u64 i = n; i-- > 0;) { u8 ix = 0; Expr *e = getByte(b + i, ix); setByte(a + i, e, ix); }
}
void __sx_memset(void *d, u64 v, void *s_, u64 n) {
  if (!n) return;
  Expr *s = (Expr *)s_;
  if (!s || s->fixed) { __sx_clear(d, n); return; }
  RtGuard g;
  Expr *b = s; if (b->w > 8) b = mk(EXTRACT, 8, b, 0, 0, 0);
  if (isC(b)) { __sx_clear(d, n); return; }
  for (u64 i = 0; i < n; i++) setByte((u64)d + i, b, 0);
}
void __sx_byval(void *d, void *s, u64 n) { if (s) __sx_memcpy(d, s, n); else __sx_clear(d, n); }
void __sx_concmem(void *p, u64 n, u32 site) {
  if (!anyTag((u64)p, n)) return;
  RtGuard g;
  for (u64 i = 0; i < n; i++) {
    u8 ix; Expr *e = getByte((u64)p + i, ix);
    if (!e || e->fixed) continue;
    if (*((u8 *)p + i) != (u8)(e->val >> (8 * ix)) && !negZero(e, ix, *((u8 *)p + i))) { setByte((u64)p + i, 0, 0); st.stale++; continue; }
    if (e->op == FIX) concretize(e, site + i);
    else { Expr *b = mk(EXTRACT, 8, nf(e), 0, 0, 8 * ix); if (!isC(b)) concretize(b, site + i); }
  }
}
static bool mapped(u64 lo, u64 hi) { for (u64 p = lo & ~4095ULL; p <= hi; p += 4096) if (msync((void *)p, 4096, MS_ASYNC) != 0) return false; return true; }
// load through a symbolic address
void *__sx_loadsym(void *ps_, void *p, u32 n, u32 ty, u32 site) {
  RtGuard g; Expr *ps = (Expr *)ps_;
  if (ps->fixed) return 0;
  if (ps->op == FIX || ps->w != 64 || ps->val != (u64)p) engine_error("address mismatch");
  u64 step = 1;
  Expr *idx = ps; u64 base = 0;
  if (idx->op == ADD && isC(idx->k[1])) { base = idx->k[1]->val; idx = idx->k[0]; }
  if (idx->op == SHL && isC(idx->k[1])) { step = 1ULL << idx->k[1]->val; idx = idx->k[0]; }
  else if (idx->op == MUL && isC(idx->k[1])) { step = idx->k[1]->val; idx = idx->k[0]; }
  i64 lo = idx->lo, hi = idx->hi;
  if (ty < 100 && ty > 1 && lo >= -1024 && hi >= lo && hi - lo <= 600 && step <= 4096 && mapped(base + lo * step, base + hi * step + n - 1)) {
    bool shadowed = false;
    for (i64 j = lo; j <= hi && !shadowed; j++) for (u32 b = 0; b < n; b++) { u8 ix; Expr *e = getByte(base + j * step + b, ix);
      if (e && !e->fixed) shadowed = true; }
    if (!shadowed) {
      // runs of equal values
      int w = ty;
      Expr *r = 0; u64 cur = 0; i64 start = lo;
      std::vector<std::pair<i64, u64>> runs;   // (last index, value)
      for (i64 j = lo; j <= hi; j++) { u64 v = rd(base + j * step, n) & mask(w); if (runs.empty() || runs.back().second != v) runs.push_back({j, v}); else runs.back().first = j; }
      if (runs.size() <= 130) {
        (void)cur; (void)start;
        st.tableread++;
        r = C(runs.back().second, w);
        for (size_t k = runs.size() - 1; k-- > 0;) {
          // idx <= runs[k].first
          Expr *c = mkNot(mk(SLT, 1, C((u64)runs[k].first, 64), idx));
          r = mk(ITE, w, c, C(runs[k].second, w), r);
        }
        return shadow(r);
      }
    }
  }
  if (fallbacks->size() < 200) fallbacks->insert("symbolic address");
  concretize(ps, site);
  return 0;
}
void __sx_callarg(void *callee, void *s, u32 site) {
  RtGuard g;
  if (!s || ((Expr *)s)->fixed || isInst(callee)) return;
  fallback("argument of an uninstrumented function", site, (Expr *)s);
}
struct ExtDesc { u64 seen; const char *name; };
void __sx_ext(ExtDesc *d, void *callee) {
  d->seen = 1;
  RtGuard g;
  if (!running || isInst(callee)) return;
  std::string n = d->name;
  if (known_ext.count(n)) return;
  extnames->insert(n);
}
// ---- harness API
static Expr *argS(int i) { if (!__sx_args[i]) return 0; return (Expr *)__sx_args[i]; }
int64_t __sx_api_int(const char *name, int64_t lo, int64_t hi) {
  RtGuard g;
  if (hi <= lo) { __sx_retfn = 0; return lo; }
  u64 n = (u64)hi - (u64)lo;
  int w = 64 - __builtin_clzll(n);
  size_t id = vars->size();
  u64 v = id < inVals->size() ? (*inVals)[id] : 0;
  if (v > n) engine_error("input out of range: %s id %zu v %llu n %llu nin %zu", name, id, (unsigned long long)v, (unsigned long long)n, inVals->size());
  Expr *x = cons(VAR, w, id + 1, 0, 0, 0, v);
  if (w == 1) { x->lo = 0; x->hi = 1; } else { x->lo = n <= (u64)smax(w) ? 0 : smin(w); x->hi = n <= (u64)smax(w) ? (i64)n : smax(w); }
  vars->push_back({name, x, n});
  Expr *e = mk(ZEXT, 64, x);
  if (w < 64) { e->lo = 0; e->hi = (i64)n; }
  if (lo != 0) e = mk(ADD, 64, e, C((u64)lo, 64));
  __sx_rets[0] = e; __sx_retfn = (void *)__sx_api_int;
  return (i64)((u64)lo + v);
}
int64_t __sx_api_char(const char *name, const char *alphabet) {
  int k = strlen(alphabet);
  int64_t i = __sx_api_int(name, 0, k - 1);
  if (k == 1) return (u8)alphabet[0];
  RtGuard g;
  Expr *x = vars->back().e, *e = C((u8)alphabet[k - 1], 64);
  for (int j = k - 1; j-- > 0;) e = mk(ITE, 64, mk(EQ, 1, x, C(j, x->w)), C((u8)alphabet[j], 64), e);
  __sx_rets[0] = e; __sx_retfn = (void *)__sx_api_char;
  return (u8)alphabet[i];
}
double __sx_api_fix(const char *name, int64_t lo, int64_t hi, int scale) {
  int64_t m = __sx_api_int(name, lo, hi);
  RtGuard g;
  if (hi > lo) { __sx_rets[0] = mkFix((Expr *)__sx_rets[0], scale, 64); __sx_retfn = (void *)__sx_api_fix; } else __sx_retfn = 0;
  return ldexp((double)m, -scale);
}
static Expr *condArg(int c) {
  Expr *e = argS(0);
  if (!e || e->fixed) return 0;
  if (e->w != 1) e = mkNot(mk(EQ, 1, e, C(0, e->w)));
  if (isC(e) || e->fixed) return 0;
  if ((e->val != 0) != (c != 0)) engine_error("cond mismatch");
  return e;
}
void __sx_api_assume(int c) {
  RtGuard g; Expr *e = condArg(c);
  if (!e) { if (!c) { running = false; flushAndExit(0); } return; }
  u32 site = 0xA55;
  if (c) { // constraint only; no alternative
    bool ex = enterDecision(); (void)ex;
    zassert(e); markFixed(e); leaveDecision(site, 1); return;
  }
  if (enterDecision()) {
    zpush(); zassert(e);
    if (check() == 1) emit(modelVals(), mix(mix(phash, site), 1));
    zpop();
  }
  running = false; flushAndExit(0);
}
static void violation(const char *msg, const std::vector<u64> &v) { out->push_back('V'); putStr(msg); putVals(v); putNames(); }
void __sx_api_assert(int c, const char *msg) {
  RtGuard g; Expr *e = condArg(c);
  st.asserts++;
  if (!e) { if (!c) { violation(msg, curVals()); running = false; flushAndExit(0); } return; }
  u32 site = 0xA56;
  st.asserts_q++;
  if (enterDecision()) {
    zpush(); zassert(mkNot(e));
    if (c) {
      int r = check();
      if (r == 1) violation(msg, modelVals());
      zpop();
      if (r != 0) zassert(e);
    } else {
      zpop();
      violation(msg, curVals());
      zpush(); zassert(e);
      if (check() == 1) emit(modelVals(), mix(mix(phash, site), 1));
      running = false; flushAndExit(0);
    }
  } else { if (!c) { running = false; flushAndExit(0); } zassert(e); }
  markFixed(e);
  leaveDecision(site, 1);
}
int64_t __sx_api_conc(int64_t v) { RtGuard g; Expr *e = argS(0); if (e && !e->fixed) { if (e->val != (u64)v) engine_error("conc mismatch"); concretize(e, 0xC0C); } __sx_retfn = 0; return v; }
double __sx_api_concd(double v) { RtGuard g; Expr *e = argS(0); if (e && !e->fixed) concretize(e, 0xC0D); __sx_retfn = 0; return v; }
void __sx_api_reach(const char *n) { RtGuard g; reached->insert(n); }
void __sx_api_note(const char *n) { RtGuard g; notes->insert(n); }
int __sx_api_tier(void) { __sx_retfn = 0; return tierv; }
void __sx_api_concbuf(const char *p, u64 n) { __sx_concmem((void *)p, n, 0xCB0); }
void __sx_api_stop(void) { RtGuard g; running = false; flushAndExit(0); }
}  // extern "C"

// ---------------------------------------------------------------- explorer
static void onSignal(int s) {
  if (getenv("SX_BT")) { void *bt[40]; in_rt++; int k = backtrace(bt, 40); backtrace_symbols_fd(bt, k, 2); in_rt--; }
  char b[64];
  if (s == SIGALRM || s == SIGXCPU) snprintf(b, sizeof b, "hang"); else if (s == SIGABRT) snprintf(b, sizeof b, "abort"); else snprintf(b, sizeof b, "signal %d", s);
  if (in_rt > 0) { in_rt = 1; if (s != SIGALRM) { running = running; char m[80]; snprintf(m, sizeof m, "in runtime: %s", b); if (running) { running = false; out->push_back('X'); putStr(m); putVals(curVals()); flushAndExit(1); } _exit(96); } 
    // timeout inside the solver: an incomplete path, not a finding
    running = false; out->push_back('T'); putStr("solver timeout"); putVals(curVals()); flushAndExit(1); }
  abnormal(b);
}
static void runChild(const Item &it, int fd, int timeout) {
  in_rt++;
  outfd = fd;
  out = new std::string(); vars = new std::vector<VarInfo>(); inVals = new std::vector<u64>(it.vals);
  reached = new std::set<std::string>(); extnames = new std::set<std::string>(); notes = new std::set<std::string>(); fallbacks = new std::set<std::string>();
  sites = new std::set<u32>();
  cons_ = new std::vector<Expr *>(); cmarks = new std::vector<size_t>(); zmodel = new std::vector<u64>();
  if (crossN) { u64 hh = it.bound * 0x9E3779B97F4A7C15ULL + it.hash; for (u64 v : it.vals) hh = (hh ^ v) * 0x9E3779B97F4A7C15ULL; if ((hh >> 32) % crossN == 0) cross = true; }
  bound = it.bound; dec = 0; phash = 0; expectHash = it.hash;
  if (const char *tr = getenv("SX_TRACE")) { trace = open((std::string(tr) + "." + std::to_string(getpid())).c_str(), O_CREAT | O_WRONLY, 0600); dprintf(trace, "bound %u vals", bound); for (u64 v : it.vals) dprintf(trace, " %llu", (unsigned long long)v); dprintf(trace, "\n"); }
  memset(&st, 0, sizeof st);
  static char altstack[1 << 16];
  stack_t ss; ss.ss_sp = altstack; ss.ss_size = sizeof altstack; ss.ss_flags = 0; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM, SIGXCPU}) sigaction(s, &sa, 0);
  alarm(timeout);
  int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); if (!getenv("SX_STDERR")) dup2(dn, 2);
  sx_fn f = (*harnesses)[curHarness];
  dbg("start");
  running = true;
  in_rt--;
  bool thrown = false; std::string what;
  try { f(); } catch (std::exception &e) { in_rt++; thrown = true; what = e.what(); in_rt--; } catch (...) { thrown = true; what = "unknown exception"; }
  in_rt++;
  running = false;
  if (thrown) { out->push_back('C'); putStr("uncaught exception: " + what); putVals(curVals()); putNames(); }
  flushAndExit(0);
}
struct Rd { const char *p, *e; bool ok = true;
  void get(void *d, size_t n) { if ((size_t)(e - p) < n) { ok = false; memset(d, 0, n); p = e; return; } memcpy(d, p, n); p += n; }
  u32 g32() { u32 v; get(&v, 4); return v; } u64 g64() { u64 v; get(&v, 8); return v; }
  std::string str() { u32 n = g32(); if ((size_t)(e - p) < n) { ok = false; p = e; return ""; } std::string s(p, n); p += n; return s; }
  std::vector<u64> vals() { u32 n = g32(); std::vector<u64> v(std::min<u64>(n, (e - p) / 8)); get(v.data(), v.size() * 8); return v; } };
static std::string jstr(const std::string &s) { std::string r = "\""; for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static std::string jvals(const std::vector<u64> &v) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) { if (i) r += ","; r += std::to_string(v[i]); } return r + "]"; }
struct Cand { char kind; std::string msg; std::vector<u64> vals; std::string names; };

int main(int argc, char **argv) {
  in_rt++;
  if (!getenv("SX_NOASLR")) {
    setenv("SX_NOASLR", "1", 1);
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
  }
  int jobs = 8, timeout = 60; double budget = 60; u64 maxPaths = 1ULL << 60; u32 rlimit = 0; const char *outp = 0; unsigned seed = 1; bool rnd = false; size_t maxCand = 12;
  std::vector<std::string> names;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "-j") jobs = atoi(argv[++i]); else if (a == "-t") budget = atof(argv[++i]); else if (a == "-o") outp = argv[++i];
    else if (a == "-p") maxPaths = atoll(argv[++i]); else if (a == "--tier") tierv = atoi(argv[++i]); else if (a == "--path-timeout") timeout = atoi(argv[++i]);
    else if (a == "--rlimit") rlimit = atoi(argv[++i]); else if (a == "--maxconc") maxConc = atoi(argv[++i]); else if (a == "--seed") { seed = atoi(argv[++i]); } else if (a == "--random") rnd = true;
    else if (a == "--max-cand") maxCand = atoi(argv[++i]);
    else if (a == "--list") { for (auto &n : *hnames) printf("%s\n", n.c_str()); return 0; }
    else names.push_back(a);
  }
  curHarness = names.empty() ? (*hnames)[0] : names[0];
  if (!harnesses || !harnesses->count(curHarness)) { fprintf(stderr, "no harness %s\n", curHarness.c_str()); return 2; }
  instSet = new std::unordered_set<void *>();
  for (size_t t = 0; t < nftab; t++) for (u64 i = 0; i < ftabs[t].n; i++) { instSet->insert(ftabs[t].rows[i].fn); }
  const char *lg = getenv("SX_SOLVER");
  if (lg && !strcmp(lg, "z3")) backend = 1; if (lg && !strcmp(lg, "cross")) cross = true; if (lg && !strcmp(lg, "smt")) zsmt = true;
  zrlimit = rlimit; if (const char *cn = getenv("SX_CROSS")) crossN = atoi(cn);
  satInit();
  if (backend == 1 || cross) zinit();
  double t0 = now();
  srand(seed);
  std::vector<Item> queue; queue.push_back(Item{0, 0, {}});
  struct Kid { pid_t pid; int fd; std::string buf; std::vector<u64> vals; };
  std::vector<Kid> kids;
  u64 paths = 0, started = 0, errors = 0, timeouts = 0, lost = 0; Stats tot; memset(&tot, 0, sizeof tot);
  u32 maxDec = 0; size_t maxVars = 0;
  std::map<std::string, u64> reach; std::set<std::string> ext, notesAll, fbAll, errs; std::set<u32> siteAll;
  std::set<std::pair<u32, u32>> fns; std::vector<Cand> cands; std::map<std::string, int> candByMsg; std::vector<std::vector<u64>> samples;
  bool stop = false, outOfTime = false;
  while (!(kids.empty() && (queue.empty() || stop))) {
    if (now() - t0 > budget) { stop = true; outOfTime = true; }
    if (started >= maxPaths) stop = true;
    while (!stop && !queue.empty() && (int)kids.size() < jobs) {
      size_t ix = queue.size() - 1;
      if (rnd) ix = rand() % queue.size();
      Item it = queue[ix]; if (ix + 1 != queue.size()) queue[ix] = queue.back(); queue.pop_back();
      int fd[2]; if (pipe(fd)) { perror("pipe"); return 2; }
      fflush(stdout);
      pid_t pid = fork();
      if (pid < 0) { queue.push_back(it); close(fd[0]); close(fd[1]); if (kids.empty()) usleep(10000); break; }
      if (pid == 0) { close(fd[0]); in_rt--; runChild(it, fd[1], timeout); _exit(0); }
      close(fd[1]); started++;
      kids.push_back(Kid{pid, fd[0], "", it.vals});
    }
    if (kids.empty()) continue;
    std::vector<pollfd> pf; for (auto &k : kids) pf.push_back({k.fd, POLLIN, 0});
    poll(pf.data(), pf.size(), 200);
    for (size_t i = kids.size(); i-- > 0;) {
      if (!(pf[i].revents & (POLLIN | POLLHUP | POLLERR))) { if (outOfTime && now() - t0 > budget + 5) { kill(kids[i].pid, SIGKILL); } continue; }
      char b[65536]; ssize_t n = read(kids[i].fd, b, sizeof b);
      if (n > 0) { kids[i].buf.append(b, n); continue; }
      if (n < 0 && errno == EINTR) continue;
      int status; waitpid(kids[i].pid, &status, 0); close(kids[i].fd);
      Kid k = std::move(kids[i]); kids.erase(kids.begin() + i);
      Rd r{k.buf.data(), k.buf.data() + k.buf.size()};
      bool ended = false; paths++;
      while (r.p < r.e && r.ok && !ended) {
        char t = *r.p++;
        if (t == 'I') { Item it; it.bound = r.g32(); it.hash = r.g64(); it.vals = r.vals(); maxVars = std::max(maxVars, it.vals.size()); queue.push_back(std::move(it)); }
        else if (t == 'V' || t == 'C') { Cand c; c.kind = t; c.msg = r.str(); c.vals = r.vals(); c.names = r.str(); if (candByMsg[c.msg]++ < 6) cands.push_back(c); }
        else if (t == 'X') { std::string m = r.str(); std::vector<u64> v = r.vals(); errors++; if (errs.size() < 20) errs.insert(m + " vals=" + jvals(v)); }
        else if (t == 'T') { r.str(); r.vals(); timeouts++; }
        else if (t == 'S') {
          Stats s; r.get(&s, sizeof s); u64 *a = (u64 *)&tot, *bb = (u64 *)&s; for (size_t q = 0; q < sizeof(Stats) / 8; q++) a[q] += bb[q];
          maxDec = std::max(maxDec, r.g32());
          u32 m = r.g32(); while (m--) reach[r.str()]++;
          m = r.g32(); while (m--) { std::string x = r.str(); ext.insert(x); known_ext.insert(x); }
          m = r.g32(); while (m--) notesAll.insert(r.str());
          m = r.g32(); while (m--) fbAll.insert(r.str());
          m = r.g32(); while (m--) siteAll.insert(r.g32());
          m = r.g32(); while (m--) { u32 t1 = r.g32(), i1 = r.g32(); fns.insert({t1, i1}); if (t1 < nftab && i1 < ftabs[t1].n) ftabs[t1].flags[i1] = 2; }
        } else if (t == 'E') ended = true;
        else { r.ok = false; }
      }
      if (!ended) { lost++; if (const char *dl = getenv("SX_LOST")) { FILE *f = fopen((std::string(dl) + "." + std::to_string(lost)).c_str(), "w"); fprintf(f, "status %x vals %s\n", status, jvals(k.vals).c_str()); fwrite(k.buf.data(), 1, k.buf.size(), f); fclose(f); } }
      if (samples.size() < 5 && (paths % 7 == 1)) samples.push_back(k.vals);
      if (candByMsg.size() >= maxCand || cands.size() >= 40) stop = true;
    }
    static double lastp = 0;
    if (getenv("SX_PROGRESS") && now() - lastp > 2) { lastp = now(); fprintf(stderr, "[%s %.0fs] paths=%llu queue=%zu queries=%llu solver=%.1fs errors=%llu cands=%zu\n", curHarness.c_str(), now() - t0, (unsigned long long)paths, queue.size(), (unsigned long long)tot.queries, tot.solver_us / 1e6, (unsigned long long)errors, cands.size()); }
  }
  bool complete = queue.empty() && !errors && !lost && !timeouts && !tot.unknown && !tot.overflow && !outOfTime;
  std::string js = "{";
  auto num = [&](const char *k, double v) { char b[128]; snprintf(b, sizeof b, "\"%s\": %.17g, ", k, v); js += b; };
  js += "\"harness\": " + jstr(curHarness) + ", \"complete\": " + (complete ? "true" : "false") + ", ";
  num("paths", paths); num("queue_left", queue.size()); num("engine_errors", errors); num("lost_runs", lost); num("solver_timeouts", timeouts);
  num("decisions", tot.dec); num("queries", tot.queries); num("sat", tot.sat); num("unsat", tot.unsat); num("unknown", tot.unknown); num("z3_queries", tot.z3q);
  num("solver_s", tot.solver_us / 1e6); num("concretisations", tot.conc); num("concretised_values", tot.concvals); num("conc_overflow", tot.overflow);
  num("stale_shadows", tot.stale); num("expressions", tot.exprs); num("asserts", tot.asserts); num("assert_queries", tot.asserts_q); num("table_reads", tot.tableread);
  num("max_decisions", maxDec); num("max_vars", maxVars); num("branch_sites", siteAll.size()); num("wall_s", now() - t0);
  auto sset = [&](const char *k, std::set<std::string> &s) { js += std::string("\"") + k + "\": ["; bool f = true; for (auto &x : s) { if (!f) js += ","; f = false; js += jstr(x); } js += "], "; };
  js += "\"reach\": {"; { bool f = true; for (auto &x : reach) { if (!f) js += ","; f = false; js += jstr(x.first) + ":" + std::to_string(x.second); } } js += "}, ";
  sset("externals", ext); sset("notes", notesAll); sset("fallbacks", fbAll); sset("errors", errs);
  js += "\"functions\": ["; { bool f = true; for (auto &x : fns) { FRow &row = ftabs[x.first].rows[x.second]; if (!f) js += ","; f = false; js += "[" + jstr(row.name) + "," + jstr(row.file) + "," + std::to_string(row.line) + "," + std::to_string(row.ninst) + "]"; } } js += "], ";
  js += "\"samples\": ["; for (size_t i = 0; i < samples.size(); i++) { if (i) js += ","; js += jvals(samples[i]); } js += "], ";
  js += "\"candidates\": ["; for (size_t i = 0; i < cands.size(); i++) { if (i) js += ","; js += "{\"kind\": \"" + std::string(1, cands[i].kind) + "\", \"msg\": " + jstr(cands[i].msg) + ", \"vals\": " + jvals(cands[i].vals) + ", \"names\": " + jstr(cands[i].names) + "}"; } js += "]}";
  if (outp) { FILE *f = fopen(outp, "w"); if (f) { fputs(js.c_str(), f); fputc('\n', f); fclose(f); } } else printf("%s\n", js.c_str());
  return 0;
}
