// Bit-blasting back end: expressions -> CNF -> MiniSat, incremental through assumptions.
// Terms are blasted at the narrowest width their interval allows (see sbits()).
typedef Minisat::Lit Lit;
typedef std::vector<Lit> BV;
static Minisat::Solver *S = 0;
static Lit LT, LF;
static std::unordered_map<u64, Lit> *gates = 0;
static std::unordered_map<u64, Lit> *muxes = 0;
static std::unordered_map<u32, BV> *bitsOf = 0;
static std::unordered_map<u32, Lit> *litOf = 0;
static std::vector<Lit> *assum = 0; static std::vector<size_t> *amarks = 0;
static void satInit() {
  S = new Minisat::Solver(); gates = new std::unordered_map<u64, Lit>(); muxes = new std::unordered_map<u64, Lit>();
  bitsOf = new std::unordered_map<u32, BV>(); litOf = new std::unordered_map<u32, Lit>();
  assum = new std::vector<Lit>(); amarks = new std::vector<size_t>();
  LT = Minisat::mkLit(S->newVar()); LF = ~LT; S->addClause(LT);
}
static Lit fresh() { return Minisat::mkLit(S->newVar()); }
static Lit gAnd(Lit a, Lit b) {
  if (a == LF || b == LF || a == ~b) return LF;
  if (a == LT || a == b) return b;
  if (b == LT) return a;
  if (b < a) std::swap(a, b);
  u64 key = ((u64)Minisat::toInt(a) << 32) | (u32)Minisat::toInt(b);
  auto it = gates->find(key); if (it != gates->end()) return it->second;
  Lit g = fresh();
  S->addClause(~g, a); S->addClause(~g, b); S->addClause(g, ~a, ~b);
  return (*gates)[key] = g;
}
static Lit gOr(Lit a, Lit b) { return ~gAnd(~a, ~b); }
static Lit gXor(Lit a, Lit b) {
  if (a == LF) return b; if (b == LF) return a;
  if (a == LT) return ~b; if (b == LT) return ~a;
  if (a == b) return LF; if (a == ~b) return LT;
  bool s = Minisat::sign(a) ^ Minisat::sign(b);
  a = Minisat::mkLit(Minisat::var(a)); b = Minisat::mkLit(Minisat::var(b));
  if (b < a) std::swap(a, b);
  u64 key = ((u64)Minisat::toInt(a) << 32) | (u32)Minisat::toInt(b) | (1ULL << 63);
  auto it = gates->find(key); Lit g;
  if (it != gates->end()) g = it->second;
  else {
    g = fresh();
    S->addClause(~g, a, b); S->addClause(~g, ~a, ~b); S->addClause(g, ~a, b); S->addClause(g, a, ~b);
    (*gates)[key] = g;
  }
  return s ? ~g : g;
}
static Lit gMux(Lit c, Lit t, Lit e) {
  if (c == LT || t == e) return t;
  if (c == LF) return e;
  if (t == LT || t == c) return gOr(c, e);
  if (t == LF || t == ~c) return gAnd(~c, e);
  if (e == LF || e == c) return gAnd(c, t);
  if (e == LT || e == ~c) return gOr(~c, t);
  if (t == ~e) return gXor(c, e);
  if (Minisat::sign(c)) { c = ~c; std::swap(t, e); }
  u64 key = mix(mix(mix(7, Minisat::toInt(c)), Minisat::toInt(t)), Minisat::toInt(e));
  // exact key: three literals below 2^21 each
  if (Minisat::toInt(c) < (1 << 21) && Minisat::toInt(t) < (1 << 21) && Minisat::toInt(e) < (1 << 21)) {
    key = ((u64)Minisat::toInt(c) << 42) | ((u64)Minisat::toInt(t) << 21) | (u64)Minisat::toInt(e);
    auto it = muxes->find(key); if (it != muxes->end()) return it->second;
  } else key = 0;
  Lit g = fresh();
  S->addClause(~c, ~t, g); S->addClause(~c, t, ~g); S->addClause(c, ~e, g); S->addClause(c, e, ~g);
  S->addClause(~t, ~e, g); S->addClause(t, e, ~g);
  if (key) (*muxes)[key] = g;
  return g;
}
static BV cbits(u64 v, int n) { BV r(n); for (int i = 0; i < n; i++) r[i] = (i < 64 ? (v >> i) & 1 : (v >> 63) & 1) ? LT : LF; return r; }
static BV bAdd(const BV &a, const BV &b, Lit c) {
  BV r(a.size());
  for (size_t i = 0; i < a.size(); i++) { Lit x = gXor(a[i], b[i]); r[i] = gXor(x, c); c = gMux(x, c, a[i]); }
  return r;
}
static BV bNot(BV a) { for (auto &l : a) l = ~l; return a; }
static BV bNeg(const BV &a) { return bAdd(bNot(a), cbits(0, a.size()), LT); }
static BV bMux(Lit c, const BV &t, const BV &e) { BV r(t.size()); for (size_t i = 0; i < t.size(); i++) r[i] = gMux(c, t[i], e[i]); return r; }
static Lit bEq(const BV &a, const BV &b) { Lit r = LT; for (size_t i = 0; i < a.size(); i++) r = gAnd(r, ~gXor(a[i], b[i])); return r; }
static Lit bUlt(const BV &a, const BV &b) { Lit r = LF; for (size_t i = 0; i < a.size(); i++) r = gMux(gXor(a[i], b[i]), b[i], r); return r; }
static Lit bSlt(BV a, BV b) { size_t n = a.size() - 1; a[n] = ~a[n]; b[n] = ~b[n]; return bUlt(a, b); }
static BV bMul(const BV &a, const BV &b) {
  size_t n = a.size(); BV r = cbits(0, n);
  for (size_t i = 0; i < n; i++) {
    if (b[i] == LF) continue;
    BV p(n, LF); for (size_t k = i; k < n; k++) p[k] = gAnd(a[k - i], b[i]);
    r = bAdd(r, p, LF);
  }
  return r;
}
static void bDivRem(const BV &a, const BV &b, BV &q, BV &r) {
  size_t n = a.size(); q.assign(n, LF); r.assign(n, LF);
  for (size_t i = n; i-- > 0;) {
    BV s(n + 1); s[0] = a[i]; for (size_t k = 0; k < n; k++) s[k + 1] = r[k];
    BV b1 = b; b1.push_back(LF);
    Lit ge = ~bUlt(s, b1);
    BV d = bAdd(s, bNot(b1), LT);
    BV x = bMux(ge, d, s); x.pop_back();
    q[i] = ge; r = x;
  }
}
static BV bShift(const BV &a, const BV &amt, int kind) {   // 0 shl, 1 lshr, 2 ashr
  size_t n = a.size(); Lit fill = kind == 2 ? a[n - 1] : LF; BV r = a; Lit big = LF;
  for (size_t k = 0; k < amt.size(); k++) {
    if (k >= 7 || (1ULL << k) >= n) { big = gOr(big, amt[k]); continue; }
    size_t s = 1ULL << k; BV t(n);
    for (size_t i = 0; i < n; i++) t[i] = kind == 0 ? (i >= s ? r[i - s] : LF) : (i + s < n ? r[i + s] : fill);
    r = bMux(amt[k], t, r);
  }
  return bMux(big, BV(n, fill), r);
}
static Lit lit(Expr *e);
static const BV &bits(Expr *e);
static BV ext(Expr *e, int n) {
  BV b = bits(e);
  if ((int)b.size() > n) b.resize(n);
  else { Lit s = b.back(); while ((int)b.size() < n) b.push_back(s); }
  return b;
}
static BV cut(BV b, int n, Lit fill) { if ((int)b.size() > n) b.resize(n); while ((int)b.size() < n) b.push_back(fill); return b; }
static Lit lit(Expr *e) {
  if (e->op == CONST) return e->val ? LT : LF;
  auto it = litOf->find(e->id); if (it != litOf->end()) return it->second;
  Expr *a = e->k[0], *b = e->k[1], *c = e->k[2]; Lit r = LF;
  switch (e->op) {
    case VAR: r = fresh(); S->setPolarity(Minisat::var(r), Minisat::lbool(e->val == 0)); break;
    case NOT: r = ~lit(a); break;
    case EQ: case ULT: case SLT:
      if (a->w == 1) { Lit x = lit(a), y = lit(b); r = e->op == EQ ? ~gXor(x, y) : e->op == ULT ? gAnd(~x, y) : gAnd(x, ~y); break; }
      else {
        int n = std::max(sbits(a), sbits(b));
        if (e->op == EQ) r = bEq(ext(a, n), ext(b, n));
        else if (e->op == SLT || (a->lo >= 0 && b->lo >= 0)) r = bSlt(ext(a, n), ext(b, n));
        else r = bUlt(ext(a, a->w), ext(b, b->w));
      }
      break;
    case ITE: r = gMux(lit(a), lit(b), lit(c)); break;
    case EXTRACT: r = ext(a, e->aux + 1)[e->aux]; break;
    case AND: case MUL: r = gAnd(lit(a), lit(b)); break;
    case OR: r = gOr(lit(a), lit(b)); break;
    case XOR: case ADD: case SUB: r = gXor(lit(a), lit(b)); break;
    default: engine_error("blast: bool op %d", e->op);
  }
  return (*litOf)[e->id] = r;
}
static const BV &bits(Expr *e) {
  auto it = bitsOf->find(e->id); if (it != bitsOf->end()) return it->second;
  Expr *a = e->k[0], *b = e->k[1], *c = e->k[2]; int n = sbits(e); BV r;
  switch (e->op) {
    case CONST: r = cbits(e->val, n); break;
    case VAR: {
      r.resize(e->w); for (int i = 0; i < e->w; i++) { r[i] = fresh(); S->setPolarity(Minisat::var(r[i]), Minisat::lbool(!((e->val >> i) & 1))); }
      u64 mx = (*vars)[e->aux - 1].n;
      if (mx != mask(e->w)) { Lit ok = ~bUlt(cbits(mx, e->w), r); S->addClause(ok); }
      r.resize(n); break; }
    case NOT: r = bNot(ext(a, n)); break;
    case ADD: r = bAdd(ext(a, n), ext(b, n), LF); break;
    case SUB: r = bAdd(ext(a, n), bNot(ext(b, n)), LT); break;
    case MUL: { BV x = ext(a, n), y = ext(b, n); r = isC(a) ? bMul(y, x) : bMul(x, y); break; }
    case AND: { BV x = ext(a, n), y = ext(b, n); r.resize(n); for (int i = 0; i < n; i++) r[i] = gAnd(x[i], y[i]); break; }
    case OR: { BV x = ext(a, n), y = ext(b, n); r.resize(n); for (int i = 0; i < n; i++) r[i] = gOr(x[i], y[i]); break; }
    case XOR: { BV x = ext(a, n), y = ext(b, n); r.resize(n); for (int i = 0; i < n; i++) r[i] = gXor(x[i], y[i]); break; }
    case ITE: r = bMux(lit(a), ext(b, n), ext(c, n)); break;
    case ZEXT: if (a->w == 1) { r = BV(n, LF); r[0] = lit(a); } else r = n <= a->w ? ext(a, n) : cut(ext(a, a->w), n, LF); break;
    case SEXT: if (a->w == 1) r = BV(n, lit(a)); else r = ext(a, n); break;
    case EXTRACT: { BV x = ext(a, std::min<int>(a->w, e->aux + n)); r.assign(x.begin() + e->aux, x.end()); break; }
    case CONCAT: { BV l = b->w == 1 ? BV(1, lit(b)) : ext(b, b->w); BV h = a->w == 1 ? BV(1, lit(a)) : ext(a, a->w); l.insert(l.end(), h.begin(), h.end()); r = cut(l, n, LF); break; }
    case SHL: if (isC(b)) { u64 s = b->val; BV x = ext(a, n); r.resize(n); for (int i = 0; i < n; i++) r[i] = s <= (u64)i ? x[i - s] : LF; } else r = cut(bShift(ext(a, e->w), ext(b, e->w), 0), n, LF); break;
    case LSHR: if (isC(b)) { BV x = ext(a, e->w); u64 s = b->val; BV y(e->w); for (int i = 0; i < e->w; i++) y[i] = s < (u64)(e->w - i) ? x[i + s] : LF; r = cut(y, n, LF); } else r = cut(bShift(ext(a, e->w), ext(b, e->w), 1), n, LF); break;
    case ASHR: if (isC(b)) { BV x = ext(a, e->w); u64 s = b->val; BV y(e->w); for (int i = 0; i < e->w; i++) y[i] = s < (u64)(e->w - i) ? x[i + s] : x.back(); r = cut(y, n, LF); } else r = cut(bShift(ext(a, e->w), ext(b, e->w), 2), n, LF); break;
    case UDIV: case UREM: {
      int k = a->lo >= 0 && b->lo > 0 ? std::max(sbits(a), sbits(b)) : e->w;
      BV q, m; bDivRem(ext(a, k), ext(b, k), q, m); r = cut(e->op == UDIV ? q : m, n, LF); break; }
    case SDIV: case SREM: {
      int k = b->lo > 0 ? std::max(sbits(a), sbits(b)) : e->w;
      BV x = ext(a, k), y = ext(b, k), q, m; Lit sx = x.back(), sy = y.back();
      bDivRem(bMux(sx, bNeg(x), x), bMux(sy, bNeg(y), y), q, m);
      BV v = e->op == SDIV ? bMux(gXor(sx, sy), bNeg(q), q) : bMux(sx, bNeg(m), m);
      r = cut(v, n, v.back()); break; }
    default: engine_error("blast: op %d", e->op);
  }
  if ((int)r.size() != n) engine_error("blast: op %d width %zu for %d", e->op, r.size(), n);
  return (*bitsOf)[e->id] = r;
}
// values of the inputs in the last model
static std::vector<u64> satModel() {
  std::vector<u64> v;
  for (auto &x : *vars) {
    u64 val = x.e->val;
    if (x.e->w == 1) { auto it = litOf->find(x.e->id); if (it != litOf->end()) val = S->modelValue(it->second) == Minisat::lbool((uint8_t)0); }
    else { auto it = bitsOf->find(x.e->id); if (it != bitsOf->end()) { val = 0; for (size_t i = 0; i < it->second.size(); i++) if (S->modelValue(it->second[i]) == Minisat::lbool((uint8_t)0)) val |= 1ULL << i; } }
    v.push_back(val);
  }
  return v;
}
static u64 evalModel(Expr *e, const std::vector<u64> &v, std::unordered_map<u32, u64> &memo) {
  if (e->op == CONST) return e->val;
  if (e->op == VAR) return v[e->aux - 1];
  auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  Expr t[3]; Expr *k[3] = {0, 0, 0};
  for (int i = 0; i < 3; i++) if (e->k[i]) { t[i].w = e->k[i]->w; t[i].op = e->k[i]->op; t[i].val = evalModel(e->k[i], v, memo); k[i] = &t[i]; }
  return memo[e->id] = evalOp(e->op, e->w, e->aux, k);
}
