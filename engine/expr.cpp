#include "expr.h"
#include <algorithm>
#include <cmath>
#include <cassert>
#include <unordered_set>
#include <map>

std::vector<VarInfo> g_vars;
static std::map<std::pair<std::string, uint32_t>, uint32_t> g_varmap;
uint32_t varIndex(const std::string& buf, uint32_t index) {
  auto key = std::make_pair(buf, index);
  auto it = g_varmap.find(key);
  if (it != g_varmap.end()) return it->second;
  uint32_t v = g_vars.size();
  g_vars.push_back({buf, index});
  g_varmap[key] = v;
  return v;
}

// ---------------------------------------------------------------- interning
struct EHash {
  size_t operator()(const Expr* e) const {
    uint64_t h = (uint64_t)e->k * 0x9E3779B97F4A7C15ull + e->w * 131 + e->aux * 7919;
    h ^= (uint64_t)e->c * 0xC2B2AE3D27D4EB4Full; h ^= (uint64_t)(e->c >> 64) * 31;
    for (int i = 0; i < e->nops; i++) h = (h ^ e->a[i]->id) * 0x100000001B3ull + (h >> 29);
    return h;
  }
};
struct EEq {
  bool operator()(const Expr* x, const Expr* y) const {
    if (x->k != y->k || x->w != y->w || x->aux != y->aux || x->nops != y->nops || x->c != y->c) return false;
    for (int i = 0; i < x->nops; i++) if (x->a[i] != y->a[i]) return false;
    return true;
  }
};
static std::unordered_set<Expr*, EHash, EEq> g_table;
static uint32_t g_nextId = 1;
size_t exprCount() { return g_nextId; }

struct VHash {
  size_t operator()(const std::vector<uint32_t>& v) const {
    size_t h = v.size();
    for (auto x : v) h = h * 1000003 ^ x;
    return h;
  }
};
static std::unordered_set<std::vector<uint32_t>, VHash> g_varsets;
static const std::vector<uint32_t>* internSet(std::vector<uint32_t>&& v) {
  return &*g_varsets.insert(std::move(v)).first;
}
static const std::vector<uint32_t>* emptySet() {
  static const std::vector<uint32_t>* s = internSet({});
  return s;
}
static const std::vector<uint32_t>* unionSet(const std::vector<uint32_t>* a, const std::vector<uint32_t>* b) {
  if (a == b || b->empty()) return a;
  if (a->empty()) return b;
  if (a->size() >= b->size() && std::includes(a->begin(), a->end(), b->begin(), b->end())) return a;
  if (b->size() >= a->size() && std::includes(b->begin(), b->end(), a->begin(), a->end())) return b;
  std::vector<uint32_t> r;
  std::set_union(a->begin(), a->end(), b->begin(), b->end(), std::back_inserter(r));
  return internSet(std::move(r));
}

static Expr* intern(K k, unsigned w, unsigned aux, u128 c, int n, Expr* a0 = nullptr, Expr* a1 = nullptr, Expr* a2 = nullptr) {
  Expr t;
  memset(&t, 0, sizeof t);
  t.k = k; t.w = w; t.aux = aux; t.c = c; t.nops = n;
  t.a[0] = a0; t.a[1] = a1; t.a[2] = a2;
  auto it = g_table.find(&t);
  if (it != g_table.end()) return *it;
  Expr* e = new Expr(t);
  e->id = g_nextId++;
  uint32_t d = 0;
  const std::vector<uint32_t>* vs = emptySet();
  if (k == K::Var) vs = internSet({aux});
  for (int i = 0; i < n; i++) {
    d = std::max(d, e->a[i]->depth);
    vs = unionSet(vs, e->a[i]->vars);
  }
  e->depth = d + 1;
  e->vars = vs;
  g_table.insert(e);
  return e;
}

Expr* mkConst(u128 v, unsigned w) { return intern(K::Const, w, 0, truncw(v, w), 0); }
Expr* mkVar(uint32_t index) { return intern(K::Var, 8, index, 0, 0); }

// ---------------------------------------------------------------- folding
static double asD(u128 v) { double d; uint64_t x = (uint64_t)v; memcpy(&d, &x, 8); return d; }
static float asF(u128 v) { float d; uint32_t x = (uint32_t)v; memcpy(&d, &x, 4); return d; }
static u128 fromD(double d) { uint64_t x; memcpy(&x, &d, 8); return x; }
static u128 fromF(float d) { uint32_t x; memcpy(&x, &d, 4); return x; }

u128 ufHost(uint32_t fn, u128 a, u128 b, unsigned w) {
  double x = asD(a), y = asD(b), r = 0;
  switch (fn) {
    case UF_EXP: r = exp(x); break;
    case UF_LOG: r = log(x); break;
    case UF_POW: r = pow(x, y); break;
    case UF_SIN: r = sin(x); break;
    case UF_COS: r = cos(x); break;
    case UF_LOG10: r = log10(x); break;
  }
  return fromD(r);
}

template <class T> static u128 fToInt(T v, unsigned w, bool sgn) {
  // x86 like result for out-of-range values
  T t = std::trunc(v);
  if (sgn) {
    T lo = -std::ldexp((T)1, w - 1), hi = std::ldexp((T)1, w - 1);
    if (!(t >= lo && t < hi)) return (u128)1 << (w - 1);
    return truncw((u128)(s128)t, w);
  }
  T hi = std::ldexp((T)1, w);
  if (!(t >= 0 && t < hi)) return w >= 64 ? ((u128)1 << (w - 1)) : 0;
  return truncw((u128)t, w);
}

u128 foldOp(K k, unsigned w, unsigned aux, unsigned aw, u128 a, u128 b, u128 c) {
  switch (k) {
    case K::Add: return truncw(a + b, w);
    case K::Sub: return truncw(a - b, w);
    case K::Mul: return truncw(a * b, w);
    case K::UDiv: return b == 0 ? maskw(w) : truncw(a / b, w);
    case K::URem: return b == 0 ? a : truncw(a % b, w);
    case K::SDiv: {
      s128 x = sextw(a, w), y = sextw(b, w);
      if (y == 0) return x >= 0 ? maskw(w) : 1;
      if (y == -1) return truncw((u128)(-x), w);
      return truncw((u128)(x / y), w);
    }
    case K::SRem: {
      s128 x = sextw(a, w), y = sextw(b, w);
      if (y == 0) return a;
      if (y == -1) return 0;
      return truncw((u128)(x % y), w);
    }
    case K::And: return a & b;
    case K::Or: return a | b;
    case K::Xor: return a ^ b;
    case K::Not: return truncw(~a, w);
    case K::Shl: return b >= w ? 0 : truncw(a << (unsigned)b, w);
    case K::LShr: return b >= w ? 0 : truncw(a, w) >> (unsigned)b;
    case K::AShr: { s128 x = sextw(a, w); return truncw((u128)(x >> (unsigned)(b >= w ? (w - 1) : b)), w); }
    case K::Eq: return a == b;
    case K::Ult: return a < b;
    case K::Ule: return a <= b;
    case K::Slt: return sextw(a, aw) < sextw(b, aw);
    case K::Sle: return sextw(a, aw) <= sextw(b, aw);
    case K::Ite: return a ? b : c;
    case K::ZExt: return a;
    case K::SExt: return truncw((u128)sextw(a, aw), w);
    case K::Extract: return truncw(a >> aux, w);
    case K::FAdd: return w == 64 ? fromD(asD(a) + asD(b)) : fromF(asF(a) + asF(b));
    case K::FSub: return w == 64 ? fromD(asD(a) - asD(b)) : fromF(asF(a) - asF(b));
    case K::FMul: return w == 64 ? fromD(asD(a) * asD(b)) : fromF(asF(a) * asF(b));
    case K::FDiv: return w == 64 ? fromD(asD(a) / asD(b)) : fromF(asF(a) / asF(b));
    case K::FRem: return w == 64 ? fromD(fmod(asD(a), asD(b))) : fromF(fmodf(asF(a), asF(b)));
    case K::FSqrt: return w == 64 ? fromD(sqrt(asD(a))) : fromF(sqrtf(asF(a)));
    case K::FRnd: {
      double x = w == 64 ? asD(a) : (double)asF(a), r = x;
      switch (aux) { case 0: r = floor(x); break; case 1: r = ceil(x); break; case 2: r = trunc(x); break;
                     case 3: r = round(x); break; case 4: r = nearbyint(x); break; }
      return w == 64 ? fromD(r) : fromF((float)r);
    }
    case K::FOeq: return aw == 64 ? asD(a) == asD(b) : asF(a) == asF(b);
    case K::FOlt: return aw == 64 ? asD(a) < asD(b) : asF(a) < asF(b);
    case K::FOle: return aw == 64 ? asD(a) <= asD(b) : asF(a) <= asF(b);
    case K::FUno: return aw == 64 ? (std::isnan(asD(a)) || std::isnan(asD(b))) : (std::isnan(asF(a)) || std::isnan(asF(b)));
    case K::FToSI: return aw == 64 ? fToInt<double>(asD(a), w, true) : fToInt<float>(asF(a), w, true);
    case K::FToUI: return aw == 64 ? fToInt<double>(asD(a), w, false) : fToInt<float>(asF(a), w, false);
    case K::SIToF: { s128 x = sextw(a, aw); return w == 64 ? fromD((double)(long long)x) : fromF((float)(long long)x); }
    case K::UIToF: return w == 64 ? fromD((double)(unsigned long long)a) : fromF((float)(unsigned long long)a);
    case K::FCvt: if (aw == w) return a; return w == 64 ? fromD((double)asF(a)) : fromF((float)asD(a));
    case K::UF: return ufHost(aux, a, b, w);
    default: break;
  }
  assert(false && "fold");
  return 0;
}

struct Rng { s128 lo, hi; };
static Rng rng(Expr* e);

// ---------------------------------------------------------------- known zero bits (cheap)
static u128 knownZero(Expr* e, int depth = 4) {
  if (e->w > 128) return 0;
  switch (e->k) {
    case K::Const: return truncw(~e->c, e->w);
    case K::ZExt: {
      u128 z = maskw(e->w) & ~maskw(e->a[0]->w);
      if (depth) z |= knownZero(e->a[0], depth - 1);
      return z;
    }
    case K::Concat: {
      if (!depth) return 0;
      return (knownZero(e->a[0], depth - 1) << e->a[1]->w) | knownZero(e->a[1], depth - 1);
    }
    case K::And: return depth ? (knownZero(e->a[0], depth - 1) | knownZero(e->a[1], depth - 1)) : 0;
    case K::Or: return depth ? (knownZero(e->a[0], depth - 1) & knownZero(e->a[1], depth - 1)) : 0;
    case K::Ite: return depth ? (knownZero(e->a[1], depth - 1) & knownZero(e->a[2], depth - 1)) : 0;
    case K::Extract: return depth && e->a[0]->w <= 128 ? truncw(knownZero(e->a[0], depth - 1) >> e->aux, e->w) : 0;
    default: return 0;
  }
}

// flatten into segments, low first
static void segs(Expr* e, std::vector<Expr*>& out) {
  if (e->k == K::Concat) { segs(e->a[1], out); segs(e->a[0], out); return; }
  if (e->k == K::ZExt) {
    segs(e->a[0], out);
    unsigned r = e->w - e->a[0]->w;
    out.push_back(mkConst(0, r));
    return;
  }
  out.push_back(e);
}
static Expr* joinSegs(const std::vector<Expr*>& v) {
  Expr* r = v.back();
  for (int i = (int)v.size() - 2; i >= 0; i--) r = mkConcat(r, v[i]);
  return r;
}
// merge two terms whose non-zero segments do not overlap
static Expr* mergeDisjoint(Expr* a, Expr* b) {
  std::vector<Expr*> sa, sb;
  segs(a, sa); segs(b, sb);
  if (sa.size() + sb.size() > 64) return nullptr;
  std::vector<Expr*> out;
  size_t i = 0, j = 0; unsigned oi = 0, oj = 0;
  while (i < sa.size() && j < sb.size()) {
    unsigned ra = sa[i]->w - oi, rb = sb[j]->w - oj;
    unsigned n = std::min(ra, rb);
    bool za = sa[i]->isConst() && truncw(sa[i]->c >> oi, n) == 0;
    bool zb = sb[j]->isConst() && truncw(sb[j]->c >> oj, n) == 0;
    if (za) out.push_back(mkExtract(sb[j], oj, n));
    else if (zb) out.push_back(mkExtract(sa[i], oi, n));
    else if (sa[i]->isConst() && sb[j]->isConst())
      out.push_back(mkConst(truncw(sa[i]->c >> oi, n) | truncw(sb[j]->c >> oj, n), n));
    else return nullptr;
    oi += n; oj += n;
    if (oi == sa[i]->w) { i++; oi = 0; }
    if (oj == sb[j]->w) { j++; oj = 0; }
  }
  return joinSegs(out);
}

// ---------------------------------------------------------------- constructors
Expr* mkZExt(Expr* a, unsigned w) {
  if (a->w == w) return a;
  assert(a->w < w);
  if (a->isConst()) return mkConst(a->c, w);
  if (a->k == K::ZExt) return mkZExt(a->a[0], w);
  if (a->k == K::Extract && a->aux == 0 && a->a[0]->w <= 64) {   // low part of a small value
    Expr* x = a->a[0];
    const Rng r = rng(x);
    if (r.lo >= 0 && r.hi < ((s128)1 << a->w)) return w > x->w ? mkZExt(x, w) : mkExtract(x, 0, w);
  }
  if (a->k == K::Ite && a->a[1]->isConst() && a->a[2]->isConst())
    return mkIte(a->a[0], mkConst(a->a[1]->c, w), mkConst(a->a[2]->c, w));
  return intern(K::ZExt, w, 0, 0, 1, a);
}
Expr* mkSExt(Expr* a, unsigned w) {
  if (a->w == w) return a;
  if (a->isConst()) return mkConst((u128)sextw(a->c, a->w), w);
  if (a->k == K::ZExt) return mkZExt(a->a[0], w);
  if (a->k == K::SExt) return mkSExt(a->a[0], w);
  if (a->k == K::Extract && a->aux == 0 && a->a[0]->w <= 64) {
    Expr* x = a->a[0];
    const Rng r = rng(x);
    const s128 lim = (s128)1 << (a->w - 1);
    if (r.lo >= -lim && r.hi < lim) return w > x->w ? mkSExt(x, w) : mkExtract(x, 0, w);
  }
  if (a->k == K::Ite && a->a[1]->isConst() && a->a[2]->isConst())
    return mkIte(a->a[0], mkSExt(a->a[1], w), mkSExt(a->a[2], w));
  return intern(K::SExt, w, 0, 0, 1, a);
}
Expr* mkExtract(Expr* a, unsigned off, unsigned w) {
  assert(off + w <= a->w);
  if (off == 0 && w == a->w) return a;
  switch (a->k) {
    case K::Const: return mkConst(a->c >> off, w);
    case K::Extract: return mkExtract(a->a[0], a->aux + off, w);
    case K::Concat: {
      unsigned lw = a->a[1]->w;
      if (off + w <= lw) return mkExtract(a->a[1], off, w);
      if (off >= lw) return mkExtract(a->a[0], off - lw, w);
      return mkConcat(mkExtract(a->a[0], 0, off + w - lw), mkExtract(a->a[1], off, lw - off));
    }
    case K::ZExt: {
      unsigned iw = a->a[0]->w;
      if (off + w <= iw) return mkExtract(a->a[0], off, w);
      if (off >= iw) return mkConst(0, w);
      return mkZExt(mkExtract(a->a[0], off, iw - off), w);
    }
    case K::SExt: {
      unsigned iw = a->a[0]->w;
      if (off + w <= iw) return mkExtract(a->a[0], off, w);
      if (off < iw) return mkSExt(mkExtract(a->a[0], off, iw - off), w);
      return mkSExt(mkExtract(a->a[0], iw - 1, 1), w);
    }
    case K::And: case K::Or: case K::Xor:
      return mkBin(a->k, mkExtract(a->a[0], off, w), mkExtract(a->a[1], off, w));
    case K::Not: return mkNot(mkExtract(a->a[0], off, w));
    case K::Add: case K::Sub: case K::Mul:
      if (off == 0) return mkBin(a->k, mkExtract(a->a[0], 0, w), mkExtract(a->a[1], 0, w));
      break;
    case K::Ite:
      if (a->a[1]->isConst() || a->a[2]->isConst() || a->depth < 24)
        return mkIte(a->a[0], mkExtract(a->a[1], off, w), mkExtract(a->a[2], off, w));
      break;
    default: break;
  }
  return intern(K::Extract, w, off, 0, 1, a);
}
Expr* mkConcat(Expr* hi, Expr* lo) {
  unsigned w = hi->w + lo->w;
  if (hi->isConst() && lo->isConst() && w <= 128) return mkConst((hi->c << lo->w) | lo->c, w);
  if (hi->isConst() && hi->c == 0) return mkZExt(lo, w);
  if (hi->k == K::ZExt) return mkZExt(mkConcat(hi->a[0], lo), w);
  if (hi->k == K::Concat) return mkConcat(hi->a[0], mkConcat(hi->a[1], lo));
  auto adj = [](Expr* h, Expr* l) -> Expr* {
    if (h->k == K::Extract && l->k == K::Extract && h->a[0] == l->a[0] && h->aux == l->aux + l->w)
      return mkExtract(h->a[0], l->aux, h->w + l->w);
    // low part may be a whole narrower expression whose upper part follows
    if (h->k == K::Extract && h->aux == l->w && l->k != K::Extract) {
      // extract pushed through arithmetic: (x+y)[w-1:0] equals low part
      Expr* whole = h->a[0];
      if (mkExtract(whole, 0, l->w) == l) return mkExtract(whole, 0, h->w + l->w);
    }
    if (h->isConst() && l->isConst() && h->w + l->w <= 128)
      return mkConst((h->c << l->w) | l->c, h->w + l->w);
    if (h->k == K::Ite && l->k == K::Ite && h->a[0] == l->a[0])
      return mkIte(h->a[0], mkConcat(h->a[1], l->a[1]), mkConcat(h->a[2], l->a[2]));
    // sign extension pieces: sext(x[top]) ++ x
    if (h->k == K::SExt && h->a[0]->w == 1) {
      Expr* s = h->a[0];
      Expr* top = mkExtract(l, l->w - 1, 1);
      if (top == s) return mkSExt(l, h->w + l->w);
    }
    return nullptr;
  };
  if (Expr* m = adj(hi, lo)) return m;
  if (lo->k == K::Concat) {
    if (Expr* m = adj(hi, lo->a[0])) return mkConcat(m, lo->a[1]);
    // full width rejoin: hi ++ rest where the whole may be an arithmetic term
    if (hi->k == K::Extract && hi->aux == lo->w) {
      Expr* whole = hi->a[0];
      if (mkExtract(whole, 0, lo->w) == lo) return mkExtract(whole, 0, w);
    }
  }
  return intern(K::Concat, w, 0, 0, 2, hi, lo);
}
Expr* mkNot(Expr* a) {
  if (a->isConst()) return mkConst(~a->c, a->w);
  if (a->k == K::Not) return a->a[0];
  if (a->w == 1) {
    if (a->k == K::Ult) return mkBin(K::Ule, a->a[1], a->a[0]);
    if (a->k == K::Ule) return mkBin(K::Ult, a->a[1], a->a[0]);
    if (a->k == K::Slt) return mkBin(K::Sle, a->a[1], a->a[0]);
    if (a->k == K::Sle) return mkBin(K::Slt, a->a[1], a->a[0]);
  }
  return intern(K::Not, a->w, 0, 0, 1, a);
}
Expr* mkIte(Expr* c, Expr* a, Expr* b) {
  if (c->isConst()) return c->c ? a : b;
  if (a == b) return a;
  if (c->k == K::Not) return mkIte(c->a[0], b, a);
  if (a->w == 1) {
    if (a->isConst()) return a->c ? mkOr(c, b) : mkAnd(mkNot(c), b);
    if (b->isConst()) return b->c ? mkOr(mkNot(c), a) : mkAnd(c, a);
  }
  if (a->k == K::Ite && a->a[0] == c) a = a->a[1];
  if (b->k == K::Ite && b->a[0] == c) b = b->a[2];
  if (a == b) return a;
  if (b->k == K::Ite && b->a[1] == a) return mkIte(mkOr(c, b->a[0]), a, b->a[2]);
  // one copied bit: a placed extract, so that bit-by-bit copies fold back to the value
  if (c->k == K::Extract && a->isConst() && b->isConst() && a->w > 1 && b->c == 0 && (a->c & (a->c - 1)) == 0) {
    unsigned n = 0;
    while (!((a->c >> n) & 1)) n++;
    Expr* r = n ? mkConcat(c, mkConst(0, n)) : c;
    return mkZExt(r, a->w);
  }
  return intern(K::Ite, a->w, 0, 0, 3, c, a, b);
}

static bool isCmp(K k) { return k == K::Eq || k == K::Ult || k == K::Ule || k == K::Slt || k == K::Sle; }
static int log2exact(u128 v) {
  if (v == 0 || (v & (v - 1))) return -1;
  int n = 0;
  while (v > 1) { v >>= 1; n++; }
  return n;
}
static bool nonNeg(Expr* e) {
  if (e->isConst()) return !((e->c >> (e->w - 1)) & 1);
  if (e->k == K::ZExt) return true;
  if (e->w <= 128 && ((knownZero(e, 3) >> (e->w - 1)) & 1)) return true;
  return e->w <= 64 && rng(e).lo >= 0;
}

// ---------------------------------------------------------------- linear forms
// signed value range of a term of at most 64 bits
static Rng rng(Expr* e) {
  static std::unordered_map<Expr*, Rng> memo;
  const unsigned w = e->w;
  const s128 mn = -((s128)1 << (w - 1)), mx = ((s128)1 << (w - 1)) - 1;
  const Rng full{mn, mx};
  if (w > 64) return full;
  if (e->isConst()) { const s128 v = sextw(e->c, w); return {v, v}; }
  if (e->depth > 400) return full;
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  Rng r = full;
  auto fit = [&](s128 lo, s128 hi) { if (lo >= mn && hi <= mx) r = {lo, hi}; };
  switch (e->k) {
    case K::ZExt: { Rng a = rng(e->a[0]); if (a.lo >= 0) r = a; else r = {0, (s128)maskw(e->a[0]->w)}; break; }
    case K::SExt: r = rng(e->a[0]); break;
    case K::Add: { Rng a = rng(e->a[0]), b = rng(e->a[1]); fit(a.lo + b.lo, a.hi + b.hi); break; }
    case K::Sub: { Rng a = rng(e->a[0]), b = rng(e->a[1]); fit(a.lo - b.hi, a.hi - b.lo); break; }
    case K::Mul:
      if (e->a[1]->isConst()) {
        Rng a = rng(e->a[0]); const s128 c = sextw(e->a[1]->c, w);
        s128 x = a.lo * c, y = a.hi * c;   // at most 63 bits each
        fit(std::min(x, y), std::max(x, y));
      }
      break;
    case K::UDiv: case K::URem:
      if (e->a[1]->isConst() && e->a[1]->c && !((e->a[1]->c >> (w - 1)) & 1)) {
        Rng a = rng(e->a[0]); const s128 c = (s128)e->a[1]->c;
        if (e->k == K::URem) r = {0, a.lo >= 0 ? std::min(a.hi, c - 1) : c - 1};
        else if (a.lo >= 0) r = {a.lo / c, a.hi / c};
        else if (c > 1) r = {0, (s128)(maskw(w) / (u128)c)};
      }
      break;
    case K::Ite: { Rng a = rng(e->a[1]), b = rng(e->a[2]); r = {std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; break; }
    case K::Concat: {
      Rng a = rng(e->a[0]); const unsigned n = e->a[1]->w;
      s128 l0 = 0, l1 = (s128)maskw(n);
      if (e->a[1]->isConst()) l0 = l1 = (s128)e->a[1]->c;
      else if (n <= 64) { Rng b = rng(e->a[1]); if (b.lo >= 0) { l0 = b.lo; l1 = b.hi; } }
      fit(a.lo * ((s128)1 << n) + l0, a.hi * ((s128)1 << n) + l1);
      break;
    }
    case K::Extract: { Rng a = rng(e->a[0]); if (e->aux == 0) fit(a.lo, a.hi); break; }
    default: break;
  }
  return memo[e] = r;
}
bool exprBelow(Expr* e, uint64_t n) {
  if (e->w > 64) return false;
  const Rng r = rng(e);
  return r.lo >= 0 && r.hi < (s128)n;
}
// sum of coefficient * term + constant, modulo 2^w; the terms are atoms of width w
typedef std::map<uint32_t, std::pair<Expr*, u128>> Lin;
static bool linOf(Expr* e, unsigned w, u128 k, Lin& out, u128& cst, int depth, bool nowrap) {
  // e has width <= w and its (non wrapping) value is extended to w bits; nowrap: e->w < w
  if (depth > 40) return false;
  auto atom = [&](Expr* x, bool sgn) {
    Expr* t = x->w == w ? x : sgn ? mkSExt(x, w) : mkZExt(x, w);
    auto& s = out[t->id];
    s.first = t; s.second = truncw(s.second + k, w);
    if (!s.second) out.erase(t->id);
    return out.size() < 48;
  };
  const bool sub = e->w < w;
  switch (e->k) {
    case K::Const: cst = truncw(cst + k * (u128)sextw(e->c, e->w), w); return true;
    case K::Add: case K::Sub: case K::Mul: {
      if (e->k == K::Mul && !e->a[1]->isConst()) break;
      if (sub) {   // the operation must not wrap in its own width
        Rng a = rng(e->a[0]), b = rng(e->a[1]), r;
        if (e->k == K::Add) r = {a.lo + b.lo, a.hi + b.hi};
        else if (e->k == K::Sub) r = {a.lo - b.hi, a.hi - b.lo};
        else { s128 x = a.lo * b.lo, y = a.hi * b.lo; r = {std::min(x, y), std::max(x, y)}; }
        const s128 lim = (s128)1 << (e->w - 1);
        if (r.lo < -lim || r.hi >= lim) break;
      }
      if (e->k == K::Mul) return linOf(e->a[0], w, k * (u128)sextw(e->a[1]->c, e->w), out, cst, depth + 1, sub);
      return linOf(e->a[0], w, k, out, cst, depth + 1, sub) &&
             linOf(e->a[1], w, e->k == K::Sub ? -k : k, out, cst, depth + 1, sub);
    }
    case K::Concat:
      if (e->a[1]->isConst() && e->a[1]->c == 0 && e->a[1]->w < 64) {
        if (rng(e->a[0]).lo < 0) {
          if (sub) break;
          return linOf(mkZExt(e->a[0], w), w, k << e->a[1]->w, out, cst, depth + 1, false);
        }
        return linOf(e->a[0], w, k << e->a[1]->w, out, cst, depth + 1, true);
      }
      break;
    case K::ZExt: case K::SExt: {
      Expr* x = e->a[0];
      if (e->k == K::ZExt && rng(x).lo < 0) {   // plain zero extension of an atom
        return atom(x, false);
      }
      return linOf(x, w, k, out, cst, depth + 1, true);
    }
    default: break;
  }
  return atom(e, sub && rng(e).lo < 0);
}
static Expr* linBuild(const Lin& l, u128 cst, unsigned w) {
  Expr* r = nullptr;
  for (auto& [id, t] : l) {
    Expr* x = mkBin(K::Mul, t.first, mkConst(t.second, w));
    r = r ? mkBin(K::Add, r, x) : x;
  }
  Expr* c = mkConst(cst, w);
  return r ? mkBin(K::Add, r, c) : c;
}
static bool linRng(const Lin& l, u128 cst, unsigned w, Rng& r) {
  r = {sextw(cst, w), sextw(cst, w)};
  for (auto& [id, t] : l) {
    Rng a = rng(t.first);
    const s128 c = sextw(t.second, w);
    const s128 lim = (s128)1 << 62;
    if (c > lim || c < -lim) return false;
    s128 x = a.lo * c, y = a.hi * c;
    r.lo += std::min(x, y); r.hi += std::max(x, y);
  }
  const s128 lim = (s128)1 << (w - 1);
  return r.lo >= -lim && r.hi < lim;
}
// a / c and a % c for a non negative linear a that cannot wrap
static Expr* linDiv(K k, Expr* a, u128 c) {
  const unsigned w = a->w;
  if (w > 64 || w < 8 || (c >> (w - 1))) return nullptr;
  Lin l; u128 cst = 0;
  Rng r;
  if (!linOf(a, w, 1, l, cst, 0, false) || !linRng(l, cst, w, r) || r.lo < 0) return nullptr;
  Lin q, m;
  u128 qc = 0;
  s128 ic = sextw(cst, w), cc = (s128)c;
  for (auto& [id, t] : l) {
    const s128 v = sextw(t.second, w);
    if (v % cc == 0) q[id] = {t.first, truncw((u128)(v / cc), w)}; else m[id] = t;
  }
  s128 iq = ic / cc, im = ic % cc;
  if (im < 0) { im += cc; iq--; }
  Rng mr;
  if (!linRng(m, truncw((u128)im, w), w, mr)) return nullptr;
  if (mr.lo < 0) return nullptr;
  qc = truncw((u128)iq, w);
  Expr* rest = linBuild(m, truncw((u128)im, w), w);
  if (mr.hi < cc) return k == K::URem ? rest : linBuild(q, qc, w);
  unsigned n = 1;
  while (((s128)1 << n) <= mr.hi || ((s128)1 << n) <= cc) n++;
  n++;
  if (q.empty() && qc == 0 && (n >= w || a == rest)) { if (n >= w) return a == rest ? nullptr : mkBin(k, rest, mkConst(c, w)); }
  Expr* d = n < w ? mkZExt(intern(k, n, 0, 0, 2, mkExtract(rest, 0, n), mkConst(c, n)), w) : intern(k, w, 0, 0, 2, rest, mkConst(c, w));
  if (k == K::URem) return d;
  if (q.empty() && qc == 0) return d;
  return mkBin(K::Add, linBuild(q, qc, w), d);
}
// cancels common terms of an equation; null when nothing is gained
static Expr* linEq(Expr* a, Expr* b) {
  const unsigned w = a->w;
  if (w > 64 || w < 16) return nullptr;
  auto arith = [](Expr* e) { while (e->k == K::ZExt || e->k == K::SExt) e = e->a[0]; return e->k == K::Add || e->k == K::Sub || e->k == K::Mul; };
  if (!arith(a) && !arith(b)) return nullptr;
  Lin l; u128 cst = 0;
  Lin la, lb; u128 ca = 0, cb = 0;
  if (!linOf(a, w, 1, la, ca, 0, false) || !linOf(b, w, 1, lb, cb, 0, false)) return nullptr;
  bool hit = false;
  for (auto& [id, t] : la) if (lb.count(id)) hit = true;
  if (!hit) return nullptr;
  l = la; cst = truncw(ca - cb, w);
  for (auto& [id, t] : lb) {
    auto& s = l[id];
    s.first = t.first; s.second = truncw(s.second - t.second, w);
    if (!s.second) l.erase(id);
  }
  if (l.empty()) return mkConst(cst == 0, 1);
  Lin x, y;
  for (auto& [id, t] : l) if (sextw(t.second, w) > 0) x[id] = t; else y[id] = {t.first, truncw(-t.second, w)};
  Expr *ea = linBuild(x, cst, w), *eb = linBuild(y, 0, w);
  if (eb->isConst() && !ea->isConst()) { ea = linBuild(x, 0, w); eb = mkConst(-cst, w); }
  if (ea->depth + eb->depth >= a->depth + b->depth + 2) return nullptr;
  if ((ea == a && eb == b) || (ea == b && eb == a)) return nullptr;
  return mkEq(ea, eb);
}

Expr* mkBin(K k, Expr* a, Expr* b) {
  assert(a->w == b->w);
  unsigned w = a->w;
  unsigned rw = isCmp(k) ? 1 : w;
  if (a->isConst() && b->isConst() && w <= 128) return mkConst(foldOp(k, rw, 0, w, a->c, b->c, 0), rw);
  // canonical order: constant second
  bool comm = k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor || k == K::Eq;
  if (comm && (a->isConst() || (!b->isConst() && a->id > b->id))) std::swap(a, b);
  if (isCmp(k) && w > 1 && w <= 64) {   // decided by the value ranges alone
    const Rng x = rng(a), y = rng(b);
    const bool sgn = k == K::Slt || k == K::Sle || k == K::Eq;
    if (sgn || (x.lo >= 0 && y.lo >= 0)) {
      if (x.hi < y.lo) return mkConst(k != K::Eq, 1);
      if (x.lo > y.hi) return mkFalse();
      if (x.lo == y.hi && (k == K::Ult || k == K::Slt)) return mkFalse();
      if (x.hi == y.lo && (k == K::Ule || k == K::Sle)) return mkTrue();
    }
  }
  switch (k) {
    case K::Add:
      if (b->isConst() && b->c == 0) return a;
      if (b->isConst() && a->k == K::Add && a->a[1]->isConst())
        return mkBin(K::Add, a->a[0], mkConst(a->a[1]->c + b->c, w));
      if (!b->isConst() && a->k == K::Add && a->a[1]->isConst())
        return mkBin(K::Add, mkBin(K::Add, a->a[0], b), a->a[1]);
      if (!b->isConst() && b->k == K::Add && b->a[1]->isConst())
        return mkBin(K::Add, mkBin(K::Add, a, b->a[0]), b->a[1]);
      if (a->k == K::Sub && a->a[1] == b) return a->a[0];
      if (b->k == K::Sub && b->a[1] == a) return b->a[0];
      if (w == 1) return mkBin(K::Xor, a, b);
      if (w <= 128) {
        u128 za = knownZero(a), zb = knownZero(b);
        if ((za | zb) == maskw(w)) { if (Expr* m = mergeDisjoint(a, b)) return m; }
      }
      break;
    case K::Sub:
      if (a == b) return mkConst(0, w);
      if (b->isConst()) return mkBin(K::Add, a, mkConst(-b->c, w));
      if (a->k == K::Add) {
        if (a->a[0] == b) return a->a[1];
        if (a->a[1] == b) return a->a[0];
      }
      if (a->k == K::Add && a->a[1]->isConst())
        return mkBin(K::Add, mkBin(K::Sub, a->a[0], b), a->a[1]);
      if (b->k == K::Add && b->a[1]->isConst())
        return mkBin(K::Add, mkBin(K::Sub, a, b->a[0]), mkConst(-b->a[1]->c, w));
      if (w == 1) return mkBin(K::Xor, a, b);
      break;
    case K::Mul:
      if (b->isConst()) {
        if (b->c == 0) return b;
        if (b->c == 1) return a;
        int n = log2exact(b->c);
        if (n > 0) return mkBin(K::Shl, a, mkConst(n, w));
        if (a->k == K::Mul && a->a[1]->isConst()) return mkBin(K::Mul, a->a[0], mkConst(a->a[1]->c * b->c, w));
      }
      if (w == 1) return mkBin(K::And, a, b);
      break;
    case K::UDiv:
      if (b->isConst()) {
        int n = log2exact(b->c);
        if (n == 0) return a;
        if (n > 0) return mkBin(K::LShr, a, mkConst(n, w));
        if (b->c) if (Expr* r = linDiv(K::UDiv, a, b->c)) return r;
      }
      break;
    case K::URem:
      if (b->isConst()) {
        int n = log2exact(b->c);
        if (n == 0) return mkConst(0, w);
        if (n > 0) return mkZExt(mkExtract(a, 0, n), w);
        if (b->c) if (Expr* r = linDiv(K::URem, a, b->c)) return r;
      }
      break;
    case K::SDiv:
      if (b->isConst() && b->c == 1) return a;
      if (nonNeg(a) && nonNeg(b)) return mkBin(K::UDiv, a, b);
      break;
    case K::SRem:
      if (nonNeg(a) && nonNeg(b)) return mkBin(K::URem, a, b);
      break;
    case K::And:
      if (a == b) return a;
      if (b->isConst()) {
        if (b->c == 0) return b;
        if (b->c == maskw(w)) return a;
        if (a->k == K::And && a->a[1]->isConst()) return mkBin(K::And, a->a[0], mkConst(a->a[1]->c & b->c, w));
        if (a->k == K::Ite && a->a[1]->isConst() && a->a[2]->isConst())
          return mkIte(a->a[0], mkConst(a->a[1]->c & b->c, w), mkConst(a->a[2]->c & b->c, w));
        // contiguous mask
        unsigned lo = 0; u128 m = b->c;
        while (!((m >> lo) & 1)) lo++;
        unsigned n = 0; while (lo + n < w && ((m >> (lo + n)) & 1)) n++;
        if (m == (maskw(n) << lo)) {
          Expr* r = mkExtract(a, lo, n);
          if (lo) r = mkConcat(r, mkConst(0, lo));
          return mkZExt(r, w);
        }
        // mask splitting over concatenations / zero extensions
        if (a->k == K::Concat || a->k == K::ZExt) {
          unsigned lw = a->k == K::Concat ? a->a[1]->w : a->a[0]->w;
          Expr* l = mkBin(K::And, mkExtract(a, 0, lw), mkConst(m, lw));
          Expr* h = mkBin(K::And, mkExtract(a, lw, w - lw), mkConst(m >> lw, w - lw));
          return mkConcat(h, l);
        }
      }
      if (w == 1) {
        if (a->k == K::Not && a->a[0] == b) return mkFalse();
        if (b->k == K::Not && b->a[0] == a) return mkFalse();
      }
      break;
    case K::Or:
      if (a == b) return a;
      if (b->isConst()) {
        if (b->c == 0) return a;
        if (b->c == maskw(w)) return b;
        if (a->k == K::Or && a->a[1]->isConst()) return mkBin(K::Or, a->a[0], mkConst(a->a[1]->c | b->c, w));
        if (w <= 64 && w > 1) {   // bits that cannot overlap: an addition
          const Rng x = rng(a);
          if (x.lo >= 0 && x.hi < (s128)(b->c & -b->c)) return mkBin(K::Add, a, b);
        }
      }
      if (w == 1) {
        if (a->k == K::Not && a->a[0] == b) return mkTrue();
        if (b->k == K::Not && b->a[0] == a) return mkTrue();
      } else if (w <= 128) {
        if (Expr* m = mergeDisjoint(a, b)) return m;
      }
      break;
    case K::Xor:
      if (a == b) return mkConst(0, w);
      if (b->isConst()) {
        if (b->c == 0) return a;
        if (b->c == maskw(w)) return mkNot(a);
        if (a->k == K::Xor && a->a[1]->isConst()) return mkBin(K::Xor, a->a[0], mkConst(a->a[1]->c ^ b->c, w));
      }
      break;
    case K::Shl:
      if (b->isConst()) {
        if (b->c == 0) return a;
        if (b->c >= w) return mkConst(0, w);
        unsigned n = (unsigned)b->c;
        return mkConcat(mkExtract(a, 0, w - n), mkConst(0, n));
      }
      break;
    case K::LShr:
      if (b->isConst()) {
        if (b->c == 0) return a;
        if (b->c >= w) return mkConst(0, w);
        unsigned n = (unsigned)b->c;
        return mkZExt(mkExtract(a, n, w - n), w);
      }
      break;
    case K::AShr:
      if (b->isConst()) {
        if (b->c == 0) return a;
        unsigned n = b->c >= w ? w - 1 : (unsigned)b->c;
        return mkSExt(mkExtract(a, n, w - n), w);
      }
      break;
    case K::Eq:
      if (a == b) return mkTrue();
      if (w == 1) {
        if (b->isConst()) return b->c ? a : mkNot(a);
        break;
      }
      if (b->isConst()) {
        switch (a->k) {
          case K::ZExt:
            if (b->c & ~maskw(a->a[0]->w)) return mkFalse();
            return mkEq(a->a[0], mkConst(b->c, a->a[0]->w));
          case K::SExt:
            if (truncw((u128)sextw(b->c, a->a[0]->w), w) != b->c) return mkFalse();
            return mkEq(a->a[0], mkConst(b->c, a->a[0]->w));
          case K::Concat: {
            unsigned lw = a->a[1]->w;
            return mkAnd(mkEq(a->a[0], mkConst(b->c >> lw, w - lw)), mkEq(a->a[1], mkConst(b->c, lw)));
          }
          case K::Add:
            if (a->a[1]->isConst()) return mkEq(a->a[0], mkConst(b->c - a->a[1]->c, w));
            break;
          case K::Xor:
            if (a->a[1]->isConst()) return mkEq(a->a[0], mkConst(b->c ^ a->a[1]->c, w));
            break;
          case K::Not: return mkEq(a->a[0], mkConst(~b->c, w));
          case K::Sub:
            if (b->c == 0) return mkEq(a->a[0], a->a[1]);
            break;
          case K::Ite:
            if (a->a[1]->isConst() || a->a[2]->isConst())
              return mkIte(a->a[0], mkEq(a->a[1], b), mkEq(a->a[2], b));
            break;
          default: break;
        }
        if (w <= 128 && (knownZero(a) & b->c)) return mkFalse();
      } else {
        if ((a->k == K::ZExt && b->k == K::ZExt) || (a->k == K::SExt && b->k == K::SExt)) {
          if (a->a[0]->w == b->a[0]->w) return mkEq(a->a[0], b->a[0]);
        }
        if (a->k == K::Concat && b->k == K::Concat && a->a[1]->w == b->a[1]->w)
          return mkAnd(mkEq(a->a[0], b->a[0]), mkEq(a->a[1], b->a[1]));
        if (a->k == K::Add && b->k == K::Add && a->a[1] == b->a[1]) return mkEq(a->a[0], b->a[0]);
        if (a->k == K::Add && (a->a[0] == b)) return mkEq(a->a[1], mkConst(0, w));
        if (b->k == K::Add && (b->a[0] == a)) return mkEq(b->a[1], mkConst(0, w));
        if (Expr* r = linEq(a, b)) return r;
      }
      break;
    case K::Ult:
      if (a == b) return mkFalse();
      if (b->isConst()) {
        if (b->c == 0) return mkFalse();
        if (b->c == 1) return mkEq(a, mkConst(0, w));
        if (a->k == K::ZExt) {
          if (b->c > maskw(a->a[0]->w)) return mkTrue();
          return mkBin(K::Ult, a->a[0], mkConst(b->c, a->a[0]->w));
        }
        if (w <= 128 && truncw(~knownZero(a), w) < b->c) return mkTrue();
        if (a->k == K::Ite && a->a[1]->isConst() && a->a[2]->isConst())
          return mkIte(a->a[0], mkBin(K::Ult, a->a[1], b), mkBin(K::Ult, a->a[2], b));
      }
      if (a->isConst()) {
        if (a->c == maskw(w)) return mkFalse();
        if (a->c == 0) return mkNot(mkEq(b, mkConst(0, w)));
        if (b->k == K::ZExt) {
          if (a->c >= maskw(b->a[0]->w)) return mkFalse();
          return mkBin(K::Ult, mkConst(a->c, b->a[0]->w), b->a[0]);
        }
        if (w <= 128 && truncw(~knownZero(b), w) <= a->c) return mkFalse();
      }
      if (a->k == K::ZExt && b->k == K::ZExt && a->a[0]->w == b->a[0]->w) return mkBin(K::Ult, a->a[0], b->a[0]);
      break;
    case K::Ule:
      if (a == b) return mkTrue();
      if (b->isConst()) {
        if (b->c == maskw(w)) return mkTrue();
        return mkBin(K::Ult, a, mkConst(b->c + 1, w));
      }
      if (a->isConst()) {
        if (a->c == 0) return mkTrue();
        return mkBin(K::Ult, mkConst(a->c - 1, w), b);
      }
      if (a->k == K::ZExt && b->k == K::ZExt && a->a[0]->w == b->a[0]->w) return mkBin(K::Ule, a->a[0], b->a[0]);
      break;
    case K::Slt:
      if (a == b) return mkFalse();
      if (nonNeg(a) && nonNeg(b)) return mkBin(K::Ult, a, b);
      if (b->isConst() && nonNeg(a)) return mkFalse();   // b negative
      if (a->isConst() && nonNeg(b)) return mkTrue();    // a negative
      if (b->isConst() && a->k == K::SExt) {
        unsigned iw = a->a[0]->w;
        s128 bv = sextw(b->c, w);
        s128 lo = -((s128)1 << (iw - 1)), hi = ((s128)1 << (iw - 1)) - 1;
        if (bv > hi) return mkTrue();
        if (bv <= lo) return mkFalse();
        return mkBin(K::Slt, a->a[0], mkConst((u128)bv, iw));
      }
      break;
    case K::Sle:
      if (a == b) return mkTrue();
      if (nonNeg(a) && nonNeg(b)) return mkBin(K::Ule, a, b);
      if (b->isConst()) {
        if (b->c == (maskw(w) >> 1)) return mkTrue();
        return mkBin(K::Slt, a, mkConst(b->c + 1, w));
      }
      if (a->isConst()) {
        if (a->c == ((u128)1 << (w - 1))) return mkTrue();
        return mkBin(K::Slt, mkConst(a->c - 1, w), b);
      }
      break;
    default: break;
  }
  return intern(k, rw, 0, 0, 2, a, b);
}

// the integer a floating point term is known to hold exactly, as a 64 bit signed term
static Expr* exactInt(Expr* e) {
  if (e->w != 64 && e->w != 32) return nullptr;
  const unsigned prec = e->w == 64 ? 53 : 24;
  if (e->isConst()) {
    double d;
    if (e->w == 64) { uint64_t u = (uint64_t)e->c; memcpy(&d, &u, 8); }
    else { uint32_t u = (uint32_t)e->c; float f; memcpy(&f, &u, 4); d = f; }
    if (!(d > -9007199254740992.0 && d < 9007199254740992.0)) return nullptr;
    int64_t i = (int64_t)d;
    if ((double)i != d) return nullptr;
    return mkConst((uint64_t)i, 64);
  }
  if (e->k == K::FCvt && e->w == 64) return exactInt(e->a[0]);
  if (e->k != K::SIToF && e->k != K::UIToF) return nullptr;
  Expr* x = e->a[0];
  unsigned eff = x->w;
  if (x->k == K::ZExt) eff = x->a[0]->w + 1;
  else if (x->k == K::SExt && e->k == K::SIToF) eff = x->a[0]->w;
  if (eff > prec) {
    if (x->w > 64) return nullptr;
    const Rng r = rng(x);
    const s128 lim = (s128)1 << prec;
    if (r.lo < (e->k == K::SIToF ? -lim : 0) || r.hi > lim) return nullptr;
  }
  if (x->w >= 64) return x->w == 64 ? x : mkExtract(x, 0, 64);
  return e->k == K::SIToF ? mkSExt(x, 64) : mkZExt(x, 64);
}
Expr* mkFBin(K k, Expr* a, Expr* b) {
  bool cmp = k == K::FOeq || k == K::FOlt || k == K::FOle || k == K::FUno;
  unsigned rw = cmp ? 1 : a->w;
  if (a->isConst() && b->isConst()) return mkConst(foldOp(k, rw, 0, a->w, a->c, b->c, 0), rw);
  if (k == K::FOeq || k == K::FOlt || k == K::FOle) {
    if (Expr* x = exactInt(a))
      if (Expr* y = exactInt(b)) return mkBin(k == K::FOeq ? K::Eq : k == K::FOlt ? K::Slt : K::Sle, x, y);
    if (a == b) return k == K::FOlt ? mkFalse() : mkNot(mkFBin(K::FUno, a, a));
  }
  if (k == K::FDiv && b->isConst() && b->w == 64) {
    double d; uint64_t u = (uint64_t)b->c;
    memcpy(&d, &u, 8);
    int ex;
    double m = frexp(d, &ex);
    if ((m == 0.5 || m == -0.5) && ex > -900 && ex < 900) {
      double inv = 1.0 / d;
      memcpy(&u, &inv, 8);
      return mkFBin(K::FMul, a, mkConst(u, 64));
    }
  }
  if (k == K::FUno) {
    auto integral = [](Expr* e) { return e->k == K::SIToF || e->k == K::UIToF; };
    auto notNan = [&](Expr* e) {
      return integral(e) || (e->isConst() && !foldOp(K::FUno, 1, 0, e->w, e->c, e->c, 0));
    };
    if (notNan(a) && notNan(b)) return mkFalse();
    if (notNan(a) && !a->isConst()) a = b;
    if (notNan(b) && !(a == b)) b = a;
  }
  if ((k == K::FAdd || k == K::FMul || k == K::FOeq || k == K::FUno) && a->id > b->id) std::swap(a, b);
  return intern(k, rw, 0, 0, 2, a, b);
}
Expr* mkFUn(K k, Expr* a, unsigned w, unsigned aux) {
  if (a->isConst()) return mkConst(foldOp(k, w, aux, a->w, a->c, 0, 0), w);
  // int -> double -> int of narrow integers is exact
  if ((k == K::FToSI || k == K::FToUI) && (a->k == K::SIToF || a->k == K::UIToF)) {
    Expr* x = a->a[0];
    unsigned prec = a->w == 64 ? 53 : 24;
    if (w <= 64) if (Expr* i = exactInt(a)) {
      const Rng r = rng(i);
      if (w == 64 && (k == K::FToSI || r.lo >= 0)) return i;
      const s128 hi = k == K::FToSI ? ((s128)1 << (w - 1)) : ((s128)1 << w);
      if (w < 64 && r.lo >= (k == K::FToSI ? -hi : 0) && r.hi < hi) return mkExtract(i, 0, w);
    }
    Expr* src = x;
    bool sgn = a->k == K::SIToF;
    unsigned eff = x->w;
    if (x->k == K::ZExt) { src = x->a[0]; eff = src->w; sgn = false; }
    else if (x->k == K::SExt && sgn) { src = x->a[0]; eff = src->w; }
    if (eff <= prec && (eff < w || (eff == w && sgn == (k == K::FToSI)))) {
      if (k == K::FToSI) return sgn ? mkSExt(src, w) : mkZExt(src, w);
      if (!sgn) return mkZExt(src, w);
    }
  }
  if (k == K::SIToF && a->k == K::SExt) a = a->a[0];
  else if ((k == K::SIToF || k == K::UIToF) && a->k == K::ZExt) { k = K::UIToF; a = a->a[0]; }
  if (k == K::FCvt && a->w == w) return a;
  if (k == K::FCvt && a->k == K::FCvt && w == 32 && a->a[0]->w == 32) {
    // float->double->float: exact except NaN payload; keep as is
    return intern(k, w, aux, 0, 1, a);
  }
  return intern(k, w, aux, 0, 1, a);
}
Expr* mkUF(uint32_t fn, Expr* a, Expr* b, unsigned w) {
  if (!b) b = mkConst(0, 64);
  if (a->isConst() && b->isConst()) return mkConst(ufHost(fn, a->c, b->c, w), w);
  return intern(K::UF, w, fn, 0, 2, a, b);
}

// ---------------------------------------------------------------- evaluation
static uint64_t g_gen = 1;
uint64_t nextEvalGen() { return ++g_gen; }
u128 evalExpr(Expr* e, const Model& m, uint64_t gen) {
  if (e->k == K::Const) return e->c;
  if (e->evgen == gen) return e->ev;
  u128 r;
  switch (e->k) {
    case K::Var: r = e->aux < m.size() ? m[e->aux] : 0; break;
    case K::Ite: r = evalExpr(e->a[0], m, gen) ? evalExpr(e->a[1], m, gen) : evalExpr(e->a[2], m, gen); break;
    case K::Concat:
      r = truncw((evalExpr(e->a[0], m, gen) << e->a[1]->w) | evalExpr(e->a[1], m, gen), e->w);
      break;
    default: {
      u128 v[3] = {0, 0, 0};
      for (int i = 0; i < e->nops; i++) v[i] = evalExpr(e->a[i], m, gen);
      r = foldOp(e->k, e->w, e->aux, e->a[0]->w, v[0], v[1], v[2]);
    }
  }
  e->evgen = gen; e->ev = r;
  return r;
}

static const char* kname[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","not","shl","lshr","ashr",
 "eq","ult","ule","slt","sle","ite","zext","sext","extract","concat","fadd","fsub","fmul","fdiv","frem","fsqrt","frnd","foeq","folt","fole","funo",
 "ftosi","ftoui","sitof","uitof","fcvt","uf"};
std::string exprToString(Expr* e, int depth) {
  if (e->k == K::Const) {
    char b[64];
    if (e->c >> 64) snprintf(b, sizeof b, "0x%llx%016llx", (unsigned long long)(e->c >> 64), (unsigned long long)e->c);
    else snprintf(b, sizeof b, "0x%llx:%u", (unsigned long long)e->c, e->w);
    return b;
  }
  if (e->k == K::Var) return g_vars[e->aux].buf + "[" + std::to_string(g_vars[e->aux].index) + "]";
  if (depth == 0) return "..";
  std::string s = "(";
  s += kname[(int)e->k];
  if (e->k == K::Extract) s += "@" + std::to_string(e->aux) + ":" + std::to_string(e->w);
  if (e->k == K::ZExt || e->k == K::SExt) s += ":" + std::to_string(e->w);
  for (int i = 0; i < e->nops; i++) s += " " + exprToString(e->a[i], depth - 1);
  return s + ")";
}
