#include "solver.h"
#include <z3.h>
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <set>

static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
#define C ((Z3_context)ctx)

static void errh(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
  abort();
}

Solver::Solver() {
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg);   // ASTs are kept for the lifetime of the process
  Z3_set_error_handler(C, errh);
  Z3_del_config(cfg);
}

static Z3_sort fsort(Z3_context c, unsigned w) {
  return w == 64 ? Z3_mk_fpa_sort_64(c) : Z3_mk_fpa_sort_32(c);
}

void* Solver::bl(Expr* e) {
  if (e->z3b) return e->z3b;
  Z3_ast r = nullptr;
  switch (e->k) {
    case K::Const: r = e->c ? Z3_mk_true(C) : Z3_mk_false(C); break;
    case K::Eq:
      if (e->a[0]->w == 1) r = Z3_mk_iff(C, (Z3_ast)bl(e->a[0]), (Z3_ast)bl(e->a[1]));
      else r = Z3_mk_eq(C, (Z3_ast)bv(e->a[0]), (Z3_ast)bv(e->a[1]));
      break;
    case K::Ult: r = Z3_mk_bvult(C, (Z3_ast)bv(e->a[0]), (Z3_ast)bv(e->a[1])); break;
    case K::Ule: r = Z3_mk_bvule(C, (Z3_ast)bv(e->a[0]), (Z3_ast)bv(e->a[1])); break;
    case K::Slt: r = Z3_mk_bvslt(C, (Z3_ast)bv(e->a[0]), (Z3_ast)bv(e->a[1])); break;
    case K::Sle: r = Z3_mk_bvsle(C, (Z3_ast)bv(e->a[0]), (Z3_ast)bv(e->a[1])); break;
    case K::And: { Z3_ast x[2] = {(Z3_ast)bl(e->a[0]), (Z3_ast)bl(e->a[1])}; r = Z3_mk_and(C, 2, x); break; }
    case K::Or: { Z3_ast x[2] = {(Z3_ast)bl(e->a[0]), (Z3_ast)bl(e->a[1])}; r = Z3_mk_or(C, 2, x); break; }
    case K::Xor: r = Z3_mk_xor(C, (Z3_ast)bl(e->a[0]), (Z3_ast)bl(e->a[1])); break;
    case K::Not: r = Z3_mk_not(C, (Z3_ast)bl(e->a[0])); break;
    case K::Ite: r = Z3_mk_ite(C, (Z3_ast)bl(e->a[0]), (Z3_ast)bl(e->a[1]), (Z3_ast)bl(e->a[2])); break;
    case K::FOeq: r = Z3_mk_fpa_eq(C, (Z3_ast)fp(e->a[0]), (Z3_ast)fp(e->a[1])); break;
    case K::FOlt: r = Z3_mk_fpa_lt(C, (Z3_ast)fp(e->a[0]), (Z3_ast)fp(e->a[1])); break;
    case K::FOle: r = Z3_mk_fpa_leq(C, (Z3_ast)fp(e->a[0]), (Z3_ast)fp(e->a[1])); break;
    case K::FUno: {
      Z3_ast n0 = Z3_mk_fpa_is_nan(C, (Z3_ast)fp(e->a[0]));
      if (e->a[0] == e->a[1]) { r = n0; break; }
      Z3_ast x[2] = {n0, Z3_mk_fpa_is_nan(C, (Z3_ast)fp(e->a[1]))};
      r = Z3_mk_or(C, 2, x); break;
    }
    default:
      r = Z3_mk_eq(C, (Z3_ast)bv(e), Z3_mk_unsigned_int64(C, 1, Z3_mk_bv_sort(C, 1)));
  }
  Z3_inc_ref(C, r);
  return e->z3b = r;
}

void* Solver::bv(Expr* e) {
  if (e->z3) return e->z3;
  Z3_ast r = nullptr;
  auto B = [&](int i) { return (Z3_ast)bv(e->a[i]); };
  switch (e->k) {
    case K::Const: {
      if (e->w <= 64) r = Z3_mk_unsigned_int64(C, (uint64_t)e->c, Z3_mk_bv_sort(C, e->w));
      else {
        Z3_ast hi = Z3_mk_unsigned_int64(C, (uint64_t)(e->c >> 64), Z3_mk_bv_sort(C, e->w - 64));
        Z3_ast lo = Z3_mk_unsigned_int64(C, (uint64_t)e->c, Z3_mk_bv_sort(C, 64));
        r = Z3_mk_concat(C, hi, lo);
      }
      break;
    }
    case K::Var: r = Z3_mk_const(C, Z3_mk_int_symbol(C, e->aux), Z3_mk_bv_sort(C, 8)); break;
    case K::Add: r = Z3_mk_bvadd(C, B(0), B(1)); break;
    case K::Sub: r = Z3_mk_bvsub(C, B(0), B(1)); break;
    case K::Mul: r = Z3_mk_bvmul(C, B(0), B(1)); break;
    case K::UDiv: r = Z3_mk_bvudiv(C, B(0), B(1)); break;
    case K::SDiv: r = Z3_mk_bvsdiv(C, B(0), B(1)); break;
    case K::URem: r = Z3_mk_bvurem(C, B(0), B(1)); break;
    case K::SRem: r = Z3_mk_bvsrem(C, B(0), B(1)); break;
    case K::And: if (e->w > 1) { r = Z3_mk_bvand(C, B(0), B(1)); } break;
    case K::Or: if (e->w > 1) { r = Z3_mk_bvor(C, B(0), B(1)); } break;
    case K::Xor: if (e->w > 1) { r = Z3_mk_bvxor(C, B(0), B(1)); } break;
    case K::Not: if (e->w > 1) { r = Z3_mk_bvnot(C, B(0)); } break;
    case K::Shl: r = Z3_mk_bvshl(C, B(0), B(1)); break;
    case K::LShr: r = Z3_mk_bvlshr(C, B(0), B(1)); break;
    case K::AShr: r = Z3_mk_bvashr(C, B(0), B(1)); break;
    case K::Ite: r = Z3_mk_ite(C, (Z3_ast)bl(e->a[0]), B(1), B(2)); break;
    case K::ZExt: r = Z3_mk_zero_ext(C, e->w - e->a[0]->w, B(0)); break;
    case K::SExt: r = Z3_mk_sign_ext(C, e->w - e->a[0]->w, B(0)); break;
    case K::Extract: r = Z3_mk_extract(C, e->aux + e->w - 1, e->aux, B(0)); break;
    case K::Concat: r = Z3_mk_concat(C, B(0), B(1)); break;
    case K::FAdd: case K::FSub: case K::FMul: case K::FDiv: case K::FRem: case K::FSqrt: case K::FRnd:
    case K::SIToF: case K::UIToF: case K::FCvt:
      r = Z3_mk_fpa_to_ieee_bv(C, (Z3_ast)fp(e)); break;
    case K::FToSI: case K::FToUI: {
      Z3_ast x = (Z3_ast)fp(e->a[0]);
      Z3_sort fs = fsort(C, e->a[0]->w);
      Z3_ast rm = Z3_mk_fpa_rtz(C);
      bool sg = e->k == K::FToSI;
      double lim = __builtin_ldexp(1.0, sg ? (int)e->w - 1 : (int)e->w);
      Z3_ast t = Z3_mk_fpa_round_to_integral(C, rm, x);
      Z3_ast lo = Z3_mk_fpa_numeral_double(C, sg ? -lim : -0.0, fs);
      Z3_ast hi = Z3_mk_fpa_numeral_double(C, lim, fs);
      Z3_ast cs[2] = {Z3_mk_fpa_leq(C, lo, t), Z3_mk_fpa_lt(C, t, hi)};
      Z3_ast in = Z3_mk_and(C, 2, cs);
      Z3_ast val = sg ? Z3_mk_fpa_to_sbv(C, rm, x, e->w) : Z3_mk_fpa_to_ubv(C, rm, x, e->w);
      u128 oor = sg || e->w >= 64 ? ((u128)1 << (e->w - 1)) : 0;
      r = Z3_mk_ite(C, in, val, (Z3_ast)bv(mkConst(oor, e->w)));
      break;
    }
    case K::UF: {
      Z3_sort s = Z3_mk_bv_sort(C, 64);
      Z3_sort dom[2] = {s, s};
      char nm[32]; snprintf(nm, sizeof nm, "uf%u", e->aux);
      Z3_func_decl f = Z3_mk_func_decl(C, Z3_mk_string_symbol(C, nm), 2, dom, s);
      Z3_ast x[2] = {B(0), B(1)};
      r = Z3_mk_app(C, f, 2, x);
      break;
    }
    default: break;
  }
  if (!r) {
    // predicate
    Z3_sort s1 = Z3_mk_bv_sort(C, 1);
    r = Z3_mk_ite(C, (Z3_ast)bl(e), Z3_mk_unsigned_int64(C, 1, s1), Z3_mk_unsigned_int64(C, 0, s1));
  }
  Z3_inc_ref(C, r);
  return e->z3 = r;
}

void* Solver::fp(Expr* e) {
  if (e->z3f) return e->z3f;
  Z3_ast r;
  Z3_ast rm = Z3_mk_fpa_rne(C);
  auto F = [&](int i) { return (Z3_ast)fp(e->a[i]); };
  switch (e->k) {
    case K::FAdd: r = Z3_mk_fpa_add(C, rm, F(0), F(1)); break;
    case K::FSub: r = Z3_mk_fpa_sub(C, rm, F(0), F(1)); break;
    case K::FMul: r = Z3_mk_fpa_mul(C, rm, F(0), F(1)); break;
    case K::FDiv: r = Z3_mk_fpa_div(C, rm, F(0), F(1)); break;
    case K::FRem: r = Z3_mk_fpa_rem(C, F(0), F(1)); break;   // IEEE remainder: validated against the host model
    case K::FSqrt: r = Z3_mk_fpa_sqrt(C, rm, F(0)); break;
    case K::FRnd: {
      Z3_ast m = rm;
      switch (e->aux) { case 0: m = Z3_mk_fpa_rtn(C); break; case 1: m = Z3_mk_fpa_rtp(C); break;
                        case 2: m = Z3_mk_fpa_rtz(C); break; case 3: m = Z3_mk_fpa_rna(C); break; }
      r = Z3_mk_fpa_round_to_integral(C, m, F(0)); break;
    }
    case K::SIToF: r = Z3_mk_fpa_to_fp_signed(C, rm, (Z3_ast)bv(e->a[0]), fsort(C, e->w)); break;
    case K::UIToF: r = Z3_mk_fpa_to_fp_unsigned(C, rm, (Z3_ast)bv(e->a[0]), fsort(C, e->w)); break;
    case K::FCvt: r = Z3_mk_fpa_to_fp_float(C, rm, F(0), fsort(C, e->w)); break;
    case K::Ite: r = Z3_mk_ite(C, (Z3_ast)bl(e->a[0]), F(1), F(2)); break;
    default: r = Z3_mk_fpa_to_fp_bv(C, (Z3_ast)bv(e), fsort(C, e->w)); break;
  }
  Z3_inc_ref(C, r);
  return e->z3f = r;
}

static bool hasFP(Expr* e, std::set<Expr*>& seen) {
  if (!seen.insert(e).second) return false;
  if (e->k >= K::FAdd) return true;
  for (int i = 0; i < e->nops; i++) if (hasFP(e->a[i], seen)) return true;
  return false;
}
static void collectUF(Expr* e, std::set<Expr*>& seen, std::vector<Expr*>& out) {
  if (!seen.insert(e).second) return;
  if (e->k == K::UF) out.push_back(e);
  for (int i = 0; i < e->nops; i++) collectUF(e->a[i], seen, out);
}

Sat Solver::z3check(const std::vector<Expr*>& set, Model& model) {
  std::set<Expr*> seen;
  bool fpq = false;
  for (auto e : set) if (hasFP(e, seen)) fpq = true;
  std::vector<Expr*> ufs;
  seen.clear();
  for (auto e : set) collectUF(e, seen, ufs);
  std::vector<Z3_ast> extra;
  for (int round = 0; round < 24; round++) {
    Z3_lbool r = Z3_L_UNDEF;
    Z3_solver s = nullptr;
    for (int stage = 0; stage < 2 && r == Z3_L_UNDEF; stage++) {
      unsigned tmo = stage == 0 ? std::min(timeoutMs, fpq ? 500u : 1000u) : timeoutMs;
      if (stage == 0) s = Z3_mk_simple_solver(C);
      else {
        Z3_solver_dec_ref(C, s);
        if (!fpq) {
          Z3_tactic t = Z3_mk_tactic(C, "qfbv"); Z3_tactic_inc_ref(C, t);
          s = Z3_mk_solver_from_tactic(C, t);
        } else {
          Z3_tactic t = Z3_mk_tactic(C, ufs.empty() ? "qffpbv" : "smt"); Z3_tactic_inc_ref(C, t);
          s = Z3_mk_solver_from_tactic(C, t);
        }
      }
      Z3_solver_inc_ref(C, s);
      Z3_params p = Z3_mk_params(C); Z3_params_inc_ref(C, p);
      Z3_params_set_uint(C, p, Z3_mk_string_symbol(C, "timeout"), tmo);
      Z3_solver_set_params(C, s, p);
      Z3_params_dec_ref(C, p);
      for (auto e : set) Z3_solver_assert(C, s, (Z3_ast)bl(e));
      for (auto x : extra) Z3_solver_assert(C, s, x);
      r = Z3_solver_check(C, s);
    }
    if (r == Z3_L_TRUE) {
      Z3_model zm = Z3_solver_get_model(C, s);
      Z3_model_inc_ref(C, zm);
      Model m2 = model;
      for (auto e : set)
        for (uint32_t v : *e->vars) {
          Z3_ast val;
          Expr* ve = mkVar(v);
          if (!Z3_model_eval(C, zm, (Z3_ast)bv(ve), true, &val)) continue;
          uint64_t u = 0;
          Z3_get_numeral_uint64(C, val, &u);
          if (m2.size() <= v) m2.resize(v + 1, 0);
          m2[v] = (uint8_t)u;
        }
      Z3_model_dec_ref(C, zm);
      Z3_solver_dec_ref(C, s);
      uint64_t g = nextEvalGen();
      bool ok = true;
      for (auto e : set) if (!evalExpr(e, m2, g)) { ok = false; break; }
      if (ok) { model = m2; return Sat::Sat; }
      stats.modelMismatch++;
      if (ufs.empty()) {
        // a NaN payload or similar: exclude nothing, give up on this query
        return Sat::Unknown;
      }
      for (auto u : ufs) {
        u128 a = evalExpr(u->a[0], m2, g), b = evalExpr(u->a[1], m2, g);
        Expr* fact = mkOr(mkNot(mkAnd(mkEq(u->a[0], mkConst(a, 64)), mkEq(u->a[1], mkConst(b, 64)))),
                          mkEq(u, mkConst(ufHost(u->aux, a, b, 64), 64)));
        extra.push_back((Z3_ast)bl(fact));
      }
      continue;
    }
    Z3_solver_dec_ref(C, s);
    return r == Z3_L_FALSE ? Sat::Unsat : Sat::Unknown;
  }
  return Sat::Unknown;
}

// Floating point queries: look for a model by local search first (an unsatisfiable answer always comes from Z3).
bool Solver::guess(const std::vector<Expr*>& set, Model& model) {
  std::set<Expr*> seen;
  bool fpq = false;
  for (auto e : set) if (hasFP(e, seen)) { fpq = true; break; }
  if (!fpq) return false;
  std::vector<uint32_t> vs;
  for (auto e : set) vs.insert(vs.end(), e->vars->begin(), e->vars->end());
  std::sort(vs.begin(), vs.end());
  vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
  if (vs.empty() || vs.size() > 200) return false;
  uint64_t rng = 0x9e3779b97f4a7c15ull;
  auto rnd = [&]() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; };
  auto score = [&](const Model& m) {
    uint64_t g = nextEvalGen();
    int n = 0;
    for (auto e : set) if (evalExpr(e, const_cast<Model&>(m), g)) n++;
    return n;
  };
  Model cur = model;
  if (cur.size() <= vs.back()) cur.resize(vs.back() + 1, 0);
  int best = score(cur);
  for (int t = 0; t < 1500; t++) {
    Model m = cur;
    int k = 1 + (int)(rnd() % 3);
    for (int i = 0; i < k; i++) {
      uint32_t v = vs[rnd() % vs.size()];
      uint64_t x = rnd();
      m[v] = (x & 3) == 0 ? (uint8_t)(x >> 8) : (x & 3) == 1 ? (uint8_t)(m[v] + ((x >> 8) % 9) - 4) : (uint8_t)(((x >> 8) % 24) - 12);
    }
    int sc = score(m);
    if (sc == (int)set.size()) { model = m; stats.guessed++; return true; }
    if (sc >= best) { best = sc; cur = m; }
  }
  return false;
}

static void flatten(Expr* e, std::vector<Expr*>& out) {
  if (e->k == K::And && e->w == 1) { flatten(e->a[0], out); flatten(e->a[1], out); return; }
  out.push_back(e);
}

// Truth table of a condition over its only variable (one byte).
struct Table { uint64_t b[4]; };
static const Table& tableOf(Expr* e) {
  static std::unordered_map<Expr*, Table> memo;
  auto it = memo.find(e);
  if (it != memo.end()) return it->second;
  Table t{};
  uint32_t v = (*e->vars)[0];
  Model m(g_vars.size(), 0);
  for (unsigned x = 0; x < 256; x++) {
    m[v] = (uint8_t)x;
    if (evalExpr(e, m, nextEvalGen())) t.b[x >> 6] |= 1ull << (x & 63);
  }
  return memo.emplace(e, t).first->second;
}
// Exact for sets over one byte; for others: Unsat when the one-byte conditions
// of some variable exclude each other, Sat when changing one byte of the model
// is enough, Unknown otherwise.
static Sat byteDomains(const std::vector<Expr*>& set, Expr* cond, Model& model) {
  if (cond->vars->size() != 1) return Sat::Unknown;
  const uint32_t v = (*cond->vars)[0];
  uint64_t d[4] = {~0ull, ~0ull, ~0ull, ~0ull};
  bool multi = false;
  std::vector<Expr*> rest;
  for (auto e : set) {
    if (e->vars->size() == 1 && (*e->vars)[0] == v) { const Table& t = tableOf(e); for (int i = 0; i < 4; i++) d[i] &= t.b[i]; }
    else if (e->vars->size() >= 1) { multi = true; for (auto x : *e->vars) if (x == v) { rest.push_back(e); break; } }
  }
  if (!(d[0] | d[1] | d[2] | d[3])) return Sat::Unsat;
  if (model.size() < g_vars.size()) model.resize(g_vars.size(), 0);
  const uint8_t old = model[v];
  int tries = 0;
  for (unsigned x = 0; x < 256; x++) {
    if (!(d[x >> 6] >> (x & 63) & 1)) continue;
    model[v] = (uint8_t)x;
    bool ok = true;
    if (multi) {
      if (++tries > 12) break;
      uint64_t g = nextEvalGen();
      for (auto e : rest) if (!evalExpr(e, model, g)) { ok = false; break; }
    }
    if (ok) return Sat::Sat;
  }
  model[v] = old;
  return Sat::Unknown;
}
// Z3 is asked again about the first conditions the truth tables exclude, and about every 512th later one.
void Solver::confirm(const std::vector<Expr*>& set) {
  if (++excluded > 100 && excluded % 512) return;
  std::set<Expr*> seen;
  for (auto e : set) if (hasFP(e, seen)) return;
  Model m(g_vars.size(), 0);
  double t0 = now();
  const Sat r = z3check(set, m);
  stats.time += now() - t0;
  stats.queries++;
  if (r == Sat::Unsat) stats.unsat++;
  else if (r == Sat::Sat) { fprintf(stderr, "the solver and the truth tables disagree\n"); abort(); }
}

Sat Solver::check(const std::vector<Expr*>& constraints, Expr* cond, Model& model) {
  if (cond->isConst()) return cond->c ? Sat::Sat : Sat::Unsat;
  // current model?
  uint64_t g = nextEvalGen();
  if (evalExpr(cond, model, g)) { stats.modelHits++; return Sat::Sat; }
  // independence slicing
  std::vector<Expr*> set;
  std::vector<char> used(constraints.size(), 0);
  std::vector<char> vars(g_vars.size(), 0);
  for (auto v : *cond->vars) vars[v] = 1;
  flatten(cond, set);
  bool changed = true;
  while (changed) {
    changed = false;
    for (size_t i = 0; i < constraints.size(); i++) {
      if (used[i]) continue;
      bool hit = false;
      for (auto v : *constraints[i]->vars) if (vars[v]) { hit = true; break; }
      if (!hit) continue;
      used[i] = 1; changed = true;
      flatten(constraints[i], set);
      for (auto v : *constraints[i]->vars) vars[v] = 1;
    }
  }
  std::sort(set.begin(), set.end(), [](Expr* a, Expr* b) { return a->id < b->id; });
  set.erase(std::unique(set.begin(), set.end()), set.end());
  // trivial contradiction
  for (auto e : set) {
    Expr* n = mkNot(e);
    if (n->isConst()) continue;
    if (std::binary_search(set.begin(), set.end(), n, [](Expr* a, Expr* b) { return a->id < b->id; })) {
      stats.cacheHits++;
      return Sat::Unsat;
    }
  }
  if (Sat q = byteDomains(set, cond, model); q != Sat::Unknown) {
    stats.domain++;
    if (q == Sat::Unsat) confirm(set);
    return q;
  }
  std::string key;
  key.reserve(set.size() * 4);
  for (auto e : set) key.append((const char*)&e->id, 4);
  auto it = cache.find(key);
  if (it != cache.end()) {
    stats.cacheHits++;
    if (it->second.r == Sat::Sat)
      for (auto& p : it->second.m) {
        if (model.size() <= p.first) model.resize(p.first + 1, 0);
        model[p.first] = p.second;
      }
    return it->second.r;
  }
  double t0 = now();
  Sat r = Sat::Unknown;
  if (guess(set, model)) r = Sat::Sat;
  else r = z3check(set, model);
  double dt = now() - t0;
  stats.time += dt;
  stats.maxTime = std::max(stats.maxTime, dt);
  stats.queries++;
  if (r == Sat::Sat) stats.sat++;
  else if (r == Sat::Unsat) stats.unsat++;
  else stats.unknown++;
  if (getenv("MSE_SLOWQ") && dt > atof(getenv("MSE_SLOWQ"))) {
    fprintf(stderr, "slow query %.2fs result=%d size=%zu cond=%s\n", dt, (int)r, set.size(), exprToString(cond, 12).c_str());
    if (getenv("MSE_SLOWQ_ALL")) for (auto e : set) fprintf(stderr, "   %s\n", exprToString(e, 12).c_str());
  }
  Entry en; en.r = r;
  if (r == Sat::Sat)
    for (auto e : set) for (auto v : *e->vars) en.m.push_back({v, model[v]});
  cache.emplace(std::move(key), std::move(en));
  return r;
}
