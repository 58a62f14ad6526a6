// Path condition, feasibility and the SMT back end (Z3, QF_BV).
#pragma once
#include "expr.hpp"
#include <algorithm>
#include <time.h>
static inline double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
struct Stats { u64 z3q, z3sat, z3unsat, quickSat, quickUnsat, assertQ; double z3t; };
struct Solver {
  ExprPool& P; Z3_context ctx = nullptr; Stats* st;
  std::vector<Expr*> pc; u8 model[MAXSYM]; size_t nsymModel = 0;
  struct Dom { u64 b[4]; }; Dom dom[MAXSYM];
  std::vector<std::vector<Expr*>> multi; // per byte: pc constraints with >1 support bytes
  std::vector<Z3_ast> symAst;
  u64 rlimit = 0;
  std::unordered_set<Expr*> never; // conditions already refuted under a prefix of pc (pc only grows, so they stay refuted)
  FILE* qlog = nullptr;
  Solver(ExprPool& p, Stats* s) : P(p), st(s) { memset(model, 0, sizeof model); multi.resize(MAXSYM); }
  Z3_context z() { if (!ctx) { Z3_global_param_set("encoding", "bmp"); Z3_config c = Z3_mk_config(); Z3_set_param_value(c, "model", "true"); ctx = Z3_mk_context(c); Z3_set_error_handler(ctx, [](Z3_context c, Z3_error_code e) { engine_error("z3: %s", Z3_get_error_msg(c, e)); }); } return ctx; }
  void noteSym(Expr* e) { u64 i = (u64)e->v; model[i] = P.symlo[i]; memset(&dom[i], 0, sizeof(Dom)); for (int v = P.symlo[i]; v <= P.symhi[i]; v++) dom[i].b[v >> 6] |= 1ull << (v & 63); P.epoch++; }
  int domCount(int i) { int c = 0; for (u64 x : dom[i].b) c += __builtin_popcountll(x); return c; }
  Z3_sort bv(unsigned w) { return Z3_mk_bv_sort(z(), w); }
  Z3_ast num(unsigned w, u128 v) {
    if (w <= 64) return Z3_mk_unsigned_int64(z(), (u64)v, bv(w));
    return Z3_mk_concat(z(), Z3_mk_unsigned_int64(z(), (u64)(v >> 64), bv(w - 64)), Z3_mk_unsigned_int64(z(), (u64)v, bv(64)));
  }
  Z3_ast symbv(size_t i) { if (symAst.size() <= i) symAst.resize(i + 1, nullptr); if (!symAst[i]) { symAst[i] = Z3_mk_const(z(), Z3_mk_int_symbol(z(), (int)i), bv(8)); } return symAst[i]; }
  Z3_ast asBv(Expr* e) { Z3_ast a = tr(e); if (e->w == 1) return Z3_mk_ite(z(), a, num(1, 1), num(1, 0)); return a; }
  Z3_ast tr(Expr* e) { // width-1 expressions become Bool
    if (e->ast) return e->ast; Z3_context c = z(); Z3_ast r = nullptr;
    switch (e->op) {
      case O_CONST: r = e->w == 1 ? (e->v ? Z3_mk_true(c) : Z3_mk_false(c)) : num(e->w, e->v); break;
      case O_SYM: r = symbv((u64)e->v); break;
      case O_TAINT: r = e->w == 1 ? Z3_mk_false(c) : num(e->w, 0); break;
      case O_ITE: r = Z3_mk_ite(c, tr(e->a), tr(e->b), tr(e->c)); break;
      case O_CONCAT: r = Z3_mk_concat(c, asBv(e->a), asBv(e->b)); break;
      case O_EXTRACT: { Z3_ast x = Z3_mk_extract(c, e->lo + e->w - 1, e->lo, asBv(e->a)); r = e->w == 1 ? Z3_mk_eq(c, x, num(1, 1)) : x; break; }
      case O_ZEXT: r = Z3_mk_zero_ext(c, e->w - e->a->w, asBv(e->a)); break;
      case O_SEXT: r = Z3_mk_sign_ext(c, e->w - e->a->w, asBv(e->a)); break;
      default: {
        Z3_ast a = tr(e->a), b = tr(e->b);
        if (e->a->w == 1) {
          Z3_ast ab[2] = { a, b };
          switch (e->op) {
            case O_AND: case O_MUL: r = Z3_mk_and(c, 2, ab); break; case O_OR: r = Z3_mk_or(c, 2, ab); break;
            case O_XOR: case O_ADD: case O_SUB: if (P.isK(e->b, 1)) r = Z3_mk_not(c, a); else r = Z3_mk_xor(c, a, b); break;
            case O_EQ: r = Z3_mk_iff(c, a, b); break;
            case O_ULT: { Z3_ast t[2] = { Z3_mk_not(c, a), b }; r = Z3_mk_and(c, 2, t); break; }
            case O_ULE: { Z3_ast t[2] = { Z3_mk_not(c, a), b }; r = Z3_mk_or(c, 2, t); break; }
            case O_SLT: { Z3_ast t[2] = { a, Z3_mk_not(c, b) }; r = Z3_mk_and(c, 2, t); break; }
            case O_SLE: { Z3_ast t[2] = { a, Z3_mk_not(c, b) }; r = Z3_mk_or(c, 2, t); break; }
            default: engine_error("z3: 1-bit op %d", e->op);
          }
        } else switch (e->op) {
          case O_ADD: r = Z3_mk_bvadd(c, a, b); break; case O_SUB: r = Z3_mk_bvsub(c, a, b); break; case O_MUL: r = Z3_mk_bvmul(c, a, b); break;
          case O_UDIV: r = Z3_mk_bvudiv(c, a, b); break; case O_SDIV: r = Z3_mk_bvsdiv(c, a, b); break; case O_UREM: r = Z3_mk_bvurem(c, a, b); break; case O_SREM: r = Z3_mk_bvsrem(c, a, b); break;
          case O_AND: r = Z3_mk_bvand(c, a, b); break; case O_OR: r = Z3_mk_bvor(c, a, b); break; case O_XOR: r = Z3_mk_bvxor(c, a, b); break;
          case O_SHL: r = Z3_mk_bvshl(c, a, b); break; case O_LSHR: r = Z3_mk_bvlshr(c, a, b); break; case O_ASHR: r = Z3_mk_bvashr(c, a, b); break;
          case O_EQ: r = Z3_mk_eq(c, a, b); break; case O_ULT: r = Z3_mk_bvult(c, a, b); break; case O_ULE: r = Z3_mk_bvule(c, a, b); break;
          case O_SLT: r = Z3_mk_bvslt(c, a, b); break; case O_SLE: r = Z3_mk_bvsle(c, a, b); break;
          default: engine_error("z3: op %d", e->op);
        }
      }
    }
    e->ast = r; return r;
  }
  void slice(Expr* cond, std::vector<Expr*>& out, Sup& s) {
    s = *cond->sup; std::vector<char> used(pc.size(), 0); bool ch = true;
    while (ch) { ch = false; for (size_t i = 0; i < pc.size(); i++) if (!used[i]) { bool hit = false; for (int k = 0; k < MAXSYM / 64; k++) if (pc[i]->sup->w[k] & s.w[k]) { hit = true; break; } if (hit) { used[i] = 1; out.push_back(pc[i]); for (int k = 0; k < MAXSYM / 64; k++) if (pc[i]->sup->w[k] & ~s.w[k]) { s.w[k] |= pc[i]->sup->w[k]; ch = true; } } } }
  }
  // SMT query: is pc && cond satisfiable? fills m2 (full model) if so.
  bool z3check(Expr* cond, u8* m2) {
    double t0 = now_s(); std::vector<Expr*> sl; Sup s; slice(cond, sl, s);
    Z3_context c = z(); Z3_solver sv = Z3_mk_solver_for_logic(c, Z3_mk_string_symbol(c, "QF_BV")); Z3_solver_inc_ref(c, sv);
    for (size_t i = 0; i < P.syms.size(); i++) if (s.w[i / 64] >> (i % 64) & 1) {
      if (P.symlo[i] > 0) Z3_solver_assert(c, sv, Z3_mk_bvuge(c, symbv(i), num(8, P.symlo[i])));
      if (P.symhi[i] < 255) Z3_solver_assert(c, sv, Z3_mk_bvule(c, symbv(i), num(8, P.symhi[i])));
    }
    for (Expr* e : sl) Z3_solver_assert(c, sv, tr(e));
    Z3_solver_assert(c, sv, tr(cond));
    Z3_lbool r = Z3_solver_check(c, sv); st->z3q++; st->z3t += now_s() - t0;
    if (r == Z3_L_UNDEF) engine_error("z3 returned unknown: %s", Z3_solver_get_reason_unknown(c, sv));
    if (r == Z3_L_TRUE) {
      st->z3sat++; memcpy(m2, model, MAXSYM); Z3_model m = Z3_solver_get_model(c, sv); Z3_model_inc_ref(c, m);
      for (size_t i = 0; i < P.syms.size(); i++) if (s.w[i / 64] >> (i % 64) & 1) { Z3_ast v; if (Z3_model_eval(c, m, symbv(i), true, &v)) { u64 x = 0; Z3_get_numeral_uint64(c, v, &x); m2[i] = (u8)x; } }
      Z3_model_dec_ref(c, m);
      P.setModel(m2); bool ok = P.eval(cond) != 0; for (Expr* e : sl) ok = ok && P.eval(e); P.setModel(model);
      if (!ok) engine_error("z3 model does not satisfy the query");
    } else st->z3unsat++;
    Z3_solver_dec_ref(c, sv); return r == Z3_L_TRUE;
  }
  // cheap decision by enumerating the byte domains of the condition's support; 0 unsat, 1 sat (m2 filled), 2 unknown
  int quick(Expr* cond, u8* m2) {
    if (cond->nsup == 0 || cond->nsup > 6) return 2;
    int ids[6], n = 0; u64 prod = 1;
    for (int k = 0; k < MAXSYM / 64; k++) { u64 x = cond->sup->w[k]; while (x) { int b = __builtin_ctzll(x); x &= x - 1; ids[n++] = k * 64 + b; } }
    for (int i = 0; i < n; i++) { prod *= domCount(ids[i]); if (prod > 12000) return 2; }
    std::vector<u8> vals[6]; for (int i = 0; i < n; i++) for (int v = 0; v < 256; v++) if (dom[ids[i]].b[v >> 6] >> (v & 63) & 1) vals[i].push_back(v);
    u8 cand[MAXSYM]; memcpy(cand, model, MAXSYM); std::vector<Expr*> rel, loc; // constraints over these bytes only / over more bytes
    for (int i = 0; i < n; i++) for (Expr* e : multi[ids[i]]) { bool in = true; for (int k = 0; k < MAXSYM / 64 && in; k++) if (e->sup->w[k] & ~cond->sup->w[k]) in = false; auto& v = in ? loc : rel; if (std::find(v.begin(), v.end(), e) == v.end()) v.push_back(e); }
    size_t idx[6] = { 0 }; bool any = false; int ret = 0;
    for (;;) {
      for (int i = 0; i < n; i++) cand[ids[i]] = vals[i][idx[i]];
      P.setModel(cand);
      if (P.eval(cond)) { bool ok = true; for (Expr* e : loc) if (!P.eval(e)) { ok = false; break; } if (ok) any = true; if (ok) for (Expr* e : rel) if (!P.eval(e)) { ok = false; break; } if (ok) { memcpy(m2, cand, MAXSYM); ret = 1; break; } }
      int k = 0; while (k < n && ++idx[k] == vals[k].size()) idx[k++] = 0; if (k == n) break;
    }
    P.setModel(model);
    if (ret == 1) return 1; if (!any) return 0; return 2;
  }
  bool may(Expr* cond, u8* m2) {
    if (cond->op == O_CONST) { memcpy(m2, model, MAXSYM); return cond->v != 0; }
    if (P.eval(cond)) { memcpy(m2, model, MAXSYM); return true; }
    if (never.count(cond)) { st->quickUnsat++; return false; }
    int q = quick(cond, m2); if (q == 0) { st->quickUnsat++; never.insert(cond); return false; } if (q == 1) { st->quickSat++; return true; }
    bool r = z3check(cond, m2); if (!r) never.insert(cond); return r;
  }
  void setModel(const u8* m) { memmove(model, m, MAXSYM); P.setModel(model); }
  void add(Expr* c) { // model must satisfy c
    if (c->op == O_CONST) { if (!c->v) engine_error("adding false"); return; }
    if (c->op == O_AND && c->w == 1) { add(c->a); add(c->b); return; }
    for (Expr* e : pc) if (e == c) return;
    pc.push_back(c);
    int n = 0, one = -1; for (int k = 0; k < MAXSYM / 64; k++) { u64 x = c->sup->w[k]; while (x) { int b = __builtin_ctzll(x); x &= x - 1; one = k * 64 + b; n++; } }
    if (n == 1) {
      u8 cand[MAXSYM]; memcpy(cand, model, MAXSYM); Dom d; memset(&d, 0, sizeof d);
      for (int v = 0; v < 256; v++) if (dom[one].b[v >> 6] >> (v & 63) & 1) { cand[one] = v; P.setModel(cand); if (P.eval(c)) d.b[v >> 6] |= 1ull << (v & 63); }
      dom[one] = d; P.setModel(model);
    } else for (int k = 0; k < MAXSYM / 64; k++) { u64 x = c->sup->w[k]; while (x) { int b = __builtin_ctzll(x); x &= x - 1; multi[k * 64 + b].push_back(c); } }
  }
};
