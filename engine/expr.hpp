// Bit-vector expression DAG, simplifier, interval analysis, model evaluation.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <z3.h>
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64;
typedef int8_t i8; typedef int16_t i16; typedef int32_t i32; typedef int64_t i64;
typedef unsigned __int128 u128; typedef __int128 i128;

enum Op : u8 { O_CONST, O_SYM, O_TAINT, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT };

static const int MAXSYM = 1024;
struct Sup { u64 w[MAXSYM / 64]; bool operator==(const Sup& o) const { return !memcmp(w, o.w, sizeof w); } };
struct SupHash { size_t operator()(const Sup& s) const { u64 h = 1469598103934665603ull; for (u64 x : s.w) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; } return h; } };

struct Expr {
  u8 op; u16 w; u16 lo; u32 id;
  Expr *a, *b, *c;
  u128 v;            // const value / sym index
  u128 umin, umax;   // unsigned interval
  const Sup* sup;
  u32 nsup;
  u32 epoch; u128 ev; // evaluation memo
  Z3_ast ast;
};

[[noreturn]] void engine_error(const char* fmt, ...);

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
static inline i128 sextw(u128 v, unsigned w) { if (w >= 128) return (i128)v; return ((i128)(v << (128 - w))) >> (128 - w); }

struct ExprPool {
  std::unordered_set<Sup, SupHash> sups;
  const Sup* emptySup;
  Expr* taint[129];
  std::vector<Expr*> all;
  // chunked arena
  char* cur = nullptr; size_t left = 0;
  // open addressing hash table
  std::vector<Expr*> tab; size_t cnt = 0;
  std::vector<Expr*> syms;
  u8 symlo[MAXSYM], symhi[MAXSYM];
  std::string symname[MAXSYM];
  ExprPool() { Sup z; memset(&z, 0, sizeof z); emptySup = &*sups.insert(z).first; tab.resize(1 << 14); memset(taint, 0, sizeof taint); }
  Expr* raw() { if (left < sizeof(Expr)) { left = 1 << 20; cur = (char*)malloc(left); } Expr* e = (Expr*)cur; cur += sizeof(Expr); cur = (char*)(((uintptr_t)cur + 15) & ~15ull); left = left > sizeof(Expr) + 16 ? left - sizeof(Expr) - 16 : 0; return e; }
  static u64 hsh(u8 op, u16 w, u16 lo, Expr* a, Expr* b, Expr* c, u128 v) {
    u64 h = op * 0x9E3779B97F4A7C15ull + w * 1315423911ull + lo * 2654435761ull;
    auto mix = [&](u64 x) { h ^= x; h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
    mix(a ? a->id + 1 : 0); mix(b ? b->id + 1 : 0); mix(c ? c->id + 1 : 0); mix((u64)v); mix((u64)(v >> 64)); return h;
  }
  void grow() { std::vector<Expr*> o; o.swap(tab); tab.resize(o.size() * 2); for (Expr* e : o) if (e) { u64 h = hsh(e->op, e->w, e->lo, e->a, e->b, e->c, e->v); size_t i = h & (tab.size() - 1); while (tab[i]) i = (i + 1) & (tab.size() - 1); tab[i] = e; } }
  Expr* intern(u8 op, u16 w, u16 lo, Expr* a, Expr* b, Expr* c, u128 v) {
    u64 h = hsh(op, w, lo, a, b, c, v); size_t i = h & (tab.size() - 1);
    while (tab[i]) { Expr* e = tab[i]; if (e->op == op && e->w == w && e->lo == lo && e->a == a && e->b == b && e->c == c && e->v == v) return e; i = (i + 1) & (tab.size() - 1); }
    Expr* e = raw(); memset(e, 0, sizeof *e); e->op = op; e->w = w; e->lo = lo; e->a = a; e->b = b; e->c = c; e->v = v; e->id = all.size(); all.push_back(e);
    if (op == O_SYM) { Sup s; memset(&s, 0, sizeof s); s.w[(u64)v / 64] |= 1ull << ((u64)v % 64); e->sup = &*sups.insert(s).first; }
    else {
      e->sup = emptySup; Expr* k[3] = { a, b, c };
      for (Expr* x : k) if (x && x->sup != e->sup && x->sup != emptySup) { if (e->sup == emptySup) e->sup = x->sup; else { Sup s = *e->sup; for (int q = 0; q < MAXSYM / 64; q++) s.w[q] |= x->sup->w[q]; e->sup = &*sups.insert(s).first; } }
    }
    e->nsup = 0; for (u64 x : e->sup->w) e->nsup += __builtin_popcountll(x);
    interval(e);
    tab[i] = e; if (++cnt * 2 > tab.size()) grow();
    return e;
  }
  static bool mulov(u128 a, u128 b, u128& r) { return __builtin_mul_overflow(a, b, &r); }
  void interval(Expr* e) {
    u128 M = maskw(e->w); e->umin = 0; e->umax = M; Expr *a = e->a, *b = e->b;
    switch (e->op) {
      case O_CONST: e->umin = e->umax = e->v; break;
      case O_SYM: e->umin = symlo[(u64)e->v]; e->umax = symhi[(u64)e->v]; break;
      case O_ADD: { u128 x; if (!__builtin_add_overflow(a->umax, b->umax, &x) && x <= M) { e->umin = a->umin + b->umin; e->umax = x; }
        else if (b->op == O_CONST && e->w < 128) { // x + (-k) with x>=k
          u128 k = (~b->v + 1) & M; if (a->umin >= k) { e->umin = a->umin - k; e->umax = a->umax - k; } }
        break; }
      case O_SUB: if (a->umin >= b->umax) { e->umin = a->umin - b->umax; e->umax = a->umax - b->umin; } break;
      case O_MUL: { u128 x; if (!mulov(a->umax, b->umax, x) && x <= M) { e->umax = x; e->umin = a->umin * b->umin; } break; }
      case O_UDIV: if (b->umin > 0) { e->umin = a->umin / b->umax; e->umax = a->umax / b->umin; } break;
      case O_UREM: if (b->umin > 0) { if (a->umax < b->umin) { e->umin = a->umin; e->umax = a->umax; } else { e->umax = b->umax - 1; if (a->umax < e->umax) e->umax = a->umax; } } break;
      case O_AND: e->umax = a->umax < b->umax ? a->umax : b->umax; break;
      case O_OR: case O_XOR: { u128 m = a->umax | b->umax; m |= m >> 1; m |= m >> 2; m |= m >> 4; m |= m >> 8; m |= m >> 16; m |= m >> 32; m |= m >> 64; e->umax = m & M; if (e->op == O_OR) e->umin = a->umin > b->umin ? a->umin : b->umin; break; }
      case O_SHL: if (b->op == O_CONST && b->v < e->w) { unsigned k = (unsigned)b->v; if (a->umax <= (M >> k)) { e->umin = a->umin << k; e->umax = a->umax << k; } } break;
      case O_LSHR: if (b->op == O_CONST && b->v < e->w) { e->umin = a->umin >> (unsigned)b->v; e->umax = a->umax >> (unsigned)b->v; } else e->umax = a->umax; break;
      case O_ITE: e->umin = b->umin < e->c->umin ? b->umin : e->c->umin; e->umax = b->umax > e->c->umax ? b->umax : e->c->umax; break;
      case O_CONCAT: e->umin = (a->umin << b->w) | b->umin; e->umax = (a->umax << b->w) | b->umax; break;
      case O_ZEXT: e->umin = a->umin; e->umax = a->umax; break;
      case O_SEXT: if (a->umax <= (maskw(a->w) >> 1)) { e->umin = a->umin; e->umax = a->umax; } break;
      case O_EXTRACT: { u128 hi = a->umax >> e->lo; if (hi <= M) { e->umin = a->umin >> e->lo; e->umax = hi; } break; }
      default: break;
    }
  }
  Expr* K(unsigned w, u128 v) { return intern(O_CONST, w, 0, 0, 0, 0, v & maskw(w)); }
  Expr* T(unsigned w) { if (!taint[w]) taint[w] = intern(O_TAINT, w, 0, 0, 0, 0, 0); return taint[w]; }
  Expr* newsym(u8 lo, u8 hi, const std::string& nm) { size_t i = syms.size(); if (i >= MAXSYM) engine_error("too many symbolic bytes"); symlo[i] = lo; symhi[i] = hi; symname[i] = nm; Expr* e = intern(O_SYM, 8, 0, 0, 0, 0, i); syms.push_back(e); return e; }

  static u128 fold2(u8 op, unsigned w, u128 x, u128 y) {
    u128 M = maskw(w);
    switch (op) {
      case O_ADD: return (x + y) & M; case O_SUB: return (x - y) & M; case O_MUL: return (x * y) & M;
      case O_UDIV: return y ? x / y : M; case O_UREM: return y ? x % y : x;
      case O_SDIV: { i128 p = sextw(x, w), q = sextw(y, w); if (!q) return p < 0 ? 1 : M; if (q == -1) return (u128)(-p) & M; return (u128)(p / q) & M; }
      case O_SREM: { i128 p = sextw(x, w), q = sextw(y, w); if (!q) return x; if (q == -1) return 0; return (u128)(p % q) & M; }
      case O_AND: return x & y; case O_OR: return x | y; case O_XOR: return x ^ y;
      case O_SHL: return y >= w ? 0 : (x << (unsigned)y) & M; case O_LSHR: return y >= w ? 0 : x >> (unsigned)y;
      case O_ASHR: { i128 p = sextw(x, w); return (u128)(p >> (y >= w ? w - 1 : (unsigned)y)) & M; }
      case O_EQ: return x == y; case O_ULT: return x < y; case O_ULE: return x <= y;
      case O_SLT: return sextw(x, w) < sextw(y, w); case O_SLE: return sextw(x, w) <= sextw(y, w);
    }
    abort();
  }
  bool isK(Expr* e) { return e->op == O_CONST; }
  bool isK(Expr* e, u128 v) { return e->op == O_CONST && e->v == v; }
  // constant-leaf ITE tree?
  bool constTree(Expr* e, int depth = 0) { if (e->op == O_CONST) return true; if (e->op != O_ITE || depth > 24) return false; return constTree(e->b, depth + 1) && constTree(e->c, depth + 1); }
  int treeSize(Expr* e) { return e->op == O_ITE ? treeSize(e->b) + treeSize(e->c) : 1; }
  template <class F> Expr* mapTree(Expr* e, F f) { if (e->op == O_ITE) return ite(e->a, mapTree(e->b, f), mapTree(e->c, f)); return f(e); }

  Expr* not1(Expr* c) { return bin(O_XOR, c, K(1, 1)); }
  struct Piece { Expr* e; unsigned w; };  // LSB first
  void pieces(Expr* e, std::vector<Expr*>& out) {
    if (e->op == O_CONCAT) { pieces(e->b, out); pieces(e->a, out); }
    else if (e->op == O_ZEXT) { pieces(e->a, out); out.push_back(K(e->w - e->a->w, 0)); }
    else out.push_back(e);
  }
  // try piecewise or/xor/and: succeeds when every aligned piece pair folds trivially
  Expr* piecewise(u8 op, Expr* a, Expr* b) {
    std::vector<Expr*> pa, pb; pieces(a, pa); pieces(b, pb);
    if (pa.size() == 1 && pb.size() == 1) return nullptr;
    if (pa.size() > 40 || pb.size() > 40) return nullptr;
    std::vector<Expr*> res; size_t i = 0, j = 0; unsigned oa = 0, ob = 0;
    while (i < pa.size()) {
      unsigned ra = pa[i]->w - oa, rb = pb[j]->w - ob, n = ra < rb ? ra : rb;
      Expr *x = pa[i], *y = pb[j];
      bool xk = isK(x), yk = isK(y);
      if (!xk && !yk) { if (!(x->w == n && y->w == n && x == y)) return nullptr; }
      Expr* xe = extract(x, oa, n); Expr* ye = extract(y, ob, n); Expr* r = nullptr; u128 M = maskw(n);
      if (isK(xe) && isK(ye)) r = K(n, fold2(op, n, xe->v, ye->v));
      else {
        if (isK(xe)) std::swap(xe, ye);
        if (op == O_AND) { if (isK(ye, 0)) r = K(n, 0); else if (isK(ye, M)) r = xe; else if (xe == ye) r = xe; }
        else if (op == O_OR) { if (isK(ye, 0)) r = xe; else if (isK(ye, M)) r = K(n, M); else if (xe == ye) r = xe; }
        else { if (isK(ye, 0)) r = xe; else if (xe == ye) r = K(n, 0); }
        if (!r && isK(ye)) r = intern2(op, n, xe, ye);
      }
      if (!r) return nullptr;
      res.push_back(r); oa += n; ob += n;
      if (oa == pa[i]->w) { i++; oa = 0; } if (ob == pb[j]->w) { j++; ob = 0; }
    }
    Expr* r = res[0]; for (size_t k = 1; k < res.size(); k++) r = concat(res[k], r); return r;
  }
  Expr* intern2(u8 op, unsigned w, Expr* a, Expr* b) { return intern(op, w, 0, a, b, 0, 0); }
  Expr* bin(u8 op, Expr* a, Expr* b) {
    unsigned w = a->w; if (b->w != w) engine_error("bin width mismatch op=%d %d %d", op, w, b->w); u128 M = maskw(w); bool cmp = op >= O_EQ && op <= O_SLE; unsigned rw = cmp ? 1 : w;
    if (a->op == O_TAINT || b->op == O_TAINT) {
      switch (op) { case O_ADD: case O_SUB: case O_MUL: case O_XOR: case O_OR: case O_SHL: return T(w); case O_AND: case O_LSHR: case O_ASHR: case O_UREM: case O_UDIV: case O_SREM: case O_SDIV: break; default: break; }
      // hash consumed: treat the tainted operand as 0
      if (a->op == O_TAINT) a = K(w, 0); if (b->op == O_TAINT) b = K(w, 0);
    }
    if (isK(a) && isK(b)) return K(rw, fold2(op, w, a->v, b->v));
    bool comm = op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ;
    if (comm) { if (isK(a)) std::swap(a, b); else if (!isK(b) && a->id > b->id) std::swap(a, b); }
    // constant ITE trees against constants
    if (isK(b) && a->op == O_ITE && constTree(a) && treeSize(a) <= 64) return mapTree(a, [&](Expr* l) { return K(rw, fold2(op, w, l->v, b->v)); });
    if (isK(a) && b->op == O_ITE && constTree(b) && treeSize(b) <= 64) return mapTree(b, [&](Expr* l) { return K(rw, fold2(op, w, a->v, l->v)); });
    switch (op) {
      case O_ADD:
        if (isK(b, 0)) return a; if (w == 1) return bin(O_XOR, a, b);
        if (isK(b) && a->op == O_ADD && isK(a->b)) return bin(O_ADD, a->a, K(w, a->b->v + b->v));
        if (isK(b) && a->op == O_SUB && isK(a->a)) return bin(O_SUB, K(w, a->a->v + b->v), a->b);
        // (x<<k) + small  ==> or
        { if (Expr* r = disjointOr(a, b)) return r; }
        break;
      case O_SUB:
        if (isK(b)) return bin(O_ADD, a, K(w, (~b->v + 1) & M)); if (a == b) return K(w, 0); if (w == 1) return bin(O_XOR, a, b);
        if (a->op == O_ADD && isK(a->b) && a->a == b) return a->b;
        if (a->op == O_ADD && b->op == O_ADD && isK(a->b) && isK(b->b) && a->a == b->a) return K(w, a->b->v - b->b->v);
        break;
      case O_MUL:
        if (isK(b, 0)) return b; if (isK(b, 1)) return a; if (w == 1) return bin(O_AND, a, b);
        if (isK(b) && (b->v & (b->v - 1)) == 0) { unsigned k = 0; while ((b->v >> k) != 1) k++; return bin(O_SHL, a, K(w, k)); }
        break;
      case O_UDIV: if (isK(b, 1)) return a; if (isK(b) && b->v && (b->v & (b->v - 1)) == 0) { unsigned k = 0; while ((b->v >> k) != 1) k++; return bin(O_LSHR, a, K(w, k)); }
        if (isK(b) && b->v && a->umax < b->v) return K(w, 0);
        if (isK(b) && b->v) { if (Expr* r = linDiv(a, b)) return r; }
        // narrow division
        if (isK(b) && b->v && w > 8) { if (Expr* r = narrow(op, a, b)) return r; }
        break;
      case O_UREM: if (isK(b, 1)) return K(w, 0); if (isK(b) && b->v && (b->v & (b->v - 1)) == 0) return bin(O_AND, a, K(w, b->v - 1));
        if (isK(b) && b->v && a->umax < b->v) return a;
        if (isK(b) && b->v && w > 8) { if (Expr* r = narrow(op, a, b)) return r; }
        break;
      case O_SDIV: case O_SREM: if (a->umax <= (M >> 1) && b->umax <= (M >> 1)) return bin(op == O_SDIV ? O_UDIV : O_UREM, a, b); break;
      case O_AND:
        if (isK(b, 0)) return b; if (isK(b, M)) return a; if (a == b) return a;
        if (w == 1 && ((b->op == O_XOR && b->a == a && isK(b->b)) || (a->op == O_XOR && a->a == b && isK(a->b)))) return K(1, 0);
        if (isK(b) && a->op == O_AND && isK(a->b)) return bin(O_AND, a->a, K(w, a->b->v & b->v));
        if (isK(b)) { u128 m = b->v; // mask
          if (a->umax <= m && (m & (m + 1)) == 0) return a;
          if (w > 1) { // runs
            int runs = 0; for (unsigned i = 0; i < w;) { bool bit = (m >> i) & 1; while (i < w && (((m >> i) & 1) != 0) == bit) i++; runs++; }
            if (runs <= 17 && (a->op == O_CONCAT || a->op == O_ZEXT || runs <= 3)) {
              Expr* r = nullptr; for (unsigned i = 0; i < w;) { bool bit = (m >> i) & 1; unsigned s = i; while (i < w && (((m >> i) & 1) != 0) == bit) i++; Expr* p = bit ? extract(a, s, i - s) : K(i - s, 0); r = r ? concat(p, r) : p; } return r; } }
        }
        else if (Expr* r = piecewise(op, a, b)) return r;
        break;
      case O_OR:
        if (isK(b, 0)) return a; if (isK(b, M)) return b; if (a == b) return a;
        if (w == 1 && ((b->op == O_XOR && b->a == a && isK(b->b)) || (a->op == O_XOR && a->a == b && isK(a->b)))) return K(1, 1);
        if (w > 1) if (Expr* r = piecewise(op, a, b)) return r;
        break;
      case O_XOR:
        if (isK(b, 0)) return a; if (a == b) return K(w, 0);
        if (isK(b) && a->op == O_XOR && isK(a->b)) return bin(O_XOR, a->a, K(w, a->b->v ^ b->v));
        if (w == 1 && isK(b, 1)) { if (a->op == O_ULT) return bin(O_ULE, a->b, a->a); if (a->op == O_ULE) return bin(O_ULT, a->b, a->a); if (a->op == O_SLT) return bin(O_SLE, a->b, a->a); if (a->op == O_SLE) return bin(O_SLT, a->b, a->a); }
        if (w > 1) if (Expr* r = piecewise(op, a, b)) return r;
        break;
      case O_SHL: if (isK(b)) { if (b->v == 0) return a; if (b->v >= w) return K(w, 0); unsigned k = (unsigned)b->v; return concat(extract(a, 0, w - k), K(k, 0)); } if (isK(a, 0)) return a; break;
      case O_LSHR: if (isK(b)) { if (b->v == 0) return a; if (b->v >= w) return K(w, 0); unsigned k = (unsigned)b->v; return zext(extract(a, k, w - k), w); } if (isK(a, 0)) return a; break;
      case O_ASHR: if (isK(b)) { if (b->v == 0) return a; unsigned k = b->v >= w ? w - 1 : (unsigned)b->v; if (a->umax <= (M >> 1)) return bin(O_LSHR, a, K(w, k)); return sext(extract(a, k, w - k), w); } break;
      case O_EQ:
        if (a == b) return K(1, 1); if (a->umax < b->umin || b->umax < a->umin) return K(1, 0);
        if (w == 1) { if (isK(b)) return b->v ? a : not1(a); return not1(bin(O_XOR, a, b)); }
        if (isK(b)) {
          if (a->op == O_ZEXT) { if (b->v >> a->a->w) return K(1, 0); return bin(O_EQ, a->a, K(a->a->w, b->v)); }
          if (a->op == O_CONCAT) { Expr* l = bin(O_EQ, a->b, K(a->b->w, b->v)); if (isK(l, 0)) return l; Expr* h = bin(O_EQ, a->a, K(a->a->w, b->v >> a->b->w)); return bin(O_AND, h, l); }
          if (a->op == O_SEXT) { Expr* k = K(a->a->w, b->v); if ((u128)sextw(k->v, k->w) % 1 == 0 && ((u128)sextw(k->v, k->w) & M) == b->v) return bin(O_EQ, a->a, k); return K(1, 0); }
          if (a->op == O_ADD && isK(a->b)) return bin(O_EQ, a->a, K(w, b->v - a->b->v));
          if (a->op == O_XOR && isK(a->b)) return bin(O_EQ, a->a, K(w, b->v ^ a->b->v));
          if (a->op == O_SUB && isK(a->a)) return bin(O_EQ, a->b, K(w, a->a->v - b->v));
          if (a->op == O_ITE) { // one arm provably different
            if (isK(a->b) && a->b->v != b->v) return bin(O_AND, not1(a->a), bin(O_EQ, a->c, b));
            if (isK(a->c) && a->c->v != b->v) return bin(O_AND, a->a, bin(O_EQ, a->b, b)); }
          if (a->op == O_SUB && b->v == 0) return bin(O_EQ, a->a, a->b);
          if (a->op == O_XOR && b->v == 0) return bin(O_EQ, a->a, a->b);
          if (a->op == O_OR && b->v == 0) return bin(O_AND, bin(O_EQ, a->a, b), bin(O_EQ, a->b, b));
        } else {
          if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return bin(O_EQ, a->a, b->a);
          if (a->op == O_CONCAT && b->op == O_CONCAT && a->b->w == b->b->w) { Expr* l = bin(O_EQ, a->b, b->b); if (isK(l, 0)) return l; return bin(O_AND, bin(O_EQ, a->a, b->a), l); }
          if (a->op == O_ADD && b->op == O_ADD && isK(a->b) && isK(b->b) && a->b == b->b) return bin(O_EQ, a->a, b->a);
        }
        if (Expr* r = linCmp(op, a, b)) return r;
        break;
      case O_ULT:
        if (a == b) return K(1, 0); if (a->umax < b->umin) return K(1, 1); if (a->umin >= b->umax) return K(1, 0);
        if (w == 1) return bin(O_AND, not1(a), b);
        if (isK(b, 1)) return bin(O_EQ, a, K(w, 0)); if (isK(a, 0)) return not1(bin(O_EQ, b, a));
        if (a->op == O_ZEXT && isK(b)) { return bin(O_ULT, a->a, K(a->a->w, b->v)); }   // b->v fits: otherwise interval decided
        if (b->op == O_ZEXT && isK(a)) { return bin(O_ULT, K(b->a->w, a->v), b->a); }
        if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return bin(O_ULT, a->a, b->a);
        if (a->op == O_CONCAT && b->op == O_CONCAT && a->b->w == b->b->w && a->a == b->a) return bin(O_ULT, a->b, b->b);
        if (Expr* r = linCmp(op, a, b)) return r;
        break;
      case O_ULE: { if (a == b) return K(1, 1); if (a->umax <= b->umin) return K(1, 1); if (a->umin > b->umax) return K(1, 0);
        if (isK(b) && b->v != M) return bin(O_ULT, a, K(w, b->v + 1)); if (isK(a) && a->v) return bin(O_ULT, K(w, a->v - 1), b);
        if (w == 1) return bin(O_OR, not1(a), b);
        if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return bin(O_ULE, a->a, b->a);
        if (a->op == O_CONCAT && b->op == O_CONCAT && a->b->w == b->b->w && a->a == b->a) return bin(O_ULE, a->b, b->b);
        if (Expr* r = linCmp(op, a, b)) return r;
        break; }
      case O_SLT: case O_SLE: { u128 h = M >> 1; if (a == b) return K(1, op == O_SLE);
        bool an = a->umax <= h, bn = b->umax <= h, aneg = a->umin > h, bneg = b->umin > h;
        if ((an && bn) || (aneg && bneg)) return bin(op == O_SLT ? O_ULT : O_ULE, a, b);
        if (an && bneg) return K(1, 0); if (aneg && bn) return K(1, 1);
        if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return bin(op, a->a, b->a);
        break; }
    }
    return intern2(op, rw, a, b);
  }
  // ---- integer linear forms (only through operations that provably do not wrap)
  struct Lin { std::vector<std::pair<Expr*, __int128>> t; __int128 c = 0; bool ok = true;
    void add(Expr* e, __int128 k) { for (auto& p : t) if (p.first == e) { p.second += k; return; } t.push_back({ e, k }); } };
  int linBudget = 0;
  void lin(Expr* e, __int128 k, Lin& L) {
    u128 M = maskw(e->w);
    if (--linBudget < 0 || L.t.size() > 24 || k > ((__int128)1 << 100) || k < -((__int128)1 << 100)) { L.ok = false; return; }
    switch (e->op) {
      case O_CONST: if (e->v >> 100) { L.ok = false; return; } { __int128 v = (__int128)e->v; __int128 r; if (__builtin_mul_overflow(v, k, &r) || __builtin_add_overflow(L.c, r, &L.c)) L.ok = false; } return;
      case O_ZEXT: lin(e->a, k, L); return;
      case O_ADD:
        if (isK(e->b)) { u128 n = (M - e->b->v + 1) & M; if (e->w < 128 && e->a->umax + e->b->v <= M) { lin(e->a, k, L); lin(e->b, k, L); return; }
          if (e->w < 100 && e->b->v > (M >> 1) && e->a->umin >= n) { lin(e->a, k, L); L.c -= k * (__int128)n; return; } break; }
        if (e->w < 128 && e->a->umax + e->b->umax <= M) { lin(e->a, k, L); lin(e->b, k, L); return; } break;
      case O_SUB: if (e->a->umin >= e->b->umax) { lin(e->a, k, L); lin(e->b, -k, L); return; } break;
      case O_MUL: if (isK(e->b) && e->b->v && e->b->v < ((u128)1 << 64) && e->a->umax <= M / e->b->v) { __int128 r; if (__builtin_mul_overflow(k, (__int128)e->b->v, &r)) { L.ok = false; return; } lin(e->a, r, L); return; } break;
      case O_CONCAT: if (isK(e->b, 0) && e->b->w < 64) { __int128 r; if (__builtin_mul_overflow(k, (__int128)1 << e->b->w, &r)) { L.ok = false; return; } lin(e->a, r, L); return; } break;
    }
    if (e->umax >> 64) { L.ok = false; return; }
    L.add(e, k);
  }
  Expr* fit(Expr* e, unsigned w) { return e->w == w ? e : e->w < w ? zext(e, w) : extract(e, 0, w); }
  static unsigned bitsOf(u128 v) { unsigned n = 0; while (v) n++, v >>= 1; return n; }
  static __int128 gcdi(__int128 a, __int128 b) { if (a < 0) a = -a; if (b < 0) b = -b; while (b) { __int128 t = a % b; a = b; b = t; } return a; }
  Expr* linSum(const std::vector<std::pair<Expr*, __int128>>& t, __int128 c, unsigned w) { Expr* r = nullptr; for (auto& p : t) { Expr* x = bin(O_MUL, fit(p.first, w), K(w, (u128)p.second)); r = r ? bin(O_ADD, r, x) : x; } if (!r) return K(w, (u128)c); return bin(O_ADD, r, K(w, (u128)c)); }
  bool inLin = false;
  static __int128 fdiv(__int128 x, __int128 y) { __int128 q = x / y; if (x % y && x < 0) q--; return q; }
  Expr* linCmp(u8 op, Expr* a, Expr* b) { // op in EQ, ULT, ULE
    if (inLin) return nullptr;
    auto lk = [](Expr* e) { return e->op == O_ADD || e->op == O_MUL || e->op == O_ZEXT || e->op == O_SUB; };
    if (!lk(a) && !lk(b)) return nullptr; if (a->w < 16) return nullptr;
    Lin L; linBudget = 40; lin(a, 1, L); if (!L.ok) return nullptr; lin(b, -1, L); if (!L.ok) return nullptr;
    std::vector<std::pair<Expr*, __int128>> pos, neg; __int128 g = 0, c = L.c; for (auto& p : L.t) if (p.second) { g = gcdi(g, p.second); (p.second > 0 ? pos : neg).push_back({ p.first, p.second > 0 ? p.second : -p.second }); }
    if (g == 0) { bool r = op == O_EQ ? c == 0 : op == O_ULT ? c < 0 : c <= 0; return K(1, r); }
    // g*X + c  (cmp) 0
    if (op == O_EQ) { if (c % g) return K(1, 0); c /= g; }
    else if (op == O_ULT) c = -fdiv(-c - 1, g) - 1;     // gX < -c  <=> X <= floor((-c-1)/g)  <=> X + c' < 0 with c' = -(floor+1)
    else c = -fdiv(-c, g);                              // gX <= -c <=> X <= floor(-c/g)
    u128 mp = 0, mn = 0; for (auto& p : pos) { p.second /= g; mp += p.first->umax * (u128)p.second; } for (auto& p : neg) { p.second /= g; mn += p.first->umax * (u128)p.second; }
    __int128 cp = c > 0 ? c : 0, cn = c < 0 ? -c : 0; mp += (u128)cp; mn += (u128)cn;
    unsigned w2 = std::max(bitsOf(std::max(mp, mn)), 2u); if (w2 > 100) return nullptr;
    size_t before = 0, after = pos.size() + neg.size(); { Lin A, B; linBudget = 40; lin(a, 1, A); lin(b, 1, B); before = A.t.size() + B.t.size(); }
    if (after >= before && g == 1 && w2 >= a->w) return nullptr;
    inLin = true; Expr* x = linSum(pos, cp, w2); Expr* y = linSum(neg, cn, w2); inLin = false;
    if (x->op == O_TAINT || y->op == O_TAINT) return nullptr;
    inLin = true; Expr* r = bin(op, x, y); inLin = false; return r;
  }
  Expr* linDiv(Expr* a, Expr* b) { // a / const
    if (inLin || a->w > 64) return nullptr; if (a->op != O_ADD && a->op != O_MUL && a->op != O_ZEXT && a->op != O_SUB && a->op != O_CONCAT) return nullptr;
    Lin L; linBudget = 40; lin(a, 1, L); if (!L.ok) return nullptr; __int128 d = (__int128)b->v, g = d; bool any = false; for (auto& p : L.t) if (p.second) { if (p.second < 0) return nullptr; g = gcdi(g, p.second); any = true; } if (!any || g <= 1) return nullptr;
    __int128 c = fdiv(L.c, g); u128 m = c > 0 ? (u128)c : 0; for (auto& p : L.t) { p.second /= g; m += p.first->umax * (u128)p.second; } unsigned w2 = std::max(bitsOf(m), std::max(bitsOf((u128)(d / g)), 2u)); if (w2 > 64) return nullptr;
    std::vector<std::pair<Expr*, __int128>> t; for (auto& p : L.t) if (p.second) t.push_back(p);
    inLin = true; Expr* x = linSum(t, c, w2); inLin = false; Expr* r = bin(O_UDIV, x, K(w2, (u128)(d / g))); return fit(r, a->w);
  }
  Expr* disjointOr(Expr* a, Expr* b) { // a + b where bits are disjoint by structure
    if (a->op != O_CONCAT && a->op != O_ZEXT && b->op != O_CONCAT) return nullptr;
    std::vector<Expr*> pa, pb; pieces(a, pa); pieces(b, pb); if (pa.size() > 20 || pb.size() > 20) return nullptr;
    size_t i = 0, j = 0; unsigned oa = 0, ob = 0;
    while (i < pa.size()) { unsigned n = std::min(pa[i]->w - oa, pb[j]->w - ob); bool za = isK(pa[i]) && ((pa[i]->v >> oa) & maskw(n)) == 0, zb = isK(pb[j]) && ((pb[j]->v >> ob) & maskw(n)) == 0; if (!za && !zb) return nullptr; oa += n; ob += n; if (oa == pa[i]->w) i++, oa = 0; if (ob == pb[j]->w) j++, ob = 0; }
    return piecewise(O_OR, a, b);
  }
  Expr* narrow(u8 op, Expr* a, Expr* b) { // a op const, a small
    u128 m = a->umax > b->v ? a->umax : b->v; unsigned k = 1; while (k < 128 && (m >> k)) k++; k = (k + 3) & ~3u; if (k + 4 > a->w) return nullptr;
    return zext(intern2(op, k, extract(a, 0, k), K(k, b->v)), a->w);
  }
  Expr* zext(Expr* a, unsigned w) { if (a->w == w) return a; if (a->w > w) engine_error("zext width"); if (isK(a)) return K(w, a->v); if (a->op == O_TAINT) return T(w); if (a->op == O_ZEXT) return zext(a->a, w);
    if (a->op == O_ITE && constTree(a) && treeSize(a) <= 64) return mapTree(a, [&](Expr* l) { return K(w, l->v); });
    return intern(O_ZEXT, w, 0, a, 0, 0, 0); }
  Expr* sext(Expr* a, unsigned w) { if (a->w == w) return a; if (isK(a)) return K(w, (u128)sextw(a->v, a->w)); if (a->op == O_TAINT) return T(w); if (a->umax <= (maskw(a->w) >> 1)) return zext(a, w); if (a->op == O_SEXT) return sext(a->a, w);
    if (a->op == O_ITE && constTree(a) && treeSize(a) <= 64) return mapTree(a, [&](Expr* l) { return K(w, (u128)sextw(l->v, l->w)); });
    return intern(O_SEXT, w, 0, a, 0, 0, 0); }
  Expr* extract(Expr* a, unsigned lo, unsigned w) {
    if (lo == 0 && w == a->w) return a; if (lo + w > a->w) engine_error("extract range"); if (isK(a)) return K(w, a->v >> lo);
    if (a->op == O_TAINT) return lo == 0 ? T(w) : T(w);
    if (lo < 128 && (a->umax >> lo) == 0) return K(w, 0);
    switch (a->op) {
      case O_EXTRACT: return extract(a->a, a->lo + lo, w);
      case O_CONCAT: { unsigned bw = a->b->w; if (lo + w <= bw) return extract(a->b, lo, w); if (lo >= bw) return extract(a->a, lo - bw, w); return concat(extract(a->a, 0, lo + w - bw), extract(a->b, lo, bw - lo)); }
      case O_ZEXT: { unsigned bw = a->a->w; if (lo >= bw) return K(w, 0); if (lo + w <= bw) return extract(a->a, lo, w); return zext(extract(a->a, lo, bw - lo), w); }
      case O_SEXT: { unsigned bw = a->a->w; if (lo + w <= bw) return extract(a->a, lo, w); if (lo < bw) return sext(extract(a->a, lo, bw - lo), w); return sext(extract(a->a, bw - 1, 1), w); }
      case O_ITE: if (isK(a->b) || isK(a->c) || constTree(a)) return ite(a->a, extract(a->b, lo, w), extract(a->c, lo, w)); break;
      case O_AND: case O_OR: case O_XOR: return bin(a->op, extract(a->a, lo, w), extract(a->b, lo, w));
      case O_ADD: case O_SUB: case O_MUL: if (lo == 0) return bin(a->op, extract(a->a, 0, w), extract(a->b, 0, w)); break;
      default: break;
    }
    return intern(O_EXTRACT, w, lo, a, 0, 0, 0);
  }
  Expr* concat(Expr* hi, Expr* lo) {
    unsigned w = hi->w + lo->w; if (w > 128) engine_error("concat too wide");
    if (isK(hi) && isK(lo)) return K(w, (hi->v << lo->w) | lo->v);
    if (hi->op == O_TAINT || lo->op == O_TAINT) return T(w);
    if (isK(hi, 0)) return zext(lo, w);
    if (hi->op == O_ZEXT) return zext(concat(hi->a, lo), w);
    if (hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a == lo->a && hi->lo == lo->lo + lo->w) return extract(hi->a, lo->lo, w);
    // merge with the top piece of lo
    if (lo->op == O_CONCAT && isK(lo->a) && isK(hi)) return concat(K(hi->w + lo->a->w, (hi->v << lo->a->w) | lo->a->v), lo->b);
    if (lo->op == O_CONCAT && lo->a->op == O_EXTRACT && hi->op == O_EXTRACT && hi->a == lo->a->a && hi->lo == lo->a->lo + lo->a->w) return concat(extract(hi->a, lo->a->lo, hi->w + lo->a->w), lo->b);
    if (hi->op == O_CONCAT) { // right-assoc normal form: keep top piece on the left
      return concat(hi->a, concat(hi->b, lo)); }
    if (hi->op == O_EXTRACT && hi->lo == lo->w && hi->a->w >= w && (lo == extractIf(hi->a, lo->w))) return extract(hi->a, 0, w);
    return intern(O_CONCAT, w, 0, hi, lo, 0, 0);
  }
  Expr* extractIf(Expr* a, unsigned w) { return extract(a, 0, w); }
  Expr* ite(Expr* c, Expr* a, Expr* b) {
    if (c->op == O_TAINT) return b; if (isK(c)) return c->v ? a : b; if (a == b) return a; if (a->w != b->w) engine_error("ite width");
    if (a->op == O_TAINT) return b; if (b->op == O_TAINT) return a; // an undefined alternative may take any value
    if (c->op == O_XOR && isK(c->b, 1)) return ite(c->a, b, a);
    if (a->w == 1) { if (isK(a) && isK(b)) return a->v ? c : not1(c); if (isK(a)) return a->v ? bin(O_OR, c, b) : bin(O_AND, not1(c), b); if (isK(b)) return b->v ? bin(O_OR, not1(c), a) : bin(O_AND, c, a); if (a == c) return bin(O_OR, c, b); if (b == c) return bin(O_AND, c, a); }
    if (a->op == O_ITE && a->a == c) a = a->b; if (b->op == O_ITE && b->a == c) b = b->c; if (a == b) return a;
    if (b->op == O_ITE && b->b == a) return ite(bin(O_OR, c, b->a), a, b->c);
    return intern(O_ITE, a->w, 0, c, a, b, 0);
  }
  // evaluation under a model
  u32 epoch = 0; const u8* model = nullptr;
  void setModel(const u8* m) { model = m; epoch++; }
  u128 eval(Expr* e) {
    if (e->op == O_CONST) return e->v; if (e->op == O_SYM) return model[(u64)e->v]; if (e->op == O_TAINT) return 0;
    if (e->epoch == epoch) return e->ev; u128 r;
    switch (e->op) {
      case O_ITE: r = eval(e->a) ? eval(e->b) : eval(e->c); break;
      case O_CONCAT: { // iterative on the right spine
        r = (eval(e->a) << e->b->w) | eval(e->b); break; }
      case O_EXTRACT: r = (eval(e->a) >> e->lo) & maskw(e->w); break;
      case O_ZEXT: r = eval(e->a); break;
      case O_SEXT: r = (u128)sextw(eval(e->a), e->a->w) & maskw(e->w); break;
      case O_AND: if (e->w == 1) { r = eval(e->a) ? eval(e->b) : 0; break; } r = eval(e->a) & eval(e->b); break;
      case O_OR: if (e->w == 1) { r = eval(e->a) ? 1 : eval(e->b); break; } r = eval(e->a) | eval(e->b); break;
      default: r = fold2(e->op, e->a->w, eval(e->a), eval(e->b));
    }
    e->epoch = epoch; e->ev = r; return r;
  }
  std::string show(Expr* e, int d = 14) {
    static const char* n[] = { "c", "s", "T", "+", "-", "*", "/u", "/s", "%u", "%s", "&", "|", "^", "<<", ">>", ">>a", "==", "<u", "<=u", "<s", "<=s", "ite", "++", "ext", "z", "sx" };
    if (e->op == O_CONST) return std::to_string((unsigned long long)e->v) + ":" + std::to_string(e->w); if (e->op == O_SYM) return "s" + std::to_string((unsigned long long)e->v); if (!d) return "..";
    std::string r = "("; r += n[e->op]; if (e->op == O_EXTRACT) r += "[" + std::to_string(e->lo) + "," + std::to_string(e->w) + "]"; if (e->op == O_ZEXT || e->op == O_SEXT) r += std::to_string(e->w);
    for (Expr* k : { e->a, e->b, e->c }) if (k) r += " " + show(k, d - 1); return r + ")"; }
};
