// Random differential test of the simplifying constructors in expr.hpp against plain folding (fold2).
#include "expr.hpp"
#include <cstdarg>
#include <random>
void engine_error(const char* f, ...) { va_list a; va_start(a, f); vprintf(f, a); puts(""); abort(); }
static const int N = 12;
struct V { Expr* e; u128 v[N]; };
int main(int argc, char** argv) {
  u64 bad = 0, total = 0;
  for (u64 seed = 1; seed <= (argc > 1 ? (u64)atoi(argv[1]) : 3000); seed++) {
    std::mt19937_64 r(seed); ExprPool P; std::vector<V> pool; u8 mod[N][MAXSYM]; memset(mod, 0, sizeof mod);
    for (int i = 0; i < 6; i++) { u8 lo = i < 3 ? 48 : r() % 200, hi = i < 3 ? 57 : lo + r() % (256 - lo); V x; x.e = P.newsym(lo, hi, "s"); for (int k = 0; k < N; k++) { mod[k][i] = lo + r() % (hi - lo + 1); x.v[k] = mod[k][i]; } pool.push_back(x); }
    auto konst = [&](unsigned w) { u128 v; switch (r() % 8) { case 0: v = 0; break; case 1: v = 1; break; case 2: v = ~(u128)0 - r() % 60; break; case 3: v = (u128)1 << (r() % w); break; case 4: { static u64 t[] = { 10, 100, 1000, 1000000, 60, 3600, 86400000, 7, 48 }; v = t[r() % 9]; break; } case 5: v = maskw(w) >> 1; break; default: v = ((u128)r() << 64 | r()) >> (r() % 120); } V x; x.e = P.K(w, v); for (auto& y : x.v) y = v & maskw(w); return x; };
    auto pick = [&](unsigned w) -> V { if (r() % 4 == 0) return konst(w); for (int t = 0; t < 30; t++) { V& x = pool[r() % 3 ? pool.size() - 1 - r() % std::min<size_t>(pool.size(), 12) : r() % pool.size()]; if (x.e->w == w) return x;
        if (t > 10) { V y = x; if (x.e->w < w) { bool s = r() % 4 == 0; y.e = s ? P.sext(x.e, w) : P.zext(x.e, w); for (int k = 0; k < N; k++) y.v[k] = s ? (u128)sextw(x.v[k], x.e->w) & maskw(w) : x.v[k]; } else { y.e = P.extract(x.e, 0, w); for (int k = 0; k < N; k++) y.v[k] = x.v[k] & maskw(w); } return y; } } return konst(w); };
    static unsigned ws[] = { 8, 16, 32, 32, 64, 64, 1, 10, 48, 128, 3 };
    for (int step = 0; step < 120; step++) {
      unsigned w = ws[r() % 11]; V x; int kind = r() % 12;
      if (kind < 8) { static u8 ops[] = { O_ADD, O_ADD, O_ADD, O_SUB, O_SUB, O_MUL, O_MUL, O_UDIV, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_EQ, O_ULT, O_ULE }; u8 op = ops[r() % sizeof ops]; V a = pick(w), b = pick(w); x.e = P.bin(op, a.e, b.e); for (int k = 0; k < N; k++) x.v[k] = ExprPool::fold2(op, w, a.v[k], b.v[k]); }
      else if (kind == 8) { V c = pick(1), a = pick(w), b = pick(w); x.e = P.ite(c.e, a.e, b.e); for (int k = 0; k < N; k++) x.v[k] = c.v[k] ? a.v[k] : b.v[k]; }
      else if (kind == 9) { V a = pick(ws[r() % 6]), b = pick(ws[r() % 6]); if (a.e->w + b.e->w > 128) continue; x.e = P.concat(a.e, b.e); for (int k = 0; k < N; k++) x.v[k] = a.v[k] << b.e->w | b.v[k]; }
      else if (kind == 10) { V a = pick(w); unsigned lo = r() % w, n = 1 + r() % (w - lo); x.e = P.extract(a.e, lo, n); for (int k = 0; k < N; k++) x.v[k] = a.v[k] >> lo & maskw(n); }
      else { V a = pick(w); unsigned w2 = std::min(128u, w + 1 + (unsigned)(r() % 40)); bool s = r() & 1; if (w2 <= w) continue; x.e = s ? P.sext(a.e, w2) : P.zext(a.e, w2); for (int k = 0; k < N; k++) x.v[k] = s ? (u128)sextw(a.v[k], w) & maskw(w2) : a.v[k]; }
      for (int k = 0; k < N; k++) { P.setModel(mod[k]); u128 g = P.eval(x.e); total++; if (g != x.v[k] || g < x.e->umin || g > x.e->umax) { printf("MISMATCH seed %lu step %d kind %d k %d op %d w %d got %llx want %llx\n", seed, step, kind, k, x.e->op, x.e->w, (unsigned long long)g, (unsigned long long)x.v[k]); if (++bad > 5) return 1; break; } }
      pool.push_back(x);
    }
  }
  printf("selftest: %lu evaluations, %lu mismatches\n", total, bad); return bad != 0;
}
