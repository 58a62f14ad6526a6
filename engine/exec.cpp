// Symbolic executor for LLVM IR: forks the process at symbolic branches, decides feasibility and assertions with Z3.
#include "machine.hpp"
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <signal.h>
#include <stdarg.h>
#include <math.h>
#include <cmath>
#include <errno.h>
#include <semaphore.h>

struct Shared {
  std::atomic<int> tokens; std::atomic<u64> paths, forks, violations, errors, crashed, insts, live, maxdepth; std::atomic<int> stop;
  std::atomic<u64> z3q, z3sat, z3unsat, qs, qu, aq, z3us; double deadline; std::atomic<u64> asserts;
};
static Shared* SH; static Machine* M; static int outfd = -1, fnfd = -1; static u64 icount = 0, ilimit = 2000000000ull; static bool holdsToken = true; static vector<pid_t> kids; static Stats lstats; static u64 depth = 0;
static bool inFinish = false; static u64 maxPaths = 100000; static int verbose = 0; static u64 pathAsserts = 0;
struct Obs { string label; vector<Val> bytes; }; static vector<Obs> obs; static std::map<string, int> covers;
struct Frame { Func* f; Val* R; size_t pc; u64 smark; i32 dst; CallInfo* ci; };
static vector<Frame> stk; static Val *VS, *VT; static string violLabel; static bool qprof = getenv("HV_QPROF");

static string jesc(const string& s) { string o; for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch < 32 || ch >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; } else o += ch; } return o; }
static string backtrace() { string o; int n = 0; for (size_t i = stk.size(); i-- > 0 && n < 14; n++) { o += stk[i].f->dem; o += " <- "; } return o; }
static void record(const char* status, const string& msg, const u8* model) {
  ExprPool& P = M->P; string o = "{\"status\":\""; o += status; o += "\",\"msg\":\"" + jesc(msg) + "\",\"model\":\""; char b[64];
  for (size_t i = 0; i < P.syms.size(); i++) { snprintf(b, sizeof b, "%02x", model[i]); o += b; }
  o += "\",\"obs\":["; P.setModel(model); bool f = true;
  for (auto& ob : obs) { if (!f) o += ","; f = false; o += "[\"" + jesc(ob.label) + "\",\""; for (auto& v : ob.bytes) { snprintf(b, sizeof b, "%02x", (unsigned)(v.e ? (u8)P.eval(v.e) : (u8)v.lo)); o += b; } o += "\"]"; }
  P.setModel(M->S->model); o += "],\"covers\":["; f = true; for (auto& c : covers) { if (!f) o += ","; f = false; o += "\"" + jesc(c.first) + "\""; }
  snprintf(b, sizeof b, "],\"insts\":%llu,\"pc\":%zu", (unsigned long long)icount, M->S->pc.size()); o += b;
  snprintf(b, sizeof b, ",\"asserts\":%llu", (unsigned long long)pathAsserts); o += b;
  if (strcmp(status, "ok")) o += ",\"bt\":\"" + jesc(backtrace()) + "\""; o += "}\n";
  if (write(outfd, o.data(), o.size()) < 0) {}
}
static void reap(bool all) { for (;;) { int st; pid_t r = waitpid(-1, &st, all ? 0 : WNOHANG); if (r <= 0) { if (r < 0 && errno == EINTR) continue; break; } if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) { SH->crashed++; if (WIFSIGNALED(st)) { /* lost its token */ } } } }
// The scout is a single path run ahead of the exploration: it only finds out which functions will be needed, so that
// they are parsed once, before the first fork, instead of in every path.
static bool scout = false; static int scoutfd = -1;
[[noreturn]] static void scoutDone();
[[noreturn]] static void leave() {
  if (scout) scoutDone();
  SH->insts += icount; SH->z3q += lstats.z3q; SH->z3sat += lstats.z3sat; SH->z3unsat += lstats.z3unsat; SH->qs += lstats.quickSat; SH->qu += lstats.quickUnsat; SH->aq += lstats.assertQ; SH->z3us += (u64)(lstats.z3t * 1e6); SH->asserts += pathAsserts;
  if (holdsToken) { SH->tokens++; holdsToken = false; } reap(true); _exit(0);
}
[[noreturn]] static void finish(const char* status, const string& msg) {
  if (scout) scoutDone();
  if (!inFinish) { inFinish = true; record(status, msg, M->S->model); SH->paths++; if (!strcmp(status, "panic") || !strcmp(status, "fault")) SH->violations++; if (!strcmp(status, "error") || !strcmp(status, "timeout")) SH->errors++; if (SH->paths.load() > maxPaths && !SH->stop) { SH->stop = 2; } }
  leave();
}
void engine_error(const char* fmt, ...) { char b[4096]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); if (verbose) fprintf(stderr, "engine error: %s\n", b); if (!M || outfd < 0) { fprintf(stderr, "engine error: %s\n", b); _exit(3); } finish("error", b); }
void path_fault(const char* kind, const string& msg) { finish("fault", string(kind) + ": " + msg); }

static inline Expr* EX(const Val& v, unsigned w) { return v.e ? v.e : M->P.K(w, ((u128)v.hi << 64) | v.lo); }
static inline Val VX(Expr* e) { if (e->op == O_CONST) return { (u64)e->v, (u64)(e->v >> 64), nullptr }; return { 0, 0, e }; }
static inline Val VK(u64 x) { return { x, 0, nullptr }; }
static inline u128 full(const Val& v) { return ((u128)v.hi << 64) | v.lo; }
static inline Val V128(u128 x) { return { (u64)x, (u64)(x >> 64), nullptr }; }

static void checkStop() { if (SH->stop.load()) { finish(SH->stop.load() == 2 ? "error" : "stopped", SH->stop.load() == 2 ? "path limit" : ""); } if (now_s() > SH->deadline) { finish("timeout", "time budget exhausted"); } }
// fork: returns true in the child
static bool doFork() {
  checkStop(); reap(false); SH->forks++;
  int t = SH->tokens.load(); bool got = false; while (t > 0) { if (SH->tokens.compare_exchange_weak(t, t - 1)) { got = true; break; } }
  SH->live++;
  pid_t p = fork(); int tries = 0;
  while (p < 0 && tries++ < 200) { usleep(50000); p = fork(); }
  if (p < 0) engine_error("fork failed");
  if (p == 0) { kids.clear(); memset(&lstats, 0, sizeof lstats); holdsToken = got; pathAsserts = 0; depth++; u64 md = SH->maxdepth.load(); if (depth > md) SH->maxdepth = depth; return true; }
  if (!got) { // run the child first on our own token
    int st; for (;;) { pid_t r = waitpid(p, &st, 0); if (r == p) break; if (r < 0 && errno != EINTR) break; } if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) SH->crashed++;
  }
  return false;
}
static bool branch(Expr* c) {
  if (c->op == O_CONST) return c->v; if (c->op == O_TAINT) return false; Solver& S = *M->S; ExprPool& P = M->P;
  if (scout) { bool cur = P.eval(c); S.add(cur ? c : P.not1(c)); return cur; }
  bool cur = P.eval(c); Expr* other = cur ? P.not1(c) : c; Expr* mine = cur ? c : P.not1(c); u8 m2[MAXSYM];
  u64 q0 = lstats.z3q; double t0 = lstats.z3t; bool mb = S.may(other, m2); if (qprof && lstats.z3q != q0) fprintf(stderr, "Q %.1fms %s nsup=%u pc=%zu %s\n", (lstats.z3t - t0) * 1e3, mb ? "sat" : "unsat", c->nsup, S.pc.size(), (backtrace().substr(0, 160) + " E " + P.show(c)).c_str());
  if (!mb) return cur;
  if (doFork()) { S.setModel(m2); S.add(other); return !cur; }
  S.add(mine); return cur;
}
static u64 concretize(const Val& v, unsigned w, const char* why, int limit = 400) {
  if (!v.e) return v.lo; Expr* e = v.e; if (e->op == O_TAINT) return 0; Solver& S = *M->S; ExprPool& P = M->P;
  for (int n = 0; n < limit; n++) {
    u64 x = (u64)P.eval(e); Expr* eq = P.bin(O_EQ, e, P.K(w, x)); u8 m2[MAXSYM]; Expr* ne = P.not1(eq);
    if (scout) { S.add(eq); return x; }
    if (!S.may(ne, m2)) { return x; }
    if (doFork()) { S.add(eq); return x; }   // child takes the current value (model unchanged)
    S.setModel(m2); S.add(ne);
  }
  engine_error("concretization of %s exceeds %d values", why, limit);
}
// all distinct values of e over its (domain-restricted) support; false if too many
static bool enumValues(Expr* e, vector<u64>& out, size_t lim) {
  Solver& S = *M->S; ExprPool& P = M->P; if (e->nsup > 4) return false; int ids[8], n = 0; u64 prod = 1;
  for (int k = 0; k < MAXSYM / 64; k++) { u64 x = e->sup->w[k]; while (x) { int b = __builtin_ctzll(x); x &= x - 1; ids[n++] = k * 64 + b; } }
  for (int i = 0; i < n; i++) { prod *= S.domCount(ids[i]); if (prod > 4096) return false; }
  vector<u8> vals[8]; for (int i = 0; i < n; i++) for (int v = 0; v < 256; v++) if (S.dom[ids[i]].b[v >> 6] >> (v & 63) & 1) vals[i].push_back(v);
  u8 cand[MAXSYM]; memcpy(cand, S.model, MAXSYM); size_t idx[8] = { 0 }; std::unordered_set<u64> seen;
  for (;;) { for (int i = 0; i < n; i++) cand[ids[i]] = vals[i][idx[i]]; P.setModel(cand); u64 x = (u64)P.eval(e); if (seen.insert(x).second) { out.push_back(x); if (out.size() > lim) { P.setModel(S.model); return false; } } int k = 0; while (k < n && ++idx[k] == vals[k].size()) idx[k++] = 0; if (k == n) break; }
  P.setModel(S.model); std::sort(out.begin(), out.end()); return true;
}
static Val symLoad(const Val& av, unsigned w) {
  Expr* a = av.e; vector<u64> vals; ExprPool& P = M->P; unsigned n = (w + 7) / 8;
  if (enumValues(a, vals, 300)) {
    bool allok = true; for (u64 x : vals) if (!M->mem.ok(x, n)) { allok = false; break; }
    if (!allok) { vector<u64> v2; for (u64 x : vals) { if (M->mem.ok(x, n)) { v2.push_back(x); continue; } u8 m2[MAXSYM]; if (M->S->may(P.bin(O_EQ, a, P.K(64, x)), m2)) goto conc; } vals.swap(v2); }
    if (!vals.empty()) {
      // group equal loaded values
      vector<std::pair<Expr*, Expr*>> groups; // value, guard
      for (u64 x : vals) { Val v = M->mem.load(x, w); Expr* e = EX(v, w); if (e->op == O_TAINT) { u8 m2[MAXSYM]; if (!M->S->may(P.bin(O_EQ, a, P.K(64, x)), m2)) continue; } Expr* g = P.bin(O_EQ, a, P.K(64, x)); bool f = false; for (auto& gr : groups) if (gr.first == e) { gr.second = P.bin(O_OR, gr.second, g); f = true; break; } if (!f) groups.push_back({ e, g }); }
      if (groups.empty()) goto conc;
      Expr* r = groups.back().first; for (size_t i = groups.size() - 1; i-- > 0;) r = P.ite(groups[i].second, groups[i].first, r);
      return VX(r);
    }
  }
conc:
  u64 x = concretize(av, 64, "load address"); return M->mem.load(x, w);
}
static inline Val LOAD(const Val& a, unsigned w) { if (__builtin_expect(a.e != nullptr, 0)) return symLoad(a, w); return M->mem.load(a.lo, w); }
static inline u64 ADDR(const Val& a, const char* why) { return a.e ? concretize(a, 64, why) : a.lo; }
static inline void STORE(const Val& a, unsigned w, const Val& v) { M->mem.store(ADDR(a, "store address"), w, v); }

static Val binop(u8 op, unsigned w, const Val& a, const Val& b) {
  if (!a.e && !b.e) {
    if (w <= 64) { u64 x = a.lo, y = b.lo, r, m = w == 64 ? ~0ull : (1ull << w) - 1;
      switch (op) { case O_ADD: r = x + y; break; case O_SUB: r = x - y; break; case O_MUL: r = x * y; break; case O_AND: r = x & y; break; case O_OR: r = x | y; break; case O_XOR: r = x ^ y; break; case O_SHL: r = y >= w ? 0 : x << y; break; case O_LSHR: r = y >= w ? 0 : x >> y; break;
        case O_UDIV: if (!y) path_fault("div", "division by zero"); r = x / y; break; case O_UREM: if (!y) path_fault("div", "remainder by zero"); r = x % y; break; default: r = (u64)ExprPool::fold2(op, w, x, y); }
      return VK(r & m); }
    return V128(ExprPool::fold2(op, w, full(a), full(b)));
  }
  ExprPool& P = M->P;
  return VX(P.bin(op, EX(a, w), EX(b, w)));
}
static Expr* cmpE(u8 pr, Expr* a, Expr* b) {
  ExprPool& P = M->P;
  switch (pr) { case P_EQ: return P.bin(O_EQ, a, b); case P_NE: return P.not1(P.bin(O_EQ, a, b)); case P_UGT: return P.bin(O_ULT, b, a); case P_UGE: return P.bin(O_ULE, b, a); case P_ULT: return P.bin(O_ULT, a, b); case P_ULE: return P.bin(O_ULE, a, b); case P_SGT: return P.bin(O_SLT, b, a); case P_SGE: return P.bin(O_SLE, b, a); case P_SLT: return P.bin(O_SLT, a, b); default: return P.bin(O_SLE, a, b); }
}
static Val icmp(u8 pr, unsigned w, const Val& a, const Val& b) {
  if (!a.e && !b.e) {
    if (w <= 64) { u64 x = a.lo, y = b.lo; int sh = 64 - w; i64 sx = (i64)(x << sh) >> sh, sy = (i64)(y << sh) >> sh; bool r;
      switch (pr) { case P_EQ: r = x == y; break; case P_NE: r = x != y; break; case P_UGT: r = x > y; break; case P_UGE: r = x >= y; break; case P_ULT: r = x < y; break; case P_ULE: r = x <= y; break; case P_SGT: r = sx > sy; break; case P_SGE: r = sx >= sy; break; case P_SLT: r = sx < sy; break; default: r = sx <= sy; }
      return VK(r); }
    u128 x = full(a), y = full(b); i128 sx = sextw(x, w), sy = sextw(y, w); bool r;
    switch (pr) { case P_EQ: r = x == y; break; case P_NE: r = x != y; break; case P_UGT: r = x > y; break; case P_UGE: r = x >= y; break; case P_ULT: r = x < y; break; case P_ULE: r = x <= y; break; case P_SGT: r = sx > sy; break; case P_SGE: r = sx >= sy; break; case P_SLT: r = sx < sy; break; default: r = sx <= sy; }
    return VK(r);
  }
  return VX(cmpE(pr, EX(a, w), EX(b, w)));
}
static Val castv(u8 op, const Val& a, unsigned sw, unsigned w) {
  if (a.e) { ExprPool& P = M->P; return VX(op == I_TRUNC ? P.extract(a.e, 0, w) : op == I_ZEXT ? P.zext(a.e, w) : P.sext(a.e, w)); }
  if (op == I_TRUNC) { u128 x = full(a) & maskw(w); return V128(x); } if (op == I_ZEXT) return a; return V128((u128)sextw(full(a), sw) & maskw(w));
}
static Val sel(const Val& c, const Val& a, const Val& b, unsigned w) {
  if (!c.e) return c.lo & 1 ? a : b; return VX(M->P.ite(c.e, EX(a, w), EX(b, w)));
}
static double asF(const Val& v, unsigned w) { Val x = v; if (x.e) x = VK(concretize(v, w, "float operand", 64)); if (w == 32) { float f; u32 u = (u32)x.lo; memcpy(&f, &u, 4); return f; } double d; memcpy(&d, &x.lo, 8); return d; }
static Val fromF(double d, unsigned w) { if (w == 32) { float f = (float)d; u32 u; memcpy(&u, &f, 4); return VK(u); } u64 u; memcpy(&u, &d, 8); return VK(u); }

// ---- intrinsics ----
enum Intr { X_SKIP = 0, X_MEMCPY, X_MEMMOVE, X_MEMSET, X_UMAX, X_UMIN, X_SMAX, X_SMIN, X_ABS, X_CTTZ, X_CTLZ, X_CTPOP, X_BSWAP, X_BITREV, X_FSHL, X_FSHR, X_UADDO, X_USUBO, X_UMULO, X_SADDO, X_SSUBO, X_SMULO, X_UADDSAT, X_USUBSAT, X_SADDSAT, X_SSUBSAT, X_LOADREL, X_TRAP, X_EXPECT, X_TLADDR, X_ISCONST, X_UCMP, X_SCMP, X_RED, X_PMADD, X_PSAD, X_PSHUFB, X_FABS, X_SQRT, X_FLOOR, X_CEIL, X_FTRUNC, X_ROUND, X_RINT, X_COPYSIGN, X_MINNUM, X_MAXNUM, X_FPTOUISAT, X_FPTOSISAT, X_POW, X_LOG, X_LOG2, X_LOG10, X_EXP, X_POWI, X_FMA, X_ADDCARRY, X_SUBBORROW, X_PTRMASK, X_OBJSIZE, X_RET1 };
static const struct { const char* n; int id; } intrTab[] = {
  { "llvm.lifetime.", X_SKIP }, { "llvm.experimental.noalias", X_SKIP }, { "llvm.assume", X_SKIP }, { "llvm.dbg.", X_SKIP }, { "llvm.prefetch", X_SKIP }, { "llvm.x86.sse2.pause", X_SKIP }, { "llvm.invariant.", X_SKIP }, { "llvm.donothing", X_SKIP }, { "llvm.x86.avx.vzero", X_SKIP }, { "llvm.x86.sse2.mfence", X_SKIP }, { "llvm.x86.sse.sfence", X_SKIP },
  { "llvm.memcpy.", X_MEMCPY }, { "llvm.memmove.", X_MEMMOVE }, { "llvm.memset.", X_MEMSET }, { "llvm.umax.", X_UMAX }, { "llvm.umin.", X_UMIN }, { "llvm.smax.", X_SMAX }, { "llvm.smin.", X_SMIN }, { "llvm.abs.", X_ABS }, { "llvm.cttz.", X_CTTZ }, { "llvm.ctlz.", X_CTLZ }, { "llvm.ctpop.", X_CTPOP }, { "llvm.bswap.", X_BSWAP }, { "llvm.bitreverse.", X_BITREV }, { "llvm.fshl.", X_FSHL }, { "llvm.fshr.", X_FSHR },
  { "llvm.uadd.with.overflow", X_UADDO }, { "llvm.usub.with.overflow", X_USUBO }, { "llvm.umul.with.overflow", X_UMULO }, { "llvm.sadd.with.overflow", X_SADDO }, { "llvm.ssub.with.overflow", X_SSUBO }, { "llvm.smul.with.overflow", X_SMULO }, { "llvm.uadd.sat", X_UADDSAT }, { "llvm.usub.sat", X_USUBSAT }, { "llvm.sadd.sat", X_SADDSAT }, { "llvm.ssub.sat", X_SSUBSAT },
  { "llvm.load.relative", X_LOADREL }, { "llvm.trap", X_TRAP }, { "llvm.ubsantrap", X_TRAP }, { "llvm.expect.", X_EXPECT }, { "llvm.threadlocal.address", X_TLADDR }, { "llvm.is.constant", X_ISCONST }, { "llvm.ucmp.", X_UCMP }, { "llvm.scmp.", X_SCMP }, { "llvm.vector.reduce.", X_RED }, { "llvm.x86.sse2.pmadd.wd", X_PMADD }, { "llvm.x86.sse2.psad.bw", X_PSAD }, { "llvm.x86.ssse3.pshuf.b.128", X_PSHUFB },
  { "llvm.fabs.", X_FABS }, { "llvm.sqrt.", X_SQRT }, { "llvm.floor.", X_FLOOR }, { "llvm.ceil.", X_CEIL }, { "llvm.trunc.", X_FTRUNC }, { "llvm.round.", X_ROUND }, { "llvm.rint.", X_RINT }, { "llvm.nearbyint.", X_RINT }, { "llvm.copysign.", X_COPYSIGN }, { "llvm.minnum.", X_MINNUM }, { "llvm.maxnum.", X_MAXNUM }, { "llvm.fptoui.sat", X_FPTOUISAT }, { "llvm.fptosi.sat", X_FPTOSISAT }, { "llvm.powi.", X_POWI }, { "llvm.pow.", X_POW }, { "llvm.log.", X_LOG }, { "llvm.log2.", X_LOG2 }, { "llvm.log10.", X_LOG10 }, { "llvm.exp.", X_EXP }, { "llvm.fma.", X_FMA }, { "llvm.fmuladd.", X_FMA },
  { "llvm.x86.addcarry.64", X_ADDCARRY }, { "llvm.x86.subborrow.64", X_SUBBORROW }, { "llvm.ptrmask", X_PTRMASK }, { "llvm.objectsize", X_OBJSIZE } };

void Machine::parseCall(Cur& c, FP& p, Func* f, Inst I, bool hasDst, string_view dn, bool invoke) {
  Module* m = p.m; for (;;) { const char* s = c.p; for (const char* k : { "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc" }) c.word(k); if (c.p == s) break; }
  skipRetAttrs(c); Type* rt = L.type(c, m); if (rt->k == Type::Func) rt = rt->el[0];
  CallInfo* ci = new CallInfo; ci->invoke = invoke; ci->retT = rt; ci->retn = rt->leaves; ci->retw = rt->k == Type::Vector ? rt->el[0]->w : rt->w; ci->callee = 0; c.ws();
  string_view gname; bool direct = false; u64 constAddr = 0; bool haveConst = false;
  if (c.word("asm")) { ci->isAsm = true; for (const char* k : { "sideeffect", "alignstack", "inteldialect", "unwind" }) c.word(k); c.ws(); c.p++; const char* s = c.p; while (*c.p != '"') c.p++; ci->name = "asm:" + string(s, c.p - s); c.p++; c.need(','); c.ws(); c.p++; while (*c.p != '"') c.p++; c.p++; }
  else if (*c.p == '@') { c.p++; gname = c.name(); direct = true; ci->name = unquote(gname); }
  else if (*c.p == '%') { c.p++; ci->callee = slotOf(p, c.name(), L.T.tptr); }
  else { vector<Val> v; constant(c, m, L.T.tptr, v); constAddr = v[0].lo; haveConst = true; }
  bool isI = direct && ci->name.compare(0, 5, "llvm.") == 0;
  if (isI) { for (auto& x : intrTab) if (!ci->name.compare(0, strlen(x.n), x.n)) { ci->intr = x.id; break; } }
  c.need('('); vector<i32>& args = ci->args;
  while (!c.at(')')) { Type* t = L.type(c, m); if (t->k == Type::Meta) { int d = 0; while (!(d == 0 && (*c.p == ')' || *c.p == ','))) { if (*c.p == '(') d++; if (*c.p == ')') d--; if (*c.p == '"') { c.p++; while (*c.p != '"') c.p++; } c.p++; } } else { skipAttrs(c); args.push_back(operand(c, p, t)); ci->argn.push_back(t->leaves); ci->argw.push_back(t->k == Type::Vector ? t->el[0]->w : t->w); ci->argT.push_back(t); } if (!c.acc(',')) break; }
  c.need(')');
  if (hasDst) I.dst = slotOf(p, dn, rt); I.op = I_CALL; I.p = ci;
  if (invoke) { c.nl = true; // to label %x unwind label %y
    while (!c.word("to")) { if (c.p >= c.e) engine_error("invoke"); c.ws(); if (*c.p == '"') { c.p++; while (*c.p != '"') c.p++; c.p++; } else c.p++; } c.word("label"); c.need('%'); int b = blkOf(p, c.name()); c.word("unwind"); c.word("label"); c.need('%'); int b2 = blkOf(p, c.name()); mkEdge(p, &ci->normal, b); mkEdge(p, &ci->unwind, b2);
  }
  if (ci->intr == X_SKIP && !invoke) { return; }
  if (isI && ci->intr < 0) { I.op = I_UNSUP; I.p = new string("intrinsic " + ci->name); f->code.push_back(I); return; }
  if (!isI && direct) { ci->direct = L.getFunc(m, gname); if (!ci->direct) engine_error("call of data %s", ci->name.c_str()); }
  if (haveConst) { ci->direct = L.funcAt(constAddr); if (!ci->direct) { I.op = I_UNSUP; I.p = new string("call of constant address"); f->code.push_back(I); return; } }
  f->code.push_back(I);
}

static Val ucmpmax(u8 pr, unsigned w, const Val& a, const Val& b) { return sel(icmp(pr, w, a, b), a, b, w); }
static Val cttzE(const Val& a, unsigned w) { if (!a.e) { u128 x = full(a); for (unsigned i = 0; i < w; i++) if (x >> i & 1) return V128(i); return VK(w); } ExprPool& P = M->P; Expr* r = P.K(w, w); for (unsigned i = w; i-- > 0;) r = P.ite(P.extract(a.e, i, 1), P.K(w, i), r); return VX(r); }
static Val ctlzE(const Val& a, unsigned w) { if (!a.e) { u128 x = full(a); for (unsigned i = 0; i < w; i++) if (x >> (w - 1 - i) & 1) return V128(i); return VK(w); } ExprPool& P = M->P; Expr* r = P.K(w, w); for (unsigned i = w; i-- > 0;) r = P.ite(P.extract(a.e, w - 1 - i, 1), P.K(w, i), r); return VX(r); }
static Val ctpopE(const Val& a, unsigned w) { if (!a.e) return VK(__builtin_popcountll(a.lo) + __builtin_popcountll(a.hi)); ExprPool& P = M->P; Expr* r = P.K(w, 0); for (unsigned i = 0; i < w; i++) r = P.bin(O_ADD, r, P.zext(P.extract(a.e, i, 1), w)); return VX(r); }
static Val bswapE(const Val& a, unsigned w) { if (!a.e) { u128 x = full(a), r = 0; for (unsigned i = 0; i < w; i += 8) r |= ((x >> i) & 255) << (w - 8 - i); return V128(r); } ExprPool& P = M->P; Expr* r = nullptr; for (unsigned i = 0; i < w; i += 8) { Expr* b = P.extract(a.e, w - 8 - i, 8); r = r ? P.concat(b, r) : b; } return VX(r); }
static Val fsh(bool left, unsigned w, const Val& a, const Val& b, const Val& s) {
  ExprPool& P = M->P;
  if ((a.e && a.e->op == O_TAINT) || (b.e && b.e->op == O_TAINT)) return { 0, 0, P.T(w) };
  if (s.e) { // symbolic amount: (x << s%w) | (y >> (w - s%w)) with s%w==0 special case
    Expr* k = P.bin(O_UREM, s.e, P.K(w, w)); Expr* A = EX(a, w); Expr* B = EX(b, w); Expr* inv = P.bin(O_SUB, P.K(w, w), k); Expr* z = P.bin(O_EQ, k, P.K(w, 0));
    if (left) return VX(P.ite(z, A, P.bin(O_OR, P.bin(O_SHL, A, k), P.bin(O_LSHR, B, inv)))); return VX(P.ite(z, B, P.bin(O_OR, P.bin(O_SHL, A, inv), P.bin(O_LSHR, B, k)))); }
  unsigned k = (unsigned)(s.lo % w); if (!left) k = (w - k) % w == 0 ? (s.lo % w == 0 ? w : w - (unsigned)(s.lo % w)) : w - k; // fshr(a,b,s) = fshl(a,b,w-s), with s==0 -> b
  if (k == w) return b; if (k == 0) return left ? a : b;
  return binop(O_OR, w, binop(O_SHL, w, a, VK(k)), binop(O_LSHR, w, b, VK(w - k)));
}
static void ovf(int id, unsigned w, const Val& a, const Val& b, Val& r, Val& o) {
  u8 op = id == X_UADDO || id == X_SADDO ? O_ADD : id == X_USUBO || id == X_SSUBO ? O_SUB : O_MUL; r = binop(op, w, a, b);
  if (!a.e && !b.e) {
    u128 M_ = maskw(w); u128 x = full(a), y = full(b); i128 sx = sextw(x, w), sy = sextw(y, w); bool f = false; u128 ur; i128 sr;
    switch (id) { case X_UADDO: f = __builtin_add_overflow(x, y, &ur) || ur > M_; break; case X_USUBO: f = x < y; break; case X_UMULO: f = __builtin_mul_overflow(x, y, &ur) || ur > M_; break;
      case X_SADDO: f = __builtin_add_overflow(sx, sy, &sr) || sr != sextw((u128)sr, w); break; case X_SSUBO: f = __builtin_sub_overflow(sx, sy, &sr) || sr != sextw((u128)sr, w); break; case X_SMULO: f = __builtin_mul_overflow(sx, sy, &sr) || sr != sextw((u128)sr, w); break; }
    o = VK(f); return; }
  ExprPool& P = M->P; Expr *A = EX(a, w), *B = EX(b, w), *R = EX(r, w); if (A->op == O_TAINT || B->op == O_TAINT) { o = VK(0); return; }
  switch (id) {
    case X_UADDO: { u128 s; if (!__builtin_add_overflow(A->umax, B->umax, &s) && s <= maskw(w)) { o = VK(0); return; } o = VX(P.bin(O_ULT, R, A)); return; }
    case X_USUBO: o = VX(P.bin(O_ULT, A, B)); return;
    case X_UMULO: { u128 s; if (!__builtin_mul_overflow(A->umax, B->umax, &s) && s <= maskw(w)) { o = VK(0); return; } if (B->op == O_CONST) { if (!B->v) { o = VK(0); return; } o = VX(P.bin(O_ULT, P.K(w, maskw(w) / B->v), A)); return; } if (A->op == O_CONST) { if (!A->v) { o = VK(0); return; } o = VX(P.bin(O_ULT, P.K(w, maskw(w) / A->v), B)); return; } if (w > 64) engine_error("symbolic 128-bit umulo"); Expr* m = P.bin(O_MUL, P.zext(A, 2 * w), P.zext(B, 2 * w)); o = VX(P.not1(P.bin(O_EQ, P.extract(m, w, w), P.K(w, 0)))); return; }
    default: {
      u128 h = maskw(w) >> 1; if (A->umax <= h && B->umax <= h) { u128 s; if (id == X_SSUBO) { o = VK(0); return; } if (id == X_SADDO && A->umax + B->umax <= h) { o = VK(0); return; } if (id == X_SMULO && !__builtin_mul_overflow(A->umax, B->umax, &s) && s <= h) { o = VK(0); return; } }
      unsigned W = id == X_SMULO ? 2 * w : w + 1; if (W > 128) { if (id == X_SMULO) engine_error("symbolic 128-bit smulo"); W = 128; if (w == 128) engine_error("symbolic 128-bit sadd/ssub overflow"); }
      Expr* x = P.bin(op, P.sext(A, W), P.sext(B, W)); o = VX(P.not1(P.bin(O_EQ, x, P.sext(P.extract(x, 0, w), W)))); return; }
  }
}
static void memIntr(int id, const Val* a) {
  u64 n = a[2].e ? concretize(a[2], 64, "memcpy length") : a[2].lo; if (!n) return; u64 d = ADDR(a[0], "memcpy dst");
  if (id == X_MEMSET) { M->mem.fill(d, a[1], n); return; }
  if (a[1].e) { // symbolic source: byte-wise ITE load when small
    if (n <= 64) { vector<Val> t(n); ExprPool& P = M->P; for (u64 i = 0; i < n; i++) t[i] = symLoad(VX(P.bin(O_ADD, a[1].e, P.K(64, i))), 8); for (u64 i = 0; i < n; i++) M->mem.store(d + i, 8, t[i]); return; } }
  u64 s = ADDR(a[1], "memcpy src"); M->mem.move(d, s, n);
}
static void intrinsic(CallInfo* ci, const Val* a, Val* r) {
  ExprPool& P = M->P; unsigned n = ci->argn.empty() ? 1 : ci->argn[0], w = ci->argw.empty() ? 0 : ci->argw[0];
  auto each1 = [&](auto fn) { for (unsigned i = 0; i < ci->retn; i++) r[i] = fn(a[i]); };
  auto each2 = [&](auto fn) { for (unsigned i = 0; i < ci->retn; i++) r[i] = fn(a[i], a[n + i]); };
  switch (ci->intr) {
    case X_SKIP: break;
    case X_MEMCPY: case X_MEMMOVE: case X_MEMSET: memIntr(ci->intr, a); break;
    case X_UMAX: each2([&](const Val& x, const Val& y) { return ucmpmax(P_UGT, w, x, y); }); break;
    case X_UMIN: each2([&](const Val& x, const Val& y) { return ucmpmax(P_ULT, w, x, y); }); break;
    case X_SMAX: each2([&](const Val& x, const Val& y) { return ucmpmax(P_SGT, w, x, y); }); break;
    case X_SMIN: each2([&](const Val& x, const Val& y) { return ucmpmax(P_SLT, w, x, y); }); break;
    case X_ABS: each1([&](const Val& x) { return sel(icmp(P_SLT, w, x, VK(0)), binop(O_SUB, w, VK(0), x), x, w); }); break;
    case X_CTTZ: each1([&](const Val& x) { return cttzE(x, w); }); break;
    case X_CTLZ: each1([&](const Val& x) { return ctlzE(x, w); }); break;
    case X_CTPOP: each1([&](const Val& x) { return ctpopE(x, w); }); break;
    case X_BSWAP: each1([&](const Val& x) { return bswapE(x, w); }); break;
    case X_BITREV: each1([&](const Val& x) { if (x.e) { Expr* q = nullptr; for (unsigned i = 0; i < w; i++) { Expr* b = P.extract(x.e, w - 1 - i, 1); q = q ? P.concat(b, q) : b; } return VX(q); } u128 s = full(x), t = 0; for (unsigned i = 0; i < w; i++) if (s >> i & 1) t |= (u128)1 << (w - 1 - i); return V128(t); }); break;
    case X_FSHL: case X_FSHR: for (unsigned i = 0; i < ci->retn; i++) r[i] = fsh(ci->intr == X_FSHL, w, a[i], a[n + i], a[2 * n + i]); break;
    case X_UADDO: case X_USUBO: case X_UMULO: case X_SADDO: case X_SSUBO: case X_SMULO: { Val x, o; for (unsigned i = 0; i < n; i++) { ovf(ci->intr, w, a[i], a[n + i], x, o); r[i] = x; r[n + i] = o; } break; }
    case X_UADDSAT: each2([&](const Val& x, const Val& y) { Val q, o; ovf(X_UADDO, w, x, y, q, o); return sel(o, V128(maskw(w)), q, w); }); break;
    case X_USUBSAT: each2([&](const Val& x, const Val& y) { Val q, o; ovf(X_USUBO, w, x, y, q, o); return sel(o, VK(0), q, w); }); break;
    case X_SADDSAT: case X_SSUBSAT: each2([&](const Val& x, const Val& y) { Val q, o; ovf(ci->intr == X_SADDSAT ? X_SADDO : X_SSUBO, w, x, y, q, o); Val lim = sel(icmp(P_SLT, w, x, VK(0)), V128((u128)1 << (w - 1)), V128(maskw(w) >> 1), w); return sel(o, lim, q, w); }); break;
    case X_LOADREL: { Val off = LOAD(binop(O_ADD, 64, a[0], ci->argw[1] == 64 ? a[1] : castv(I_SEXT, a[1], ci->argw[1], 64)), 32); r[0] = binop(O_ADD, 64, a[0], castv(I_SEXT, off, 32, 64)); break; }
    case X_TRAP: finish("fault", "trap / abort"); break;
    case X_EXPECT: r[0] = a[0]; break;
    case X_TLADDR: r[0] = a[0]; break;
    case X_ISCONST: r[0] = VK(0); break;
    case X_UCMP: case X_SCMP: for (unsigned i = 0; i < ci->retn; i++) { bool u = ci->intr == X_UCMP; unsigned rw = ci->retw; r[i] = sel(icmp(u ? P_ULT : P_SLT, w, a[i], a[n + i]), V128(maskw(rw)), sel(icmp(P_EQ, w, a[i], a[n + i]), VK(0), VK(1), rw), rw); } break;
    case X_RED: { string k = ci->name.substr(19); Val acc = a[0]; for (unsigned i = 1; i < n; i++) { const Val& y = a[i]; if (!k.compare(0, 3, "add")) acc = binop(O_ADD, w, acc, y); else if (!k.compare(0, 3, "mul")) acc = binop(O_MUL, w, acc, y); else if (!k.compare(0, 3, "and")) acc = binop(O_AND, w, acc, y); else if (!k.compare(0, 2, "or")) acc = binop(O_OR, w, acc, y); else if (!k.compare(0, 3, "xor")) acc = binop(O_XOR, w, acc, y); else if (!k.compare(0, 4, "umax")) acc = ucmpmax(P_UGT, w, acc, y); else if (!k.compare(0, 4, "umin")) acc = ucmpmax(P_ULT, w, acc, y); else if (!k.compare(0, 4, "smax")) acc = ucmpmax(P_SGT, w, acc, y); else if (!k.compare(0, 4, "smin")) acc = ucmpmax(P_SLT, w, acc, y); else engine_error("vector reduce %s", k.c_str()); } r[0] = acc; break; }
    case X_PMADD: for (unsigned i = 0; i < ci->retn; i++) { auto m = [&](unsigned j) { return binop(O_MUL, 32, castv(I_SEXT, a[j], 16, 32), castv(I_SEXT, a[n + j], 16, 32)); }; r[i] = binop(O_ADD, 32, m(2 * i), m(2 * i + 1)); } break;
    case X_PSAD: for (unsigned i = 0; i < ci->retn; i++) { Val s = VK(0); for (unsigned j = 0; j < 8; j++) { const Val &x = a[i * 8 + j], &y = a[n + i * 8 + j]; Val d = sel(icmp(P_ULT, 8, x, y), binop(O_SUB, 8, y, x), binop(O_SUB, 8, x, y), 8); s = binop(O_ADD, 64, s, castv(I_ZEXT, d, 8, 64)); } r[i] = s; } break;
    case X_PSHUFB: for (unsigned i = 0; i < 16; i++) { u64 k = a[16 + i].e ? concretize(a[16 + i], 8, "pshufb") : a[16 + i].lo; r[i] = k & 128 ? VK(0) : a[k & 15]; } break;
    case X_FABS: each1([&](const Val& x) { return binop(O_AND, w, x, V128(maskw(w) >> 1)); }); break;
    case X_COPYSIGN: each2([&](const Val& x, const Val& y) { return binop(O_OR, w, binop(O_AND, w, x, V128(maskw(w) >> 1)), binop(O_AND, w, y, V128((u128)1 << (w - 1)))); }); break;
    case X_SQRT: each1([&](const Val& x) { return fromF(w == 32 ? (double)sqrtf((float)asF(x, w)) : sqrt(asF(x, w)), w); }); break;
    case X_FLOOR: each1([&](const Val& x) { return fromF(floor(asF(x, w)), w); }); break;
    case X_CEIL: each1([&](const Val& x) { return fromF(ceil(asF(x, w)), w); }); break;
    case X_FTRUNC: each1([&](const Val& x) { return fromF(trunc(asF(x, w)), w); }); break;
    case X_ROUND: each1([&](const Val& x) { return fromF(round(asF(x, w)), w); }); break;
    case X_RINT: each1([&](const Val& x) { return fromF(rint(asF(x, w)), w); }); break;
    case X_MINNUM: each2([&](const Val& x, const Val& y) { return fromF(fmin(asF(x, w), asF(y, w)), w); }); break;
    case X_MAXNUM: each2([&](const Val& x, const Val& y) { return fromF(fmax(asF(x, w), asF(y, w)), w); }); break;
    case X_POW: each2([&](const Val& x, const Val& y) { return fromF(pow(asF(x, w), asF(y, w)), w); }); break;
    case X_POWI: r[0] = fromF(pow(asF(a[0], w), (double)(i32)concretize(a[1], 32, "powi")), w); break;
    case X_LOG: each1([&](const Val& x) { return fromF(log(asF(x, w)), w); }); break;
    case X_LOG2: each1([&](const Val& x) { return fromF(log2(asF(x, w)), w); }); break;
    case X_LOG10: each1([&](const Val& x) { return fromF(log10(asF(x, w)), w); }); break;
    case X_EXP: each1([&](const Val& x) { return fromF(exp(asF(x, w)), w); }); break;
    case X_FMA: for (unsigned i = 0; i < ci->retn; i++) r[i] = fromF(w == 32 ? (double)fmaf((float)asF(a[i], w), (float)asF(a[n + i], w), (float)asF(a[2 * n + i], w)) : fma(asF(a[i], w), asF(a[n + i], w), asF(a[2 * n + i], w)), w); break;
    case X_FPTOUISAT: case X_FPTOSISAT: each1([&](const Val& x) { double d = asF(x, w); unsigned rw = ci->retw; if (d != d) return VK(0); if (ci->intr == X_FPTOUISAT) { if (d <= 0) return VK(0); if (d >= ldexp(1.0, rw)) return V128(maskw(rw)); return V128((u128)d); } if (d >= ldexp(1.0, rw - 1)) return V128(maskw(rw) >> 1); if (d < -ldexp(1.0, rw - 1)) return V128((u128)1 << (rw - 1)); return V128((u128)(i128)d & maskw(rw)); }); break;
    case X_ADDCARRY: case X_SUBBORROW: { if (a[0].e) engine_error("symbolic addcarry"); Val c = VK(a[0].lo & 255 ? 1 : 0); bool add = ci->intr == X_ADDCARRY; Val x, o1, y, o2; ovf(add ? X_UADDO : X_USUBO, 64, a[1], a[2], x, o1); ovf(add ? X_UADDO : X_USUBO, 64, x, c, y, o2); r[0] = castv(I_ZEXT, binop(O_OR, 1, o1, o2), 1, 8); r[1] = y; break; }
    case X_PTRMASK: r[0] = binop(O_AND, 64, a[0], a[1]); break;
    case X_OBJSIZE: r[0] = VK(~0ull & (u64)maskw(ci->retw)); break;
    default: engine_error("intrinsic %s", ci->name.c_str());
  }
}

// ---- external functions and overrides ----
typedef void (*Ext)(CallInfo* ci, const Val* a, Val* r);
static u64 A64(const Val& v, const char* why = "extern argument") { return v.e ? concretize(v, v.e->w, why) : v.lo; }
static string rdstr(u64 p, u64 n) { string s; for (u64 i = 0; i < n; i++) { Val v = M->mem.load(p + i, 8); s += v.e ? (char)M->P.eval(v.e) : (char)v.lo; } return s; }
static Val memcmpE(u64 x, u64 y, u64 n, bool eqOnly) {
  if (!n) return VK(0); M->mem.chk(x, n, "read"); M->mem.chk(y, n, "read");
  if (!M->mem.dirty(x, n) && !M->mem.dirty(y, n)) { int r = memcmp((void*)x, (void*)y, n); return VK((u32)(r < 0 ? -1 : r > 0)); }
  ExprPool& P = M->P; vector<Expr*> X(n), Y(n); u64 lim = n; 
  for (u64 i = 0; i < n; i++) { X[i] = M->mem.get(x + i); if (!X[i]) X[i] = P.K(8, *(u8*)(x + i)); Y[i] = M->mem.get(y + i); if (!Y[i]) Y[i] = P.K(8, *(u8*)(y + i)); }
  if (eqOnly) { Expr* e = P.K(1, 1); for (u64 i = 0; i < n; i++) { Expr* q = P.bin(O_EQ, X[i], Y[i]); e = P.bin(O_AND, e, q); if (e->op == O_CONST && !e->v) return VK(1); } return VX(P.ite(e, P.K(32, 0), P.K(32, 1))); }
  for (u64 i = 0; i < n; i++) { Expr* q = P.bin(O_EQ, X[i], Y[i]); if (q->op == O_CONST && !q->v) { lim = i + 1; break; } }
  Expr* r = P.K(32, 0); for (u64 i = lim; i-- > 0;) { Expr* q = P.bin(O_EQ, X[i], Y[i]); r = P.ite(q, r, P.ite(P.bin(O_ULT, X[i], Y[i]), P.K(32, 0xffffffff), P.K(32, 1))); }
  return VX(r);
}
static u64 errnoAddr() { static u64 a = 0; if (!a) a = M->mem.globAlloc(8, 8); return a; }
static void x_alloc(CallInfo*, const Val* a, Val* r) { u64 s = A64(a[0], "allocation size"), al = A64(a[1]); if (s > (1ull << 33)) { finish("fault", "huge allocation request of " + std::to_string(s) + " bytes"); } r[0] = VK(M->mem.alloc(s, al)); }
static void x_allocz(CallInfo*, const Val* a, Val* r) { x_alloc(nullptr, a, r); u64 s = A64(a[0]); memset((void*)r[0].lo, 0, s); if (s && M->mem.dirty(r[0].lo, s)) M->mem.clear(r[0].lo, s); }
static void x_dealloc(CallInfo*, const Val* a, Val*) { M->mem.dealloc(A64(a[0]), A64(a[1]), A64(a[2])); }
static void x_realloc(CallInfo*, const Val* a, Val* r) { u64 p = A64(a[0]), os = A64(a[1]), al = A64(a[2]), ns = A64(a[3], "allocation size"); if (ns > (1ull << 33)) finish("fault", "huge allocation request"); if (((os + 15) & ~15ull) == ((ns + 15) & ~15ull)) { r[0] = VK(p); return; } u64 n = M->mem.alloc(ns, al); M->mem.move(n, p, std::min(os, ns)); M->mem.dealloc(p, os, al); r[0] = VK(n); }
static void x_malloc(CallInfo*, const Val* a, Val* r) { u64 s = A64(a[0]); u64 p = M->mem.alloc(s, 16); M->mem.csize[p] = s; r[0] = VK(p); }
static void x_calloc(CallInfo*, const Val* a, Val* r) { u64 s = A64(a[0]) * A64(a[1]); u64 p = M->mem.alloc(s, 16); memset((void*)p, 0, s); M->mem.csize[p] = s; r[0] = VK(p); }
static void x_crealloc(CallInfo*, const Val* a, Val* r) { u64 p = A64(a[0]), s = A64(a[1]); u64 n = M->mem.alloc(s, 16); M->mem.csize[n] = s; if (p) M->mem.move(n, p, std::min(s, M->mem.csize[p])); r[0] = VK(n); }
static void x_posix_memalign(CallInfo*, const Val* a, Val* r) { u64 p = M->mem.alloc(A64(a[2]), A64(a[1])); M->mem.store(A64(a[0]), 64, VK(p)); r[0] = VK(0); }
static void x_memcpy(CallInfo*, const Val* a, Val* r) { memIntr(X_MEMCPY, a); r[0] = a[0]; }
static void x_memset(CallInfo*, const Val* a, Val* r) { Val b[3] = { a[0], castv(I_TRUNC, a[1], 32, 8), a[2] }; memIntr(X_MEMSET, b); r[0] = a[0]; }
static void x_memcmp(CallInfo*, const Val* a, Val* r) { r[0] = memcmpE(A64(a[0]), A64(a[1]), A64(a[2], "memcmp length"), false); }
static void x_bcmp(CallInfo*, const Val* a, Val* r) { r[0] = memcmpE(A64(a[0]), A64(a[1]), A64(a[2], "bcmp length"), true); }
static void x_strlen(CallInfo*, const Val* a, Val* r) { u64 p = A64(a[0]), n = 0; for (;; n++) { Val v = M->mem.load(p + n, 8); if (v.e) { if (branch(M->P.bin(O_EQ, v.e, M->P.K(8, 0)))) break; } else if (!v.lo) break; } r[0] = VK(n); }
static string panicMsg(u64 info) { // core::panic::PanicInfo: best effort location
  (void)info; return ""; }
static void x_panic(CallInfo*, const Val* a, Val*) { finish("panic", panicMsg(0) + backtrace()); }
static void x_abort(CallInfo* ci, const Val*, Val*) { finish("fault", "abort: " + ci->name); }
static void x_exit(CallInfo*, const Val*, Val*) { finish("ok", "exit"); }
static void x_zero(CallInfo* ci, const Val*, Val* r) { for (u32 i = 0; i < ci->retn; i++) r[i] = VK(0); }
static void x_stackptr(CallInfo*, const Val*, Val* r) { r[0] = VK(1ull << 40); }
static void x_one(CallInfo*, const Val*, Val* r) { r[0] = VK(1); }
static void x_neg1(CallInfo* ci, const Val*, Val* r) { r[0] = V128(maskw(ci->retw)); }
static void x_enoent(CallInfo* ci, const Val*, Val* r) { M->mem.store(errnoAddr(), 32, VK(2)); r[0] = V128(maskw(ci->retw)); }
static void x_errno(CallInfo*, const Val*, Val* r) { r[0] = VK(errnoAddr()); }
static void x_randkeys(CallInfo* ci, const Val*, Val* r) { for (u32 i = 0; i < ci->retn; i++) r[i] = { 0, 0, M->P.T(64) }; }
static void x_getrandom(CallInfo* ci, const Val* a, Val* r) { u64 p = A64(a[0]), n = A64(a[1]); for (u64 i = 0; i < n; i++) { *(u8*)(p + i) = 0; M->mem.set(p + i, M->P.T(8)); } r[0] = VK(n); }
static void x_getrandom0(CallInfo* ci, const Val* a, Val* r) { x_getrandom(ci, a, r); r[0] = VK(0); }
static void x_getstack(CallInfo*, const Val* a, Val* r) { M->mem.store(A64(a[1]), 64, VK(4096)); M->mem.store(A64(a[2]), 64, VK(1ull << 40)); r[0] = VK(0); }
static void x_clock(CallInfo*, const Val* a, Val* r) { static u64 t = 0; u64 p = A64(a[1]); M->mem.store(p, 64, VK(1893456000 + t)); M->mem.store(p + 8, 64, VK(0)); t++; r[0] = VK(0); }
static void x_write(CallInfo*, const Val* a, Val* r) { if (verbose) { string s = rdstr(A64(a[1]), A64(a[2])); fwrite(s.data(), 1, s.size(), stderr); } r[0] = VK(A64(a[2])); }
static void x_writev(CallInfo*, const Val* a, Val* r) { u64 p = A64(a[1]), n = A64(a[2]), t = 0; for (u64 i = 0; i < n; i++) { u64 b = A64(M->mem.load(p + 16 * i, 64)), l = A64(M->mem.load(p + 16 * i + 8, 64)); if (verbose) { string s = rdstr(b, l); fwrite(s.data(), 1, s.size(), stderr); } t += l; } r[0] = VK(t); }
static void x_sysconf(CallInfo*, const Val* a, Val* r) { u64 k = A64(a[0]); r[0] = VK(k == 30 ? 4096 : k == 84 || k == 83 ? 1 : 0); }
static void x_sched(CallInfo*, const Val* a, Val* r) { u64 n = A64(a[1]), p = A64(a[2]); memset((void*)p, 0, n); *(u8*)p = 1; r[0] = VK(0); }
static void x_cpuid(CallInfo* ci, const Val*, Val* r) { for (u32 i = 0; i < ci->retn; i++) r[i] = VK(0); }
static u64 pthreadKeys = 0; static std::map<u64, Val> pkeys;
static void x_pkcreate(CallInfo*, const Val* a, Val* r) { M->mem.store(A64(a[0]), 32, VK(++pthreadKeys)); r[0] = VK(0); }
static void x_pkset(CallInfo*, const Val* a, Val* r) { pkeys[A64(a[0])] = a[1]; r[0] = VK(0); }
static void x_pkget(CallInfo*, const Val* a, Val* r) { r[0] = pkeys.count(A64(a[0])) ? pkeys[A64(a[0])] : VK(0); }
static void x_syscall(CallInfo* ci, const Val* a, Val* r) { u64 n = A64(a[0]); if (n == 318) { Val b[2] = { a[1], a[2] }; x_getrandom(ci, b, r); return; } if (n == 202) { u64 op = A64(a[2]) & 127; if ((op == 0 || op == 9) && A64(a[4]) == 0 && *(const volatile unsigned*)A64(a[1]) == (unsigned)A64(a[3])) finish("fault", "blocked forever on a lock" + backtrace()); r[0] = VK(0); return; } if (n == 186) { r[0] = VK(1); return; } engine_error("syscall %llu", (unsigned long long)n); }
static std::map<string, u64> envs; // what the harness itself has set
static string cstr(u64 p) { string s; for (;; p++) { u64 c = A64(M->mem.load(p, 8)); if (!c) return s; s += (char)c; } }
static void x_setenv(CallInfo* ci, const Val* a, Val* r) {
  string n = cstr(A64(a[0])), v = cstr(A64(a[1]));
  auto str = [&](const string& t) { Val z[1] = { VK(t.size() + 1) }, q[8]; x_malloc(ci, z, q); memcpy((void*)A64(q[0]), t.c_str(), t.size() + 1); return A64(q[0]); };
  envs[n] = str(v);
  auto& e = M->externGlobals["environ"]; if (!e) e = M->mem.globAlloc(16, 16);
  Val z[1] = { VK(8 * (envs.size() + 1)) }, q[8]; x_malloc(ci, z, q); u64* p = (u64*)A64(q[0]);
  for (auto& i : envs) *p++ = str(i.first + "=" + (const char*)i.second);
  *p = 0; *(u64*)e = A64(q[0]); r[0] = VK(0); }
static void x_getenv(CallInfo*, const Val* a, Val* r) { auto i = envs.find(cstr(A64(a[0]))); r[0] = VK(i == envs.end() ? 0 : i->second); }
static void x_detect(CallInfo* ci, const Val*, Val* r) { for (u32 i = 0; i < ci->retn; i++) r[i] = VK(i == 0 ? 0 : 0); }
// -- harness API --
static void x_symbytes(CallInfo*, const Val* a, Val*) { u64 p = A64(a[0]), n = A64(a[1]); u8 lo = A64(a[2]), hi = A64(a[3]); string nm = rdstr(A64(a[4]), A64(a[5])); for (u64 i = 0; i < n; i++) { if (lo == hi) { } Expr* s = M->P.newsym(lo, hi, nm); M->S->noteSym(s); M->mem.chk(p + i, 1, "write"); *(u8*)(p + i) = 0; M->mem.set(p + i, s); } }
static Expr* condOf(const Val& v) { if (!v.e) return M->P.K(1, v.lo & 1); Expr* e = v.e; if (e->w != 1) e = M->P.not1(M->P.bin(O_EQ, e, M->P.K(e->w, 0))); return e; }
static void x_assume(CallInfo*, const Val* a, Val*) { Expr* c = condOf(a[0]); if (c->op == O_CONST) { if (!c->v) finish("assume", ""); return; } u8 m2[MAXSYM]; if (!M->S->may(c, m2)) finish("assume", ""); M->S->setModel(m2); M->S->add(c); }
static void x_assert(CallInfo*, const Val* a, Val*) {
  Expr* c = condOf(a[0]); string lab = rdstr(A64(a[1]), A64(a[2])); pathAsserts++;
  if (c->op == O_CONST) { if (!c->v) { violLabel = lab; SH->violations++; if (SH->violations.load() >= 40) SH->stop = 1; record("violation", lab, M->S->model); finish("stopped", "after violation"); } return; }
  u8 m2[MAXSYM]; Expr* n = M->P.not1(c); lstats.assertQ++;
  if (M->S->z3check(n, m2)) { SH->violations++; if (SH->violations.load() >= 40) SH->stop = 1; record("violation", lab, m2); if (!M->S->may(c, m2)) finish("stopped", "after violation"); M->S->setModel(m2); }
  M->S->add(c);
}
static void x_observe(CallInfo*, const Val* a, Val*) { Obs o; u64 p = A64(a[0]), n = A64(a[1], "observe length"); o.label = rdstr(A64(a[2]), A64(a[3])); for (u64 i = 0; i < n; i++) o.bytes.push_back(M->mem.load(p + i, 8)); obs.push_back(o); }
static void x_cover(CallInfo*, const Val* a, Val*) { covers[rdstr(A64(a[0]), A64(a[1]))]++; }
static void x_conc(CallInfo*, const Val* a, Val* r) { r[0] = VK(A64(a[0], "sym_concretize")); }
static void x_mode(CallInfo*, const Val*, Val* r) { r[0] = VK(1); }
static void x_forkif(CallInfo*, const Val* a, Val* r) { r[0] = VK(branch(condOf(a[0]))); }
static void x_printfn(CallInfo*, const Val* a, Val*) { if (verbose) { string s = rdstr(A64(a[0]), A64(a[1])); fprintf(stderr, "[%llu] %s\n", (unsigned long long)icount, s.c_str()); } }

static std::unordered_map<string, Ext> extTab;
static void initExt() {
  auto& t = extTab; t["__rust_alloc"] = x_alloc; t["__rust_dealloc"] = x_dealloc; t["__rust_realloc"] = x_realloc; t["__rust_alloc_zeroed"] = x_allocz; t["malloc"] = x_malloc; t["calloc"] = x_calloc; t["realloc"] = x_crealloc; t["free"] = x_zero; t["posix_memalign"] = x_posix_memalign;
  t["memcpy"] = t["memmove"] = x_memcpy; t["memset"] = x_memset; t["memcmp"] = x_memcmp; t["bcmp"] = x_bcmp; t["strlen"] = x_strlen;
  t["rust_begin_unwind"] = x_panic; t["core::panicking::panic_fmt"] = x_panic; t["abort"] = x_abort; t["exit"] = x_exit; t["_exit"] = x_exit; t["std::process::abort"] = x_abort; t["core::panicking::panic_cannot_unwind"] = x_abort; t["std::panicking::begin_panic"] = x_panic; t["std::panicking::rust_panic_with_hook"] = x_panic; t["alloc::alloc::handle_alloc_error"] = x_panic;
  t["std::sys::random::hashmap_random_keys"] = x_randkeys; t["std::sys::random::linux::hashmap_random_keys"] = x_randkeys; t["getrandom"] = x_getrandom; t["getrandom::backends::linux_android_with_fallback::use_file_fallback"] = x_getrandom0; t["getrandom::imp::getrandom_inner"] = x_getrandom0; t["clock_gettime"] = x_clock; t["write"] = x_write; t["writev"] = x_writev; t["__errno_location"] = x_errno; t["sysconf"] = x_sysconf; t["sched_getaffinity"] = x_sched; t["getenv"] = x_getenv; t["setenv"] = x_setenv; t["__cxa_thread_atexit_impl"] = x_zero; t["std::sys::thread_local::destructors::register"] = x_zero; t["std::sys::thread_local::guard::key::enable"] = x_zero; t["std::sys::thread_local::guard::enable"] = x_zero;
  for (const char* s : { "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_attr_init", "pthread_attr_destroy", "pthread_getattr_np", "sched_yield", "sigaction", "sigaltstack", "close", "pthread_atfork", "pthread_rwlock_rdlock", "pthread_rwlock_unlock", "pthread_rwlock_wrlock" }) t[s] = x_zero;
  t["pthread_self"] = x_one; t["gettid"] = x_one; t["dlsym"] = x_zero; t["pthread_attr_getstack"] = x_getstack; t["rust_psm_stack_pointer"] = x_stackptr; t["getpid"] = x_one; t["pthread_key_create"] = x_pkcreate; t["pthread_setspecific"] = x_pkset; t["pthread_getspecific"] = x_pkget; t["syscall"] = x_syscall; t["open"] = t["open64"] = t["stat64"] = t["fstat64"] = t["lstat64"] = t["readlink"] = t["statx"] = x_enoent; t["getcwd"] = x_zero;
  t["std_detect::detect::cache::detect_and_initialize"] = x_detect;
  t["__sym_bytes"] = x_symbytes; t["__sym_assume"] = x_assume; t["__sym_assert"] = x_assert; t["__sym_observe"] = x_observe; t["__sym_cover"] = x_cover; t["__sym_concretize"] = x_conc; t["__sym_mode"] = x_mode; t["__sym_branch"] = x_forkif; t["__sym_log"] = x_printfn;
}
static void doAsm(CallInfo* ci, const Val* a, Val* r) {
  string s = ci->name.substr(4); if (s.find("cpuid") != string::npos) { for (u32 i = 0; i < ci->retn; i++) r[i] = VK(0); return; }
  if (s.empty() || s.find_first_not_of(" \\0A9\n\t") == string::npos) { for (u32 i = 0; i < ci->retn && i < ci->args.size(); i++) r[i] = a[i]; return; } // black_box / compiler barrier
  engine_error("inline asm: %s", s.c_str());
}

// ---- interpreter ----
static void takeEdge(Frame& fr, Edge& e) {
  if (!e.copies.empty()) {
    if (e.copies.size() == 1 && e.copies[0][2] == 1) { auto& cp = e.copies[0]; fr.R[cp[0]] = cp[1] >= 0 ? fr.R[cp[1]] : fr.f->K[~cp[1]]; }
    else { static vector<Val> tmp; tmp.clear(); for (auto& cp : e.copies) for (int k = 0; k < cp[2]; k++) tmp.push_back(cp[1] >= 0 ? fr.R[cp[1] + k] : fr.f->K[~cp[1] + k]); size_t i = 0; for (auto& cp : e.copies) for (int k = 0; k < cp[2]; k++) fr.R[cp[0] + k] = tmp[i++]; }
  }
  fr.pc = e.target;
}
static void pushFrame(Func* f, const Val* args, u32 n, i32 dst, CallInfo* ci) {
  if (!f->parsed) { M->parseFunc(f); }
  if (VT + f->nslots + 64 > VS + (1u << 25) || stk.size() > 60000) path_fault("stack", "stack overflow");
  Frame fr; fr.f = f; fr.R = VT; VT += f->nslots; fr.pc = 0; fr.smark = M->mem.stackTop; fr.dst = dst; fr.ci = ci;
  if (n < f->nparamSlots) engine_error("arg count mismatch calling %s: %u vs %u", f->dem.c_str(), n, f->nparamSlots);
  for (u32 i = 0; i < f->nparamSlots; i++) fr.R[i] = args[i];
  if (!f->noted) { f->noted = true; if (f->dem.find("hudi_core") != string::npos || f->dem.find("hudi_datafusion") != string::npos) { string s = f->dem + "\n"; if (fnfd >= 0) if (write(fnfd, s.data(), s.size()) < 0) {} } }
  f->calls++; stk.push_back(fr);
}
static Ext extFor(Func* f) {
  if (f->ovr == -2) { f->ovr = -1; auto it = extTab.find(f->name); if (it == extTab.end()) it = extTab.find(f->dem); if (it != extTab.end()) { f->ovr = 0; f->ext = (void*)it->second; } }
  return f->ovr == 0 ? (Ext)f->ext : nullptr;
}
static std::unordered_map<string, u64> prof; static bool profiling = false;
static void run(Func* entry) {
  pushFrame(entry, nullptr, 0, -1, nullptr); Val argbuf[512];
  for (;;) {
    Frame& fr = stk.back(); Val* R = fr.R; Func* f = fr.f; const Val* K = f->K.data(); Inst* code = f->code.data();
#define G(o) ((o) >= 0 ? R[o] : K[~(o)])
#define GK(o, k) ((o) >= 0 ? R[(o) + (k)] : K[~(o) + (k)])
    for (;;) {
      Inst& I = code[fr.pc++]; icount++;
      if (__builtin_expect((icount & 0xfffff) == 0, 0)) { if (icount > ilimit) finish("error", "instruction limit"); checkStop(); if (profiling) { prof[f->dem]++; } }
      switch (I.op) {
        case I_BIN: { const Val &a = G(I.a), &b = G(I.b);
          if (__builtin_expect(!a.e && !b.e && I.w <= 64, 1)) { u64 x = a.lo, y = b.lo, r; unsigned w = I.w;
            switch (I.sub) { case O_ADD: r = x + y; break; case O_SUB: r = x - y; break; case O_MUL: r = x * y; break; case O_AND: r = x & y; break; case O_OR: r = x | y; break; case O_XOR: r = x ^ y; break; case O_SHL: r = y >= w ? 0 : x << y; break; case O_LSHR: r = y >= w ? 0 : x >> y; break; default: r = binop(I.sub, w, a, b).lo; }
            if (w < 64) r &= (1ull << w) - 1; R[I.dst] = { r, 0, nullptr }; break; }
          if ((I.sub == O_UDIV || I.sub == O_SDIV || I.sub == O_UREM || I.sub == O_SREM) && b.e && b.e->op != O_TAINT) { if (branch(M->P.bin(O_EQ, b.e, M->P.K(I.w, 0)))) path_fault("div", "division by zero"); }
          R[I.dst] = binop(I.sub, I.w, a, b); break; }
        case I_VBIN: for (u32 k = 0; k < I.n; k++) R[I.dst + k] = binop(I.sub, I.w, GK(I.a, k), GK(I.b, k)); break;
        case I_ICMP: { const Val &a = G(I.a), &b = G(I.b); R[I.dst] = icmp(I.sub, I.w, a, b); break; }
        case I_VICMP: for (u32 k = 0; k < I.n; k++) R[I.dst + k] = icmp(I.sub, I.w, GK(I.a, k), GK(I.b, k)); break;
        case I_LOAD: R[I.dst] = LOAD(G(I.a), I.w); break;
        case I_LOADA: { Type* t = (Type*)I.p; u64 a = ADDR(G(I.a), "aggregate load"); auto& lv = t->leafv(); for (u32 k = 0; k < lv.size(); k++) R[I.dst + k] = M->mem.load(a + lv[k].off, lv[k].w); break; }
        case I_STORE: STORE(G(I.b), I.w, G(I.a)); break;
        case I_STOREA: { Type* t = (Type*)I.p; u64 a = ADDR(G(I.b), "aggregate store"); auto& lv = t->leafv(); for (u32 k = 0; k < lv.size(); k++) M->mem.store(a + lv[k].off, lv[k].w, GK(I.a, k)); break; }
        case I_GEP: { GepInfo* g = (GepInfo*)I.p; const Val& b = G(I.a); bool sym = b.e; for (auto& t : g->t) if (G(t.op).e) sym = true;
          if (!sym) { u64 a = b.lo + g->off; for (auto& t : g->t) { u64 x = G(t.op).lo; if (t.w < 64) { int s = 64 - t.w; x = (u64)((i64)(x << s) >> s); } a += x * (u64)t.scale; } R[I.dst] = { a, 0, nullptr }; break; }
          ExprPool& P = M->P; Expr* a = P.bin(O_ADD, EX(b, 64), P.K(64, (u64)g->off)); for (auto& t : g->t) { Expr* x = EX(G(t.op), t.w); if (t.w < 64) x = P.sext(x, 64); else if (t.w > 64) x = P.extract(x, 0, 64); a = P.bin(O_ADD, a, P.bin(O_MUL, x, P.K(64, (u64)t.scale))); } R[I.dst] = VX(a); break; }
        case I_SELECT: { const Val& c = G(I.a);
          if (!c.e) { bool b = c.lo & 1; if (I.n == 1) { R[I.dst] = b ? G(I.b) : G(I.c); } else for (u32 k = 0; k < I.n; k++) R[I.dst + k] = b ? GK(I.b, k) : GK(I.c, k); break; }
          if (I.sub || I.n != 1 || !I.w) { bool b = branch(c.e); for (u32 k = 0; k < I.n; k++) R[I.dst + k] = b ? GK(I.b, k) : GK(I.c, k); break; }
          R[I.dst] = sel(c, G(I.b), G(I.c), I.w); break; }
        case I_VSELECT: for (u32 k = 0; k < I.n; k++) R[I.dst + k] = sel(GK(I.a, k), GK(I.b, k), GK(I.c, k), I.w); break;
        case I_BR: takeEdge(fr, *(Edge*)I.p); break;
        case I_CBR: { const Val& c = G(I.a); bool b = c.e ? branch(c.e) : (c.lo & 1); takeEdge(fr, ((Edge*)I.p)[b ? 0 : 1]); break; }
        case I_SWITCH: { SwitchInfo* s = (SwitchInfo*)I.p; const Val& v = G(I.a);
          if (!v.e) { auto it = s->map.find(v.lo); takeEdge(fr, s->edges[it == s->map.end() ? 0 : it->second]); break; }
          if (v.e->op == O_TAINT) { auto it = s->map.find(0); takeEdge(fr, s->edges[it == s->map.end() ? 0 : it->second]); break; }
          { ExprPool& P = M->P; // group the keys by target block so that each target forks at most once
            int n = s->edges.size(), pick = 0; std::map<int, Expr*> byT; std::map<int, int> rep; bool done = false;
            for (int k = 1; k < n; k++) { Edge& e = s->edges[k]; int tgt = e.copies.empty() ? e.target : -k; Expr* q = P.bin(O_EQ, v.e, P.K(s->w, s->keys[k - 1])); if (q->op == O_CONST && !q->v) continue; auto it = byT.find(tgt); if (it == byT.end()) { byT[tgt] = q; rep[tgt] = k; } else it->second = P.bin(O_OR, it->second, q); }
            for (auto& kv : byT) { if (branch(kv.second)) { pick = rep[kv.first]; done = true; break; } }
            (void)done; takeEdge(fr, s->edges[pick]); break; } }
        case I_RET: { Frame old = fr; Val tmp[64]; u32 n = I.n; if (n > 64) engine_error("wide return"); for (u32 k = 0; k < n; k++) tmp[k] = GK(I.a, k); M->mem.stackTop = old.smark; VT = old.R; stk.pop_back(); if (stk.empty()) return; Frame& up = stk.back(); if (old.dst >= 0) for (u32 k = 0; k < n; k++) up.R[old.dst + k] = tmp[k]; if (old.ci && old.ci->invoke) takeEdge(up, old.ci->normal); goto newframe; }
        case I_CALL: { CallInfo* ci = (CallInfo*)I.p; u32 n = 0; for (size_t k = 0; k < ci->args.size(); k++) for (u32 j = 0; j < ci->argn[k]; j++) { argbuf[n++] = GK(ci->args[k], j); if (n > 500) engine_error("too many args"); }
          Val ret[64];
          if (ci->intr >= 0) { intrinsic(ci, argbuf, ret); if (I.dst >= 0) for (u32 k = 0; k < ci->retn; k++) R[I.dst + k] = ret[k]; if (ci->invoke) takeEdge(fr, ci->normal); break; }
          if (ci->isAsm) { doAsm(ci, argbuf, ret); if (I.dst >= 0) for (u32 k = 0; k < ci->retn; k++) R[I.dst + k] = ret[k]; if (ci->invoke) takeEdge(fr, ci->normal); break; }
          Func* callee = ci->direct; if (!callee) { u64 a = ADDR(G(ci->callee), "indirect call"); callee = M->L.funcAt(a); if (!callee) { char b[64]; snprintf(b, sizeof b, "call of invalid address 0x%llx", (unsigned long long)a); path_fault("memfault", b); } }
          Ext x = extFor(callee);
          if (x) { ci->name = callee->name; x(ci, argbuf, ret); if (I.dst >= 0) for (u32 k = 0; k < ci->retn; k++) R[I.dst + k] = ret[k]; if (ci->invoke) takeEdge(fr, ci->normal); break; }
          if (!callee->text) engine_error("unmodelled external function %s", callee->name.c_str());
          pushFrame(callee, argbuf, n, I.dst, ci); goto newframe; }
        case I_COPY: if (I.n == 1) R[I.dst] = G(I.a); else { Val t[256]; if (I.n > 256) engine_error("wide copy"); for (u32 k = 0; k < I.n; k++) t[k] = GK(I.a, k); for (u32 k = 0; k < I.n; k++) R[I.dst + k] = t[k]; } break;
        case I_INSV: { for (u32 k = 0; k < I.n; k++) R[I.dst + k] = (k >= I.sw && k < I.sw + I.w) ? GK(I.b, k - I.sw) : GK(I.a, k); break; }
        case I_TRUNC: case I_ZEXT: case I_SEXT: if (I.n == 1) R[I.dst] = castv(I.op, G(I.a), I.sw, I.w); else for (u32 k = 0; k < I.n; k++) R[I.dst + k] = castv(I.op, GK(I.a, k), I.sw, I.w); break;
        case I_BITCAST: { BitcastInfo* b = (BitcastInfo*)I.p; vector<Val> out(b->dn); ExprPool& P = M->P; bool sym = false; for (u32 k = 0; k < b->sn; k++) if (GK(I.a, k).e) sym = true;
          auto bits = [&](u32 lo, u32 n) -> Expr* { Expr* r = nullptr; while (n) { u32 el = lo / b->sw, off = lo % b->sw, t = std::min(n, b->sw - off); Expr* x = P.extract(EX(GK(I.a, el), b->sw), off, t); r = r ? P.concat(x, r) : x; lo += t; n -= t; } return r; };
          auto cbits = [&](u32 lo, u32 n) -> u128 { u128 r = 0; u32 d = 0; while (n) { u32 el = lo / b->sw, off = lo % b->sw, t = std::min(n, b->sw - off); r |= ((full(GK(I.a, el)) >> off) & maskw(t)) << d; d += t; lo += t; n -= t; } return r; };
          for (u32 k = 0; k < b->dn; k++) out[k] = sym ? VX(bits(k * b->dw, b->dw)) : V128(cbits(k * b->dw, b->dw)); for (u32 k = 0; k < b->dn; k++) R[I.dst + k] = out[k]; break; }
        case I_ALLOCA: { Type* t = (Type*)I.p; u64 n = I.a == INT32_MAX ? 1 : A64(G(I.a), "alloca count"); u64 sz = t->size * n; u64 al = I.sw ? I.sw : 1; u64 a = (M->mem.stackTop + al - 1) & ~(al - 1); M->mem.stackTop = a + (sz ? sz : 1); if (M->mem.stackTop > A_STACK_END) path_fault("stack", "stack overflow"); if (sz && M->mem.dirty(a, sz)) M->mem.clear(a, sz); R[I.dst] = VK(a); break; }
        case I_FBIN: for (u32 k = 0; k < I.n; k++) { double x = asF(GK(I.a, k), I.w), y = asF(GK(I.b, k), I.w), r = 0; if (I.w == 32) { float fx = x, fy = y, q = 0; switch (I.sub) { case F_ADD: q = fx + fy; break; case F_SUB: q = fx - fy; break; case F_MUL: q = fx * fy; break; case F_DIV: q = fx / fy; break; case F_REM: q = fmodf(fx, fy); } r = q; } else switch (I.sub) { case F_ADD: r = x + y; break; case F_SUB: r = x - y; break; case F_MUL: r = x * y; break; case F_DIV: r = x / y; break; case F_REM: r = fmod(x, y); } R[I.dst + k] = fromF(r, I.w); } break;
        case I_FNEG: for (u32 k = 0; k < I.n; k++) R[I.dst + k] = binop(O_XOR, I.w, GK(I.a, k), V128((u128)1 << (I.w - 1))); break;
        case I_FCMP: for (u32 k = 0; k < I.n; k++) { double x = asF(GK(I.a, k), I.w), y = asF(GK(I.b, k), I.w); bool un = x != x || y != y, r = false; switch (I.sub) { case 0: r = false; break; case 1: r = !un && x == y; break; case 2: r = !un && x > y; break; case 3: r = !un && x >= y; break; case 4: r = !un && x < y; break; case 5: r = !un && x <= y; break; case 6: r = !un && x != y; break; case 7: r = !un; break; case 8: r = un || x == y; break; case 9: r = un || x > y; break; case 10: r = un || x >= y; break; case 11: r = un || x < y; break; case 12: r = un || x <= y; break; case 13: r = un || x != y; break; case 14: r = un; break; case 15: r = true; } R[I.dst + k] = VK(r); } break;
        case I_FCAST: for (u32 k = 0; k < I.n; k++) { const Val& v = GK(I.a, k); switch (I.sub) { case FC_FPTOUI: R[I.dst + k] = V128((u128)asF(v, I.sw) & maskw(I.w)); break; case FC_FPTOSI: R[I.dst + k] = V128((u128)(i128)asF(v, I.sw) & maskw(I.w)); break; case FC_UITOFP: { Val x = v.e ? VK(concretize(v, I.sw, "uitofp", 64)) : v; R[I.dst + k] = I.w == 32 ? fromF((float)full(x), 32) : fromF((double)full(x), 64); break; } case FC_SITOFP: { Val x = v.e ? VK(concretize(v, I.sw, "sitofp", 64)) : v; i128 s = sextw(full(x), I.sw); R[I.dst + k] = I.w == 32 ? fromF((float)s, 32) : fromF((double)s, 64); break; } case FC_TRUNC: case FC_EXT: if (I.w > 64 || I.sw > 64 || I.w < 32 || I.sw < 32) engine_error("fp cast width"); R[I.dst + k] = fromF(asF(v, I.sw), I.w); break; } } break;
        case I_ARMW: { Val a = G(I.a), b = G(I.b); u64 ad = ADDR(a, "atomicrmw"); Val o = M->mem.load(ad, I.w), n; switch (I.sub) { case 0: n = b; break; case 1: n = binop(O_ADD, I.w, o, b); break; case 2: n = binop(O_SUB, I.w, o, b); break; case 3: n = binop(O_AND, I.w, o, b); break; case 5: n = binop(O_OR, I.w, o, b); break; case 6: n = binop(O_XOR, I.w, o, b); break; case 7: n = ucmpmax(P_SGT, I.w, o, b); break; case 8: n = ucmpmax(P_SLT, I.w, o, b); break; case 9: n = ucmpmax(P_UGT, I.w, o, b); break; case 10: n = ucmpmax(P_ULT, I.w, o, b); break; default: engine_error("atomicrmw"); } M->mem.store(ad, I.w, n); R[I.dst] = o; break; }
        case I_CMPXCHG: { u64 ad = ADDR(G(I.a), "cmpxchg"); Val o = M->mem.load(ad, I.w), e = G(I.b), n = G(I.c); Val c = icmp(P_EQ, I.w, o, e); bool b = c.e ? branch(c.e) : c.lo; if (b) M->mem.store(ad, I.w, n); R[I.dst] = o; R[I.dst + 1] = VK(b); break; }
        case I_EXTE: { u64 k = A64(G(I.b), "extractelement"); if (k >= I.n) k = 0; R[I.dst] = GK(I.a, k); break; }
        case I_INSE: { u64 k = A64(G(I.c), "insertelement"); Val v = G(I.b); Val t[256]; for (u32 j = 0; j < I.n; j++) t[j] = GK(I.a, j); for (u32 j = 0; j < I.n; j++) R[I.dst + j] = j == k ? v : t[j]; break; }
        case I_SHUF: { auto* v = (vector<u32>*)I.p; Val t[256]; for (u32 j = 0; j < I.n; j++) { u32 k = (*v)[j]; t[j] = k < I.sw ? GK(I.a, k) : GK(I.b, k - I.sw); } for (u32 j = 0; j < I.n; j++) R[I.dst + j] = t[j]; break; }
        case I_UNREACH: finish("fault", "unreachable executed in " + f->dem); break;
        case I_NOP: break;
        case I_UNSUP: engine_error("unsupported: %s in %s", ((string*)I.p)->c_str(), f->dem.c_str());
        default: engine_error("bad opcode %d", I.op);
      }
    }
  newframe:;
  }
}

static void scoutDone() {
  string o; for (size_t i = 0; i < M->L.mods.size(); i++) for (auto& kv : M->L.mods[i]->funcs) if (kv.second && kv.second->parsed) { o += std::to_string(i) + " " + kv.first + "\n"; }
  const char* p = o.data(); size_t n = o.size(); while (n) { ssize_t w = write(scoutfd, p, n); if (w <= 0) break; p += w; n -= w; } _exit(0);
}
static void runScout(Func* e) {
  int fd[2]; if (pipe(fd)) return; pid_t p = fork(); if (p < 0) { close(fd[0]); close(fd[1]); return; }
  if (p == 0) { close(fd[0]); scoutfd = fd[1]; scout = true; if (fnfd >= 0) { close(fnfd); fnfd = -1; } ilimit = std::min<u64>(ilimit, 40000000); run(e); scoutDone(); }
  close(fd[1]); string o; char b[65536]; ssize_t n; while ((n = read(fd[0], b, sizeof b)) > 0) o.append(b, n); close(fd[0]); int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
  size_t i = 0; while (i < o.size()) { size_t j = o.find('\n', i); if (j == string::npos) break; size_t k = o.find(' ', i); int m = atoi(o.c_str() + i); if (k < j && m >= 0 && (size_t)m < M->L.mods.size()) { Func* f = M->L.getFunc(M->L.mods[m], string_view(*new string(o, k + 1, j - k - 1))); if (f && f->text) M->parseFunc(f); } i = j + 1; }
}

int main(int argc, char** argv) {
  string mods, out, fns, entry; int jobs = 8; double tl = 600; 
  for (int i = 1; i < argc; i++) { string a = argv[i]; auto nx = [&] { return string(argv[++i]); }; if (a == "--mods") mods = nx(); else if (a == "--out") out = nx(); else if (a == "--fns") fns = nx(); else if (a == "--entry") entry = nx(); else if (a == "--jobs") jobs = atoi(nx().c_str()); else if (a == "--time") tl = atof(nx().c_str()); else if (a == "--max-paths") maxPaths = atoll(nx().c_str()); else if (a == "--ilimit") ilimit = atoll(nx().c_str()); else if (a == "-v") verbose = 1; else if (a == "--prof") profiling = true; else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 3; } }
  SH = (Shared*)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); new (SH) Shared; memset((void*)SH, 0, sizeof *SH); SH->tokens = jobs - 1; SH->deadline = now_s() + tl;
  double t0 = now_s(); M = new Machine; memset(&lstats, 0, sizeof lstats); M->stats = &lstats; M->mem.init(&M->P); M->S = new Solver(M->P, &lstats); M->L.funcBase = A_FUNC; initExt();
  vector<string> paths; { FILE* f = fopen(mods.c_str(), "r"); if (!f) { fprintf(stderr, "no module list\n"); return 3; } char b[4096]; while (fgets(b, sizeof b, f)) { string s(b); while (!s.empty() && isspace(s.back())) s.pop_back(); if (!s.empty()) paths.push_back(s); } fclose(f); }
  outfd = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644); if (!fns.empty()) fnfd = open(fns.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
  M->L.load(paths); double t1 = now_s();
  VS = VT = (Val*)mmap(0, sizeof(Val) << 25, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  M->P.setModel(M->S->model);
  { M->S->z(); Z3_solver w = Z3_mk_simple_solver(M->S->z()); Z3_solver_inc_ref(M->S->z(), w); Z3_solver_check(M->S->z(), w); Z3_solver_dec_ref(M->S->z(), w); }
  Func* e = M->L.getFunc(nullptr, entry); if (!e || !e->text) { fprintf(stderr, "entry %s not found\n", entry.c_str()); return 3; }
  runScout(e);
  pid_t root = fork();
  if (root == 0) { run(e); if (profiling) { vector<std::pair<u64, string>> v; for (auto& kv : prof) v.push_back({ kv.second, kv.first }); std::sort(v.rbegin(), v.rend()); for (size_t i = 0; i < v.size() && i < 30; i++) fprintf(stderr, "%6llu %s\n", (unsigned long long)v[i].first, v[i].second.c_str()); } finish("ok", ""); }
  int st; while (waitpid(root, &st, 0) < 0 && errno == EINTR) ; if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) SH->crashed++;
  printf("{\"paths\":%llu,\"forks\":%llu,\"violations\":%llu,\"errors\":%llu,\"crashed\":%llu,\"insts\":%llu,\"asserts\":%llu,\"assert_queries\":%llu,\"z3_queries\":%llu,\"z3_sat\":%llu,\"z3_unsat\":%llu,\"fast_sat\":%llu,\"fast_unsat\":%llu,\"z3_seconds\":%.3f,\"load_s\":%.2f,\"wall_s\":%.2f,\"maxdepth\":%llu}\n",
    (unsigned long long)SH->paths, (unsigned long long)SH->forks, (unsigned long long)SH->violations, (unsigned long long)SH->errors, (unsigned long long)SH->crashed, (unsigned long long)SH->insts, (unsigned long long)SH->asserts, (unsigned long long)SH->aq, (unsigned long long)SH->z3q, (unsigned long long)SH->z3sat, (unsigned long long)SH->z3unsat, (unsigned long long)SH->qs, (unsigned long long)SH->qu, SH->z3us / 1e6, t1 - t0, now_s() - t0, (unsigned long long)SH->maxdepth);
  return 0;
}
