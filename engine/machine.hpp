// Machine: memory, globals, function-body parser.
#pragma once
#include "ir.hpp"
#include "solver.hpp"
#include <array>
#include <functional>
static const u64 ABASE = 0x100000000000ull, ASIZE = 64ull << 30;
static const u64 A_FUNC = ABASE, A_GLOB = ABASE + (256ull << 20), A_GLOB_END = ABASE + (2ull << 30), A_STACK = A_GLOB_END, A_STACK_END = ABASE + (4ull << 30), A_HEAP = A_STACK_END, A_END = ABASE + ASIZE;
struct PathFault { string kind, msg; };
[[noreturn]] void path_fault(const char* kind, const string& msg);

struct Mem {
  Expr*** sh; // shadow page table
  u64 globTop = A_GLOB, stackTop = A_STACK, heapTop = A_HEAP;
  std::unordered_map<u64, vector<u64>> freel; std::unordered_map<u64, u64> csize; ExprPool* P;
  void init(ExprPool* p) {
    P = p; void* r = mmap((void*)ABASE, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0); if (r != (void*)ABASE) engine_error("arena mmap failed");
    sh = (Expr***)mmap(0, (ASIZE >> 12) * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  inline bool ok(u64 a, u64 n) { return a >= A_GLOB && a + n <= A_END && n < ASIZE; }
  inline void chk(u64 a, u64 n, const char* what) { if (__builtin_expect(!ok(a, n), 0)) { char b[128]; snprintf(b, sizeof b, "invalid %s of %llu bytes at 0x%llx", what, (unsigned long long)n, (unsigned long long)a); path_fault("memfault", b); } }
  inline Expr** page(u64 a) { return sh[(a - ABASE) >> 12]; }
  inline bool dirty(u64 a, u64 n) { if (!n) return false; u64 p = (a - ABASE) >> 12, q = (a + n - 1 - ABASE) >> 12; for (; p <= q; p++) if (sh[p]) return true; return false; }
  Expr* get(u64 a) { Expr** p = page(a); return p ? p[a & 4095] : nullptr; }
  void set(u64 a, Expr* e) { Expr**& p = sh[(a - ABASE) >> 12]; if (!p) { if (!e) return; p = (Expr**)calloc(4096, 8); } p[a & 4095] = e; }
  void clear(u64 a, u64 n) { while (n) { u64 c = std::min<u64>(n, 4096 - (a & 4095)); Expr** p = page(a); if (p) memset(p + (a & 4095), 0, c * 8); a += c; n -= c; } }
  Val loadSlow(u64 a, unsigned w) {
    unsigned n = (w + 7) / 8; bool any = false; for (unsigned i = 0; i < n; i++) if (get(a + i)) { any = true; break; }
    if (!any) return loadC(a, w);
    Expr* r = nullptr; for (unsigned i = 0; i < n; i++) { Expr* b = get(a + i); if (!b) b = P->K(8, *(u8*)(a + i)); if (b->op == O_TAINT) return { 0, 0, P->T(w) }; r = r ? P->concat(b, r) : b; }
    if (n * 8 != w) r = P->extract(r, 0, w);
    if (r->op == O_CONST) return { (u64)r->v, (u64)(r->v >> 64), nullptr };
    return { 0, 0, r };
  }
  Val loadC(u64 a, unsigned w) { Val v{ 0, 0, nullptr }; unsigned n = (w + 7) / 8; if (n <= 8) { switch (n) { case 1: v.lo = *(u8*)a; break; case 2: v.lo = *(u16*)a; break; case 4: v.lo = *(u32*)a; break; case 8: v.lo = *(u64*)a; break; default: memcpy(&v.lo, (void*)a, n); } if (w < 64) v.lo &= (1ull << w) - 1; } else { memcpy(&v.lo, (void*)a, 8); memcpy(&v.hi, (void*)(a + 8), n - 8); if (w < 128) v.hi &= (1ull << (w - 64)) - 1; } return v; }
  inline Val load(u64 a, unsigned w) { unsigned n = (w + 7) / 8; chk(a, n, "read"); if (__builtin_expect(!page(a) && !page(a + n - 1), 1)) return loadC(a, w); return loadSlow(a, w); }
  inline void store(u64 a, unsigned w, const Val& v) {
    unsigned n = (w + 7) / 8; chk(a, n, "write");
    if (__builtin_expect(!v.e, 1)) {
      switch (n) { case 1: *(u8*)a = (u8)v.lo; break; case 2: *(u16*)a = (u16)v.lo; break; case 4: *(u32*)a = (u32)v.lo; break; case 8: *(u64*)a = v.lo; break; default: if (n < 8) memcpy((void*)a, &v.lo, n); else { memcpy((void*)a, &v.lo, 8); memcpy((void*)(a + 8), &v.hi, n - 8); } }
      if (__builtin_expect(page(a) || page(a + n - 1), 0)) clear(a, n); return;
    }
    Expr* e = v.e; if (e->w != w) engine_error("store width %d vs %d", e->w, w); if (n * 8 != w) e = P->zext(e, n * 8);
    for (unsigned i = 0; i < n; i++) { Expr* b = P->extract(e, i * 8, 8); if (b->op == O_CONST) { *(u8*)(a + i) = (u8)b->v; set(a + i, nullptr); } else { *(u8*)(a + i) = 0; set(a + i, b); } }
  }
  void move(u64 d, u64 s, u64 n) {
    if (!n) return; chk(d, n, "write"); chk(s, n, "read");
    bool ds = dirty(s, n); if (!ds) { memmove((void*)d, (void*)s, n); if (dirty(d, n)) clear(d, n); return; }
    vector<Expr*> t(n); for (u64 i = 0; i < n; i++) t[i] = get(s + i); memmove((void*)d, (void*)s, n); for (u64 i = 0; i < n; i++) set(d + i, t[i]);
  }
  void fill(u64 d, const Val& v, u64 n) { if (!n) return; chk(d, n, "write"); if (!v.e) { memset((void*)d, (int)v.lo, n); if (dirty(d, n)) clear(d, n); } else for (u64 i = 0; i < n; i++) { *(u8*)(d + i) = 0; set(d + i, v.e); } }
  u64 alloc(u64 size, u64 align) {
    if (align < 16) align = 16; u64 r = (size + 15) & ~15ull; if (!r) r = 16;
    if (align == 16) { auto it = freel.find(r); if (it != freel.end() && !it->second.empty()) { u64 a = it->second.back(); it->second.pop_back(); if (dirty(a, r)) clear(a, r); return a; } }
    heapTop = (heapTop + align - 1) & ~(align - 1); u64 a = heapTop; heapTop += r; if (heapTop > A_END) path_fault("oom", "heap exhausted"); return a;
  }
  void dealloc(u64 a, u64 size, u64 align) { if (align > 16) return; u64 r = (size + 15) & ~15ull; if (!r) r = 16; freel[r].push_back(a); }
  u64 globAlloc(u64 size, u64 align) { if (align < 1) align = 1; globTop = (globTop + align - 1) & ~(align - 1); u64 a = globTop; globTop += size ? size : 1; if (globTop > A_GLOB_END) engine_error("global region full"); return a; }
};

struct Machine {
  ExprPool P; Linker L; Mem mem; Solver* S; Stats* stats;
  std::unordered_map<string, u64> externGlobals;
  TypeTab& T() { return L.T; }

  // ---------- globals ----------
  u64 globalAddr(Module* m, string_view nm) {
    Module* om; Sym s; if (!L.find(m, nm, om, s)) { // extern: function unless known data
      string k = unquote(nm); auto it = externGlobals.find(k); if (it != externGlobals.end()) return it->second;
      if (k == "__rust_no_alloc_shim_is_unstable" || k == "environ" || k == "__rust_no_alloc_shim_is_unstable_v2" || k=="__rust_alloc_error_handler_should_panic") { u64 a = mem.globAlloc(16, 16); externGlobals[k] = a; return a; }
      return L.getFunc(m, nm)->addr; }
    if (s.kind == 'f') return L.getFunc(m, nm)->addr;
    string key(nm); auto it = om->gaddr.find(key); if (it != om->gaddr.end()) return it->second;
    Func* f = L.getFunc(m, nm); if (f) { om->gaddr[key] = f->addr; return f->addr; }
    Cur c{ s.p + 1, om->base + om->len }; c.name(); c.need('=');
    bool hasInit = true;
    for (;;) { c.ws(); if (c.word("constant") || c.word("global")) break; if (c.word("external") || c.word("extern_weak")) { hasInit = false; continue; } if (c.word("thread_local")) { if (c.at('(')) c.skipParens(); continue; } if (c.word("addrspace")) { c.skipParens(); continue; } if (c.ident().empty()) engine_error("parse global at %.80s", c.p); }
    Type* t = L.type(c, om); u64 al = std::max<u64>(t->align, 1);
    { // explicit alignment
      const char* nl = (const char*)memchr(c.p, '\n', c.e - c.p); const char* q = nl; while (q > c.p && !(q[0] == ',' && !strncmp(q, ", align ", 8))) { if (*q == '"' || *q == '}') break; q--; } if (q > c.p && !strncmp(q, ", align ", 8)) al = strtoull(q + 8, 0, 10); }
    u64 a = mem.globAlloc(t->size, al); om->gaddr[key] = a;
    if (hasInit) initMem(c, om, t, a);
    return a;
  }
  void initMem(Cur& c, Module* m, Type* t, u64 a) {
    c.ws(); if (c.word("zeroinitializer") || c.word("undef") || c.word("poison") || c.word("null")) return;
    if (t->k == Type::Array && *c.p == 'c' && c.p[1] == '"') { c.p += 2; u64 i = 0; while (*c.p != '"') { u8 ch; if (*c.p == '\\') { if (c.p[1] == '\\') { ch = '\\'; c.p += 2; } else { char h[3] = { c.p[1], c.p[2], 0 }; ch = (u8)strtol(h, 0, 16); c.p += 3; } } else ch = *c.p++; *(u8*)(a + i++) = ch; } c.p++; return; }
    if (t->k == Type::Array && *c.p == '[') { c.p++; for (u64 i = 0; i < t->n; i++) { if (i) c.need(','); Type* et = L.type(c, m); initMem(c, m, et, a + i * et->size); } c.need(']'); return; }
    if (t->k == Type::Struct && (*c.p == '{' || *c.p == '<')) { bool pk = *c.p == '<'; c.p++; if (pk) c.need('{'); for (size_t i = 0; i < t->el.size(); i++) { if (i) c.need(','); Type* et = L.type(c, m); initMem(c, m, et, a + t->off[i]); } c.need('}'); if (pk) c.need('>'); return; }
    vector<Val> v; constant(c, m, t, v); auto& lv = t->leafv(); for (size_t i = 0; i < lv.size(); i++) mem.store(a + lv[i].off, lv[i].w, v[i]);
  }
  static u128 parseInt(Cur& c) { bool neg = false; if (*c.p == '-') { neg = true; c.p++; } u128 v = 0; if (!isdigit(*c.p)) engine_error("parse int at %.40s", c.p); while (isdigit(*c.p)) v = v * 10 + (*c.p++ - '0'); return neg ? (u128)0 - v : v; }
  void zeros(Type* t, vector<Val>& out) { for (u32 i = 0; i < t->leaves; i++) out.push_back({ 0, 0, nullptr }); }
  void constant(Cur& c, Module* m, Type* t, vector<Val>& out) {
    c.ws();
    if (c.word("zeroinitializer") || c.word("undef") || c.word("poison") || c.word("null") || c.word("none")) { zeros(t, out); return; }
    if (c.word("splat")) { c.need('('); Type* et = L.type(c, m); vector<Val> v; constant(c, m, et, v); c.need(')'); for (u64 i = 0; i < t->n; i++) out.push_back(v[0]); return; }
    if (t->k == Type::Array || t->k == Type::Vector) {
      if (*c.p == 'c' && c.p[1] == '"') { c.p += 2; while (*c.p != '"') { u8 ch; if (*c.p == '\\') { if (c.p[1] == '\\') { ch = '\\'; c.p += 2; } else { char h[3] = { c.p[1], c.p[2], 0 }; ch = (u8)strtol(h, 0, 16); c.p += 3; } } else ch = *c.p++; out.push_back({ ch, 0, nullptr }); } c.p++; return; }
      char cl = t->k == Type::Array ? ']' : '>'; c.p++; for (u64 i = 0; i < t->n; i++) { if (i) c.need(','); Type* et = L.type(c, m); constant(c, m, et, out); } c.need(cl); return; }
    if (t->k == Type::Struct) { bool pk = *c.p == '<'; c.p++; if (pk) c.need('{'); for (size_t i = 0; i < t->el.size(); i++) { if (i) c.need(','); Type* et = L.type(c, m); constant(c, m, et, out); } c.need('}'); if (pk) c.need('>'); return; }
    if (*c.p == '@') { c.p++; string_view n = c.name(); out.push_back({ globalAddr(m, n), 0, nullptr }); return; }
    if (t->k == Type::Int && (isdigit(*c.p) || *c.p == '-')) { u128 v = parseInt(c) & maskw(t->w); out.push_back({ (u64)v, (u64)(v >> 64), nullptr }); return; }
    if (c.word("true")) { out.push_back({ 1, 0, nullptr }); return; } if (c.word("false")) { out.push_back({ 0, 0, nullptr }); return; }
    if (t->k == Type::Flt) {
      if (c.p[0] == '0' && c.p[1] == 'x') { c.p += 2; if (*c.p == 'H') { c.p++; u64 v = strtoull(c.p, (char**)&c.p, 16); out.push_back({ v, 0, nullptr }); return; } if (*c.p == 'L' || *c.p == 'K') { c.p++; while (isxdigit(*c.p)) c.p++; out.push_back({ 0, 0, nullptr }); return; }
        u64 v = 0; while (isxdigit(*c.p)) { v = v * 16 + (isdigit(*c.p) ? *c.p - '0' : (*c.p | 32) - 'a' + 10); c.p++; } if (t->w == 32) { double d; memcpy(&d, &v, 8); float f = (float)d; u32 x; memcpy(&x, &f, 4); out.push_back({ x, 0, nullptr }); } else out.push_back({ v, 0, nullptr }); return; }
      char* e; double d = strtod(c.p, &e); c.p = e; if (t->w == 32) { float f = (float)d; u32 x; memcpy(&x, &f, 4); out.push_back({ x, 0, nullptr }); } else { u64 x; memcpy(&x, &d, 8); out.push_back({ x, 0, nullptr }); } return; }
    if (c.word("getelementptr")) { for (;;) { if (c.word("inbounds") || c.word("nuw") || c.word("nusw")) continue; if (c.word("inrange")) { c.skipParens(); continue; } break; }
      c.need('('); Type* bt = L.type(c, m); c.need(','); Type* pt = L.type(c, m); vector<Val> b; constant(c, m, pt, b); u64 a = b[0].lo; bool first = true; Type* cur = bt;
      while (c.acc(',')) { c.word("inrange"); Type* it = L.type(c, m); vector<Val> iv; constant(c, m, it, iv); i64 ix = (i64)sextw(iv[0].lo, it->w > 64 ? 64 : it->w); if (first) { a += ix * (i64)bt->size; first = false; } else if (cur->k == Type::Struct) { a += cur->off[ix]; cur = cur->el[ix]; } else { cur = cur->el[0]; a += ix * (i64)cur->size; } }
      c.need(')'); out.push_back({ a, 0, nullptr }); return; }
    for (const char* op : { "ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "addrspacecast" }) if (c.word(op)) { while (c.word("nuw") || c.word("nsw")) ; c.need('('); Type* st = L.type(c, m); vector<Val> v; constant(c, m, st, v); if (!c.word("to")) engine_error("constexpr"); Type* dt = L.type(c, m); c.need(')'); if (dt->w && dt->w < 64) v[0].lo &= (1ull << dt->w) - 1; out.push_back(v[0]); return; }
    for (const char* op : { "sub", "add", "xor", "and", "mul" }) if (c.word(op)) { while (c.word("nuw") || c.word("nsw")) ; c.need('('); Type* st = L.type(c, m); vector<Val> x, y; constant(c, m, st, x); c.need(','); L.type(c, m); constant(c, m, st, y); c.need(')'); u64 r = 0; u64 a = x[0].lo, b = y[0].lo; switch (*op) { case 's': r = a - b; break; case 'a': r = op[1] == 'd' ? a + b : a & b; break; case 'x': r = a ^ b; break; case 'm': r = a * b; } if (st->w < 64) r &= (1ull << st->w) - 1; out.push_back({ r, 0, nullptr }); return; }
    engine_error("parse constant at: %.80s", c.p);
  }

  // ---------- function bodies ----------
  struct FP {
    Func* f; Module* m; std::unordered_map<string_view, i32> slot; std::unordered_map<string_view, int> blk; vector<int> blkpc; vector<std::pair<Edge*, int>> edges; int cur = 0;
    struct Phi { int blk; i32 dst; u32 n; vector<std::pair<i32, int>> in; }; vector<Phi> phis; std::unordered_map<string_view, u32> slotn;
  };
  i32 slotOf(FP& p, string_view nm, Type* t) { auto it = p.slot.find(nm); if (it != p.slot.end()) return it->second; i32 s = p.f->nslots; p.f->nslots += t->leaves ? t->leaves : 1; p.slot[nm] = s; return s; }
  int blkOf(FP& p, string_view nm) { auto it = p.blk.find(nm); if (it != p.blk.end()) return it->second; int b = p.blkpc.size(); p.blkpc.push_back(-1); p.blk[nm] = b; return b; }
  i32 operand(Cur& c, FP& p, Type* t) {
    c.ws(); if (*c.p == '%') { c.p++; return slotOf(p, c.name(), t); }
    vector<Val> v; constant(c, p.m, t, v); i32 base = p.f->K.size(); if (v.empty()) v.push_back({ 0, 0, nullptr }); // element k lives at K[base+k]; operand encoding ~base, element k -> ~base - k
    for (auto& x : v) p.f->K.push_back(x); return ~base;
  }
  void skipAttrs(Cur& c) { // parameter / return attributes
    for (;;) { c.ws(); char ch = *c.p; if (ch == '"') { c.p++; while (*c.p != '"') c.p++; c.p++; if (c.acc('=')) { c.ws(); c.p++; while (*c.p != '"') c.p++; c.p++; } continue; }
      if (!isalpha(ch)) return; static const char* consts[] = { "true", "false", "null", "undef", "poison", "zeroinitializer", "none", "getelementptr", "ptrtoint", "inttoptr", "bitcast", "trunc", "zext", "sub", "add", "xor", "splat", "c\"", "asm", "metadata", "select", "and", "mul" };
      bool isc = false; for (const char* k : consts) if (c.peekWord(k) || (k[0] == 'c' && k[1] == '"' && c.p[0] == 'c' && c.p[1] == '"')) { isc = true; break; } if (isc) return;
      // a type? (i32, ptr, float, ...): callers only use this where a type cannot follow
      string_view id = c.ident(); if (id == "align") { c.ws(); if (isdigit(*c.p)) { while (isdigit(*c.p)) c.p++; continue; } } if (id == "dereferenceable" || *c.p == '(') { c.ws(); if (*c.p == '(') c.skipParens(); } }
  }
  void skipRetAttrs(Cur& c) { // attributes before a return type: stop at type tokens
    for (;;) { c.ws(); char ch = *c.p; if (ch == '"') { c.p++; while (*c.p != '"') c.p++; c.p++; if (c.acc('=')) { c.ws(); c.p++; while (*c.p != '"') c.p++; c.p++; } continue; }
      if (!isalpha(ch)) return; if (ch == 'i' && isdigit(c.p[1])) return; for (const char* k : { "ptr", "void", "float", "double", "half", "fp128", "x86_fp80", "label", "metadata", "token" }) if (c.peekWord(k)) return;
      string_view id = c.ident(); if (id == "align") { c.ws(); while (isdigit(*c.p)) c.p++; continue; } if (id == "cc") { while (isdigit(*c.p)) c.p++; continue; } if (*c.p == '(') c.skipParens(); c.ws(); while (isdigit(*c.p)) c.p++; }
  }
  Edge* mkEdge(FP& p, Edge* e, int b) { e->target = b; p.edges.push_back({ e, p.cur }); return e; }
  void unsup(FP& p, const string& what) { Inst i; memset(&i, 0, sizeof i); i.op = I_UNSUP; i.p = new string(what); p.f->code.push_back(i); }

  void parseFunc(Func* f) {
    if (f->parsed) return; f->parsed = true; Module* m = f->m; FP p; p.f = f; p.m = m;
    Cur c{ f->text, m->base + m->len }; const char* q = c.p; while (*q != '@') { if (*q == '"') { q++; while (*q != '"') q++; } q++; }
    c.p = q + 1; c.name(); c.need('('); int unnamed = 0; vector<string>* names = new vector<string>; // keep numbering strings alive
    names->reserve(4096);
    while (!c.at(')')) { if (c.word("...")) break; c.ws(); if (c.p[0] == '.' && c.p[1] == '.') { c.p += 3; break; } Type* t = L.type(c, m); skipAttrs(c); c.ws(); string_view nm; if (*c.p == '%') { c.p++; nm = c.name(); if (isdigit(nm[0])) unnamed++; } else { names->push_back(std::to_string(unnamed++)); nm = names->back(); } i32 s = slotOf(p, nm, t); (void)s; f->paramN.push_back(t->leaves); f->nparamSlots += t->leaves; if (!t->leaves) { } if (!c.acc(',')) break; }
    // note: zero-leaf params still own one slot; recompute contiguous placement
    const char* nl = (const char*)memchr(c.p, '\n', c.e - c.p); c.p = nl + 1;
    names->push_back(std::to_string(unnamed)); string_view entryName = names->back(); bool first = true; p.cur = -1;
    for (;;) {
      const char* ls = c.p; const char* le = (const char*)memchr(ls, '\n', c.e - ls); if (!le) le = c.e;
      if (ls[0] == '}') break; if (ls == le) { c.p = le + 1; continue; }
      if (ls[0] == ';') { c.p = le + 1; continue; }
      if (ls[0] != ' ') { // label
        Cur d{ ls, le }; string_view nm = d.name(); p.cur = blkOf(p, nm); p.blkpc[p.cur] = f->code.size(); first = false; c.p = le + 1; continue; }
      if (first) { p.cur = blkOf(p, entryName); p.blkpc[p.cur] = 0; first = false; }
      c.p = ls; Cur d{ ls, m->base + m->len }; inst(d, p, f); // multi-line instructions (switch, landingpad) advance past le
      const char* e2 = (const char*)memchr(d.p, '\n', m->base + m->len - d.p); c.p = e2 + 1;
    }
    for (auto& ep : p.edges) { Edge* e = ep.first; int tb = e->target; for (auto& ph : p.phis) if (ph.blk == tb) { bool found = false; for (auto& in : ph.in) if (in.second == ep.second) { e->copies.push_back({ ph.dst, in.first, (i32)ph.n }); found = true; break; } if (!found) { string bn, pn; for (auto& kv : p.blk) { if (kv.second == tb) bn = string(kv.first); if (kv.second == ep.second) pn = string(kv.first); } engine_error("phi without edge in %s: block %s pred %s", f->dem.c_str(), bn.c_str(), pn.c_str()); } } if (p.blkpc[tb] < 0) engine_error("undefined block in %s", f->dem.c_str()); e->target = p.blkpc[tb]; }
  }
  static int predOf(string_view s) { static const char* n[] = { "eq", "ne", "ugt", "uge", "ult", "ule", "sgt", "sge", "slt", "sle" }; for (int i = 0; i < 10; i++) if (s == n[i]) return i; engine_error("pred %.*s", (int)s.size(), s.data()); }
  void inst(Cur& c, FP& p, Func* f) {
    Module* m = p.m; c.ws(); string_view dn; bool hasDst = false;
    if (*c.p == '#') return; // debug records
    if (*c.p == '%') { c.p++; dn = c.name(); c.need('='); hasDst = true; }
    c.ws(); string_view op = c.ident(); Inst I; memset(&I, 0, sizeof I); I.dst = -1;
    auto dst = [&](Type* t) { if (hasDst) I.dst = slotOf(p, dn, t); };
    auto emit = [&] { f->code.push_back(I); };
    static const std::unordered_map<string_view, int> bins = { { "add", O_ADD }, { "sub", O_SUB }, { "mul", O_MUL }, { "udiv", O_UDIV }, { "sdiv", O_SDIV }, { "urem", O_UREM }, { "srem", O_SREM }, { "and", O_AND }, { "or", O_OR }, { "xor", O_XOR }, { "shl", O_SHL }, { "lshr", O_LSHR }, { "ashr", O_ASHR } };
    auto bi = bins.find(op);
    if (bi != bins.end()) { while (c.word("nuw") || c.word("nsw") || c.word("exact") || c.word("disjoint")) ; Type* t = L.type(c, m); I.a = operand(c, p, t); c.need(','); I.b = operand(c, p, t); dst(t); I.sub = bi->second; if (t->k == Type::Vector) { I.op = I_VBIN; I.n = t->n; I.w = t->el[0]->w; } else { I.op = I_BIN; I.w = t->w; } if (I.w > 128) { unsup(p, "wide int"); return; } emit(); return; }
    if (op == "load") { bool at = c.word("atomic"); (void)at; c.word("volatile"); Type* t = L.type(c, m); c.need(','); Type* pt = L.type(c, m); I.a = operand(c, p, pt); dst(t); if (t->scalar()) { I.op = I_LOAD; I.w = t->w; if (t->w > 128) { unsup(p, "wide load"); return; } } else { I.op = I_LOADA; I.p = t; I.n = t->leaves; if (t->k == Type::Vector && t->el[0]->w % 8) { unsup(p, "bitvec load"); return; } } emit(); return; }
    if (op == "store") { c.word("atomic"); c.word("volatile"); Type* t = L.type(c, m); I.a = operand(c, p, t); c.need(','); Type* pt = L.type(c, m); I.b = operand(c, p, pt); if (t->scalar()) { I.op = I_STORE; I.w = t->w; if (t->w > 128) { unsup(p, "wide store"); return; } } else { I.op = I_STOREA; I.p = t; if (t->k == Type::Vector && t->el[0]->w % 8) { unsup(p, "bitvec store"); return; } } emit(); return; }
    if (op == "getelementptr") { while (c.word("inbounds") || c.word("nuw") || c.word("nusw")) ; Type* bt = L.type(c, m); c.need(','); Type* pt = L.type(c, m); if (pt->k == Type::Vector) { unsup(p, "vector gep"); return; } I.op = I_GEP; I.a = operand(c, p, pt); GepInfo* g = new GepInfo; g->off = 0; bool first = true; Type* cur = bt;
      while (c.acc(',')) { c.ws(); if (*c.p == '!') break; Type* it = L.type(c, m); if (it->k == Type::Vector) { unsup(p, "vector gep"); return; } i32 o = operand(c, p, it); i64 scale; bool st = false; if (first) { scale = bt->size; first = false; } else if (cur->k == Type::Struct) { st = true; i64 ix = f->K[~o].lo; g->off += cur->off[ix]; cur = cur->el[ix]; scale = 0; } else { cur = cur->el[0]; scale = cur->size; } if (st) continue; if (o < 0) { Val& v = f->K[~o]; g->off += (i64)sextw(v.lo, it->w > 64 ? 64 : it->w) * scale; } else if (scale) g->t.push_back({ o, scale, (u16)it->w }); }
      I.p = g; dst(L.T.tptr); emit(); return; }
    if (op == "icmp") { c.word("samesign"); c.ws(); I.sub = predOf(c.ident()); Type* t = L.type(c, m); I.a = operand(c, p, t); c.need(','); I.b = operand(c, p, t); if (t->k == Type::Vector) { I.op = I_VICMP; I.n = t->n; I.w = t->el[0]->w; dst(L.T.Vec(t->n, L.T.Int(1))); } else { I.op = I_ICMP; I.w = t->w; dst(L.T.Int(1)); } if (I.w > 128) { unsup(p, "wide icmp"); return; } emit(); return; }
    if (op == "br") { c.ws(); if (c.word("label")) { c.need('%'); int b = blkOf(p, c.name()); I.op = I_BR; I.p = mkEdge(p, new Edge, b); emit(); return; } Type* t = L.type(c, m); I.a = operand(c, p, t); c.need(','); c.word("label"); c.need('%'); int b1 = blkOf(p, c.name()); c.need(','); c.word("label"); c.need('%'); int b2 = blkOf(p, c.name()); Edge* e = new Edge[2]; mkEdge(p, &e[0], b1); mkEdge(p, &e[1], b2); I.op = I_CBR; I.p = e; emit(); return; }
    if (op == "switch") { Type* t = L.type(c, m); I.a = operand(c, p, t); c.need(','); c.word("label"); c.need('%'); SwitchInfo* s = new SwitchInfo; s->w = t->w; vector<int> bs; bs.push_back(blkOf(p, c.name())); c.need('['); c.nl = true; while (!c.at(']')) { Type* it = L.type(c, m); c.ws(); u128 v = it->w == 1 ? (c.word("true") ? 1 : (c.word("false"), 0)) : (parseInt(c) & maskw(it->w)); c.need(','); c.word("label"); c.need('%'); s->keys.push_back((u64)v); s->map[(u64)v] = bs.size(); bs.push_back(blkOf(p, c.name())); } c.need(']'); c.nl = false; s->edges.resize(bs.size()); for (size_t i = 0; i < bs.size(); i++) mkEdge(p, &s->edges[i], bs[i]); I.op = I_SWITCH; I.p = s; I.w = t->w; emit(); return; }
    if (op == "phi") { Type* t = L.type(c, m); FP::Phi ph; ph.blk = p.cur; ph.n = t->leaves; ph.dst = slotOf(p, dn, t); do { c.ws(); if (*c.p != '[') break; c.need('['); i32 o = operand(c, p, t); c.need(','); c.need('%'); int b = blkOf(p, c.name()); c.need(']'); ph.in.push_back({ o, b }); } while (c.acc(',')); p.phis.push_back(ph); return; }
    if (op == "ret") { Type* t = L.type(c, m); I.op = I_RET; I.n = 0; if (t->k != Type::Void) { I.a = operand(c, p, t); I.n = t->leaves; } emit(); return; }
    if (op == "unreachable") { I.op = I_UNREACH; emit(); return; }
    if (op == "select") { while (isalpha(*(c.ws(), c.p)) && !(c.p[0] == 'i' && isdigit(c.p[1]))) c.ident(); Type* ct = L.type(c, m); I.a = operand(c, p, ct); c.need(','); Type* t = L.type(c, m); I.b = operand(c, p, t); c.need(','); L.type(c, m); I.c = operand(c, p, t); dst(t); I.n = t->leaves; if (ct->k == Type::Vector) { I.op = I_VSELECT; I.w = t->el[0]->w; } else { I.op = I_SELECT; I.p = t; I.sub = t->k == Type::Ptr; I.w = t->scalar() ? t->w : 0; } emit(); return; }
    if (op == "extractvalue") { Type* t = L.type(c, m); i32 b = operand(c, p, t); u32 off = 0; Type* cur = t; while (c.acc(',')) { c.ws(); if (*c.p == '!') break; u64 ix = (u64)parseInt(c); if (cur->k == Type::Struct) { for (u64 i = 0; i < ix; i++) off += cur->el[i]->leaves; cur = cur->el[ix]; } else { cur = cur->el[0]; off += ix * cur->leaves; } } I.op = I_COPY; I.a = b >= 0 ? b + (i32)off : b - (i32)off; I.n = cur->leaves; dst(cur); emit(); return; }
    if (op == "insertvalue") { Type* t = L.type(c, m); i32 b = operand(c, p, t); c.need(','); Type* vt = L.type(c, m); i32 v = operand(c, p, vt); u32 off = 0; Type* cur = t; while (c.acc(',')) { c.ws(); if (*c.p == '!') break; u64 ix = (u64)parseInt(c); if (cur->k == Type::Struct) { for (u64 i = 0; i < ix; i++) off += cur->el[i]->leaves; cur = cur->el[ix]; } else { cur = cur->el[0]; off += ix * cur->leaves; } } dst(t); I.op = I_INSV; I.a = b; I.b = v; I.n = t->leaves; I.sw = off; I.w = vt->leaves; emit(); return; }
    if (op == "trunc" || op == "zext" || op == "sext") { while (c.word("nuw") || c.word("nsw") || c.word("nneg")) ; Type* t = L.type(c, m); I.a = operand(c, p, t); c.word("to"); Type* d = L.type(c, m); dst(d); I.op = op == "trunc" ? I_TRUNC : op == "zext" ? I_ZEXT : I_SEXT; I.n = t->k == Type::Vector ? t->n : 1; I.sw = t->k == Type::Vector ? t->el[0]->w : t->w; I.w = d->k == Type::Vector ? d->el[0]->w : d->w; if (I.w > 128 || I.sw > 128) { unsup(p, "wide cast"); return; } emit(); return; }
    if (op == "ptrtoint" || op == "inttoptr") { Type* t = L.type(c, m); I.a = operand(c, p, t); c.word("to"); Type* d = L.type(c, m); dst(d); if (t->k == Type::Vector) { I.op = I_COPY; I.n = t->n; emit(); return; } I.sw = t->w; I.w = d->w; I.n = 1; I.op = I.sw == I.w ? I_COPY : I.sw > I.w ? I_TRUNC : I_ZEXT; emit(); return; }
    if (op == "freeze") { Type* t = L.type(c, m); I.a = operand(c, p, t); dst(t); I.op = I_COPY; I.n = t->leaves; emit(); return; }
    if (op == "bitcast") { Type* t = L.type(c, m); I.a = operand(c, p, t); c.word("to"); Type* d = L.type(c, m); dst(d); u32 sn = t->k == Type::Vector ? t->n : 1, sw = t->k == Type::Vector ? t->el[0]->w : t->w, dn2 = d->k == Type::Vector ? d->n : 1, dw = d->k == Type::Vector ? d->el[0]->w : d->w; if (sw == dw) { I.op = I_COPY; I.n = sn; } else { if (sw > 128 || dw > 128) { unsup(p, "wide bitcast"); return; } I.op = I_BITCAST; I.p = new BitcastInfo{ sn, sw, dn2, dw }; } emit(); return; }
    if (op == "alloca") { Type* t = L.type(c, m); I.a = INT32_MAX; I.sw = t->align; I.p = t; while (c.acc(',')) { c.ws(); if (c.word("align")) { c.ws(); I.sw = (u32)parseInt(c); } else if (*c.p == '!') break; else { Type* nt = L.type(c, m); I.a = operand(c, p, nt); } } dst(L.T.tptr); I.op = I_ALLOCA; emit(); return; }
    if (op == "fence") { return; }
    static const std::unordered_map<string_view, int> fb = { { "fadd", F_ADD }, { "fsub", F_SUB }, { "fmul", F_MUL }, { "fdiv", F_DIV }, { "frem", F_REM } };
    auto fi = fb.find(op);
    auto fmf = [&] { for (;;) { c.ws(); bool any = false; for (const char* k : { "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc" }) if (c.word(k)) any = true; if (!any) break; } };
    if (fi != fb.end()) { fmf(); Type* t = L.type(c, m); I.a = operand(c, p, t); c.need(','); I.b = operand(c, p, t); dst(t); I.op = I_FBIN; I.sub = fi->second; I.n = t->leaves; I.w = t->k == Type::Vector ? t->el[0]->w : t->w; emit(); return; }
    if (op == "fneg") { fmf(); Type* t = L.type(c, m); I.a = operand(c, p, t); dst(t); I.op = I_FNEG; I.n = t->leaves; I.w = t->k == Type::Vector ? t->el[0]->w : t->w; emit(); return; }
    if (op == "fcmp") { fmf(); c.ws(); string_view pr = c.ident(); static const char* n[] = { "false", "oeq", "ogt", "oge", "olt", "ole", "one", "ord", "ueq", "ugt", "uge", "ult", "ule", "une", "uno", "true" }; for (int i = 0; i < 16; i++) if (pr == n[i]) I.sub = i; Type* t = L.type(c, m); I.a = operand(c, p, t); c.need(','); I.b = operand(c, p, t); I.op = I_FCMP; I.n = t->leaves; I.w = t->k == Type::Vector ? t->el[0]->w : t->w; dst(t->k == Type::Vector ? L.T.Vec(t->n, L.T.Int(1)) : L.T.Int(1)); emit(); return; }
    static const std::unordered_map<string_view, int> fc = { { "fptoui", FC_FPTOUI }, { "fptosi", FC_FPTOSI }, { "uitofp", FC_UITOFP }, { "sitofp", FC_SITOFP }, { "fptrunc", FC_TRUNC }, { "fpext", FC_EXT } };
    auto ci = fc.find(op);
    if (ci != fc.end()) { while (c.word("nneg")) ; fmf(); Type* t = L.type(c, m); I.a = operand(c, p, t); c.word("to"); Type* d = L.type(c, m); dst(d); I.op = I_FCAST; I.sub = ci->second; I.n = t->leaves; I.sw = t->k == Type::Vector ? t->el[0]->w : t->w; I.w = d->k == Type::Vector ? d->el[0]->w : d->w; emit(); return; }
    if (op == "atomicrmw") { c.word("volatile"); c.ws(); string_view o = c.ident(); static const char* n[] = { "xchg", "add", "sub", "and", "nand", "or", "xor", "max", "min", "umax", "umin" }; I.sub = 255; for (int i = 0; i < 11; i++) if (o == n[i]) I.sub = i; Type* pt = L.type(c, m); I.a = operand(c, p, pt); c.need(','); Type* t = L.type(c, m); I.b = operand(c, p, t); I.w = t->w; dst(t); if (!hasDst) { I.dst = slotOf(p, "$$tmp", t); } I.op = I_ARMW; emit(); return; }
    if (op == "cmpxchg") { c.word("weak"); c.word("volatile"); Type* pt = L.type(c, m); I.a = operand(c, p, pt); c.need(','); Type* t = L.type(c, m); I.b = operand(c, p, t); c.need(','); L.type(c, m); I.c = operand(c, p, t); I.w = t->w; dst(L.T.Str({ t, L.T.Int(1) }, false)); if (!hasDst) I.dst = slotOf(p, "$$tmp2", L.T.Str({ t, L.T.Int(1) }, false)); I.op = I_CMPXCHG; emit(); return; }
    if (op == "extractelement") { Type* t = L.type(c, m); I.a = operand(c, p, t); c.need(','); Type* it = L.type(c, m); I.b = operand(c, p, it); dst(t->el[0]); I.op = I_EXTE; I.n = t->n; emit(); return; }
    if (op == "insertelement") { Type* t = L.type(c, m); I.a = operand(c, p, t); c.need(','); Type* et = L.type(c, m); I.b = operand(c, p, et); c.need(','); Type* it = L.type(c, m); I.c = operand(c, p, it); dst(t); I.op = I_INSE; I.n = t->n; emit(); return; }
    if (op == "shufflevector") { Type* t = L.type(c, m); I.a = operand(c, p, t); c.need(','); L.type(c, m); I.b = operand(c, p, t); c.need(','); Type* mt = L.type(c, m); vector<Val> mv; constant(c, m, mt, mv); dst(L.T.Vec(mt->n, t->el[0])); I.op = I_SHUF; I.n = mt->n; I.sw = t->n; vector<u32>* v = new vector<u32>; for (auto& x : mv) v->push_back((u32)x.lo); I.p = v; emit(); return; }
    if (op == "landingpad") { Type* t = L.type(c, m); dst(t); I.op = I_UNSUP; I.p = new string("landingpad"); emit(); // swallow continuation lines
      for (;;) { const char* nl = (const char*)memchr(c.p, '\n', c.e - c.p); const char* q = nl + 1; while (*q == ' ') q++; if (!strncmp(q, "cleanup", 7) || !strncmp(q, "catch", 5) || !strncmp(q, "filter", 6)) { c.p = q; continue; } break; } return; }
    if (op == "resume") { unsup(p, "resume"); return; }
    if (op == "tail" || op == "musttail" || op == "notail") { c.ws(); c.word("call"); op = "call"; }
    if (op == "call" || op == "invoke") { parseCall(c, p, f, I, hasDst, dn, op == "invoke"); return; }
    engine_error("unknown instruction %.*s in %s", (int)op.size(), op.data(), f->dem.c_str());
  }
  void parseCall(Cur& c, FP& p, Func* f, Inst I, bool hasDst, string_view dn, bool invoke);
};
