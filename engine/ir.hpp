// Lazy parser for textual LLVM IR (as emitted by rustc / llvm-dis) into a compact executable form.
#pragma once
#include "expr.hpp"
#include <string_view>
#include <map>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <thread>
#include <atomic>
using std::string; using std::string_view; using std::vector;

struct Val { u64 lo, hi; Expr* e; };
struct Leaf { u64 off; u16 w; };
struct Type {
  enum K : u8 { Void, Int, Ptr, Flt, Label, Meta, Array, Vector, Struct, Func, Opaque } k; u32 w = 0; u64 n = 0; vector<Type*> el; bool packed = false;
  u64 size = 0, align = 1; vector<u64> off; u32 leaves = 0; vector<Leaf> lv; bool lvDone = false; bool vararg = false;
  const vector<Leaf>& leafv() { if (!lvDone) { lvDone = true; gather(this, 0, lv); } return lv; }
  static void gather(Type* t, u64 o, vector<Leaf>& out) {
    switch (t->k) { case Int: case Ptr: case Flt: out.push_back({ o, (u16)t->w }); break; case Array: for (u64 i = 0; i < t->n; i++) gather(t->el[0], o + i * t->el[0]->size, out); break;
      case Vector: for (u64 i = 0; i < t->n; i++) out.push_back({ o + i * (t->el[0]->w / 8), (u16)t->el[0]->w }); break;
      case Struct: for (size_t i = 0; i < t->el.size(); i++) gather(t->el[i], o + t->off[i], out); break; default: break; } }
  bool scalar() const { return k == Int || k == Ptr || k == Flt; }
};
struct TypeTab {
  std::unordered_map<string, Type*> tab; Type *tvoid, *tptr, *tlabel, *tmeta;
  TypeTab() { tvoid = mk("void", Type::Void); tptr = mk("ptr", Type::Ptr); tptr->w = 64; tptr->size = 8; tptr->align = 8; tptr->leaves = 1; tlabel = mk("label", Type::Label); tmeta = mk("metadata", Type::Meta); }
  Type* mk(const string& k, Type::K kind) { Type*& t = tab[k]; if (!t) { t = new Type; t->k = kind; } return t; }
  Type* Int(unsigned w) { string k = "i" + std::to_string(w); auto it = tab.find(k); if (it != tab.end()) return it->second; Type* t = mk(k, Type::Int); t->w = w; unsigned b = (w + 7) / 8; u64 al = 1; while (al < b && al < 16) al *= 2; t->align = al; t->size = (b + al - 1) / al * al; t->leaves = 1; return t; }
  Type* Flt(const string& nm, unsigned w) { Type* t = mk(nm, Type::Flt); t->w = w; t->size = w == 80 ? 16 : w / 8; t->align = t->size; t->leaves = 1; return t; }
  static string key(Type* t) { char b[32]; snprintf(b, sizeof b, "%p", (void*)t); return b; }
  Type* Arr(u64 n, Type* e) { string k = "[" + std::to_string(n) + "x" + key(e); auto it = tab.find(k); if (it != tab.end()) return it->second; Type* t = mk(k, Type::Array); t->n = n; t->el = { e }; t->size = n * e->size; t->align = e->align; t->leaves = n * e->leaves; return t; }
  Type* Vec(u64 n, Type* e) { string k = "<" + std::to_string(n) + "x" + key(e); auto it = tab.find(k); if (it != tab.end()) return it->second; Type* t = mk(k, Type::Vector); t->n = n; t->el = { e }; u64 s = (n * e->w + 7) / 8; u64 al = 1; while (al < s) al *= 2; t->size = (s + al - 1) / al * al; t->align = al; t->leaves = n; return t; }
  Type* Str(const vector<Type*>& el, bool packed) { string k = packed ? "<{" : "{"; for (Type* e : el) k += key(e) + ","; auto it = tab.find(k); if (it != tab.end()) return it->second; Type* t = mk(k, Type::Struct); t->el = el; t->packed = packed; u64 o = 0, al = 1; u32 l = 0; for (Type* e : el) { if (!packed) { o = (o + e->align - 1) / e->align * e->align; al = std::max(al, e->align); } t->off.push_back(o); o += e->size; l += e->leaves; } t->size = (o + al - 1) / al * al; t->align = al; t->leaves = l; return t; }
};

enum IOp : u8 { I_UNSUP, I_BIN, I_VBIN, I_ICMP, I_VICMP, I_LOAD, I_LOADA, I_STORE, I_STOREA, I_GEP, I_SELECT, I_VSELECT, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_EXTV, I_INSV, I_TRUNC, I_ZEXT, I_SEXT, I_BITCAST, I_COPY, I_FBIN, I_FCMP, I_FNEG, I_FCAST, I_ARMW, I_CMPXCHG, I_NOP, I_ALLOCA, I_UNREACH, I_EXTE, I_INSE, I_SHUF, I_FRECMP };
enum FBin : u8 { F_ADD, F_SUB, F_MUL, F_DIV, F_REM };
enum FCast : u8 { FC_FPTOUI, FC_FPTOSI, FC_UITOFP, FC_SITOFP, FC_TRUNC, FC_EXT };
enum Pred : u8 { P_EQ, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE };
struct Inst { u8 op, sub; u16 w; u32 n; u32 sw; i32 dst, a, b, c; void* p; };
struct Edge { i32 target; vector<std::array<i32, 3>> copies; int maxn = 0; };
struct GepInfo { i64 off; struct T { i32 op; i64 scale; u16 w; }; vector<T> t; };
struct SwitchInfo { u16 w; std::unordered_map<u64, int> map; vector<u64> keys; vector<Edge> edges; };
struct Func;
struct CallInfo { i32 callee; Func* direct = nullptr; string name; vector<i32> args; vector<u32> argn; vector<u16> argw; u32 retn; u16 retw; Type* retT = nullptr; vector<Type*> argT; int intr = -1; Edge normal; bool invoke = false; bool isAsm = false; Edge unwind; };
struct BitcastInfo { u32 sn, sw, dn, dw; };
struct Module;
struct Func {
  Module* m = nullptr; string name, dem; const char* text = nullptr; u64 addr = 0; bool parsed = false; int ovr = -2; void* ext = nullptr; // override
  u32 nslots = 0; vector<Inst> code; vector<Val> K; vector<u32> params; vector<u32> paramN; u64 calls = 0; bool noted = false; u32 nparamSlots = 0;
};
struct Sym { const char* p; u32 len; bool internal; char kind; };
struct Module { string path; const char* base; size_t len; vector<std::pair<string_view, Sym>> list; std::unordered_map<string_view, Sym> syms; std::map<string, const char*> types; std::map<string, Type*> typeCache; std::unordered_map<string, u64> gaddr; std::unordered_map<string, Func*> funcs; bool mapBuilt = false; };

static string unquote(string_view s) { if (s.size() >= 2 && s[0] == '"') { string o; for (size_t i = 1; i + 1 < s.size(); i++) { if (s[i] == '\\' && i + 2 < s.size() && isxdigit(s[i + 1]) && isxdigit(s[i + 2])) { o += (char)strtol(string(s.substr(i + 1, 2)).c_str(), 0, 16); i += 2; } else o += s[i]; } return o; } return string(s); }

static string demangle(const string& s) { // legacy rust mangling without the hash
  if (s.compare(0, 3, "_ZN") != 0) return s; size_t i = 3; string o; vector<string> parts;
  while (i < s.size() && isdigit(s[i])) { size_t n = 0; while (i < s.size() && isdigit(s[i])) n = n * 10 + (s[i++] - '0'); if (i + n > s.size()) return s; parts.push_back(s.substr(i, n)); i += n; }
  if (!parts.empty() && parts.back().size() == 17 && parts.back()[0] == 'h') parts.pop_back();
  for (size_t k = 0; k < parts.size(); k++) { string p = parts[k], q; if (p.size() > 1 && p[0] == '_' && p[1] == '$') p = p.substr(1); for (size_t j = 0; j < p.size();) { if (p[j] == '$') { size_t e = p.find('$', j + 1); if (e == string::npos) { q += p.substr(j); break; } string t = p.substr(j + 1, e - j - 1); if (t == "LT") q += '<'; else if (t == "GT") q += '>'; else if (t == "RF") q += '&'; else if (t == "BP") q += '*'; else if (t == "C") q += ','; else if (t == "LP") q += '('; else if (t == "RP") q += ')'; else if (t == "SP") q += '@'; else if (t.size() > 1 && t[0] == 'u') q += (char)strtol(t.c_str() + 1, 0, 16); else q += "$" + t + "$"; j = e + 1; } else if (p[j] == '.' && j + 1 < p.size() && p[j + 1] == '.') { q += "::"; j += 2; } else q += p[j++]; } if (k) o += "::"; o += q; }
  return o;
}

struct Cur {
  const char* p; const char* e; bool nl = false; // nl: may cross line ends (multi-line instructions only)
  void ws() { while (p < e && (*p == ' ' || *p == '\t' || (nl && *p == '\n'))) p++; }
  bool at(char c) { ws(); return p < e && *p == c; }
  bool acc(char c) { ws(); if (p < e && *p == c) { p++; return true; } return false; }
  void need(char c) { if (!acc(c)) engine_error("parse: expected '%c' at: %.80s", c, p); }
  bool word(const char* s) { ws(); size_t n = strlen(s); if ((size_t)(e - p) >= n && !memcmp(p, s, n) && !(p + n < e && (isalnum(p[n]) || p[n] == '_' || p[n] == '.'))) { p += n; return true; } return false; }
  bool peekWord(const char* s) { const char* q = p; bool r = word(s); p = q; return r; }
  string_view ident() { ws(); const char* s = p; while (p < e && (isalnum(*p) || *p == '_' || *p == '.' || *p == '-' || *p == '$')) p++; return { s, (size_t)(p - s) }; }
  string_view name() { // after % or @
    if (*p == '"') { const char* s = p++; while (*p != '"') p++; p++; return { s, (size_t)(p - s) }; } const char* s = p; while (p < e && (isalnum(*p) || *p == '_' || *p == '.' || *p == '-' || *p == '$')) p++; return { s, (size_t)(p - s) };
  }
  void skipParens() { need('('); int d = 1; while (d) { char c = *p++; if (c == '(') d++; else if (c == ')') d--; else if (c == '"') { while (*p != '"') p++; p++; } } }
};

// hooks provided by the machine
struct Machine;
u64 machine_global_addr(Machine* M, Module* m, const string& name);

struct Linker {
  TypeTab T; vector<Module*> mods; std::unordered_map<string_view, std::pair<Module*, Sym>> ext; vector<Func*> funcByIdx; std::unordered_map<string, Func*> externFuncs; u64 funcBase;
  void indexModule(Module* m) {
    const char *p = m->base, *e = m->base + m->len;
    while (p < e) {
      if (*p == 'd' && e - p > 7 && !memcmp(p, "define ", 7)) {
        const char* nl = (const char*)memchr(p, '\n', e - p); if (!nl) nl = e;
        const char* q = p; while (q < nl && *q != '@') { if (*q == '"') { q++; while (*q != '"') q++; } q++; }
        Cur c{ q + 1, nl }; string_view n = c.name(); bool in = string_view(p, q - p).find(" internal ") != string_view::npos || string_view(p, q - p).find(" private ") != string_view::npos;
        m->list.push_back({ n, Sym{ p, 0, in, 'f' } });
        // skip body
        p = nl; for (;;) { const char* r = (const char*)memmem(p, e - p, "\n}", 2); if (!r) { p = e; break; } p = r + 2; break; }
        const char* r = (const char*)memchr(p, '\n', e - p); p = r ? r + 1 : e; continue;
      } else if (*p == '@') {
        Cur c{ p + 1, e }; string_view n = c.name(); const char* nl = (const char*)memchr(c.p, '\n', e - c.p); if (!nl) nl = e; string_view hd(c.p, std::min<size_t>(60, nl - c.p));
        bool in = hd.find("= internal") != string_view::npos || hd.find("= private") != string_view::npos; bool ex = hd.find("= external") != string_view::npos || hd.find("= extern_weak") != string_view::npos;
        if (!ex) m->list.push_back({ n, Sym{ p, 0, in, 'g' } });
        p = nl + 1; continue;
      } else if (*p == '%') { Cur c{ p + 1, e }; string_view n = c.name(); c.ws(); if (c.acc('=') && c.word("type")) m->types[string(n)] = c.p; }
      const char* nl = (const char*)memchr(p, '\n', e - p); p = nl ? nl + 1 : e;
    }
  }
  void load(const vector<string>& paths) {
    for (auto& s : paths) { int fd = open(s.c_str(), O_RDONLY); if (fd < 0) engine_error("cannot open %s", s.c_str()); struct stat st; fstat(fd, &st); Module* m = new Module; m->path = s; m->len = st.st_size; m->base = (const char*)mmap(0, st.st_size ? st.st_size : 1, PROT_READ, MAP_PRIVATE, fd, 0); close(fd); mods.push_back(m); }
    std::atomic<size_t> nx{ 0 }; vector<std::thread> th; for (int i = 0; i < 8; i++) th.emplace_back([&] { for (;;) { size_t k = nx++; if (k >= mods.size()) break; indexModule(mods[k]); } }); for (auto& t : th) t.join();
    size_t tot = 0; for (Module* m : mods) tot += m->list.size(); ext.reserve(tot);
    for (Module* m : mods) for (auto& kv : m->list) if (!kv.second.internal) ext.emplace(kv.first, std::make_pair(m, kv.second));
  }
  void buildMap(Module* m) { if (m->mapBuilt) return; m->mapBuilt = true; m->syms.reserve(m->list.size()); for (auto& kv : m->list) m->syms.emplace(kv.first, kv.second); }
  bool find(Module* m, string_view n, Module*& om, Sym& os) { if (m) { buildMap(m); auto it = m->syms.find(n); if (it != m->syms.end()) { om = m; os = it->second; return true; } } auto it = ext.find(n); if (it == ext.end()) return false; om = it->second.first; os = it->second.second; return true; }
  Func* newFunc(Module* m, const string& nm, const char* text) { Func* f = new Func; f->m = m; f->name = nm; f->dem = demangle(nm); f->text = text; f->addr = funcBase + 16 * (funcByIdx.size() + 1); funcByIdx.push_back(f); return f; }
  Func* funcAt(u64 a) { u64 i = (a - funcBase) / 16; if (a < funcBase + 16 || (a & 15) || i > funcByIdx.size()) return nullptr; return funcByIdx[i - 1]; }
  // resolve a function symbol (follows aliases); null if it is a data symbol
  Func* getFunc(Module* m, string_view n) {
    Module* om; Sym s;
    if (!find(m, n, om, s)) { string k(unquote(n)); Func*& f = externFuncs[k]; if (!f) f = newFunc(nullptr, k, nullptr); return f; }
    if (s.kind == 'g') { // alias?
      Cur c{ s.p + 1, om->base + om->len }; c.name(); c.need('='); const char* nl = (const char*)memchr(c.p, '\n', c.e - c.p); string_view line(c.p, nl - c.p); size_t a = line.find(" alias "); if (a == string_view::npos) return nullptr; size_t at = line.rfind('@'); Cur d{ c.p + at + 1, nl }; return getFunc(om, d.name());
    }
    Func*& f = om->funcs[string(n)]; if (!f) f = newFunc(om, unquote(n), s.p); return f;
  }
  Type* type(Cur& c, Module* m) {
    c.ws(); Type* t = nullptr; char ch = *c.p;
    if (ch == 'i' && isdigit(c.p[1])) { c.p++; unsigned w = 0; while (isdigit(*c.p)) w = w * 10 + (*c.p++ - '0'); t = T.Int(w); }
    else if (c.word("ptr")) { t = T.tptr; if (c.peekWord("addrspace")) { c.word("addrspace"); c.skipParens(); } }
    else if (c.word("void")) t = T.tvoid; else if (c.word("float")) t = T.Flt("float", 32); else if (c.word("double")) t = T.Flt("double", 64); else if (c.word("half")) t = T.Flt("half", 16); else if (c.word("fp128")) t = T.Flt("fp128", 128); else if (c.word("x86_fp80")) t = T.Flt("x86_fp80", 80); else if (c.word("label")) t = T.tlabel; else if (c.word("metadata")) t = T.tmeta; else if (c.word("token")) t = T.tvoid; else if (c.word("opaque")) t = T.Str({}, false);
    else if (ch == '[') { c.p++; c.ws(); u64 n = 0; while (isdigit(*c.p)) n = n * 10 + (*c.p++ - '0'); c.ws(); c.need('x'); Type* e = type(c, m); c.need(']'); t = T.Arr(n, e); }
    else if (ch == '<') { c.p++; if (c.acc('{')) { vector<Type*> el; if (!c.at('}')) do el.push_back(type(c, m)); while (c.acc(',')); c.need('}'); c.need('>'); t = T.Str(el, true); } else { c.ws(); u64 n = 0; while (isdigit(*c.p)) n = n * 10 + (*c.p++ - '0'); c.ws(); c.need('x'); Type* e = type(c, m); c.need('>'); t = T.Vec(n, e); } }
    else if (ch == '{') { c.p++; vector<Type*> el; if (!c.at('}')) do el.push_back(type(c, m)); while (c.acc(',')); c.need('}'); t = T.Str(el, false); }
    else if (ch == '%') { c.p++; string n(c.name()); Type*& tt = m->typeCache[n]; if (!tt) { auto it = m->types.find(n); if (it == m->types.end()) engine_error("unknown type %s", n.c_str()); Cur d{ it->second, m->base + m->len }; Type* x = type(d, m); m->typeCache[n] = x; } t = m->typeCache[n]; }
    else engine_error("parse type at: %.60s", c.p);
    // function type suffix
    c.ws(); if (*c.p == '(') { // function type: skip params
      const char* sv = c.p; (void)sv; c.skipParens(); Type* f = new Type; f->k = Type::Func; f->el = { t }; return f; }
    return t;
  }
};
