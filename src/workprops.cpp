// C21: the work an operation does and the memory it takes are at most
// proportional to what it has to look at. Every pair of operations is executed
// on growing documents; the work at small sizes fixes the cost per unit (in this
// build), the work at large sizes must stay within a multiple of it.
#include "work.h"
#include "gen.h"
#include "values.h"
#include <cmath>
namespace {
const char *opName = "";
uint64_t opUnits;
size_t opN;
Ctx *cur;
uint64_t start;
void over() { cur->fail("%s: more than %llu steps for %llu units (document of size %zu)", opName, (unsigned long long)(vf_work - start), (unsigned long long)opUnits, opN); }
template <class F> uint64_t meter(Ctx &c, uint64_t limit, F f) {
  cur = &c;
  vf_work_over = over;
  start = vf_work;
  vf_work_limit = limit ? start + limit : ~0ull;
  f();
  vf_work_limit = ~0ull;
  ++c.transitions;
  return vf_work - start;
}
enum { LIN_FACTOR = 4, SLACK = 1500 };
struct Unit { // cost per unit, learnt from the small sizes
  double per = 0;
  void learn(uint64_t w, uint64_t units) { per = std::max(per, double(w) / double(units + 8)); }
  uint64_t limit(uint64_t units) const { return (uint64_t)(LIN_FACTOR * per * double(units + 8)) + SLACK; }
};
// ---- documents: a root [0, v, 2] (or an object) holding v with n children
enum { NKIND = 9 };
const char *const KIND[NKIND] = {"array of numbers", "object", "array of containers", "object of containers", "nested arrays", "nested objects", "long strings", "long keys", "one key repeated"};
Str inner(int k, size_t n) {
  Str s;
  auto sep = [&](size_t i) { if (i) s += ','; };
  switch (k) {
    case 0: for (size_t i = 0; i < n; ++i) { sep(i); s += std::to_string(i % 10); } return "[" + s + "]";
    case 1: for (size_t i = 0; i < n; ++i) { sep(i); char b[32]; snprintf(b, sizeof b, "\"k%06zu\":\"v\"", i); s += b; } return "{" + s + "}";
    case 2: for (size_t i = 0; i < n; ++i) { sep(i); s += i % 2 ? "[1]" : "{\"q\":[]}"; } return "[" + s + "]";
    case 3: for (size_t i = 0; i < n; ++i) { sep(i); char b[32]; snprintf(b, sizeof b, "\"k%06zu\":", i); s += b; s += i % 2 ? "[1]" : "{\"q\":[]}"; } return "{" + s + "}";
    case 4: return "[" + Str(n, '[') + Str(n, ']') + "]";
    case 5: return "{\"a\":" + rep("{\"a\":", n) + "1" + Str(n, '}') + "}";
    case 6: return "[\"" + Str(n, 's') + "\",\"" + rep("\\u00e9", n) + "\",1" + Str(n, '0') + "." + Str(n, '3') + "]";
    case 7: return "{\"" + Str(n, 'k') + "\":1,\"" + rep("\\n", n) + "\":2,\"m\":3}";
    default: for (size_t i = 0; i < n; ++i) { sep(i); s += "\"k\":1"; } return "{" + s + "}";
  }
}
bool isObj(int k) { return k == 1 || k == 3 || k == 5 || k == 7 || k == 8; }
struct W {
  const Api &A;
  int kind;
  size_t n;
  Str text;       // of v
  void *al, *root, *v, *h[3];
  size_t pos[3];
  void *x, *o;    // a small detached value with key, an empty value
  void *other;    // a detached container of v's kind with n children
  explicit W(const Api &a) : A(a) {}
};
size_t sizeOf(W &w, void *h) { // bytes of the value's text and key
  if (!h || !w.A.Type(h)) return 1;
  const char *s = w.A.Stringify(h);
  size_t l = 0;
  w.A.GetKeyFast(h, &l);
  return (s ? strlen(s) : 0) + l + 1;
}
void handles(W &w) {
  size_t n = w.A.SizeOf(w.v), i = 0;
  w.pos[0] = 0; w.pos[1] = n / 2; w.pos[2] = n ? n - 1 : 0;
  w.h[0] = w.h[1] = w.h[2] = nullptr;
  if (w.kind == 4 || w.kind == 5) { // the values at the bottom
    void *b = w.v, *p = w.v, *g = w.v;
    for (;;) { void *q = w.A.Begin(b); if (!q) break; g = p; p = b; b = q; }
    if (b != w.v) { w.h[0] = b; w.h[1] = p == w.v ? nullptr : p; w.h[2] = g == w.v ? nullptr : g; }
    return;
  }
  for (void *h = n ? w.A.Begin(w.v) : nullptr; h; h = w.A.Next(h), ++i) for (int k = 0; k < 3; ++k) if (w.pos[k] == i) w.h[k] = h;
}
void *other(W &w) {
  void *p = w.A.NewValue(w.al);
  w.A.Parse(p, w.text.c_str());
  return p;
}
void small(W &w) {
  w.x = w.A.NewValue(w.al);
  w.A.Parse(w.x, "{\"z\":[1]}");
  w.A.SetKey(w.x, "xk");
  w.o = w.A.NewValue(w.al);
}
void setup(W &w, int origin) {
  const Api &A = w.A;
  w.text = inner(w.kind, w.n);
  w.al = A.NewAllocator();
  w.root = A.NewValue(w.al);
  bool obj = isObj(w.kind);
  if (origin == 0) {
    A.Parse(w.root, (obj ? "{\"p\":0,\"v\":" + w.text + ",\"q\":2}" : "[0," + w.text + ",2]").c_str());
  } else { // put together from copies
    void *d = A.NewValue(w.al), *s = A.NewValue(w.al), *t = A.NewValue(w.al), *u = A.NewValue(w.al);
    A.Parse(d, w.text.c_str());
    if (obj) A.SetObj(s); else A.SetArray(s);
    for (void *h = A.Begin(d); h; h = A.Next(h)) { if (obj) A.ObjAdd(s, h); else A.ArrayAdd(s, h); }
    if (obj) A.SetObj(w.root); else A.SetArray(w.root);
    A.SetNumStr(t, "0"); A.SetNumStr(u, "2");
    A.SetKey(t, "p"); A.SetKey(s, "v"); A.SetKey(u, "q");
    if (obj) { A.ObjAdd(w.root, t); A.ObjAddFast(w.root, s); A.ObjAdd(w.root, u); }
    else { A.ArrayAdd(w.root, t); A.ArrayAddFast(w.root, s); A.ArrayAdd(w.root, u); }
  }
  w.v = A.Next(A.Begin(w.root));
  w.other = other(w);
  handles(w);
  small(w);
}
// ---- operations; each declares the units it may look at
struct Op { const char *name; int arg; uint64_t (*units)(W &, int); bool (*can)(W &, int); void (*run)(W &, int); };
uint64_t K(W &, int) { return 1; }
uint64_t uV(W &w, int) { return sizeOf(w, w.v); }
uint64_t uRoot(W &w, int) { return sizeOf(w, w.root); }
uint64_t uH(W &w, int a) { return sizeOf(w, w.h[a]); }
uint64_t uPos(W &w, int a) { uint64_t u = w.pos[a] + 1; if (w.kind == 7) u += 3 * w.n; if (w.kind >= 4 && w.kind <= 6) u = 4; return u; }
Str keyBuf, textBuf, brokenBuf;
uint64_t uKey(W &w, int) { // members passed before the key is found
  uint64_t u = 1;
  for (void *h = w.A.Begin(w.v); h; h = w.A.Next(h)) {
    size_t l = 0;
    const char *k = w.A.GetKeyFast(h, &l);
    u += 1 + l;
    if (k && SV(k, l) == keyBuf) break;
  }
  return u;
}
uint64_t uAll(W &w, int) { return w.A.SizeOf(w.v) + 1 + (w.kind == 7 ? 3 * w.n : 0); }
uint64_t uText(W &w, int) { return w.text.size(); }
bool yes(W &, int) { return true; }
bool hasH(W &w, int a) { return w.h[a] != nullptr; }
bool vArr(W &w, int) { return w.A.Type(w.v) == T_ARR; }
bool vObj(W &w, int) { return w.A.Type(w.v) == T_OBJ; }
bool vArrH(W &w, int a) { return vArr(w, a) && w.h[a]; }
bool vObjH(W &w, int a) { return vObj(w, a) && w.h[a]; }
bool vSome(W &w, int) { return w.A.Type(w.v) != 0; }
bool rArr(W &w, int) { return w.A.Type(w.root) == T_ARR && w.A.Type(w.v); }
bool rObj(W &w, int) { return w.A.Type(w.root) == T_OBJ && w.A.Type(w.v); }
void prep(W &w) { // arguments, made outside the measurement
  keyBuf = w.kind == 7 ? Str(w.n, 'k') : Str("k000000");
  textBuf = w.text;
  brokenBuf = w.text.substr(0, w.text.size() - 1);
}
const std::vector<Op> &ops() {
  static std::vector<Op> r;
  if (!r.empty()) return r;
#define OP(nm, un, cn, body) r.push_back({nm, 0, un, cn, [](W &w, int a) { const Api &A = w.A; (void)A; (void)a; body; }});
#define OP3(nm, un, cn, body) for (int i = 0; i < 3; ++i) r.push_back({nm, i, un, cn, [](W &w, int a) { const Api &A = w.A; (void)a; body; }});
  OP("NewValue", K, yes, A.NewValue(w.al))
  OP("Type, SizeOf, IsNull, GetBool", K, yes, { A.Type(w.v); A.SizeOf(w.v); A.IsNull(w.v); A.GetBool(w.v); })
  OP("Begin", K, yes, A.Begin(w.v))
  OP3("Next", K, hasH, A.Next(w.h[a]))
  OP3("Next of the child of the root", K, yes, { if (a == 0) A.Next(w.v); else A.Begin(w.root); })
  OP3("ArrayGet", uPos, vArrH, A.ArrayGet(w.v, w.pos[a]))
  OP("ArrayGet beyond the end", uAll, vArr, A.ArrayGet(w.v, w.n + 1000))
  OP("ObjGet of the first key", uKey, vObjH, A.ObjGet(w.v, keyBuf.c_str()))
  OP("ObjGet of a missing key", uAll, vObj, A.ObjGet(w.v, "missing"))
  OP("ObjGetLen of a missing key", uAll, vObj, A.ObjGetLen(w.v, "k99999", 6))
  OP3("string getters", uH, hasH, { size_t l; A.GetStrFast(w.h[a], &l); A.GetStr(w.h[a]); A.GetUnEscapeStr(w.h[a]); })
  OP3("number getters", uH, hasH, { size_t l; A.GetNumFast(w.h[a], &l); A.GetNumStr(w.h[a]); A.GetNum(w.h[a]); if (A.GetDouble) { A.GetDouble(w.h[a]); A.GetInt(w.h[a]); A.GetLong(w.h[a]); A.GetLongLong(w.h[a]); } })
  OP3("key getters", uH, hasH, { size_t l; A.GetKeyFast(w.h[a], &l); A.GetKey(w.h[a]); A.GetUnEscapeKey(w.h[a]); })
  OP3("Stringify of a child", uH, hasH, A.Stringify(w.h[a]))
  OP3("Copy of a child", uH, hasH, A.Copy(w.h[a]))
  OP("Stringify", uV, vSome, A.Stringify(w.v))
  OP("Stringify of the root", uRoot, yes, A.Stringify(w.root))
  OP("Copy", uV, vSome, A.Copy(w.v))
  OP("Set into an empty value", uV, vSome, A.Set(w.o, w.v))
  OP("Set into a value", uV, vSome, A.Set(w.x, w.v))
  OP("SetFast into an empty value", K, vSome, A.SetFast(w.o, w.v))
  OP("SetFast into a value", uAll, vSome, A.SetFast(w.x, w.v))
  OP("SetFast over the container", K, vSome, A.SetFast(w.v, w.x))
  OP("Set over the container", K, vSome, A.Set(w.v, w.x))
  OP3("SetFast over a child", K, hasH, A.SetFast(w.h[a], w.x))
  OP3("Set over a child", K, hasH, A.Set(w.h[a], w.x))
  OP("ArrayAdd", K, vArr, A.ArrayAdd(w.v, w.x))
  OP("ArrayAddFast", K, vArr, A.ArrayAddFast(w.v, w.x))
  OP("ArrayAdd of the container", uV, rArr, A.ArrayAdd(w.root, w.v))
  OP("ArrayAddFast of the container", K, rArr, { void *q = A.Begin(w.root); if (q) A.ArrayAddFast(w.root, q); })
  OP3("ArrayAddFast of a child", K, vArrH, if (w.kind != 4) A.ArrayAddFast(w.v, w.h[a]); else A.ArrayAddFast(w.other, w.h[a]))
  OP("ObjAdd", K, vObj, A.ObjAdd(w.v, w.x))
  OP("ObjAddFast", K, vObj, A.ObjAddFast(w.v, w.x))
  OP("ObjAdd of the container", uV, rObj, A.ObjAdd(w.root, w.v))
  OP3("ObjAddFast of a child", K, vObjH, if (w.kind != 5) A.ObjAddFast(w.v, w.h[a]); else A.ObjAddFast(w.other, w.h[a]))
  OP("transfer of the first child", K, yes, { void *q = A.Begin(w.other); if (q) { if (A.Type(w.other) == T_ARR) A.ArrayAddFast(w.v, q); else A.ObjAddFast(w.v, q); } })
  OP3("ArrayDel", uPos, vArrH, A.ArrayDel(w.v, w.pos[a]))
  OP("ArrayDel beyond the end", uAll, vArr, A.ArrayDel(w.v, w.n + 1000))
  OP("ObjDel of the first key", uKey, vObjH, A.ObjDel(w.v, keyBuf.c_str()))
  OP("ObjDel of a missing key", uAll, vObj, A.ObjDel(w.v, "missing"))
  OP3("Move", K, hasH, A.Move(w.h[a]))
  OP("Move of the container", K, yes, A.Move(w.v))
  OP("SetNull", K, yes, A.SetNull(w.v))
  OP("SetBool", K, yes, A.SetBool(w.v, true))
  OP("SetArray", K, yes, A.SetArray(w.v))
  OP("SetObj", K, yes, A.SetObj(w.v))
  OP("SetNum", K, yes, { A.SetNum(w.v, 12.5); if (A.SetInt) A.SetInt(w.v, 7); })
  OP("SetStr, SetNumStr", K, yes, { A.SetStr(w.v, "abc"); A.SetNumStr(w.v, "1.5"); A.SetStrLen(w.v, "abcd", 4); })
  OP3("SetNull of a child", K, hasH, A.SetNull(w.h[a]))
  OP3("SetStrFast of a child", K, hasH, A.SetStrFast(w.h[a], "q"))
  OP3("SetKey of a child", K, hasH, A.SetKey(w.h[a], "nk"))
  OP("SetKey", K, yes, A.SetKey(w.v, "nk"))
  OP("Parse of a small text", K, yes, A.Parse(w.v, "[1,{\"a\":2}]"))
  OP3("Parse of a small text into a child", K, hasH, A.Parse(w.h[a], "[1,{\"a\":2}]"))
  OP3("failing Parse into a child", K, hasH, A.Parse(w.h[a], "[1,{\"a\":2}"))
  OP("failing setters", K, yes, { A.SetStr(w.v, "\""); A.SetNumStr(w.v, "1."); A.SetKey(w.x, "\\"); })
  OP("failing additions", K, yes, { A.ArrayAdd(w.v, w.o); A.ObjAdd(w.v, w.o); A.Set(w.v, w.o); A.SetFast(w.v, w.o); A.ArrayAddFast(w.v, w.o); A.ObjAddFast(w.v, w.o); })
  OP("Parse", uText, yes, A.Parse(w.o, textBuf.c_str()))
  OP("ParseFast", uText, yes, A.ParseFast(w.o, textBuf.c_str()))
  OP("ParseLen", uText, yes, A.ParseLen(w.o, textBuf.data(), textBuf.size()))
  OP("Parse of a cut text", uText, yes, A.Parse(w.o, brokenBuf.c_str()))
  OP("ParseLen of a cut text", uText, yes, A.ParseLen(w.o, textBuf.data(), textBuf.size() - 1))
  OP("ParseLen of a short part of a long text", K, yes, A.ParseLen(w.o, textBuf.data(), 3))
  OP("SetStrLen of a short part of a long text", K, yes, { A.SetStrLen(w.o, textBuf.data(), 3); A.SetStrLenFast(w.o, textBuf.data(), 3); A.SetKeyLen(w.x, textBuf.data(), 3); if (A.SetStrLenEscape) A.SetStrLenEscape(w.o, textBuf.data(), 3); })
  OP("SetStrEscape", uText, yes, { if (A.SetStrEscape) { A.SetStrEscape(w.o, textBuf.c_str()); A.SetStrLenEscape(w.o, textBuf.data(), textBuf.size()); A.SetKeyEscape(w.x, textBuf.c_str()); A.GetUnEscapeStr(w.o); } })
  OP("SetStr of a long text", uText, yes, { A.SetStr(w.o, textBuf.c_str()); A.SetStrLen(w.o, textBuf.data(), textBuf.size()); A.SetKey(w.x, textBuf.c_str()); A.SetNumStr(w.o, textBuf.c_str()); })
  return r;
}
void pairCase(Ctx &c, const Api &A, int kind, int origin, const std::vector<size_t> &path, const std::vector<size_t> &smallN, const std::vector<size_t> &bigN) {
  const auto &O = ops();
  c.note("%s, %s, %s", A.name, KIND[kind], origin ? "assembled" : "parsed");
  for (size_t i : path) c.note("  %s (%d)", O[i].name, O[i].arg);
  Unit u, rel;
  auto go = [&](size_t n, bool learn) {
    Scope sc(c, 0xA5, 2);
    W w(A);
    w.kind = kind;
    w.n = n;
    unsigned long long blocks0 = vf_count[0];
    setup(w, origin);
    for (size_t k = 0; k < path.size(); ++k) {
      const Op &o = O[path[k]];
      if (k) { handles(w); small(w); }
      if (!o.can(w, o.arg)) break;
      prep(w);
      if (k + 1 < path.size()) { o.run(w, o.arg); continue; }
      opName = o.name; opN = n;
      opUnits = o.units(w, o.arg);
      uint64_t lim = learn ? 0 : u.limit(opUnits);
      uint64_t got = meter(c, lim, [&] { o.run(w, o.arg); });
      if (learn) u.learn(got, opUnits);
    }
    opName = "ReleaseAllocator"; opN = n;
    opUnits = vf_count[0] - blocks0;
    uint64_t lim = learn ? 0 : rel.limit(opUnits);
    uint64_t got = meter(c, lim, [&] { A.ReleaseAllocator(w.al); });
    if (learn) rel.learn(got, opUnits);
    sc.end();
  };
  for (size_t n : smallN) go(n, true);
  for (size_t n : bigN) go(n, false);
  uint64_t h = hash64(path.data(), path.size() * sizeof(size_t), 210 + kind * 2 + origin);
  c.state(hash64(A.name, strlen(A.name), h));
  if (c.wantSample()) c.sample(Str(KIND[kind]) + ": " + O[path.back()].name);
}
#define EACH for (const Api *const *ap = apis(); *ap; ++ap)
// ---- memory and work of whole histories
struct Total { double bytes = 0; unsigned long long b0 = vf_count[2], n0 = vf_count[0]; };
void totals(Ctx &c, const char *what, const Total &t, uint64_t units) {
  unsigned long long bytes = vf_count[2] - t.b0, blocks = vf_count[0] - t.n0;
  if (bytes > 1024ull * units + (1 << 18)) c.fail("%s: %llu bytes taken from the system for %llu units", what, bytes, (unsigned long long)units);
  if (double(blocks) > 16 + 2 * std::log2(double(units + 2))) c.fail("%s: %llu blocks taken from the system for %llu units", what, blocks, (unsigned long long)units);
}
struct Seq { const char *name; uint64_t (*run)(const Api &, void *al, size_t n); };
void *val(const Api &A, void *al, const char *t, const char *k = nullptr) { void *v = A.NewValue(al); A.Parse(v, t); if (k) A.SetKey(v, k); return v; }
const std::vector<Seq> SEQS = {
    {"appending", [](const Api &A, void *al, size_t n) { void *v = val(A, al, "[]"), *x = val(A, al, "\"s\""); for (size_t i = 0; i < n; ++i) A.ArrayAdd(v, x); return (uint64_t)n; }},
    {"appending new values", [](const Api &A, void *al, size_t n) { void *v = val(A, al, "{}"); for (size_t i = 0; i < n; ++i) A.ObjAddFast(v, val(A, al, "[1]", "key")); return (uint64_t)n * 4; }},
    {"walking", [](const Api &A, void *al, size_t n) { void *v = val(A, al, inner(0, n).c_str()); for (void *h = A.Begin(v); h; h = A.Next(h)) A.GetNumStr(h); return (uint64_t)n * 3; }},
    {"walking and replacing", [](const Api &A, void *al, size_t n) { void *v = val(A, al, inner(1, n).c_str()); for (void *h = A.Begin(v); h; h = A.Next(h)) { A.SetStr(h, "new"); A.SetKey(h, "key"); A.Parse(h, "[1]"); } return (uint64_t)n * 16; }},
    {"draining from the front", [](const Api &A, void *al, size_t n) { void *v = val(A, al, inner(2, n).c_str()); while (void *h = A.Begin(v)) A.Move(h); return (uint64_t)n * 8; }},
    {"deleting from the front", [](const Api &A, void *al, size_t n) { void *v = val(A, al, inner(0, n).c_str()); while (A.ArrayDel(v, 0)) {} return (uint64_t)n * 4; }},
    {"deleting members from the front", [](const Api &A, void *al, size_t n) { void *v = val(A, al, inner(8, n).c_str()); while (A.ObjDel(v, "k")) {} return (uint64_t)n * 8; }},
    {"transferring", [](const Api &A, void *al, size_t n) { void *v = val(A, al, inner(1, n).c_str()), *w = val(A, al, "{}"); while (void *h = A.Begin(v)) A.ObjAddFast(w, h); A.Stringify(w); return (uint64_t)n * 14; }},
    {"rotating", [](const Api &A, void *al, size_t n) { void *v = val(A, al, "[1,2,3,4,5]"); for (size_t i = 0; i < n; ++i) A.ArrayAddFast(v, A.Begin(v)); return (uint64_t)n; }},
    {"nesting outwards", [](const Api &A, void *al, size_t n) { void *v = val(A, al, "1"); for (size_t i = 0; i < n; ++i) { void *w = val(A, al, "[]"); A.ArrayAddFast(w, v); v = w; } A.Stringify(v); return (uint64_t)n * 3; }},
    {"nesting inwards", [](const Api &A, void *al, size_t n) { void *v = val(A, al, "[]"), *w = v; for (size_t i = 0; i < n; ++i) { A.ArrayAdd(w, val(A, al, "[]")); w = A.Begin(w); } A.Stringify(v); return (uint64_t)n * 3; }},
    {"growing strings", [](const Api &A, void *al, size_t n) { Str s; uint64_t u = 0; void *v = A.NewValue(al); for (size_t i = 1; i < n; i = i * 5 / 4 + 1) { s.assign(i, 'g'); A.SetStr(v, s.c_str()); A.GetStr(v); u += i * 2 + 1; } return u; }},
    {"small values between large strings", [](const Api &A, void *al, size_t n) { Str s(3000, 'l'); uint64_t u = 0; void *v = val(A, al, "[]"); for (size_t i = 0; i * 100 < n; ++i) { void *x = A.NewValue(al); A.SetStr(x, s.c_str()); A.ArrayAddFast(v, x); A.ArrayAddFast(v, val(A, al, "1")); u += s.size() + 2; } A.Stringify(v); return u * 2; }},
    {"serialising again and again", [](const Api &A, void *al, size_t n) { void *v = val(A, al, "[1,\"a\",{\"b\":null}]"); for (size_t i = 0; i < n; ++i) A.Stringify(v); return (uint64_t)n * 20; }},
    {"copying again and again", [](const Api &A, void *al, size_t n) { void *v = val(A, al, "[1,\"a\",{\"b\":null}]"); for (size_t i = 0; i < n; ++i) A.Copy(v); return (uint64_t)n * 20; }},
    {"setting again and again", [](const Api &A, void *al, size_t n) { void *v = val(A, al, "[1]"), *x = val(A, al, "[1,\"a\",{\"b\":null}]"), *b = A.Begin(v); for (size_t i = 0; i < n; ++i) A.Set(b, x); return (uint64_t)n * 20; }},
    {"parsing again and again", [](const Api &A, void *al, size_t n) { void *v = A.NewValue(al); for (size_t i = 0; i < n; ++i) A.Parse(v, "[1,\"a\",{\"b\":null}]"); return (uint64_t)n * 20; }},
    {"failing again and again", [](const Api &A, void *al, size_t n) { void *v = val(A, al, "[1,2]"); for (size_t i = 0; i < n; ++i) { A.Parse(v, "[1,\"a\",{\"b\":null}"); A.SetStr(v, "\""); A.ArrayDel(v, 7); } return (uint64_t)n * 24; }},
    {"setting numbers again and again", [](const Api &A, void *al, size_t n) { void *v = A.NewValue(al); for (size_t i = 0; i < n; ++i) { A.SetNum(v, i * 0.5); A.GetNum(v); A.GetNumStr(v); } return (uint64_t)n * 24; }},
    {"unescaping again and again", [](const Api &A, void *al, size_t n) { void *v = val(A, al, "\"\\u00e9\\n\"", "\\u0041"); for (size_t i = 0; i < n; ++i) { A.GetUnEscapeStr(v); A.GetUnEscapeKey(v); } return (uint64_t)n * 16; }},
};
void seqCase(Ctx &c, const Api &A, const Seq &q) {
  c.note("%s, %s", A.name, q.name);
  Unit u;
  for (size_t n : {size_t(16), size_t(64), size_t(256), size_t(2048), size_t(20000), c.thorough ? size_t(300000) : size_t(70000)}) {
    Scope sc(c, 0xA5, 2);
    void *al = A.NewAllocator();
    opName = q.name; opN = n; opUnits = n;
    Total t;
    uint64_t units = 0, learn = n <= 256;
    uint64_t got = meter(c, learn ? 0 : (uint64_t)(LIN_FACTOR * u.per * double(n + 8)) + SLACK, [&] { units = q.run(A, al, n); });
    if (learn) u.learn(got, n);
    totals(c, q.name, t, units);
    A.ReleaseAllocator(al);
    sc.end();
  }
  c.state(hash64(q.name, strlen(q.name), hash64(A.name, strlen(A.name))));
  if (c.wantSample()) c.sample(q.name);
}
} // namespace
FAMILY(C21, single, "every operation of 110 on 9 kinds of documents, parsed and assembled: its work at sizes 1..64 fixes a cost per unit, its work at sizes 500, 5000 and 40000 (thorough 200000) stays within 4 times that; release too") {
  EACH for (int k = 0; k < NKIND; ++k) for (int o = 0; o < 2; ++o) for (size_t i = 0; i < ops().size(); ++i) {
    if (!c.take()) continue;
    pairCase(c, **ap, k, o, {i}, {1, 2, 3, 5, 8, 13, 21, 34, 64}, c.thorough ? std::vector<size_t>{500, 5000, 40000, 200000} : std::vector<size_t>{500, 5000, 40000});
  }
}
FAMILY(C21, pairs, "every pair of operations, the second one measured") {
  EACH for (int k = 0; k < NKIND; ++k) for (int o = 0; o < (c.thorough ? 2 : 1); ++o) for (size_t i = 0; i < ops().size(); ++i) for (size_t j = 0; j < ops().size(); ++j) {
    if (!c.take()) continue;
    pairCase(c, **ap, k, o, {i, j}, {1, 3, 8, 21, 50}, c.thorough ? std::vector<size_t>{1500, 9000} : std::vector<size_t>{1500});
  }
}
FAMILY(C21, sequences, "20 long histories (appending, walking, draining, transferring, nesting, growing, repeating) up to 70000 (thorough 300000) steps: total work, memory and number of system blocks") {
  EACH for (auto &q : SEQS) { if (!c.take()) continue; seqCase(c, **ap, q); }
}
FAMILY(C21, shapes, "14 document shapes at growing sizes: work, memory and number of system blocks of parsing, serialising, copying") {
  EACH for (auto &k : SIZE_KINDS) {
    if (!c.take()) continue;
    const Api &A = **ap;
    c.note("%s, %s", A.name, k.name);
    Unit u[4];
    for (size_t n : {8, 16, 32, 64, 500, 3000, 20000, 70000, 1 << 18, 1 << 20, 1 << 22}) {
      if (n > k.maxn || (!c.thorough && n > (1 << 20) && k.maxn > (1 << 20))) continue;
      Str t = k.make(n);
      Scope sc(c, 0xA5, 2);
      Total tot;
      void *al = A.NewAllocator(), *v = A.NewValue(al), *w = A.NewValue(al);
      bool learn = n <= 64;
      static const char *const N[] = {"Parse", "Stringify", "Copy", "Set"};
      for (int q = 0; q < 4; ++q) {
        opName = N[q]; opN = n; opUnits = t.size();
        uint64_t got = meter(c, learn ? 0 : u[q].limit(t.size()), [&] { if (q == 0) A.Parse(v, t.c_str()); else if (q == 1) A.Stringify(v); else if (q == 2) A.Copy(v); else A.Set(w, v); });
        if (learn) u[q].learn(got, t.size());
      }
      totals(c, k.name, tot, 4 * t.size());
      A.ReleaseAllocator(al);
      sc.end();
    }
    c.state(hash64(k.name, strlen(k.name), hash64(A.name, strlen(A.name))));
    if (c.wantSample()) c.sample(k.name);
  }
}
