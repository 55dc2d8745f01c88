#include "hist.h"
#include <map>
#include <unordered_map>
// ---------------------------------------------------------------- interning
static std::vector<Str *> &tab() { static std::vector<Str *> v; return v; }
static std::vector<Str *> &shadows() { static std::vector<Str *> v; return v; } // never handed out
static std::unordered_map<Str, int> &idx() { static std::unordered_map<Str, int> m; return m; }
int intern(const Str &s) {
  auto it = idx().find(s);
  if (it != idx().end()) return it->second;
  int i = (int)tab().size();
  tab().push_back(new Str(s.data(), s.size()));
  shadows().push_back(new Str(s.data(), s.size()));
  idx()[Str(s.data(), s.size())] = i;
  return i;
}
const Str &istr(int i) { return *tab()[i]; }
static int I(const char *s) { return intern(s); }

// ---------------------------------------------------------------- op names
static const char *SN = "abcdef";
Str opName(const Op &o) {
  static const char *NUMF[] = {"SetNumStr", "SetNumStrFast", "SetNumStrLen", "SetNumStrLenFast", "SetInt", "SetLong", "SetLongLong", "SetDouble", "SetNum"};
  static const char *STRF[] = {"SetStr", "SetStrFast", "SetStrLen", "SetStrLenFast", "SetStrEscape", "SetStrLenEscape"};
  static const char *KEYF[] = {"SetKey", "SetKeyFast", "SetKeyLen", "SetKeyLenFast", "SetKeyEscape", "SetKeyLenEscape"};
  static const char *PARF[] = {"Parse", "ParseLen", "ParseFast"};
  Str x(1, SN[(int)o.x]), y(1, SN[(int)(o.y < 0 ? 0 : o.y)]);
  switch (o.k) {
  case K_BEGIN: return y + "=Begin(" + x + ")";
  case K_NEXT: return y + "=Next(" + x + ")";
  case K_AGET: return y + "=ArrayGet(" + x + "," + std::to_string(o.arg) + ")";
  case K_OGET: return y + "=ObjGet(" + x + ",'" + show(istr(o.arg)) + "')";
  case K_OGETL: return y + "=ObjGetLen(" + x + ",'" + show(istr(o.arg)) + "')";
  case K_COPY: return y + "=Copy(" + x + ")";
  case K_NEW: return x + "=NewValue()";
  case K_NULL: return "SetNull(" + x + ")";
  case K_BOOL: return "SetBool(" + x + "," + std::to_string(o.arg) + ")";
  case K_ARR: return "SetArray(" + x + ")";
  case K_OBJ: return "SetObj(" + x + ")";
  case K_NUM: return Str(NUMF[(int)o.form]) + "(" + x + ",'" + show(istr(o.arg)) + "')";
  case K_STR: return Str(STRF[(int)o.form]) + "(" + x + ",'" + show(istr(o.arg)) + "')";
  case K_KEY: return Str(KEYF[(int)o.form]) + "(" + x + ",'" + show(istr(o.arg)) + "')";
  case K_PARSE: return Str(PARF[(int)o.form]) + "(" + x + ",'" + show(istr(o.arg)) + "')";
  case K_MOVE: return "Move(" + x + ")";
  case K_ADEL: return "ArrayDel(" + x + "," + std::to_string(o.arg) + ")";
  case K_ODEL: return "ObjDel(" + x + ",'" + show(istr(o.arg)) + "')";
  case K_SET: return "Set(" + x + "," + y + ")";
  case K_SETF: return "SetFast(" + x + "," + y + ")";
  case K_OADD: return "ObjAdd(" + x + "," + y + ")";
  case K_OADDF: return "ObjAddFast(" + x + "," + y + ")";
  case K_AADD: return "ArrayAdd(" + x + "," + y + ")";
  case K_AADDF: return "ArrayAddFast(" + x + "," + y + ")";
  }
  return "?";
}
// ---------------------------------------------------------------- text facts (memoised per interned text)
struct TextFact { bool str, num; int doc; int esc; };
static std::vector<RefNode> &docsTab() { static std::vector<RefNode> v; return v; }
static Str escOf(const Str &s) { // escape quote and backslash; alphabets contain nothing else that needs it
  Str o;
  for (char ch : s) { if (ch == '"' || ch == '\\') o += '\\'; o += ch; }
  return o;
}
static const TextFact &fact(int i) {
  static std::vector<TextFact *> f;
  if ((int)f.size() <= i) f.resize(i + 64, nullptr);
  if (!f[i]) {
    TextFact *t = new TextFact;
    Str s = istr(i);
    t->str = refStrBody(s);
    t->num = refNum(s);
    RefNode r;
    t->doc = -1;
    if (refParse(s, r)) { t->doc = (int)docsTab().size(); docsTab().push_back(r); }
    t->esc = -1;
    f[i] = t;
    int e = intern(escOf(s));
    if ((int)f.size() <= i) f.resize(i + 64, nullptr);
    f[i]->esc = e;
  }
  return *f[i];
}

// ---------------------------------------------------------------- model
static int TOK_TRUE, TOK_FALSE, TOK_NULLT;
static void initTok() {
  static bool d = false;
  if (d) return;
  d = true;
  TOK_TRUE = I("true"); TOK_FALSE = I("false"); TOK_NULLT = I("null");
}
int Model::add(int type) {
  if (n >= MAXN) { over = true; return MAXN - 1; }
  MN &x = a[n];
  x.type = (uint8_t)type; x.nk = 0; x.hasKey = false; x.dead = false; x.key = -1; x.tok = -1; x.parent = 0xFF;
  return n++;
}
int Model::fromRef(const RefNode &r) {
  int i = add(r.type);
  if (over) return i;
  a[i].hasKey = r.hasKey;
  if (r.hasKey) a[i].key = (int16_t)intern(r.key);
  a[i].tok = (int16_t)intern(r.tok);
  for (auto &k : r.kids) { int j = fromRef(k); if (over) return i; append(i, j); }
  return i;
}
void Model::toRef(int i, RefNode &r) const {
  const MN &x = a[i];
  r.type = x.type; r.hasKey = x.hasKey;
  if (x.hasKey) r.key = istr(x.key);
  if (x.type == T_ARR || x.type == T_OBJ) {
    r.kids.resize(x.nk);
    for (int k = 0; k < x.nk; ++k) toRef(x.kids[k], r.kids[k]);
  } else r.tok = istr(x.tok);
}
bool Model::inside(int i, int anc) const {
  for (int x = i; ; x = a[x].parent) { if (x == anc) return true; if (a[x].parent == 0xFF) return false; }
}
void Model::kill(int i) {
  a[i].dead = true;
  for (int k = 0; k < a[i].nk; ++k) kill(a[i].kids[k]);
}
void Model::overwrite(int i) {
  for (int k = 0; k < a[i].nk; ++k) kill(a[i].kids[k]);
  a[i].nk = 0;
}
void Model::detach(int i) {
  int p = a[i].parent;
  if (p == 0xFF) return;
  MN &x = a[p];
  int k = 0;
  while (x.kids[k] != i) ++k;
  for (; k + 1 < x.nk; ++k) x.kids[k] = x.kids[k + 1];
  --x.nk;
  a[i].parent = 0xFF;
}
void Model::append(int c, int i) {
  if (a[c].nk >= MAXKIDS) { over = true; return; }
  a[c].kids[a[c].nk++] = (uint8_t)i;
  a[i].parent = (uint8_t)c;
}
int Model::copyOf(int i) {
  int j = add(a[i].type);
  if (over) return j;
  a[j].hasKey = a[i].hasKey; a[j].key = a[i].key; a[j].tok = a[i].tok;
  int nk = a[i].nk;
  for (int k = 0; k < nk; ++k) { int q = copyOf(a[i].kids[k]); if (over) return j; append(j, q); }
  return j;
}
static bool isFast(K k) { return k == K_SETF || k == K_OADDF || k == K_AADDF; }
static bool isBin(K k) { return k >= K_SET; }
bool Model::allowed(const Op &o) const {
  if (o.k == K_NEW) return true;
  if (!live(o.x)) return false;
  if (isBin(o.k)) {
    if (!live(o.y)) return false;
    if (isFast(o.k)) {
      if (o.x == o.y) return false;
      if (s[o.x].alloc != s[o.y].alloc) return false;
      int t = s[o.x].node, v = s[o.y].node;
      if (t >= 0 && v >= 0 && inside(t, v)) return false;
    }
  }
  return true;
}
int Model::apply(const Op &o) {
  MSlot &S = s[o.x];
  int t = S.node;
  auto nav = [&](int node) { if (node < 0) return 0; s[o.y].node = (int16_t)node; s[o.y].alloc = S.alloc; s[o.y].used = true; return 1; };
  auto mk = [&](int type) { if (S.node < 0) { S.node = (int16_t)add(type); } else { overwrite(S.node); a[S.node].type = (uint8_t)type; } return (int)S.node; };
  auto find = [&](int key) { for (int k = 0; k < a[t].nk; ++k) if (a[a[t].kids[k]].key == key) return (int)a[t].kids[k]; return -1; };
  switch (o.k) {
  case K_BEGIN: return nav(t < 0 || !a[t].nk ? -1 : a[t].kids[0]);
  case K_NEXT: {
    if (t < 0 || a[t].parent == 0xFF) return nav(-1);
    const MN &p = a[a[t].parent];
    for (int k = 0; k + 1 < p.nk; ++k) if (p.kids[k] == t) return nav(p.kids[k + 1]);
    return nav(-1);
  }
  case K_AGET: return nav(t < 0 || a[t].type != T_ARR || o.arg >= a[t].nk ? -1 : a[t].kids[o.arg]);
  case K_OGET: case K_OGETL: return nav(t < 0 || a[t].type != T_OBJ ? -1 : find(o.arg));
  case K_COPY: return nav(t < 0 ? -1 : copyOf(t));
  case K_NEW: S.node = -1; S.used = true; return -2;
  case K_NULL: a[mk(T_NULL)].tok = (int16_t)TOK_NULLT; return -2;
  case K_BOOL: a[mk(T_BOOL)].tok = (int16_t)(o.arg ? TOK_TRUE : TOK_FALSE); return -2;
  case K_ARR: mk(T_ARR); return -2;
  case K_OBJ: mk(T_OBJ); return -2;
  case K_NUM: if (!fact(o.arg).num) return 0; a[mk(T_NUM)].tok = (int16_t)o.arg; return 1;
  case K_STR: {
    int txt = o.arg;
    if (o.form >= 4) txt = fact(o.arg).esc; else if (!fact(o.arg).str) return 0;
    a[mk(T_STR)].tok = (int16_t)txt;
    return 1;
  }
  case K_KEY: {
    int txt = o.arg;
    if (o.form >= 4) txt = fact(o.arg).esc; else if (!fact(o.arg).str) return 0;
    if (t < 0) { S.node = (int16_t)add(T_NULL); t = S.node; a[t].tok = (int16_t)TOK_NULLT; }
    else if (a[t].parent != 0xFF && a[a[t].parent].type == T_ARR) return 0;
    a[t].hasKey = true; a[t].key = (int16_t)txt;
    return 1;
  }
  case K_PARSE: {
    int d = fact(o.arg).doc;
    if (d < 0) return 0;
    RefNode &r = docsTab()[d];
    int i = mk(r.type);
    a[i].tok = (int16_t)intern(r.tok);
    for (auto &k : docsTab()[d].kids) { int j = fromRef(k); if (over) return 1; append(i, j); }
    return 1;
  }
  case K_MOVE: if (t < 0) return 0; detach(t); return 1;
  case K_ADEL: if (t < 0 || a[t].type != T_ARR || o.arg >= a[t].nk) return 0; detach(a[t].kids[o.arg]); return 1;
  case K_ODEL: { if (t < 0 || a[t].type != T_OBJ) return 0; int f = find(o.arg); if (f < 0) return 0; detach(f); return 1; }
  case K_SET: case K_SETF: {
    int v = s[o.y].node;
    if (v < 0) return 0;
    if (o.k == K_SET) v = copyOf(v); else { detach(v); s[o.y].node = -1; }
    if (over) return 1;
    if (t < 0) { S.node = (int16_t)v; return 1; }
    overwrite(t);
    a[t].type = a[v].type; a[t].tok = a[v].tok;
    if (takesKey && a[t].hasKey && a[v].hasKey) a[t].key = a[v].key;
    for (int k = 0; k < a[v].nk; ++k) append(t, a[v].kids[k]);
    a[v].nk = 0; a[v].dead = true;
    return 1;
  }
  case K_OADD: case K_OADDF: {
    int v = s[o.y].node;
    if (t < 0 || a[t].type != T_OBJ || v < 0 || !a[v].hasKey) return 0;
    if (o.k == K_OADD) v = copyOf(v); else { detach(v); s[o.y].node = -1; }
    if (over) return 1;
    append(t, v);
    return 1;
  }
  case K_AADD: case K_AADDF: {
    int v = s[o.y].node;
    if (t < 0 || a[t].type != T_ARR || v < 0) return 0;
    if (o.k == K_AADD) v = copyOf(v); else { detach(v); s[o.y].node = -1; }
    if (over) return 1;
    a[v].hasKey = false; a[v].key = -1;
    append(t, v);
    return 1;
  }
  }
  return -2;
}
void Model::dump(int i, Str &o) const {
  const MN &x = a[i];
  if (x.hasKey) { o += '<'; o += istr(x.key); o += '>'; }
  if (x.type == T_ARR || x.type == T_OBJ) {
    o += x.type == T_ARR ? '[' : '{';
    for (int k = 0; k < x.nk; ++k) { if (k) o += ','; dump(x.kids[k], o); }
    o += x.type == T_ARR ? ']' : '}';
  } else if (x.type == T_STR) { o += '"'; o += istr(x.tok); o += '"'; }
  else o += istr(x.tok);
}
uint64_t Model::hash() const {
  // slots as (root document, position) pairs
  Str o;
  for (int i = 0; i < NSLOT; ++i) {
    if (!s[i].used) { o += '-'; continue; }
    int t = s[i].node;
    if (t < 0) { o += '0'; continue; }
    if (a[t].dead) { o += 'x'; continue; }
    int r = t;
    o += '@';
    while (a[r].parent != 0xFF) { int p = a[r].parent, k = 0; while (a[p].kids[k] != r) ++k; o += (char)('A' + k); r = p; }
    bool seen = false;
    for (int j = 0; j < i && !seen; ++j) if (s[j].used && s[j].node >= 0 && !a[s[j].node].dead) { int q = s[j].node; while (a[q].parent != 0xFF) q = a[q].parent; if (q == r) { o += (char)('0' + j); seen = true; } }
    if (!seen) dump(r, o);
    o += '|';
  }
  return hash64(o.data(), o.size());
}

// ---------------------------------------------------------------- worlds
const char *ORIGIN[NORIGIN] = {"Parse", "ParseFast", "built with Fast adds", "built with copying adds", "Copy of a parsed document",
                               "larger document with elements deleted", "Set over another value", "SetFast over another value", "Parse after failed Parse over another value"};
Str worldName(const WorldDef &w) {
  Str p;
  for (int i : w.path) p += "/" + std::to_string(i);
  return "a=" + (w.doc.empty() ? Str("(empty)") : w.doc) + " [" + ORIGIN[w.origin] + "], b=a" + p + ", c=" + (w.ckey == "-" ? "" : "'" + w.ckey + "':") + (w.c.empty() ? "(empty)" : w.c) + (w.cAlloc ? " in a second allocator" : "") + ", d=(empty)";
}
static const char *const DOCS[] = {"[1,2,3]", "{\"a\":1,\"b\":2,\"c\":3}", "[[1],[2,3],[]]", "{\"a\":{\"b\":1,\"a\":2},\"b\":[4,5]}", "[1,2]", "{\"b\":{},\"a\":[]}", "[]", "{}", "[5]", "{\"a\":\"x\"}", "[[[1]],{\"a\":{\"b\":0}}]", "7", "\"s\"", "{\"a\":1,\"b\":2,\"a\":3}", ""};
static std::vector<std::vector<int>> pathsOf(const Str &d) {
  std::vector<std::vector<int>> r;
  RefNode n;
  if (d.empty() || !refParse(d, n)) { r.push_back({-1}); return r; }
  int k = (int)n.kids.size();
  for (int i = 0; i < k; ++i) r.push_back({i});
  for (int i = 0; i < k; ++i) for (int j = 0; j < (int)n.kids[i].kids.size(); ++j) r.push_back({i, j});
  r.push_back({});
  r.push_back({-1});
  return r;
}
static const struct { const char *c, *k; } CV[] = {{"8", "k"}, {"[8,9]", "-"}, {"{\"y\":0,\"a\":9}", "a"}, {"", "-"}, {"\"v\"", "b"}, {"[]", "k"}, {"8", "-"}, {"{}", "-"}, {"[[6],7]", "k"}};
std::vector<WorldDef> worlds(int level, bool two) {
  std::vector<WorldDef> r;
  int q = 0;
  for (const char *d : DOCS) {
    auto ps = pathsOf(d);
    for (int o = 0; o < NORIGIN; ++o) {
      if (!*d && o) continue;
      if (level >= 2) {
        for (auto &p : ps) for (auto &cv : CV) r.push_back({d, o, p, cv.c, cv.k, two});
      } else if (level == 1) {
        r.push_back({d, o, ps[q % ps.size()], CV[q % 9].c, CV[q % 9].k, two});
        ++q;
        if (o < 3) { r.push_back({d, o, ps[(q + 2) % ps.size()], CV[(q + 4) % 9].c, CV[(q + 4) % 9].k, two}); ++q; }
      } else {
        if ((o + q) % 4 == 0) r.push_back({d, o, ps[q % ps.size()], CV[q % 9].c, CV[q % 9].k, two});
        ++q;
      }
    }
    ++q;
  }
  return r;
}
static void *mkNode(Ctx &c, const Api &A, void *al, const RefNode &r, bool fast) {
  void *v = A.NewValue(al);
  bool ok = true;
  switch (r.type) {
  case T_ARR: A.SetArray(v); for (auto &k : r.kids) ok &= fast ? A.ArrayAddFast(v, mkNode(c, A, al, k, fast)) : A.ArrayAdd(v, mkNode(c, A, al, k, fast)); break;
  case T_OBJ: A.SetObj(v); for (auto &k : r.kids) { void *x = mkNode(c, A, al, k, fast); ok &= A.SetKey(x, k.key.c_str()); ok &= fast ? A.ObjAddFast(v, x) : A.ObjAdd(v, x); } break;
  case T_STR: ok = A.SetStr(v, r.tok.c_str()); break;
  case T_NUM: ok = A.SetNumStr(v, r.tok.c_str()); break;
  case T_BOOL: A.SetBool(v, r.tok == "true"); break;
  default: A.SetNull(v);
  }
  if (!ok) c.fail("building a document failed");
  return v;
}
void *buildDoc(Ctx &c, const Api &A, void *al, const Str &doc, int origin) {
  void *v;
  if (doc.empty()) return A.NewValue(al);
  const Str &keep = istr(intern(doc));
  auto must = [&](bool b) { if (!b) c.fail("building the document %s (%s) failed", doc.c_str(), ORIGIN[origin]); };
  switch (origin) {
  case 0: v = A.NewValue(al); must(A.Parse(v, keep.c_str())); return v;
  case 1: v = A.NewValue(al); must(A.ParseFast(v, keep.c_str())); return v;
  case 2: case 3: { RefNode r; refParse(doc, r); return mkNode(c, A, al, r, origin == 2); }
  case 4: { void *w = A.NewValue(al); must(A.Parse(w, keep.c_str())); v = A.Copy(w); must(v != nullptr); return v; }
  case 5: {
    RefNode r;
    refParse(doc, r);
    if (r.type != T_ARR && r.type != T_OBJ) { v = A.NewValue(al); must(A.Parse(v, keep.c_str())); return v; }
    RefNode big = r;
    big.kids.clear();
    RefNode x;
    x.type = T_ARR; x.hasKey = r.type == T_OBJ;
    x.key = "x0"; big.kids.push_back(x);
    size_t i = 0;
    for (auto &k : r.kids) { big.kids.push_back(k); if (i++ == 0) { x.key = "x1"; big.kids.push_back(x); } }
    x.key = "x2"; big.kids.push_back(x);
    Str t = refDump(big);
    v = A.NewValue(al);
    must(A.Parse(v, t.c_str()));
    if (r.type == T_ARR) {
      must(A.ArrayDel(v, 0));
      if (r.kids.size()) must(A.ArrayDel(v, 1));
      void *l = A.ArrayGet(v, r.kids.size());
      must(l && A.Move(l));
    } else {
      must(A.ObjDel(v, "x2"));
      if (r.kids.size()) must(A.ObjDel(v, "x1"));
      must(A.ObjDel(v, "x0"));
    }
    return v;
  }
  case 6: case 7: {
    v = A.NewValue(al);
    must(A.Parse(v, origin == 6 ? "[true,[false],\"x\"]" : "{\"q\":1,\"a\":null}"));
    void *w = A.NewValue(al);
    must(A.Parse(w, keep.c_str()));
    must(origin == 6 ? A.Set(v, w) : A.SetFast(v, w));
    return v;
  }
  default: {
    v = A.NewValue(al);
    must(A.Parse(v, "[1,[2]]"));
    must(!A.Parse(v, "[3,{\"z\":"));
    must(!A.ParseFast(v, "{\"a\" 1}"));
    must(A.Parse(v, keep.c_str()));
    return v;
  }
  }
}
Model modelOf(const WorldDef &w, bool takesKey) {
  initTok();
  Model m;
  memset((void *)&m, 0, sizeof m);
  m.takesKey = takesKey;
  for (auto &s : m.s) { s.node = -1; s.alloc = 0; s.used = false; }
  RefNode r;
  m.s[0].used = true;
  if (!w.doc.empty()) { refParse(w.doc, r); m.s[0].node = (int16_t)m.fromRef(r); }
  m.s[1].used = true;
  if (!(w.path.size() == 1 && w.path[0] < 0)) { int t = m.s[0].node; for (int i : w.path) t = m.a[t].kids[i]; m.s[1].node = (int16_t)t; }
  m.s[2].used = true; m.s[2].alloc = (uint8_t)w.cAlloc;
  if (!w.c.empty()) { refParse(w.c, r); int t = m.fromRef(r); m.s[2].node = (int16_t)t; if (w.ckey != "-") { m.a[t].hasKey = true; m.a[t].key = (int16_t)intern(w.ckey); } }
  m.s[3].used = true; m.s[3].alloc = (uint8_t)w.cAlloc;
  return m;
}
// ---------------------------------------------------------------- running one history
namespace {
struct Kept { const char *p; Str v; const char *what; };
struct Run {
  Ctx &c;
  const Api &A;
  const HistOpt &o;
  Model m;
  void *al[2];
  void *h[NSLOT];
  std::vector<Kept> kept;
  char buf[8192];
  size_t used = 0;
  // a copy of the text in memory that is overwritten after the call
  const char *tmp(const Str &s) { used = s.size() + 1; memcpy(buf, s.data(), s.size()); buf[s.size()] = 0; return buf; }
  const char *tmpN(const Str &s) { used = s.size() + 8; memcpy(buf, s.data(), s.size()); memset(buf + s.size(), '"', 8); return buf; }
  void wipe() { memset(buf, 0x5b, used); }
  // the same text in caller memory that outlives the document; not terminated
  static const char *stableN(int i) {
    static std::vector<char *> v;
    if ((int)v.size() <= i) v.resize(i + 64, nullptr);
    if (!v[i]) { const Str &s = istr(i); v[i] = new char[s.size() + 8]; memcpy(v[i], s.data(), s.size()); memset(v[i] + s.size(), '7', 8); }
    return v[i];
  }
  static const Str &shadow(int i) { return *shadows()[i]; }
  bool intact(int i) { const Str &t = istr(i); return t == shadow(i) && !t.c_str()[t.size()] && !memcmp(stableN(i), shadow(i).data(), shadow(i).size()) && stableN(i)[shadow(i).size()] == '7'; }
  void checkStable(const WorldDef &w, const std::vector<Op> &ops) {
    for (const Str *d : {&w.doc, &w.c}) if (!d->empty() && !intact(intern(*d))) c.fail("an operation modified the caller's text %s", d->c_str());
    for (auto &q : ops) if (q.k == K_NUM || q.k == K_STR || q.k == K_KEY || q.k == K_PARSE)
      if (!intact(q.arg)) c.fail("a later operation modified the caller's text given to %s", opName(q).c_str());
  }
  void expectB(const Op &q, bool got, int want) { if ((int)got != want) c.fail("%s returns %d, expected %d", opName(q).c_str(), got, want); }
  void step(const Op &q) {
    int want = m.apply(q);
    if (m.over) throw Case_end();
    c.tick();
    void *x = h[(int)q.x], *y = q.y >= 0 ? h[(int)q.y] : nullptr;
    const Str *t = (q.k == K_NUM || q.k == K_STR || q.k == K_KEY || q.k == K_PARSE || q.k == K_OGET || q.k == K_OGETL || q.k == K_ODEL) ? &istr(q.arg) : nullptr;
    auto nav = [&](void *p) {
      if ((p != nullptr) != (want == 1)) c.fail("%s returns %s, expected %s", opName(q).c_str(), p ? "a value" : "null", want ? "a value" : "null");
      if (p) h[(int)q.y] = p;
    };
    switch (q.k) {
    case K_BEGIN: nav(A.Begin(x)); break;
    case K_NEXT: nav(A.Next(x)); break;
    case K_AGET: nav(A.ArrayGet(x, (size_t)q.arg)); break;
    case K_OGET: nav(A.ObjGet(x, tmp(*t))); break;
    case K_OGETL: nav(A.ObjGetLen(x, tmpN(*t), t->size())); break;
    case K_COPY: nav(A.Copy(x)); break;
    case K_NEW: h[(int)q.x] = A.NewValue(al[m.s[q.x].alloc]); break;
    case K_NULL: A.SetNull(x); break;
    case K_BOOL: A.SetBool(x, q.arg); break;
    case K_ARR: A.SetArray(x); break;
    case K_OBJ: A.SetObj(x); break;
    case K_NUM: {
      bool r = false;
      switch (q.form) {
      case 0: r = A.SetNumStr(x, tmp(*t)); break;
      case 1: r = A.SetNumStrFast(x, t->c_str()); break;
      case 2: r = A.SetNumStrLen(x, tmpN(*t), t->size()); break;
      case 3: r = A.SetNumStrLenFast(x, stableN(q.arg), t->size()); break;
      case 4: r = A.SetInt(x, atoi(t->c_str())); break;
      case 5: r = A.SetLong(x, atol(t->c_str())); break;
      case 6: r = A.SetLongLong(x, atoll(t->c_str())); break;
      case 7: r = A.SetDouble(x, refDouble(*t)); break;
      case 8: r = A.SetNum(x, refDouble(*t)); break;
      }
      expectB(q, r, want);
      break;
    }
    case K_STR: {
      bool r = false;
      switch (q.form) {
      case 0: r = A.SetStr(x, tmp(*t)); break;
      case 1: r = A.SetStrFast(x, t->c_str()); break;
      case 2: r = A.SetStrLen(x, tmpN(*t), t->size()); break;
      case 3: r = A.SetStrLenFast(x, stableN(q.arg), t->size()); break;
      case 4: r = A.SetStrEscape(x, tmp(*t)); break;
      case 5: r = A.SetStrLenEscape(x, tmpN(*t), t->size()); break;
      }
      expectB(q, r, want);
      break;
    }
    case K_KEY: {
      bool r = false;
      switch (q.form) {
      case 0: r = A.SetKey(x, tmp(*t)); break;
      case 1: r = A.SetKeyFast(x, t->c_str()); break;
      case 2: r = A.SetKeyLen(x, tmpN(*t), t->size()); break;
      case 3: r = A.SetKeyLenFast(x, stableN(q.arg), t->size()); break;
      case 4: r = A.SetKeyEscape(x, tmp(*t)); break;
      case 5: r = A.SetKeyLenEscape(x, tmpN(*t), t->size()); break;
      }
      expectB(q, r, want);
      break;
    }
    case K_PARSE: {
      bool r = false;
      switch (q.form) {
      case 0: r = A.Parse(x, tmp(*t)); break;
      case 1: r = A.ParseLen(x, tmpN(*t), t->size()); break;
      case 2: r = A.ParseFast(x, t->c_str()); break;
      }
      expectB(q, r, want);
      break;
    }
    case K_MOVE: expectB(q, A.Move(x), want); break;
    case K_ADEL: expectB(q, A.ArrayDel(x, (size_t)q.arg), want); break;
    case K_ODEL: expectB(q, A.ObjDel(x, tmp(*t)), want); break;
    case K_SET: expectB(q, A.Set(x, y), want); break;
    case K_SETF: expectB(q, A.SetFast(x, y), want); break;
    case K_OADD: expectB(q, A.ObjAdd(x, y), want); break;
    case K_OADDF: expectB(q, A.ObjAddFast(x, y), want); break;
    case K_AADD: expectB(q, A.ArrayAdd(x, y), want); break;
    case K_AADDF: expectB(q, A.ArrayAddFast(x, y), want); break;
    }
    if (t) {
      bool stable = (q.k == K_PARSE && q.form == 2) || ((q.k == K_NUM || q.k == K_STR || q.k == K_KEY) && (q.form == 1 || q.form == 3));
      if (!stable) { if (!(q.k == K_NUM && q.form >= 4) && memcmp(buf, t->data(), t->size())) c.fail("%s modified the caller's text", opName(q).c_str()); }
      else if (*t != shadow(q.arg) || memcmp(stableN(q.arg), t->data(), t->size())) c.fail("%s modified the caller's text", opName(q).c_str());
    }
    wipe();
  }
  void keep(const char *what, const char *p) { if (p) kept.push_back({p, Str(p, strlen(p) + 1), what}); }
  void keepN(const char *what, const char *p, size_t n) { if (p) kept.push_back({p, Str(p, n), what}); }
  void takeKept(void *x) {
    keep("Stringify", A.Stringify(x));
    keep("GetStr", A.GetStr(x));
    keep("GetUnEscapeStr", A.GetUnEscapeStr(x));
    keep("GetKey", A.GetKey(x));
    keep("GetUnEscapeKey", A.GetUnEscapeKey(x));
    keep("GetNumStr", A.GetNumStr(x));
    size_t l = 0;
    const char *p;
    if ((p = A.GetStrFast(x, &l))) keepN("GetStrFast", p, l);
    if ((p = A.GetNumFast(x, &l))) keepN("GetNumFast", p, l);
    if ((p = A.GetKeyFast(x, &l))) keepN("GetKeyFast", p, l);
    const void *d = A.GetNum(x);
    if (d) keepN("GetNum", (const char *)d, sizeof(double));
    if (A.GetInt && (d = A.GetInt(x))) keepN("GetInt", (const char *)d, sizeof(int));
    if (A.GetLong && (d = A.GetLong(x))) keepN("GetLong", (const char *)d, sizeof(long));
    if (A.GetLongLong && (d = A.GetLongLong(x))) keepN("GetLongLong", (const char *)d, sizeof(long long));
    c.transitions += 13;
  }
  void checkKept() {
    for (auto &k : kept) if (memcmp(k.p, k.v.data(), k.v.size())) c.fail("the text returned by %s earlier (%s) has changed to %s", k.what, show(k.v).c_str(), show(SV(k.p, k.v.size())).c_str());
  }
  int rootOf(int t) { while (m.a[t].parent != 0xFF) t = m.a[t].parent; return t; }
  void observe(bool deep, bool strings) {
    Cmp k{c, A};
    for (int i = 0; i < NSLOT; ++i) {
      if (!m.live(i) || !h[i] || !al[m.s[i].alloc]) continue;
      int t = m.s[i].node;
      try {
        if (t < 0) {
          if (deep) k.empty(h[i]);
          else {
            if (A.Type(h[i]) != 0) c.fail("value should be empty");
            if (A.Begin(h[i])) c.fail("empty value has children");
            c.transitions += 2;
          }
          continue;
        }
        RefNode r;
        m.toRef(t, r);
        if (deep) k.tree(h[i], r, false); else k.quick(h[i], r);
        k.stringify(h[i], r);
        if (strings) strAll(k, h[i], r);
        // position among its siblings
        const MN &x = m.a[t];
        int nx = -1;
        if (x.parent != 0xFF) { const MN &p = m.a[x.parent]; for (int j = 0; j + 1 < p.nk; ++j) if (p.kids[j] == t) nx = p.kids[j + 1]; }
        void *n = (c.tick(), A.Next(h[i]));
        if ((n != nullptr) != (nx >= 0)) c.fail("Next gives %s, expected %s", n ? "a value" : "null", nx >= 0 ? "a value" : "null");
        if (n) { RefNode q; m.toRef(nx, q); k.quick(n, q); }
      } catch (Violation &) {
        if (c.describe) printf("  (observing handle %c)\n", SN[i]);
        throw;
      }
    }
  }
  void strAll(Cmp &k, void *p, const RefNode &r) {
    if (r.type != T_ARR && r.type != T_OBJ) return;
    size_t i = 0;
    for (void *ch = A.Begin(p); ch && i < r.kids.size(); ch = A.Next(ch)) { k.stringify(ch, r.kids[i]); strAll(k, ch, r.kids[i]); ++i; }
  }
  // every container must accept appends and removals at every end
  void probeNode(int t, void *p, int alloc, int &budget) {
    MN &x = m.a[t];
    if ((x.type != T_ARR && x.type != T_OBJ) || budget <= 0) return;
    --budget;
    Cmp k{c, A};
    // children first
    void *ch = x.nk ? A.Begin(p) : nullptr;
    for (int i = 0; i < m.a[t].nk; ++i) {
      if (!ch) c.fail("probe: enumeration ends after %d of %d children", i, m.a[t].nk);
      probeNode(m.a[t].kids[i], ch, alloc, budget);
      ch = A.Next(ch);
    }
    auto app = [&](int val) {
      void *v = A.NewValue(al[alloc]);
      if (!A.SetInt ? !A.SetNumStr(v, val == 900 ? "900" : "901") : !A.SetInt(v, val)) c.fail("probe: SetInt failed");
      if (m.a[t].type == T_OBJ && !A.SetKey(v, val == 900 ? "p0" : "p1")) c.fail("probe: SetKey failed");
      bool ok = m.a[t].type == T_ARR ? A.ArrayAddFast(p, v) : A.ObjAddFast(p, v);
      if (!ok) c.fail("probe: append failed");
      int j = m.add(T_NUM);
      if (m.over) throw Case_end();
      static const int t0 = I("900"), t1 = I("901"), k0 = I("p0"), k1 = I("p1");
      m.a[j].tok = (int16_t)(val == 900 ? t0 : t1);
      if (m.a[t].type == T_OBJ) { m.a[j].hasKey = true; m.a[j].key = (int16_t)(val == 900 ? k0 : k1); }
      m.append(t, j);
      if (m.over) throw Case_end();
      c.transitions += 4;
    };
    auto del = [&](int i) {
      int n = m.a[t].kids[i];
      bool ok;
      if (m.a[t].type == T_ARR) ok = A.ArrayDel(p, (size_t)i);
      else {
        // address it by position: walk to it and move it out
        void *q = A.Begin(p);
        for (int j = 0; j < i && q; ++j) q = A.Next(q);
        if (!q) c.fail("probe: child %d of %d is missing", i, m.a[t].nk);
        ok = A.Move(q);
      }
      if (!ok) c.fail("probe: removal of child %d of %d failed", i, m.a[t].nk);
      m.detach(n);
      ++c.transitions;
    };
    RefNode r;
    app(900);
    if (m.a[t].nk >= 3) del(m.a[t].nk - 2);
    if (m.a[t].nk >= 2) del(0);
    app(901);
    r = RefNode();
    m.toRef(t, r);
    k.quick(p, r);
    del(m.a[t].nk - 1);
    app(900);
    r = RefNode();
    m.toRef(t, r);
    k.quick(p, r);
  }
  void probe() {
    int budget = 6;
    for (int i = 0; i < NSLOT; ++i) {
      if (!m.live(i) || m.s[i].node < 0 || !al[m.s[i].alloc]) continue;
      // only once per document, from the handle nearest to its root
      bool covered = false;
      for (int j = 0; j < i; ++j) if (m.live(j) && m.s[j].node >= 0 && m.inside(m.s[i].node, m.s[j].node)) covered = true;
      if (covered) continue;
      probeNode(m.s[i].node, h[i], m.s[i].alloc, budget);
    }
  }
};
} // namespace
static void setup(Run &r, const WorldDef &w) {
  Ctx &c = r.c;
  const Api &A = r.A;
  const HistOpt &o = r.o;
  r.h[0] = buildDoc(c, A, r.al[0], w.doc, w.origin);
  if (w.path.size() == 1 && w.path[0] < 0) r.h[1] = A.NewValue(r.al[0]);
  else {
    void *p = r.h[0];
    if (w.path.empty() && !o.singleHandle) {
      // a second handle to the root: reachable only through a container
      void *box = A.NewValue(r.al[0]);
      A.SetArray(box);
      void *keep = r.h[0];
      if (!A.ArrayAddFast(box, keep)) c.fail("setup");
      r.h[0] = A.Begin(box);
      p = A.Begin(box);
      if (!p || !A.Move(p)) c.fail("setup");
    }
    for (int i : w.path) { p = A.Begin(p); for (int j = 0; j < i && p; ++j) p = A.Next(p); if (!p) c.fail("setup: child missing"); }
    r.h[1] = p;
  }
  r.h[2] = buildDoc(c, A, r.al[w.cAlloc], w.c, (int)(w.doc.size() + w.path.size()) % 5);
  if (!w.c.empty() && w.ckey != "-" && !A.SetKey(r.h[2], w.ckey.c_str())) c.fail("setup: SetKey failed");
  r.h[3] = A.NewValue(r.al[w.cAlloc]);
}
static size_t lastBlocks;
size_t histBlocks() { return lastBlocks; }
void runHist(Ctx &c, const Api &A, const WorldDef &w, const Model &m0, const std::vector<Op> &ops, const HistOpt &o) {
  if (c.describe) {
    c.note("adapter %s; world: %s", A.name, worldName(w).c_str());
    for (auto &q : ops) c.note("  %s", opName(q).c_str());
  }
  Scope sc(c, o.fill, o.mode);
  Run r{c, A, o, m0, {nullptr, nullptr}, {}, {}, {}};
  Str where;
  try {
    r.al[0] = A.NewAllocator();
    r.al[1] = w.cAlloc ? A.NewAllocator() : nullptr;
    setup(r, w);
    if (o.pad >= 0) {
      static const Str *filler = new Str(1 << 15, 'p');
      void *v = A.NewValue(r.al[0]);
      if (!A.SetStrLen(v, filler->data(), o.pad)) c.fail("setup: padding");
      if (o.countOnly) { lastBlocks = vf_live(); throw Case_end(); }
    }
    if (o.retain) for (int i = 0; i < 4; ++i) if (r.m.live(i)) r.takeKept(r.h[i]);
    for (auto &q : ops) {
      r.step(q);
      if (o.repeat > 1) { // the model is in the same state after every repetition
        Model m1 = r.m;
        for (int i = 1; i < o.repeat; ++i) { r.step(q); r.m = m1; }
      }
      if (o.noisy) { r.observe(true, true); }
      if (o.retain) for (int i = 0; i < 4; ++i) if (r.m.live(i)) r.takeKept(r.h[i]);
    }
    if (c.describe) for (int i = 0; i < NSLOT; ++i) if (r.m.s[i].used) { Str d; if (!r.m.live(i)) d = "(no longer used)"; else if (r.m.s[i].node < 0) d = "(empty)"; else r.m.dump(r.m.s[i].node, d); c.note("  expected %c = %s", SN[i], d.c_str()); }
    c.state(r.m.hash());
    if (o.release >= 0 && r.al[1]) {
      A.ReleaseAllocator(r.al[o.release]);
      r.al[o.release] = nullptr;
    }
    r.observe(o.deepObs, o.strings);
    if (o.probes) { r.probe(); r.observe(false, false); }
    if (o.retain) { r.checkKept(); r.checkStable(w, ops); }
  } catch (Case_end &) {
  } catch (Violation &) {
    throw;
  }
  for (int i = 0; i < 2; ++i) if (r.al[i]) A.ReleaseAllocator(r.al[i]);
  sc.end();
  if (c.wantSample()) { Str s = worldName(w) + ":"; for (auto &q : ops) s += " " + opName(q); c.sample(s); }
}
// ---------------------------------------------------------------- one document of several
struct LaneState {
  HistOpt o;
  WorldDef w;
  std::vector<Op> ops;
  Run r;
  LaneState(Ctx &c, const Api &A, const WorldDef &w_, const Model &m0, const std::vector<Op> &q, const HistOpt &o_) : o(o_), w(w_), ops(q), r{c, A, o, m0, {nullptr, nullptr}, {}, {}, {}} {}
};
Lane::Lane(Ctx &c, const Api &A, const WorldDef &w, const Model &m0, const std::vector<Op> &ops, const HistOpt &o) : s(new LaneState(c, A, w, m0, ops, o)) {}
Lane::~Lane() { delete s; }
int Lane::steps() const { return 4 + (int)s->ops.size(); }
void Lane::step(int i) {
  Run &r = s->r;
  int n = (int)s->ops.size();
  if (i == 0) r.al[0] = r.A.NewAllocator();
  else if (i == 1) setup(r, s->w);
  else if (i < 2 + n) r.step(s->ops[i - 2]);
  else if (i == 2 + n) {
    for (int k = 0; k < 4; ++k) if (r.m.live(k)) r.takeKept(r.h[k]);
    r.observe(s->o.deepObs, false);
    if (s->o.probes) { r.probe(); r.observe(false, false); }
  } else {
    r.checkKept();
    r.A.ReleaseAllocator(r.al[0]);
    r.al[0] = nullptr;
  }
}
bool Model::shared() const {
  for (int i = 0; i < NSLOT; ++i) if (s[i].used && s[i].node >= 0) for (int j = 0; j < i; ++j) if (s[j].used && s[j].node == s[i].node) return true;
  return false;
}
bool opAvailable(const Api &A, const Op &q) { // beta lacks some operations
  if (q.k == K_NUM && q.form >= 4 && q.form <= 7 && !(q.form == 4 ? (void *)A.SetInt : q.form == 5 ? (void *)A.SetLong : q.form == 6 ? (void *)A.SetLongLong : (void *)A.SetDouble)) return false;
  return !((q.k == K_STR && q.form >= 4 && !A.SetStrEscape) || (q.k == K_KEY && q.form >= 4 && !A.SetKeyEscape));
}
static void rec(Ctx *c, const Api *A, const WorldDef &w, const Model &m0, const Model &m, std::vector<Op> &ops, const std::vector<Ops> &levels, const HistOpt *o, bool onlyFull, bool lastFails, const HistSink *sink) {
  size_t d = ops.size();
  for (const Op &q : levels[d]) {
    if (!m.allowed(q)) continue;
    if (A && !opAvailable(*A, q)) continue;
    Model m2 = m;
    int res = m2.apply(q);
    if (m2.over || (o && o->singleHandle && m2.shared())) continue;
    bool last = d + 1 == levels.size();
    ops.push_back(q);
    bool want = last || !onlyFull;
    if (lastFails && !(last && res == 0)) want = false;
    if (want) {
      if (sink) (*sink)(w, m0, ops);
      else if (c->takeIn()) runHist(*c, *A, w, m0, ops, *o);
    }
    if (!last) rec(c, A, w, m0, m2, ops, levels, o, onlyFull, lastFails, sink);
    ops.pop_back();
  }
}
void exploreHist(Ctx &c, const Api &A, const std::vector<WorldDef> &ws, const std::vector<Ops> &levels, const HistOpt &opt, bool onlyFull, bool lastFails) {
  HistOpt o = opt;
  if (A.setTakesKey) o.singleHandle = true; // beta header: one handle per value, one allocator
  for (auto &w : ws) {
    if (A.setTakesKey && w.cAlloc) continue;
    Model m0;
    bool have = false;
    // one block per first operation, so that workers share every world
    for (const Op &q : levels[0]) {
      if (!c.block()) continue;
      if (!have) { m0 = modelOf(w, A.setTakesKey); have = true; }
      if (o.singleHandle && m0.shared()) continue;
      std::vector<Ops> lv = levels;
      lv[0] = {q};
      std::vector<Op> ops;
      rec(&c, &A, w, m0, m0, ops, lv, &o, onlyFull, lastFails, nullptr);
    }
  }
}
void enumHist(const std::vector<WorldDef> &ws, const std::vector<Ops> &levels, bool takesKey, const HistSink &f) {
  for (auto &w : ws) {
    Model m0 = modelOf(w, takesKey);
    std::vector<Op> ops;
    rec(nullptr, nullptr, w, m0, m0, ops, levels, nullptr, false, false, &f);
  }
}
// ---------------------------------------------------------------- alphabets
static void nav(Ops &r, std::vector<int> xs, bool full) {
  for (int x : xs) {
    r.push_back({K_BEGIN, (int8_t)x, 3, 0, 0});
    r.push_back({K_NEXT, (int8_t)x, 3, 0, 0});
    r.push_back({K_AGET, (int8_t)x, 3, 0, 1});
    r.push_back({K_OGET, (int8_t)x, 3, 0, I("b")});
    if (full) {
      r.push_back({K_AGET, (int8_t)x, 3, 0, 0});
      r.push_back({K_AGET, (int8_t)x, 3, 0, 9});
      r.push_back({K_OGET, (int8_t)x, 3, 0, I("a")});
      r.push_back({K_OGET, (int8_t)x, 3, 0, I("zz")});
      r.push_back({K_OGETL, (int8_t)x, 3, 0, I("a")});
      r.push_back({K_OGETL, (int8_t)x, 3, 0, I("")});
    }
    r.push_back({K_COPY, (int8_t)x, 3, 0, 0});
  }
}
static void bin(Ops &r, std::vector<int> ts, std::vector<int> ss, bool copying, bool fast) {
  for (int t : ts) for (int s : ss) {
    if (copying) for (K k : {K_SET, K_OADD, K_AADD}) r.push_back({k, (int8_t)t, (int8_t)s, 0, 0});
    if (fast && t != s) for (K k : {K_SETF, K_OADDF, K_AADDF}) r.push_back({k, (int8_t)t, (int8_t)s, 0, 0});
  }
}
static void del(Ops &r, int x, bool full) {
  r.push_back({K_MOVE, (int8_t)x, -1, 0, 0});
  r.push_back({K_ADEL, (int8_t)x, -1, 0, 0});
  r.push_back({K_ADEL, (int8_t)x, -1, 0, 1});
  r.push_back({K_ODEL, (int8_t)x, -1, 0, I("a")});
  r.push_back({K_ODEL, (int8_t)x, -1, 0, I("b")});
  if (full) { r.push_back({K_ADEL, (int8_t)x, -1, 0, 2}); r.push_back({K_ADEL, (int8_t)x, -1, 0, 9}); r.push_back({K_ODEL, (int8_t)x, -1, 0, I("zz")}); r.push_back({K_ODEL, (int8_t)x, -1, 0, I("")}); }
}
static void unary(Ops &r, int xi, bool full) {
  int8_t x = (int8_t)xi;
  r.push_back({K_ARR, x, -1, 0, 0});
  r.push_back({K_OBJ, x, -1, 0, 0});
  r.push_back({K_NUM, x, -1, 4, I("-42")});
  r.push_back({K_KEY, x, -1, 0, I("k")});
  r.push_back({K_PARSE, x, -1, 0, I("[1,[2]]")});
  r.push_back({K_PARSE, x, -1, 2, I("{\"a\":{\"b\":0},\"b\":\"t\"}")});
  r.push_back({K_PARSE, x, -1, 1, I("[1,{\"a\":2,")});
  if (!full) return;
  r.push_back({K_NEW, x, -1, 0, 0});
  r.push_back({K_NULL, x, -1, 0, 0});
  r.push_back({K_BOOL, x, -1, 0, 0});
  r.push_back({K_BOOL, x, -1, 0, 1});
  r.push_back({K_PARSE, x, -1, 0, I(" [ ] ")});
  r.push_back({K_PARSE, x, -1, 1, I("{\"a\":[]}")});
  r.push_back({K_PARSE, x, -1, 0, I("3")});
  r.push_back({K_PARSE, x, -1, 0, I("nul")});
  r.push_back({K_PARSE, x, -1, 2, I("[1,2")});
  r.push_back({K_PARSE, x, -1, 2, I("{\"a\":[1,[]],}")});
  r.push_back({K_PARSE, x, -1, 0, I("\"x")});
  r.push_back({K_PARSE, x, -1, 0, I("")});
  const char *num[4] = {"12e3", "0", "-0.5", "77"}, *badn[4] = {"01", "1.", "", "+1"};
  const char *str[4] = {"s\\n", "", "\xc3\xa9", "\\u00e9x"}, *bads[4] = {"\"", "\\x", "\\uD800", "a\x01"};
  const char *key[4] = {"a", "", "b", "zz\\t"};
  for (int f = 0; f < 4; ++f) {
    r.push_back({K_NUM, x, -1, (int8_t)f, I(num[f])});
    r.push_back({K_NUM, x, -1, (int8_t)f, I(badn[f])});
    r.push_back({K_STR, x, -1, (int8_t)f, I(str[f])});
    r.push_back({K_STR, x, -1, (int8_t)f, I(bads[f])});
    r.push_back({K_KEY, x, -1, (int8_t)f, I(key[f])});
    r.push_back({K_KEY, x, -1, (int8_t)f, I(bads[f])});
  }
  r.push_back({K_NUM, x, -1, 5, I("-9223372036854775808")});
  r.push_back({K_NUM, x, -1, 6, I("9223372036854775807")});
  r.push_back({K_NUM, x, -1, 7, I("0.5")});
  r.push_back({K_NUM, x, -1, 8, I("3")});
  r.push_back({K_STR, x, -1, 4, I("q\"w\\")});
  r.push_back({K_STR, x, -1, 5, I("\"")});
  r.push_back({K_KEY, x, -1, 4, I("q\"")});
  r.push_back({K_KEY, x, -1, 5, I("a")});
}
Ops opsFull() {
  Ops r;
  nav(r, {0, 1, 2, 3}, true);
  for (int x = 0; x < 4; ++x) { unary(r, x, true); del(r, x, true); }
  bin(r, {0, 1, 2, 3}, {0, 1, 2, 3}, true, true);
  return r;
}
Ops opsStruct() {
  Ops r;
  nav(r, {0, 1, 3}, false);
  r.push_back({K_COPY, 2, 3, 0, 0});
  for (int x = 0; x < 4; ++x) del(r, x, false);
  for (int x = 0; x < 4; ++x) if (x != 0) unary(r, x, false);
  r.push_back({K_ARR, 0, -1, 0, 0});
  r.push_back({K_OBJ, 0, -1, 0, 0});
  bin(r, {0, 1, 2, 3}, {0, 1, 2, 3}, true, true);
  return r;
}
Ops opsCopying() {
  Ops r;
  for (int x = 0; x < 4; ++x) r.push_back({K_COPY, (int8_t)x, 3, 0, 0});
  bin(r, {0, 1, 2, 3}, {0, 1, 2, 3}, true, false);
  return r;
}
Ops opsRemoval() {
  Ops r;
  for (int x = 0; x < 3; ++x) del(r, x, x == 0);
  bin(r, {0, 1, 2}, {1, 2, 3}, false, true);
  r.push_back({K_BEGIN, 0, 3, 0, 0});
  r.push_back({K_NEXT, 3, 3, 0, 0});
  r.push_back({K_NEXT, 1, 3, 0, 0});
  r.push_back({K_MOVE, 3, -1, 0, 0});
  return r;
}
Ops opsBig() { // long texts: more than any fixed buffer in sight
  Ops r;
  static const int str = intern(Str(1500, 's')), esc = intern(Str(700, '"')), num = intern("1" + Str(299, '7')), frac = intern("-0." + Str(200, '3') + "e-5"), key = intern(Str(1100, 'k')),
                   doc = intern("[\"" + Str(1400, 'x') + "\",[" + Str(160, '9') + "],{\"" + Str(600, 'y') + "\":\"\\u00e9\\ud83d\\ude00\"}]"), bad = intern("[\"" + Str(1400, 'x') + "\",");
  for (int8_t x = 1; x < 3; ++x) {
    for (int8_t f = 0; f < 4; ++f) { r.push_back({K_STR, x, -1, f, str}); r.push_back({K_NUM, x, -1, f, f & 1 ? frac : num}); r.push_back({K_KEY, x, -1, f, key}); }
    for (int8_t f = 4; f < 6; ++f) { r.push_back({K_STR, x, -1, f, esc}); r.push_back({K_KEY, x, -1, f, esc}); }
    for (int8_t f = 0; f < 3; ++f) { r.push_back({K_PARSE, x, -1, f, doc}); r.push_back({K_PARSE, x, -1, f, bad}); }
  }
  return r;
}
Ops opsSmall() {
  Ops r;
  nav(r, {0, 3}, false);
  for (int x = 0; x < 4; ++x) { unary(r, x, false); del(r, x, false); }
  bin(r, {0, 1, 3}, {1, 2, 3}, true, true);
  return r;
}

// ---------------------------------------------------------------- texts of the same, smaller and larger length
std::vector<WorldDef> worldsTok(bool two) {
  std::vector<WorldDef> r;
  int q = 0;
  for (const char *d : {"{\"ab\":\"cd\",\"ef\":12}", "[\"ab\",\"cd\",34]", "[12,\"xyz\"]", "{\"ab\":{\"cd\":\"ef\"}}", "\"ab\"", "12"})
    for (auto &p : pathsOf(d))
      for (int o : {0, 1, 2, 4, 6}) {
        static const struct { const char *c, *k; } TC[] = {{"\"pq\"", "mn"}, {"34", "mn"}, {"{\"ab\":\"pq\"}", "mn"}, {"\"pq\"", "-"}};
        if (two && (q % 3)) { ++q; continue; }
        r.push_back({d, o, p, TC[q % 4].c, TC[q % 4].k, two});
        ++q;
      }
  return r;
}
Ops opsTok() {
  Ops r;
  for (int8_t x = 0; x < 3; ++x) {
    for (int8_t f : {0, 1, 4}) {
      for (const char *t : {"gh", "i", "jklmno"}) { r.push_back({K_STR, x, -1, f, I(t)}); if (x) r.push_back({K_KEY, x, -1, f, I(t)}); }
      if (f == 4) continue;
      r.push_back({K_STR, x, -1, f, I("e\"")});
      if (x) r.push_back({K_KEY, x, -1, f, I("e\"")});
      for (const char *t : {"56", "7", "8901234", "5."}) r.push_back({K_NUM, x, -1, f, I(t)});
    }
    r.push_back({K_STR, x, -1, 3, I("rs")});
    r.push_back({K_KEY, x, -1, 2, I("rs")});
    r.push_back({K_NUM, x, -1, 3, I("65")});
    r.push_back({K_NUM, x, -1, 4, I("78")});
    for (int8_t f : {0, 2}) for (const char *t : {"\"uv\"", "87", "{\"ab\":\"uv\"}"}) r.push_back({K_PARSE, x, -1, f, I(t)});
    r.push_back({K_PARSE, x, -1, 0, I("[\"uv")});
    r.push_back({K_COPY, x, 3, 0, 0});
    r.push_back({K_NULL, x, -1, 0, 0});
  }
  r.push_back({K_BEGIN, 0, 3, 0, 0});
  bin(r, {0, 1, 3}, {1, 2, 3}, true, false);
  r.push_back({K_SETF, 1, 2, 0, 0});
  r.push_back({K_SETF, 1, 3, 0, 0});
  return r;
}
