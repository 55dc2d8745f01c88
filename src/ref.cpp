#include "ref.h"
#include <cmath>
#include <cstdlib>
#include <clocale>
bool refInt(SV lit, long long lo, long long hi, long long &v) {
  bool neg = false;
  size_t i = 0;
  if (i < lit.size() && lit[i] == '-') { neg = true; ++i; }
  __int128 a = 0;
  for (; i < lit.size() && RefParser::dig(lit[i]); ++i) {
    a = a * 10 + (lit[i] - '0');
    if (a > ((__int128)1 << 100)) return false;
  }
  for (size_t k = i; k < lit.size(); ++k) if (lit[k] == 'e' || lit[k] == 'E') return false;
  if (neg) a = -a;
  if (a < lo || a > hi) return false;
  v = (long long)a;
  return true;
}
double refDouble(const Str &lit) {
  static locale_t loc = newlocale(LC_ALL_MASK, "C", (locale_t)0);  // whatever locale the process is in
  return strtod_l(lit.c_str(), nullptr, loc);
}

#define T c.tick()
static bool same(const char *p, SV s) { return p && strlen(p) == s.size() && memcmp(p, s.data(), s.size()) == 0; }
static bool sameN(const char *p, size_t n, SV s) { return p && n == s.size() && memcmp(p, s.data(), n) == 0; }
static const size_t SENT = 0x5a5a5a5a;
#define FAILIF(cond, ...) do { if (cond) c.fail(__VA_ARGS__); } while (0)
void Cmp::empty(void *h) {
  size_t l = SENT;
  FAILIF((T, A.Type(h)) != 0, "Type of an empty value is %d", A.Type(h));
  FAILIF((T, A.SizeOf(h)) != 0, "SizeOf of an empty value is not 0");
  FAILIF((T, A.GetStrFast(h, &l)), "GetStrFast of an empty value");
  FAILIF((T, A.GetNumFast(h, &l)), "GetNumFast of an empty value");
  FAILIF((T, A.GetKeyFast(h, &l)), "GetKeyFast of an empty value");
  FAILIF((T, A.GetStr(h)) != nullptr, "GetStr of an empty value");
  FAILIF((T, A.GetUnEscapeStr(h)) != nullptr, "GetUnEscapeStr of an empty value");
  FAILIF((T, A.GetNumStr(h)) != nullptr, "GetNumStr of an empty value");
  FAILIF((T, A.GetNum(h)) != nullptr, "GetNum of an empty value");
  if (A.GetDouble) FAILIF((T, A.GetDouble(h)) != nullptr, "GetDouble of an empty value");
  if (A.GetInt) FAILIF((T, A.GetInt(h)) != nullptr, "GetInt of an empty value");
  if (A.GetLong) FAILIF((T, A.GetLong(h)) != nullptr, "GetLong of an empty value");
  if (A.GetLongLong) FAILIF((T, A.GetLongLong(h)) != nullptr, "GetLongLong of an empty value");
  FAILIF((T, A.GetBool(h)) != -1, "GetBool of an empty value");
  FAILIF((T, A.IsNull(h)), "IsNull of an empty value");
  FAILIF((T, A.GetKey(h)) != nullptr, "GetKey of an empty value");
  FAILIF((T, A.GetUnEscapeKey(h)) != nullptr, "GetUnEscapeKey of an empty value");
  FAILIF((T, A.ObjGet(h, "a")) != nullptr, "ObjGet of an empty value");
  FAILIF((T, A.ObjGetLen(h, "a", 1)) != nullptr, "ObjGetLen of an empty value");
  FAILIF((T, A.ArrayGet(h, 0)) != nullptr, "ArrayGet of an empty value");
  FAILIF((T, A.Begin(h)) != nullptr, "Begin of an empty value");
  FAILIF((T, A.Next(h)) != nullptr, "Next of an empty value");
  FAILIF((T, A.Copy(h)) != nullptr, "Copy of an empty value");
  FAILIF(!same((T, A.Stringify(h)), ""), "Stringify of an empty value is not the empty string");
}
void Cmp::stringify(void *h, const RefNode &n) {
  Str want = refDump(n);
  const char *s = (T, A.Stringify(h));
  FAILIF(!same(s, want), "Stringify gives %s, expected %s", s ? show(s).c_str() : "(null)", show(want).c_str());
}
void Cmp::node(void *h, const RefNode &n, bool isRoot) {
  if (n.type == T_NONE) { empty(h); return; }
  size_t l;
  FAILIF((T, A.Type(h)) != n.type, "Type is %d, expected %d for %s", A.Type(h), n.type, show(refDump(n), 80).c_str());
  bool cont = n.type == T_ARR || n.type == T_OBJ;
  FAILIF((T, A.SizeOf(h)) != (cont ? n.kids.size() : 0), "SizeOf is %zu, expected %zu", A.SizeOf(h), cont ? n.kids.size() : 0);
  // strings
  l = SENT;
  const char *s = (T, A.GetStrFast(h, &l));
  if (n.type == T_STR) {
    FAILIF(!sameN(s, l, n.tok), "GetStrFast gives %s, expected %s", s ? show(SV(s, l < 1000 ? l : 0)).c_str() : "(null)", show(n.tok).c_str());
    s = (T, A.GetStr(h));
    FAILIF(!same(s, n.tok), "GetStr gives %s, expected %s", s ? show(s).c_str() : "(null)", show(n.tok).c_str());
    Str d = refDecode(n.tok);
    s = (T, A.GetUnEscapeStr(h));
    FAILIF(!same(s, cview(d)), "GetUnEscapeStr gives %s for %s, expected %s", s ? show(s).c_str() : "(null)", show(n.tok).c_str(), show(d).c_str());
  } else {
    FAILIF(s, "GetStrFast of a value of type %d gives a string", n.type);
    FAILIF((T, A.GetStr(h)) != nullptr, "GetStr of a value of type %d gives a string", n.type);
    FAILIF((T, A.GetUnEscapeStr(h)) != nullptr, "GetUnEscapeStr of a value of type %d gives a string", n.type);
  }
  // numbers
  l = SENT;
  s = (T, A.GetNumFast(h, &l));
  if (n.type == T_NUM) {
    FAILIF(!sameN(s, l, n.tok), "GetNumFast gives %s, expected %s", s ? show(SV(s, l < 1000 ? l : 0)).c_str() : "(null)", show(n.tok).c_str());
    s = (T, A.GetNumStr(h));
    FAILIF(!same(s, n.tok), "GetNumStr gives %s, expected %s", s ? show(s).c_str() : "(null)", show(n.tok).c_str());
    double want = refDouble(n.tok);
    const double *d = (T, A.GetNum(h));
    FAILIF(!d || memcmp(d, &want, 8), "GetNum of %s gives %.17g, expected %.17g", show(n.tok).c_str(), d ? *d : 0, want);
    if (A.GetDouble) {
      d = (T, A.GetDouble(h));
      FAILIF(!d || memcmp(d, &want, 8), "GetDouble of %s gives %.17g, expected %.17g", show(n.tok).c_str(), d ? *d : 0, want);
    }
    long long v;
    if (A.GetInt) {
      const int *p = (T, A.GetInt(h));
      FAILIF(!p, "GetInt of a number gives null");
      int pi; memcpy(&pi, p, sizeof pi);
      if (refInt(n.tok, -2147483647LL - 1, 2147483647LL, v)) FAILIF(pi != v, "GetInt of %s gives %d", show(n.tok).c_str(), pi);
    }
    long long LM = 9223372036854775807LL;
    if (A.GetLong) {
      const long *p = (T, A.GetLong(h));
      FAILIF(!p, "GetLong of a number gives null");
      long pi; memcpy(&pi, p, sizeof pi);
      if (refInt(n.tok, -LM - 1, LM, v)) FAILIF(pi != v, "GetLong of %s gives %ld", show(n.tok).c_str(), pi);
    }
    if (A.GetLongLong) {
      const long long *p = (T, A.GetLongLong(h));
      FAILIF(!p, "GetLongLong of a number gives null");
      long long pi; memcpy(&pi, p, sizeof pi);
      if (refInt(n.tok, -LM - 1, LM, v)) FAILIF(pi != v, "GetLongLong of %s gives %lld", show(n.tok).c_str(), pi);
    }
  } else {
    FAILIF(s, "GetNumFast of a value of type %d gives a number", n.type);
    FAILIF((T, A.GetNumStr(h)) != nullptr, "GetNumStr of a value of type %d", n.type);
    FAILIF((T, A.GetNum(h)) != nullptr, "GetNum of a value of type %d", n.type);
    if (A.GetDouble) FAILIF((T, A.GetDouble(h)) != nullptr, "GetDouble of a value of type %d", n.type);
    if (A.GetInt) FAILIF((T, A.GetInt(h)) != nullptr, "GetInt of a value of type %d", n.type);
    if (A.GetLong) FAILIF((T, A.GetLong(h)) != nullptr, "GetLong of a value of type %d", n.type);
    if (A.GetLongLong) FAILIF((T, A.GetLongLong(h)) != nullptr, "GetLongLong of a value of type %d", n.type);
  }
  int wantB = n.type == T_BOOL ? (n.tok == "true") : -1;
  FAILIF((T, A.GetBool(h)) != wantB, "GetBool gives %d, expected %d", A.GetBool(h), wantB);
  FAILIF((T, A.IsNull(h)) != (n.type == T_NULL), "IsNull is wrong for type %d", n.type);
  // key
  l = SENT;
  s = (T, A.GetKeyFast(h, &l));
  if (n.hasKey) {
    FAILIF(!sameN(s, l, n.key), "GetKeyFast gives %s, expected %s", s ? show(SV(s, l < 1000 ? l : 0)).c_str() : "(null)", show(n.key).c_str());
    s = (T, A.GetKey(h));
    FAILIF(!same(s, n.key), "GetKey gives %s, expected %s", s ? show(s).c_str() : "(null)", show(n.key).c_str());
    Str d = refDecode(n.key);
    s = (T, A.GetUnEscapeKey(h));
    FAILIF(!same(s, cview(d)), "GetUnEscapeKey gives %s for %s, expected %s", s ? show(s).c_str() : "(null)", show(n.key).c_str(), show(d).c_str());
  } else {
    FAILIF(s, "GetKeyFast of a value without a key gives a key");
    FAILIF((T, A.GetKey(h)) != nullptr, "GetKey of a value without a key gives a key");
    FAILIF((T, A.GetUnEscapeKey(h)) != nullptr, "GetUnEscapeKey of a value without a key gives a key");
  }
  if (!cont) {
    FAILIF((T, A.Begin(h)) != nullptr, "Begin of a value of type %d", n.type);
  }
  if (n.type != T_ARR) {
    FAILIF((T, A.ArrayGet(h, 0)) != nullptr, "ArrayGet of a value of type %d", n.type);
  }
  if (n.type != T_OBJ) {
    FAILIF((T, A.ObjGet(h, "")) != nullptr || (T, A.ObjGet(h, "a")) != nullptr, "ObjGet of a value of type %d", n.type);
    FAILIF((T, A.ObjGetLen(h, "", 0)) != nullptr || (T, A.ObjGetLen(h, "a", 1)) != nullptr, "ObjGetLen of a value of type %d", n.type);
  }
  if (isRoot) FAILIF((T, A.Next(h)) != nullptr, "Next of a root gives a value");
}
void Cmp::tree(void *h, const RefNode &n, bool isRoot) {
  node(h, n, isRoot);
  if (n.type != T_ARR && n.type != T_OBJ) return;
  size_t k = 0, cnt = n.kids.size();
  void *ch = (T, A.Begin(h));
  void *lastH = nullptr;
  while (ch) {
    FAILIF(k >= cnt, "enumeration yields more than %zu children", cnt);
    tree(ch, n.kids[k], false);
    ++k;
    lastH = ch;
    ch = (T, A.Next(ch));
  }
  (void)lastH;
  FAILIF(k != cnt, "enumeration yields %zu children, expected %zu", k, cnt);
  if (n.type == T_ARR) {
    for (size_t i = 0; i < cnt; ++i) {
      if (cnt > 12 && i > 3 && i + 4 < cnt && i % (cnt / 8 + 1)) continue;
      void *e = (T, A.ArrayGet(h, i));
      FAILIF(!e, "ArrayGet(%zu) of %zu elements gives null", i, cnt);
      node(e, n.kids[i], false);
    }
    FAILIF((T, A.ArrayGet(h, cnt)) != nullptr, "ArrayGet(size) gives a value");
    FAILIF((T, A.ArrayGet(h, cnt + 1)) != nullptr, "ArrayGet(size+1) gives a value");
    FAILIF((T, A.ArrayGet(h, 0xffffffffu)) != nullptr, "ArrayGet(4294967295) gives a value");
  } else {
    for (size_t i = 0; i < cnt; ++i) {
      if (cnt > 12 && i > 3 && i + 4 < cnt && i % (cnt / 8 + 1)) continue;
      size_t first = i;
      for (size_t j = 0; j < i; ++j) if (n.kids[j].key == n.kids[i].key) { first = j; break; }
      void *e = (T, A.ObjGet(h, n.kids[i].key.c_str()));
      FAILIF(!e, "ObjGet(%s) gives null", show(n.kids[i].key).c_str());
      node(e, n.kids[first], false);
      e = (T, A.ObjGetLen(h, n.kids[i].key.data(), n.kids[i].key.size()));
      FAILIF(!e, "ObjGetLen(%s) gives null", show(n.kids[i].key).c_str());
      node(e, n.kids[first], false);
    }
    FAILIF((T, A.ObjGet(h, "no such key")) != nullptr, "ObjGet of a missing key gives a value");
    FAILIF((T, A.ObjGetLen(h, "no such key", 11)) != nullptr, "ObjGetLen of a missing key gives a value");
  }
}
void Cmp::quick(void *h, const RefNode &n) {
  if (n.type == T_NONE) { FAILIF((T, A.Type(h)) != 0, "value should be empty"); return; }
  FAILIF((T, A.Type(h)) != n.type, "Type is %d, expected %d", A.Type(h), n.type);
  size_t l = SENT;
  const char *s = (T, A.GetKeyFast(h, &l));
  if (n.hasKey) FAILIF(!sameN(s, l, n.key), "key is %s, expected %s", s ? show(SV(s, l < 1000 ? l : 0)).c_str() : "(none)", show(n.key).c_str());
  else FAILIF(s != nullptr, "value has a key, expected none");
  switch (n.type) {
  case T_STR: l = SENT; s = (T, A.GetStrFast(h, &l)); FAILIF(!sameN(s, l, n.tok), "string is %s, expected %s", s ? show(SV(s, l < 1000 ? l : 0)).c_str() : "(null)", show(n.tok).c_str()); break;
  case T_NUM: l = SENT; s = (T, A.GetNumFast(h, &l)); FAILIF(!sameN(s, l, n.tok), "number is %s, expected %s", s ? show(SV(s, l < 1000 ? l : 0)).c_str() : "(null)", show(n.tok).c_str()); break;
  case T_BOOL: FAILIF((T, A.GetBool(h)) != (n.tok == "true"), "bool is wrong"); break;
  case T_ARR: case T_OBJ: {
    FAILIF((T, A.SizeOf(h)) != n.kids.size(), "SizeOf is %zu, expected %zu", A.SizeOf(h), n.kids.size());
    size_t k = 0;
    for (void *ch = (T, A.Begin(h)); ch; ch = (T, A.Next(ch))) {
      FAILIF(k >= n.kids.size(), "enumeration yields more than %zu children", n.kids.size());
      quick(ch, n.kids[k++]);
    }
    FAILIF(k != n.kids.size(), "enumeration yields %zu children, expected %zu", k, n.kids.size());
    break;
  }
  default: break;
  }
}
