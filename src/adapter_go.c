/* The Go binding as an adapter. Go has only the plain forms of most calls; the
   Fast and Len forms of the table are mapped to them, so that every family can
   run. The Go library is loaded in the worker, after fork. */
#define _GNU_SOURCE
#include "api.h"
#include <dlfcn.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef uintptr_t H;
extern void *__real_malloc(size_t);
extern void *__wrap_malloc(size_t);
extern void __wrap_free(void *);
extern void *__wrap_realloc(void *, size_t);
#define F(ret, name, args) static ret (*g_##name) args;
#define LIST \
  F(H, NewAllocator, (void)) F(void, ReleaseAllocator, (H)) F(void, Abandon, (void)) F(H, NewValue, (H)) F(int, Parse, (H, const char *, size_t)) \
  F(char *, Stringify, (H)) F(char *, GetKey, (H)) F(char *, GetUnEscapeKey, (H)) F(char *, GetStr, (H)) F(char *, GetUnEscapeStr, (H)) F(char *, GetNumStr, (H)) \
  F(int, GetBool, (H)) F(int, IsNull, (H)) F(int, Type, (H)) F(H, ObjGet, (H, const char *, size_t)) F(H, ArrayGet, (H, size_t)) F(size_t, SizeOf, (H)) \
  F(H, Begin, (H)) F(H, Next, (H)) F(H, Copy, (H)) F(int, Move, (H)) F(void, SetNull, (H)) F(void, SetBool, (H, int)) \
  F(int, SetNumStr, (H, const char *, size_t)) F(int, SetStr, (H, const char *, size_t)) F(int, SetStrEscape, (H, const char *, size_t)) \
  F(int, SetKey, (H, const char *, size_t)) F(int, SetKeyEscape, (H, const char *, size_t)) F(void, SetArray, (H)) F(void, SetObj, (H)) \
  F(int, Set, (H, H)) F(int, SetFast, (H, H)) F(int, ObjAdd, (H, H)) F(int, ObjAddFast, (H, H)) F(int, ArrayAdd, (H, H)) F(int, ArrayAddFast, (H, H)) \
  F(int, ObjDel, (H, const char *, size_t)) F(int, ArrayDel, (H, size_t)) F(void, Hooks, (void *, void *, void *))
LIST
#undef F
void vf_go_init(void) {
  static int done;
  if (done) return;
  done = 1;
  void *l = dlopen(GOLIB, RTLD_NOW | RTLD_LOCAL);
  if (!l) { fprintf(stderr, "%s\n", dlerror()); _exit(9); }
#define F(ret, name, args) g_##name = (ret (*) args)dlsym(l, "vfgo_" #name); if (!g_##name) { fprintf(stderr, "no " #name "\n"); _exit(9); }
  LIST
#undef F
  g_Hooks((void *)__wrap_malloc, (void *)__wrap_free, (void *)__wrap_realloc);
}
#define v(p) ((H)(p))
static void *NewAllocator(void) { vf_go_init(); return (void *)g_NewAllocator(); }
static void ReleaseAllocator(void *a) { g_ReleaseAllocator(v(a)); }
static void *NewValue(void *a) { return (void *)g_NewValue(v(a)); }
static bool Parse(void *x, const char *s) { return g_Parse(v(x), s, strlen(s)); }
static bool ParseLen(void *x, const char *s, size_t n) { return g_Parse(v(x), s, strnlen(s, n)); }
static const char *Stringify(void *x) { return g_Stringify(v(x)); }
#define G(name) static const char *name(void *x) { return g_##name(v(x)); }
G(GetKey) G(GetUnEscapeKey) G(GetStr) G(GetUnEscapeStr) G(GetNumStr)
#define GF(name, of) static const char *name(void *x, size_t *n) { const char *r = g_##of(v(x)); if (r) *n = strlen(r); return r; }
GF(GetStrFast, GetStr) GF(GetNumFast, GetNumStr) GF(GetKeyFast, GetKey)
static const double *GetNum(void *x) {
  static double ring[65536];
  static unsigned i;
  const char *r = g_GetNumStr(v(x));
  if (!r) return 0;
  double *d = &ring[i++ & 65535];
  *d = strtod(r, 0);
  return d;
}
static int GetBool(void *x) { return g_GetBool(v(x)); }
static bool IsNull(void *x) { return g_IsNull(v(x)); }
static int Type(void *x) { return g_Type(v(x)); }
static void *ObjGet(void *x, const char *k) { return (void *)g_ObjGet(v(x), k, strlen(k)); }
static void *ObjGetLen(void *x, const char *k, size_t n) { return memchr(k, 0, n) ? 0 : (void *)g_ObjGet(v(x), k, n); }
static void *ArrayGet(void *x, size_t i) { return (void *)g_ArrayGet(v(x), i); }
static size_t SizeOf(void *x) { return g_SizeOf(v(x)); }
static void *Begin(void *x) { return (void *)g_Begin(v(x)); }
static void *Next(void *x) { return (void *)g_Next(v(x)); }
static void *Copy(void *x) { return (void *)g_Copy(v(x)); }
static bool Move(void *x) { return g_Move(v(x)); }
static void SetNull(void *x) { g_SetNull(v(x)); }
static void SetBool(void *x, bool b) { g_SetBool(v(x), b); }
static void SetArray(void *x) { g_SetArray(v(x)); }
static void SetObj(void *x) { g_SetObj(v(x)); }
#define S(name) static bool name(void *x, const char *s) { return g_##name(v(x), s, strlen(s)); } \
  static bool name##Len(void *x, const char *s, size_t n) { return memchr(s, 0, n) ? false : g_##name(v(x), s, n); }
S(SetNumStr) S(SetStr) S(SetKey)
static bool SetStrEscape(void *x, const char *s) { return g_SetStrEscape(v(x), s, strlen(s)); }
static bool SetKeyEscape(void *x, const char *s) { return g_SetKeyEscape(v(x), s, strlen(s)); }
/* Go strings with NUL are outside the property: store those as their escaped form */
static bool lenEsc(int (*plain)(H, const char *, size_t), int (*esc)(H, const char *, size_t), void *x, const char *s, size_t n) {
  if (!memchr(s, 0, n)) return esc(v(x), s, n);
  char *b = (char *)__real_malloc(n * 6 + 1), *o = b;
  for (size_t i = 0; i < n; ++i) {
    unsigned char ch = s[i];
    if (ch == '"' || ch == '\\') { *o++ = '\\'; *o++ = ch; }
    else if (ch < 0x20) o += sprintf(o, "\\u%04x", ch);
    else *o++ = ch;
  }
  return plain(v(x), b, o - b); /* the buffer is small and not reclaimed */
}
static bool SetStrLenEscape(void *x, const char *s, size_t n) { return lenEsc(g_SetStr, g_SetStrEscape, x, s, n); }
static bool SetKeyLenEscape(void *x, const char *s, size_t n) { return lenEsc(g_SetKey, g_SetKeyEscape, x, s, n); }
static bool num(void *x, const char *fmt, long long n) { char b[40]; snprintf(b, sizeof b, fmt, n); return g_SetNumStr(v(x), b, strlen(b)); }
static bool SetInt(void *x, int n) { return num(x, "%lld", n); }
static bool SetLong(void *x, long n) { return num(x, "%lld", n); }
static bool SetLongLong(void *x, long long n) { return num(x, "%lld", n); }
static bool SetDouble(void *x, double d) { char b[40]; snprintf(b, sizeof b, "%.17g", d); return g_SetNumStr(v(x), b, strlen(b)); }
#define B(name) static bool name(void *x, void *y) { return g_##name(v(x), v(y)); }
B(Set) B(SetFast) B(ObjAdd) B(ObjAddFast) B(ArrayAdd) B(ArrayAddFast)
static bool ObjDel(void *x, const char *k) { return g_ObjDel(v(x), k, strlen(k)); }
static bool ArrayDel(void *x, size_t i) { return g_ArrayDel(v(x), i); }
static long Balance(void) { return 0; }
const struct Api api_gobind = {
    .name = "Go binding", .NewAllocator = NewAllocator, .ReleaseAllocator = ReleaseAllocator, .NewValue = NewValue, .ParseFast = Parse, .ParseLen = ParseLen, .Parse = Parse,
    .Stringify = Stringify, .GetStrFast = GetStrFast, .GetUnEscapeStr = GetUnEscapeStr, .GetStr = GetStr, .GetNumFast = GetNumFast, .GetNumStr = GetNumStr, .GetNum = GetNum, .GetDouble = GetNum,
    .GetBool = GetBool, .IsNull = IsNull, .GetKey = GetKey, .GetUnEscapeKey = GetUnEscapeKey, .GetKeyFast = GetKeyFast, .ObjGet = ObjGet, .ObjGetLen = ObjGetLen, .Type = Type, .SizeOf = SizeOf,
    .ArrayGet = ArrayGet, .Begin = Begin, .Next = Next, .Copy = Copy, .Move = Move, .SetNull = SetNull, .SetBool = SetBool,
    .SetNumStrFast = SetNumStr, .SetNumStrLenFast = SetNumStrLen, .SetNumStr = SetNumStr, .SetNumStrLen = SetNumStrLen,
    .SetNum = SetDouble, .SetDouble = SetDouble, .SetInt = SetInt, .SetLong = SetLong, .SetLongLong = SetLongLong,
    .SetStrFast = SetStr, .SetStrLenFast = SetStrLen, .SetStr = SetStr, .SetStrLen = SetStrLen, .SetStrEscape = SetStrEscape, .SetStrLenEscape = SetStrLenEscape,
    .SetKeyFast = SetKey, .SetKeyLenFast = SetKeyLen, .SetKey = SetKey, .SetKeyLen = SetKeyLen, .SetKeyEscape = SetKeyEscape, .SetKeyLenEscape = SetKeyLenEscape,
    .SetArray = SetArray, .SetObj = SetObj, .SetFast = SetFast, .Set = Set, .ObjAddFast = ObjAddFast, .ObjAdd = ObjAdd, .ArrayAddFast = ArrayAddFast, .ArrayAdd = ArrayAdd,
    .ArrayDel = ArrayDel, .ObjDel = ObjDel, .Balance = Balance};
