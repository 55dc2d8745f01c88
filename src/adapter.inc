/* Body shared by all adapters. Needs: V (value type), SZ (size type),
   M0(n,v) M1(n,v,a) M2(n,v,a,b): call operation n on value v;
   NEWALLOC RELALLOC(a) NEWVALUE(a); SIZEOF(v); TYPEPTR; API_NAME */
#define STR2(x) #x
#define STR1(x) STR2(x)
#define GLUE2(a, b) a##b
#define GLUE1(a, b) GLUE2(a, b)
static void *a_NewAllocator(void) { return NEWALLOC; }
static void a_ReleaseAllocator(void *a) { RELALLOC(a); }
static void *a_NewValue(void *a) { return (void *)(NEWVALUE(a)); }
static bool a_ParseFast(void *v, const char *s) { return M1(ParseFast, v, s); }
static bool a_ParseLen(void *v, const char *s, size_t n) { return M2(ParseLen, v, s, (SZ)n); }
static bool a_Parse(void *v, const char *s) { return M1(Parse, v, s); }
static const char *a_Stringify(void *v) { return M0(Stringify, v); }
#define LEN_GETTER(n) \
  static const char *a_##n(void *v, size_t *len) { \
    SZ l = (SZ)*len; \
    const char *r = M1(n, v, &l); \
    *len = (size_t)l; \
    return r; \
  }
LEN_GETTER(GetStrFast)
LEN_GETTER(GetNumFast)
LEN_GETTER(GetKeyFast)
#define PTR_GETTER(t, n) \
  static t a_##n(void *v) { return (t)M0(n, v); }
PTR_GETTER(const char *, GetUnEscapeStr)
PTR_GETTER(const char *, GetStr)
PTR_GETTER(const char *, GetNumStr)
PTR_GETTER(const double *, GetNum)
PTR_GETTER(const double *, GetDouble)
PTR_GETTER(const int *, GetInt)
PTR_GETTER(const long *, GetLong)
PTR_GETTER(const long long *, GetLongLong)
PTR_GETTER(const char *, GetKey)
PTR_GETTER(const char *, GetUnEscapeKey)
PTR_GETTER(void *, Begin)
PTR_GETTER(void *, Next)
PTR_GETTER(void *, Copy)
PTR_GETTER(bool, IsNull)
PTR_GETTER(bool, Move)
static int a_GetBool(void *v) {
  const bool *b = M0(GetBool, v);
  return b ? (*b ? 1 : 0) : -1;
}
static void *a_ObjGet(void *v, const char *k) { return (void *)M1(ObjGet, v, k); }
static void *a_ObjGetLen(void *v, const char *k, size_t n) { return (void *)M2(ObjGetLen, v, k, (SZ)n); }
static int a_Type(void *v) {
  TYPEPTR t = M0(Type, v);
  return t ? (int)*t : 0;
}
static size_t a_SizeOf(void *v) { return (size_t)SIZEOF(v); }
static void *a_ArrayGet(void *v, size_t i) { return (void *)M1(ArrayGet, v, (SZ)i); }
static void a_SetNull(void *v) { M0(SetNull, v); }
static void a_SetBool(void *v, bool b) { M1(SetBool, v, b); }
static void a_SetArray(void *v) { M0(SetArray, v); }
static void a_SetObj(void *v) { M0(SetObj, v); }
#define S1(t, n) \
  static bool a_##n(void *v, t x) { return M1(n, v, x); }
#define S2(n) \
  static bool a_##n(void *v, const char *x, size_t l) { return M2(n, v, x, (SZ)l); }
S1(const char *, SetNumStrFast)
S1(const char *, SetNumStr)
S1(double, SetNum)
S1(double, SetDouble)
S1(int, SetInt)
S1(long, SetLong)
S1(long long, SetLongLong)
S1(const char *, SetStrFast)
S1(const char *, SetStr)
S1(const char *, SetStrEscape)
S1(const char *, SetKeyFast)
S1(const char *, SetKey)
S1(const char *, SetKeyEscape)
S1(const char *, ObjDel)
S2(SetNumStrLenFast)
S2(SetNumStrLen)
S2(SetStrLenFast)
S2(SetStrLen)
S2(SetStrLenEscape)
S2(SetKeyLenFast)
S2(SetKeyLen)
S2(SetKeyLenEscape)
static bool a_ArrayDel(void *v, size_t i) { return M1(ArrayDel, v, (SZ)i); }
#define B2(n) \
  static bool a_##n(void *v, void *w) { return M1(n, v, (V *)w); }
B2(SetFast)
B2(Set)
B2(ObjAddFast)
B2(ObjAdd)
B2(ArrayAddFast)
B2(ArrayAdd)
static long a_Balance(void) { return BALANCE; }
#ifndef COUNTERS
#define COUNTERS(o) false
#endif
static bool a_Counters(unsigned long long *o) { return COUNTERS(o); }
#ifdef SIBLING
static void *a_Sibling(void *v) { return SIBLING(v); }
#else
#define a_Sibling 0
#endif
#ifdef __cplusplus
extern "C"
#endif
const struct Api GLUE1(api_, API_NAME) = {
    STR1(API_NAME), a_NewAllocator, a_ReleaseAllocator, a_NewValue, a_ParseFast, a_ParseLen, a_Parse,
    a_Stringify, a_GetStrFast, a_GetUnEscapeStr, a_GetStr, a_GetNumFast, a_GetNumStr, a_GetNum,
    a_GetDouble, a_GetInt, a_GetLong, a_GetLongLong, a_GetBool, a_IsNull, a_GetKey, a_GetUnEscapeKey,
    a_GetKeyFast, a_ObjGet, a_ObjGetLen, a_Type, a_SizeOf, a_ArrayGet, a_Begin, a_Next, a_Copy, a_Move,
    a_SetNull, a_SetBool, a_SetNumStrFast, a_SetNumStrLenFast, a_SetNumStr, a_SetNumStrLen, a_SetNum,
    a_SetDouble, a_SetInt, a_SetLong, a_SetLongLong, a_SetStrFast, a_SetStrLenFast, a_SetStr, a_SetStrLen,
    a_SetStrEscape, a_SetStrLenEscape, a_SetKeyFast, a_SetKeyLenFast, a_SetKey, a_SetKeyLen,
    a_SetKeyEscape, a_SetKeyLenEscape, a_SetArray, a_SetObj, a_SetFast, a_Set, a_ObjAddFast, a_ObjAdd,
    a_ArrayAddFast, a_ArrayAdd, a_ArrayDel, a_ObjDel, a_Balance, 0, a_Sibling, a_Counters};
