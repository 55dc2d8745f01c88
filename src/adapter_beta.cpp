// beta/zzzjson_beta.h, SURFACE 0 long names, 1 short names.
#include <malloc.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "api.h"
#include "mode3.h"
namespace NSTAG {
#if SURFACE == 0
#define z_SHORT_API 0
#endif
#include "beta/zzzjson_beta.h"
}
using namespace NSTAG;
#define STR2(x) #x
#define STR1(x) STR2(x)
#define GLUE2(a, b) a##b
#define GLUE1(a, b) GLUE2(a, b)
typedef struct z_Value V;
#if SURFACE == 0
#define F(n) z_Value##n
static void *a_NewAllocator(void) { return z_AllocatorNew(); }
static void a_ReleaseAllocator(void *a) { z_AllocatorRelease((struct z_Allocator *)a); }
static void *a_NewValue(void *a) { return z_ValueNew((struct z_Allocator *)a); }
#else
#define F(n) NSTAG::n
static void *a_NewAllocator(void) { return NewAllocator(); }
static void a_ReleaseAllocator(void *a) { ReleaseAllocator((Allocator *)a); }
static void *a_NewValue(void *a) { return NewValue((Allocator *)a); }
#endif
#define PTR0(t, n, m) static t a_##n(void *v) { return (t)F(m)((V *)v); }
PTR0(const char *, Stringify, Stringify)
PTR0(const char *, GetUnEscapeStr, GetUnEscapeString)
PTR0(const char *, GetStr, GetString)
PTR0(const char *, GetNumStr, GetNumStr)
PTR0(const double *, GetNum, GetNum)
PTR0(const char *, GetKey, GetKey)
PTR0(const char *, GetUnEscapeKey, GetUnEscapeKey)
PTR0(void *, Begin, Begin)
PTR0(void *, Next, Next)
PTR0(void *, Copy, Copy)
PTR0(size_t, SizeOf, Size)
static bool a_IsNull(void *v) { return F(IsNull)((V *)v) != 0; }
static bool a_Move(void *v) { return F(Move)((V *)v) != 0; }
#define LENG(n, m) static const char *a_##n(void *v, size_t *l) { z_SIZE k = (z_SIZE)*l; const char *r = F(m)((V *)v, &k); *l = k; return r; }
LENG(GetStrFast, GetStringFast)
LENG(GetNumFast, GetNumFast)
LENG(GetKeyFast, GetKeyFast)
static int a_GetBool(void *v) { const z_BOOL *b = F(GetBool)((V *)v); return b ? (*b ? 1 : 0) : -1; }
static int a_Type(void *v) { const z_JSONType *t = F(Type)((V *)v); return t ? (int)*t : 0; }
static void *a_ObjGet(void *v, const char *k) { return F(ObjGet)((V *)v, k); }
static void *a_ObjGetLen(void *v, const char *k, size_t n) { return F(ObjGetLen)((V *)v, k, (z_SIZE)n); }
static void *a_ArrayGet(void *v, size_t i) { return F(ArrayGet)((V *)v, (z_SIZE)i); }
static void a_SetNull(void *v) { F(SetNull)((V *)v); }
static void a_SetBool(void *v, bool b) { F(SetBool)((V *)v, b ? 1 : 0); }
static void a_SetArray(void *v) { F(SetArray)((V *)v); }
static void a_SetObj(void *v) { F(SetObj)((V *)v); }
#define S1(t, n) static bool a_##n(void *v, t x) { return F(n)((V *)v, x) != 0; }
#define S2(n) static bool a_##n(void *v, const char *x, size_t l) { return F(n)((V *)v, x, (z_SIZE)l) != 0; }
S1(const char *, ParseFast)
S1(const char *, Parse)
S2(ParseLen)
S1(const char *, SetNumStrFast)
S1(const char *, SetNumStr)
S1(double, SetNum)
S1(const char *, SetStrFast)
S1(const char *, SetStr)
S1(const char *, SetKeyFast)
S1(const char *, SetKey)
S1(const char *, ObjDel)
S2(SetNumStrLenFast)
S2(SetNumStrLen)
S2(SetStrLenFast)
S2(SetStrLen)
S2(SetKeyLenFast)
S2(SetKeyLen)
static bool a_ArrayDel(void *v, size_t i) { return F(ArrayDel)((V *)v, (z_SIZE)i) != 0; }
#define B2(n) static bool a_##n(void *v, void *w) { return F(n)((V *)v, (V *)w) != 0; }
B2(SetFast)
B2(Set)
B2(ObjAddFast)
B2(ObjAdd)
B2(ArrayAddFast)
B2(ArrayAdd)
#if defined(z_MEMORY_MODE) && z_MEMORY_MODE == 2
static long a_Balance(void) { return (long)AllocMemoryCount - (long)FreeMemoryCount; }
static bool a_Counters(unsigned long long *o) { return o[0] = AllocMemoryCount, o[1] = FreeMemoryCount, o[2] = AllocMemorySize, true; }
#elif defined(MEMMODE3)
static long a_Balance(void) { return M3_BALANCE; }
static bool a_Counters(unsigned long long *o) { return M3_COUNTERS(o); }
#else
static long a_Balance(void) { return 0; }
static bool a_Counters(unsigned long long *) { return false; }
#endif
extern "C" const struct Api GLUE1(api_, API_NAME) = {
    STR1(API_NAME), a_NewAllocator, a_ReleaseAllocator, a_NewValue, a_ParseFast, a_ParseLen, a_Parse,
    a_Stringify, a_GetStrFast, a_GetUnEscapeStr, a_GetStr, a_GetNumFast, a_GetNumStr, a_GetNum,
    0, 0, 0, 0, a_GetBool, a_IsNull, a_GetKey, a_GetUnEscapeKey,
    a_GetKeyFast, a_ObjGet, a_ObjGetLen, a_Type, a_SizeOf, a_ArrayGet, a_Begin, a_Next, a_Copy, a_Move,
    a_SetNull, a_SetBool, a_SetNumStrFast, a_SetNumStrLenFast, a_SetNumStr, a_SetNumStrLen, a_SetNum,
    0, 0, 0, 0, a_SetStrFast, a_SetStrLenFast, a_SetStr, a_SetStrLen,
    0, 0, a_SetKeyFast, a_SetKeyLenFast, a_SetKey, a_SetKeyLen,
    0, 0, a_SetArray, a_SetObj, a_SetFast, a_Set, a_ObjAddFast, a_ObjAdd,
    a_ArrayAddFast, a_ArrayAdd, a_ArrayDel, a_ObjDel, a_Balance, 1, 0, a_Counters};
