/* C surfaces: SURFACE 0 long names, 1 short names. Also compiled as C++ with
   zj_CPLUSPLUS 0: the C interface in a C++ program. */
#include <stdbool.h>
#include <stddef.h>
#include "api.h"
#if SURFACE == 0
#define zj_API_MODE 0
#endif
#include "mode3.h"
#include "zzzjson.h"
#if SURFACE == 0
#define V zj_Value
#define SZ zj_Size
#define F(n) zj_##n
#define ALLOC zj_Allocator
#define TYPEPTR const zj_JSONType *
#else
#define V Value
#define SZ Size
#define F(n) n
#define ALLOC Allocator
#define TYPEPTR const JSONType *
#endif
#define M0(n, v) F(n)((V *)(v))
#define M1(n, v, a) F(n)((V *)(v), a)
#define M2(n, v, a, b) F(n)((V *)(v), a, b)
#define NEWALLOC F(NewAllocator)()
#define RELALLOC(a) F(ReleaseAllocator)((ALLOC *)(a))
#define NEWVALUE(a) F(NewValue)((ALLOC *)(a))
#define SIZEOF(v) M0(SizeOf, v)
#if zj_MEMORY_MODE == 2
#define BALANCE ((long)AllocMemoryCount - (long)FreeMemoryCount)
#define COUNTERS(o) (o[0] = AllocMemoryCount, o[1] = FreeMemoryCount, o[2] = AllocMemorySize, true)
#elif defined(MEMMODE3)
#define BALANCE M3_BALANCE
#define COUNTERS(o) M3_COUNTERS(o)
#else
#define BALANCE 0
#endif
#include "adapter.inc"
