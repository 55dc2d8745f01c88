// C++ surfaces: 2 namespace functions, 3 members + heap allocator,
// 4 members + Allocator object (as on the stack), 5 zzzjson.hpp classes,
// 6 long names inside the namespace.
#include <new>
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "api.h"
#include "mode3.h"
#ifdef NSTAG
#define zj NSTAG
#define GLUEX2(a, b) a##b
#define GLUEX1(a, b) GLUEX2(a, b)
#define zzzjson GLUEX1(wrap_, NSTAG)
#endif
#if SURFACE == 5
#include "zzzjson.hpp"
#else
#include "zzzjson.h"
#endif
#define SZ zj::Size
#define TYPEPTR const zj::JSONType *
#if SURFACE == 2 || SURFACE == 6
#define V zj::zj_Value
#if SURFACE == 2
#define F(n) zj::n
#else
#define F(n) zj::zj_##n
#undef TYPEPTR
#define TYPEPTR const zj::zj_JSONType *
#endif
#define M0(n, v) F(n)((V *)(v))
#define M1(n, v, a) F(n)((V *)(v), a)
#define M2(n, v, a, b) F(n)((V *)(v), a, b)
#define NEWALLOC F(NewAllocator)()
#define RELALLOC(a) F(ReleaseAllocator)((zj::zj_Allocator *)(a))
#define NEWVALUE(a) F(NewValue)((zj::zj_Allocator *)(a))
#define SIZEOF(v) M0(SizeOf, v)
#else
#if SURFACE == 5
#define V zzzjson::Value
#define SIZEOF(v) M0(Size, v)
#define AOBJ zzzjson::Allocator
#else
#define V zj::Value
#define SIZEOF(v) M0(SizeOf, v)
#define AOBJ zj::Allocator
#endif
#define M0(n, v) ((V *)(v))->n()
#define M1(n, v, a) ((V *)(v))->n(a)
#define M2(n, v, a, b) ((V *)(v))->n(a, b)
#define NEWVALUE(a) V::NewValue((AOBJ *)(a))
#if SURFACE == 3
#define NEWALLOC zj::NewAllocator()
#define RELALLOC(a) zj::ReleaseAllocator((AOBJ *)(a))
#else
// an Allocator object in storage of its own, destroyed explicitly
static void *newObj() {
  void *mem = ::operator new(sizeof(AOBJ));
  return new (mem) AOBJ();
}
typedef AOBJ AObj;
static void delObj(void *a) {
  ((AObj *)a)->~AObj();
  ::operator delete(a);
}
#define NEWALLOC newObj()
#define RELALLOC(a) delObj(a)
#endif
#endif
#if defined(zj_MEMORY_MODE) && zj_MEMORY_MODE == 2
#define BALANCE ((long)zj::AllocMemoryCount - (long)zj::FreeMemoryCount)
#define COUNTERS(o) (o[0] = zj::AllocMemoryCount, o[1] = zj::FreeMemoryCount, o[2] = zj::AllocMemorySize, true)
#elif defined(MEMMODE3)
#define BALANCE M3_BALANCE
#define COUNTERS(o) M3_COUNTERS(o)
#else
#define BALANCE 0
#endif
#if SURFACE == 5
#define SIBLING(v) ((void *)((V *)(v))->NewValue())
#elif SURFACE == 3 || SURFACE == 4
#define SIBLING(v) ((void *)V::NewValue(((V *)(v))->Allocator()))
#endif
#include "adapter.inc"
