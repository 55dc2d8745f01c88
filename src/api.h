/* The operations of zzzJSON as a table of functions, so that one harness can
   drive every build configuration and API surface. Only public API names of
   the library are used by the adapters. */
#ifndef VF_API_H
#define VF_API_H
#include <stdbool.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
struct Api {
  const char *name;
  void *(*NewAllocator)(void);
  void (*ReleaseAllocator)(void *);
  void *(*NewValue)(void *);
  bool (*ParseFast)(void *, const char *);
  bool (*ParseLen)(void *, const char *, size_t);
  bool (*Parse)(void *, const char *);
  const char *(*Stringify)(void *);
  const char *(*GetStrFast)(void *, size_t *);
  const char *(*GetUnEscapeStr)(void *);
  const char *(*GetStr)(void *);
  const char *(*GetNumFast)(void *, size_t *);
  const char *(*GetNumStr)(void *);
  const double *(*GetNum)(void *);
  const double *(*GetDouble)(void *);
  const int *(*GetInt)(void *);
  const long *(*GetLong)(void *);
  const long long *(*GetLongLong)(void *);
  int (*GetBool)(void *); /* -1: null pointer */
  bool (*IsNull)(void *);
  const char *(*GetKey)(void *);
  const char *(*GetUnEscapeKey)(void *);
  const char *(*GetKeyFast)(void *, size_t *);
  void *(*ObjGet)(void *, const char *);
  void *(*ObjGetLen)(void *, const char *, size_t);
  int (*Type)(void *); /* 0: null pointer; else 1..6 as zj_JSONType */
  size_t (*SizeOf)(void *);
  void *(*ArrayGet)(void *, size_t);
  void *(*Begin)(void *);
  void *(*Next)(void *);
  void *(*Copy)(void *);
  bool (*Move)(void *);
  void (*SetNull)(void *);
  void (*SetBool)(void *, bool);
  bool (*SetNumStrFast)(void *, const char *);
  bool (*SetNumStrLenFast)(void *, const char *, size_t);
  bool (*SetNumStr)(void *, const char *);
  bool (*SetNumStrLen)(void *, const char *, size_t);
  bool (*SetNum)(void *, double);
  bool (*SetDouble)(void *, double);
  bool (*SetInt)(void *, int);
  bool (*SetLong)(void *, long);
  bool (*SetLongLong)(void *, long long);
  bool (*SetStrFast)(void *, const char *);
  bool (*SetStrLenFast)(void *, const char *, size_t);
  bool (*SetStr)(void *, const char *);
  bool (*SetStrLen)(void *, const char *, size_t);
  bool (*SetStrEscape)(void *, const char *);
  bool (*SetStrLenEscape)(void *, const char *, size_t);
  bool (*SetKeyFast)(void *, const char *);
  bool (*SetKeyLenFast)(void *, const char *, size_t);
  bool (*SetKey)(void *, const char *);
  bool (*SetKeyLen)(void *, const char *, size_t);
  bool (*SetKeyEscape)(void *, const char *);
  bool (*SetKeyLenEscape)(void *, const char *, size_t);
  void (*SetArray)(void *);
  void (*SetObj)(void *);
  bool (*SetFast)(void *, void *);
  bool (*Set)(void *, void *);
  bool (*ObjAddFast)(void *, void *);
  bool (*ObjAdd)(void *, void *);
  bool (*ArrayAddFast)(void *, void *);
  bool (*ArrayAdd)(void *, void *);
  bool (*ArrayDel)(void *, size_t);
  bool (*ObjDel)(void *, const char *);
  long (*Balance)(void); /* allocations minus releases in accounting mode, else 0 */
  int setTakesKey;       /* beta: Set onto a keyed value takes over the key */
  void *(*Sibling)(void *); /* new empty value in the allocator of a value, or 0 */
  bool (*Counters)(unsigned long long *); /* accounting mode: allocations, releases, bytes requested so far; else false */
};
#ifdef __cplusplus
}
#endif
#endif
