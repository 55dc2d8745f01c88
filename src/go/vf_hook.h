/* Included before everything else of the package: its C memory goes through the explorer. */
#ifndef VF_HOOK_H
#define VF_HOOK_H
#include <stdlib.h>
#include <string.h>
extern void *vf_hook_malloc(size_t);
extern void vf_hook_free(void *);
extern void *vf_hook_calloc(size_t, size_t);
extern void *vf_hook_realloc(void *, size_t);
extern char *vf_hook_strdup(const char *);
#define malloc vf_hook_malloc
#define free vf_hook_free
#define calloc vf_hook_calloc
#define realloc vf_hook_realloc
#define strdup vf_hook_strdup
#endif
