#include "vf_hook.h"
#undef malloc
#undef free
static void *(*hm)(size_t) = malloc;
static void (*hf)(void *) = free;
static void *(*hr)(void *, size_t);
void vf_sethooks(void *m, void *f, void *r) { hm = (void *(*)(size_t))m; hf = (void (*)(void *))f; hr = (void *(*)(void *, size_t))r; }
void *vf_hook_malloc(size_t n) { return hm(n); }
void vf_hook_free(void *p) { hf(p); }
void *vf_hook_calloc(size_t a, size_t b) { void *p = hm(a * b); memset(p, 0, a * b); return p; }
void *vf_hook_realloc(void *p, size_t n) { return hr(p, n); }
char *vf_hook_strdup(const char *s) { size_t n = strlen(s) + 1; return (char *)memcpy(hm(n), s, n); }
