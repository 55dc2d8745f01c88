#include "work.h"
#include <cstdlib>
uint64_t vf_work = 0, vf_work_limit = ~0ull;
void (*vf_work_over)() = nullptr;
static inline void add(size_t n) {
  vf_work += n;
  if (vf_work > vf_work_limit) { vf_work_limit = ~0ull; vf_work_over(); }
}
extern "C" void __sanitizer_cov_trace_pc() { add(1); }
#define REAL(r, n, args) extern "C" r __real_##n args; extern "C" r __wrap_##n args
static size_t nlen(const char *a, size_t n) { size_t i = 0; while (i < n && a[i]) ++i; return i; }
static size_t same(const char *a, const char *b, size_t n) { size_t i = 0; while (i < n && a[i] && a[i] == b[i]) ++i; return i; }
REAL(size_t, strlen, (const char *a)) { size_t n = __real_strlen(a); add(n); return n; }
REAL(size_t, strnlen, (const char *a, size_t m)) { size_t n = __real_strnlen(a, m); add(n); return n; }
REAL(void *, memcpy, (void *a, const void *b, size_t n)) { add(n); return __real_memcpy(a, b, n); }
REAL(void *, memmove, (void *a, const void *b, size_t n)) { add(n); return __real_memmove(a, b, n); }
REAL(void *, memset, (void *a, int c, size_t n)) { add(n); return __real_memset(a, c, n); }
REAL(int, memcmp, (const void *a, const void *b, size_t n)) { add(n); return __real_memcmp(a, b, n); }
REAL(void *, memchr, (const void *a, int c, size_t n)) { void *r = __real_memchr(a, c, n); add(r ? (size_t)((char *)r - (char *)a) : n); return r; }
REAL(int, strcmp, (const char *a, const char *b)) { add(same(a, b, ~size_t(0))); return __real_strcmp(a, b); }
REAL(int, strncmp, (const char *a, const char *b, size_t n)) { add(same(a, b, n)); return __real_strncmp(a, b, n); }
REAL(char *, strchr, (const char *a, int c)) { char *r = __real_strchr(a, c); add(r ? (size_t)(r - a) : nlen(a, ~size_t(0))); return r; }
REAL(char *, strcpy, (char *a, const char *b)) { add(nlen(b, ~size_t(0))); return __real_strcpy(a, b); }
REAL(char *, strncpy, (char *a, const char *b, size_t n)) { add(n); return __real_strncpy(a, b, n); }
REAL(char *, strcat, (char *a, const char *b)) { add(nlen(a, ~size_t(0)) + nlen(b, ~size_t(0))); return __real_strcat(a, b); }
REAL(size_t, strspn, (const char *a, const char *b)) { size_t n = __real_strspn(a, b); add(n); return n; }
REAL(size_t, strcspn, (const char *a, const char *b)) { size_t n = __real_strcspn(a, b); add(n); return n; }
#define NUM(r, n, args, call) REAL(r, n, args) { char *e; r v = call; add((size_t)(e - a)); if (end) *end = e; return v; }
NUM(double, strtod, (const char *a, char **end), __real_strtod(a, &e))
NUM(long, strtol, (const char *a, char **end, int b), __real_strtol(a, &e, b))
NUM(long long, strtoll, (const char *a, char **end, int b), __real_strtoll(a, &e, b))
NUM(long, __isoc23_strtol, (const char *a, char **end, int b), __real___isoc23_strtol(a, &e, b))
NUM(long long, __isoc23_strtoll, (const char *a, char **end, int b), __real___isoc23_strtoll(a, &e, b))
REAL(double, atof, (const char *a)) { return __wrap_strtod(a, nullptr); }
REAL(int, atoi, (const char *a)) { return (int)__wrap_strtol(a, nullptr, 10); }
REAL(long, atol, (const char *a)) { return __wrap_strtol(a, nullptr, 10); }
REAL(long long, atoll, (const char *a)) { return __wrap_strtoll(a, nullptr, 10); }
