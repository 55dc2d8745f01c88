#include "race.h"
#include "race_wrap.h"
#undef memcpy
#undef memmove
#undef memset
#undef memcmp
#undef memchr
#undef strlen
#undef strnlen
#undef strcmp
#undef strncmp
#undef strcpy
#undef strncpy
#undef strcat
#undef strchr
#undef strstr
#undef strtok
#undef atoi
#undef atol
#undef atoll
#undef atof
#undef strtod
#undef strtol
#undef strtoll
#undef strtoul
#undef snprintf
#undef sprintf
#include <array>
#include <map>
#include <semaphore.h>
#include <unistd.h>
#include <unordered_map>
extern "C" char __data_start, _end;
namespace {
bool on = false;         // instrumentation active: the library runs in a controlled thread
int cur = 0;             // running thread
thread_local int depth = 0; // instrumented functions entered: > 0 inside the library
bool done[2];
sem_t sem[2], mainSem;
pthread_t th[2];
bool started = false;
const std::function<void(int)> *body;
const RaceRun *plan;
size_t nextPre, points, accesses, sinceSwitch, total;
bool stuck, newConflict, fullLog = false;
std::unordered_map<uintptr_t, uint8_t> foot; // 8-byte word -> 1 r0, 2 w0, 4 r1, 8 w1
std::set<uintptr_t> conflicts;
struct Undo { char *p; uint64_t v; };
std::vector<Undo> undo;
uintptr_t tokState;      // stands for hidden state inside the C library
// Data races on the shared locations: last accesses per byte, as clocks of the threads
struct Shadow { uint32_t w[2][2], r[2][2]; }; // [thread][atomic]
std::unordered_map<uintptr_t, Shadow> shadow;
std::unordered_map<uintptr_t, std::array<uint32_t, 2>> syncs; // clocks released through a lock or an atomic
uint32_t vc[2][2];
char raceMsg[200];
void acquire(const volatile void *o) { auto it = syncs.find((uintptr_t)o); if (it != syncs.end()) for (int k = 0; k < 2; ++k) if (it->second[k] > vc[cur][k]) vc[cur][k] = it->second[k]; }
void release(const volatile void *o) { auto &x = syncs[(uintptr_t)o]; for (int k = 0; k < 2; ++k) if (vc[cur][k] > x[k]) x[k] = vc[cur][k]; ++vc[cur][cur]; }
bool isGlobal(uintptr_t a) { return a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end; }
int laneOf(uintptr_t a) {
  char *lo, *hi;
  for (int l = 0; l < 2; ++l) if (vf_lane_range(l, &lo, &hi) && a >= (uintptr_t)lo && a < (uintptr_t)hi) return l;
  return -1;
}
void switchTo(int t) {
  int me = cur;
  cur = t;
  vf_lane = t;
  sinceSwitch = 0;
  sem_post(&sem[t]);
  while (sem_wait(&sem[me])) {}
}
void race(uintptr_t a, bool w) {
  if (!raceMsg[0]) snprintf(raceMsg, sizeof raceMsg, "data race: both threads access %s without synchronisation, one of them writing", isGlobal(a) ? "the same static data" : "the same heap memory");
  (void)w;
}
void access(uintptr_t a, size_t n, bool w, bool atomic = false) {
  if (!on || !n) return;
  int me = cur;
  bool g = isGlobal(a);
  if (!g) {
    int l = laneOf(a);
    if (l < 0 || (l == me && !fullLog)) return;
  }
  ++accesses;
  uintptr_t w0 = a >> 3, w1 = (a + n - 1) >> 3;
  bool point = false;
  for (uintptr_t x = w0; x <= w1; ++x) {
    uint8_t &f = foot[x];
    f |= (uint8_t)((w ? 2 : 1) << (me * 2));
    if ((f & 3) && (f & 12) && (f & 10) && !conflicts.count(x)) { conflicts.insert(x); newConflict = true; }
    if (!g && !fullLog) { fullLog = true; newConflict = true; } // memory of the other thread: watch that too
    point |= conflicts.count(x) != 0;
  }
  const uintptr_t a0 = a;
  if (point && !stuck) {
    size_t i = points++;
    if (++total > 2000000) { stuck = true; }
    if (nextPre < plan->preempt.size() && plan->preempt[nextPre] == i) {
      ++nextPre;
      if (!done[1 - me]) switchTo(1 - me);
    } else if (++sinceSwitch > 20000 && !done[1 - me]) switchTo(1 - me); // fairness for spinning
  }
  if (point) for (uintptr_t b = a0; b < a0 + n; ++b) {
    if (!conflicts.count(b >> 3)) continue;
    Shadow &h = shadow[b];
    int u = 1 - me;
    for (int at = 0; at < (atomic ? 1 : 2); ++at)
      if (h.w[u][at] > vc[me][u] || (w && h.r[u][at] > vc[me][u])) race(b, w);
    (w ? h.w : h.r)[me][atomic] = vc[me][me];
  }
  if (w && g) for (uintptr_t x = w0; x <= w1; ++x) { uint64_t v; memcpy(&v, (void *)(x << 3), 8); undo.push_back({(char *)(x << 3), v}); }
}
inline void R(const void *p, size_t n) { access((uintptr_t)p, n, false); }
inline void W(const void *p, size_t n) { access((uintptr_t)p, n, true); }
void *threadMain(void *arg) {
  int me = (int)(intptr_t)arg;
  for (;;) {
    while (sem_wait(&sem[me])) {}
    (*body)(me);
    done[me] = true;
    if (!done[1 - me]) { cur = 1 - me; vf_lane = cur; sinceSwitch = 0; sem_post(&sem[1 - me]); }
    else sem_post(&mainSem);
  }
  return nullptr;
}
} // namespace
void raceReset() { conflicts.clear(); foot.clear(); fullLog = false; }
size_t raceConflicts() { return conflicts.size(); }
Str raceWhere() {
  Str s;
  char b[64];
  int k = 0;
  for (uintptr_t x : conflicts) { if (++k > 6) { s += " ..."; break; } snprintf(b, sizeof b, " %s+0x%zx", isGlobal(x << 3) ? "static data" : "heap", isGlobal(x << 3) ? (size_t)((x << 3) - (uintptr_t)&__data_start) : (size_t)(x << 3)); s += b; }
  return s;
}
RaceResult raceRun(const std::function<void(int)> &f, const RaceRun &r) {
  if (!started) {
    started = true;
    sem_init(&sem[0], 0, 0); sem_init(&sem[1], 0, 0); sem_init(&mainSem, 0, 0);
    for (int i = 0; i < 2; ++i) if (pthread_create(&th[i], nullptr, threadMain, (void *)(intptr_t)i)) { perror("thread"); _exit(9); }
  }
  body = &f; plan = &r;
  nextPre = points = accesses = sinceSwitch = total = 0;
  stuck = newConflict = false;
  done[0] = done[1] = false;
  undo.clear();
  shadow.clear();
  syncs.clear();
  vc[0][0] = vc[1][1] = 1;
  vc[0][1] = vc[1][0] = 0;
  raceMsg[0] = 0;
  cur = r.first; vf_lane = cur;
  on = true;
  sem_post(&sem[cur]);
  while (sem_wait(&mainSem)) {}
  on = false;
  for (size_t i = undo.size(); i-- > 0;) memcpy(undo[i].p, &undo[i].v, 8);
  RaceResult q;
  q.points = points; q.accesses = accesses; q.stuck = stuck; q.newConflict = newConflict;
  q.race = raceMsg;
  return q;
}
// ---------------------------------------------------------------- instrumentation entry points
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) { ++depth; }
void __tsan_func_exit() { --depth; }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
  void __tsan_read##n(void *p) { R(p, n); } void __tsan_write##n(void *p) { W(p, n); } \
  void __tsan_unaligned_read##n(void *p) { R(p, n); } void __tsan_unaligned_write##n(void *p) { W(p, n); } \
  void __tsan_read_write##n(void *p) { R(p, n); W(p, n); } void __tsan_unaligned_read_write##n(void *p) { R(p, n); W(p, n); } \
  void __tsan_volatile_read##n(void *p) { R(p, n); } void __tsan_volatile_write##n(void *p) { W(p, n); } \
  void __tsan_unaligned_volatile_read##n(void *p) { R(p, n); } void __tsan_unaligned_volatile_write##n(void *p) { W(p, n); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void **p, void *) { W(p, 8); }
void __tsan_vptr_read(void **p) { R(p, 8); }
void __tsan_read_range(void *p, size_t n) { R(p, n); }
void __tsan_write_range(void *p, size_t n) { W(p, n); }
void *__tsan_memcpy(void *d, const void *s, size_t n) { R(s, n); W(d, n); return memcpy(d, s, n); }
void *__tsan_memmove(void *d, const void *s, size_t n) { R(s, n); W(d, n); return memmove(d, s, n); }
void *__tsan_memset(void *d, int c, size_t n) { W(d, n); return memset(d, c, n); }
// every atomic operation is taken to synchronise (relaxed ones too)
static void AR(const volatile void *p, size_t n) { access((uintptr_t)p, n, false, true); if (on) acquire(p); }
static void AW(const volatile void *p, size_t n) { access((uintptr_t)p, n, true, true); if (on) { acquire(p); release(p); } }
#define AT(bits, T) \
  T __tsan_atomic##bits##_load(const volatile T *p, int) { AR(p, sizeof(T)); return *p; } \
  void __tsan_atomic##bits##_store(volatile T *p, T v, int) { AW(p, sizeof(T)); *p = v; } \
  T __tsan_atomic##bits##_exchange(volatile T *p, T v, int) { AW(p, sizeof(T)); T o = *p; *p = v; return o; } \
  T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int) { AW(p, sizeof(T)); T o = *p; *p = o + v; return o; } \
  T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int) { AW(p, sizeof(T)); T o = *p; *p = o - v; return o; } \
  T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int) { AW(p, sizeof(T)); T o = *p; *p = o & v; return o; } \
  T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int) { AW(p, sizeof(T)); T o = *p; *p = o | v; return o; } \
  T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int) { AW(p, sizeof(T)); T o = *p; *p = o ^ v; return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { AW(p, sizeof(T)); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { AW(p, sizeof(T)); if (*p == *e) { *p = v; return 1; } *e = *p; return 0; } \
  T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int, int) { AW(p, sizeof(T)); T o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
// ---------------------------------------------------------------- C library
void *race_memcpy(void *d, const void *s, size_t n) { R(s, n); W(d, n); return memcpy(d, s, n); }
void *race_memmove(void *d, const void *s, size_t n) { R(s, n); W(d, n); return memmove(d, s, n); }
void *race_memset(void *d, int c, size_t n) { W(d, n); return memset(d, c, n); }
int race_memcmp(const void *a, const void *b, size_t n) { R(a, n); R(b, n); return memcmp(a, b, n); }
void *race_memchr(const void *a, int c, size_t n) { R(a, n); return (void *)memchr(a, c, n); }
static void S(const char *s) { R(s, strlen(s) + 1); }
size_t race_strlen(const char *s) { S(s); return strlen(s); }
size_t race_strnlen(const char *s, size_t n) { R(s, strnlen(s, n)); return strnlen(s, n); }
int race_strcmp(const char *a, const char *b) { S(a); S(b); return strcmp(a, b); }
int race_strncmp(const char *a, const char *b, size_t n) { R(a, strnlen(a, n)); R(b, strnlen(b, n)); return strncmp(a, b, n); }
char *race_strcpy(char *d, const char *s) { S(s); W(d, strlen(s) + 1); return strcpy(d, s); }
char *race_strncpy(char *d, const char *s, size_t n) { R(s, strnlen(s, n)); W(d, n); return strncpy(d, s, n); }
char *race_strcat(char *d, const char *s) { S(s); S(d); W(d + strlen(d), strlen(s) + 1); return strcat(d, s); }
char *race_strchr(const char *s, int c) { S(s); return (char *)strchr(s, c); }
char *race_strstr(const char *a, const char *b) { S(a); S(b); return (char *)strstr(a, b); }
char *race_strtok(char *s, const char *d) { W(&tokState, 8); if (s) W(s, strlen(s) + 1); return strtok(s, d); }
int race_atoi(const char *s) { S(s); return atoi(s); }
long race_atol(const char *s) { S(s); return atol(s); }
long long race_atoll(const char *s) { S(s); return atoll(s); }
double race_atof(const char *s) { S(s); return atof(s); }
double race_strtod(const char *s, char **e) { S(s); if (e) W(e, 8); return strtod(s, e); }
long race_strtol(const char *s, char **e, int b) { S(s); if (e) W(e, 8); return strtol(s, e, b); }
long long race_strtoll(const char *s, char **e, int b) { S(s); if (e) W(e, 8); return strtoll(s, e, b); }
unsigned long race_strtoul(const char *s, char **e, int b) { S(s); if (e) W(e, 8); return strtoul(s, e, b); }
static int fmt(char *d, size_t n, const char *f, va_list ap) {
  static thread_local char buf[65536];
  int k = vsnprintf(buf, sizeof buf, f, ap);
  if (n) {
    size_t m = (size_t)k + 1 < n ? (size_t)k + 1 : n;
    W(d, m);
    memcpy(d, buf, m);
    d[m - 1] = 0;
  }
  return k;
}
int race_snprintf(char *d, size_t n, const char *f, ...) { va_list ap; va_start(ap, f); int k = fmt(d, n, f, ap); va_end(ap); return k; }
int race_sprintf(char *d, const char *f, ...) { va_list ap; va_start(ap, f); int k = fmt(d, 60000, f, ap); va_end(ap); return k; }
// locks (linked with --wrap): waiting yields to the other thread
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_mutex_unlock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
  if (!on || depth <= 0) return __real_pthread_mutex_lock(m);
  AW(m, 8);
  int spins = 0;
  while (pthread_mutex_trylock(m)) { if (done[1 - cur] || ++spins > 100000) { stuck = true; return 0; } switchTo(1 - cur); }
  acquire(m);
  return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { if (on && depth > 0) AW(m, 8); return __real_pthread_mutex_unlock(m); }
// initialisation of function statics in C++, and pthread_once
int __wrap___cxa_guard_acquire(uint64_t *g) {
  char *p = (char *)g;
  if (!on || depth <= 0) return !*p;
  AW(p, 1);
  AW(p + 1, 1);
  int spins = 0;
  while (!p[0] && p[1]) { if (done[1 - cur] || ++spins > 100000) { stuck = true; return 0; } switchTo(1 - cur); }
  acquire(p);
  if (p[0]) return 0;
  p[1] = 1;
  return 1;
}
void __wrap___cxa_guard_release(uint64_t *g) {
  char *p = (char *)g;
  if (on && depth > 0) AW(p, 2);
  p[0] = 1;
  p[1] = 0;
}
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) {
  char *p = (char *)o;
  if (on) AW(p, 2);
  int spins = 0;
  while (!p[0] && p[1]) { if (done[1 - cur] || ++spins > 100000) { stuck = true; return 0; } switchTo(1 - cur); }
  if (on) acquire(p);
  if (p[0]) return 0;
  p[1] = 1;
  f();
  if (on) AW(p, 2);
  p[0] = 1;
  p[1] = 0;
  return 0;
}
}
