#include "vf.h"
#include <clocale>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <algorithm>
#include <ctime>
#include <map>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#ifndef MAP_NORESERVE
#define MAP_NORESERVE 0
#endif

#ifdef VF_MSAN
#include <sanitizer/allocator_interface.h>
#include <sanitizer/msan_interface.h>
extern "C" const char *__msan_default_options() { return "poison_in_malloc=0:poison_in_free=0:exit_code=77"; }
#endif
// ---------------------------------------------------------------- memory
extern "C" void *__real_malloc(size_t);
extern "C" void __real_free(void *);
extern "C" void *__real_realloc(void *, size_t);
extern "C" void *__real_calloc(size_t, size_t);
namespace {
struct Blk {
  size_t size;
  uint32_t magic, state; // state 1 live, 2 freed
  Blk *prev;
  size_t pad;
};
const uint32_t MAGIC = 0x5eedb10c;
const size_t TAIL = 32;
int mode = 0;
uint8_t fillByte = 0xA5;
char *region = nullptr, *cur = nullptr;
const size_t REGION = size_t(1) << 33;
Blk *last = nullptr;
size_t live = 0;
char memMsg[200];
bool memBad = false;
void bad(const char *m) {
  if (!memBad) snprintf(memMsg, sizeof memMsg, "%s", m);
  memBad = true;
}
char *high = nullptr;
const size_t LANE = size_t(1) << 30;
char *lanes = nullptr, *lcur[2];
} // namespace
int vf_lane = 0;
unsigned long long vf_count[3];
bool vf_lane_range(int l, char **lo, char **hi) { *lo = lanes + l * LANE; *hi = *lo + LANE; return lanes != nullptr; }
extern "C" void *__wrap_malloc(size_t n) {
  if (mode) { ++vf_count[0]; vf_count[2] += n; }
#ifdef VF_PLAIN
  void *r = __real_malloc(n);
  if (mode) {
    ++live;
#ifdef VF_MSAN
    __msan_allocated_memory(r, n);
#endif
  }
  return r;
#else
  if (mode == 0) return __real_malloc(n);
  if (n > (size_t(3) << 30)) {
    bad("absurd allocation size requested");
    fprintf(stderr, "absurd allocation of %zu bytes\n", n);
    abort();
  }
  if (mode == 2) {
    Blk *b = (Blk *)__real_malloc(sizeof(Blk) + n + TAIL);
    if (!b) abort();
    b->size = n; b->magic = MAGIC; b->state = 1; b->prev = nullptr; b->pad = 2;
    memset((char *)(b + 1) + n, 0xC5, TAIL);
    ++live;
    return b + 1;
  }
  size_t tot = (sizeof(Blk) + n + TAIL + 15) & ~size_t(15);
  if (mode == 3) { // an arena for each of two threads
    Blk *b = (Blk *)lcur[vf_lane];
    lcur[vf_lane] += tot;
    if (lcur[vf_lane] > lanes + (vf_lane + 1) * LANE) { bad("memory use out of bounds"); abort(); }
    b->size = n; b->magic = MAGIC; b->state = 1; b->prev = last; b->pad = 1;
    last = b;
    memset(b + 1, fillByte, n);
    memset((char *)(b + 1) + n, 0xC5, tot - sizeof(Blk) - n);
    ++live;
    return b + 1;
  }
  if (cur + tot > region + REGION) { bad("memory use out of bounds"); abort(); }
  Blk *b = (Blk *)cur;
  cur += tot;
  if (cur > high) high = cur;
  b->size = n; b->magic = MAGIC; b->state = 1; b->prev = last; b->pad = 1;
  last = b;
  memset(b + 1, fillByte, n);
  memset((char *)(b + 1) + n, 0xC5, tot - sizeof(Blk) - n);
  ++live;
  return b + 1;
#endif
}
static bool tailOk(const Blk *b) {
  const unsigned char *t = (const unsigned char *)(b + 1) + b->size;
  for (size_t i = 0; i < TAIL; ++i)
    if (t[i] != 0xC5) return false;
  return true;
}
extern "C" void __wrap_free(void *p) {
  if (mode && p) ++vf_count[1];
#ifdef VF_PLAIN
  if (mode && p) --live;
#ifdef VF_MSAN
  if (p) __msan_unpoison(p, __sanitizer_get_allocated_size(p));
#endif
  __real_free(p);
#else
  if (!p) return;
  if (mode == 0) { __real_free(p); return; }
  Blk *b = (Blk *)p - 1;
  if (mode == 2) {
    if (b->magic != MAGIC || b->state != 1) { bad("release of a block that is not live"); return; }
    if (!tailOk(b)) bad("write past the end of a block");
    b->state = 2;
    b->magic = 0;
    --live;
    __real_free(b);
    return;
  }
  if (mode == 3 ? (char *)p < lanes || (char *)p >= lanes + 2 * LANE : (char *)p < region || (char *)p >= cur) { bad("release of memory that was never allocated"); return; }
  if (b->magic != MAGIC) { bad("release of an address inside a block, or corrupted block header"); return; }
  if (b->state != 1) { bad("block released twice"); return; }
  if (!tailOk(b)) bad("write past the end of a block");
  b->state = 2;
  memset(p, 0xDD, b->size);
  --live;
#endif
}
extern "C" void *__wrap_calloc(size_t a, size_t b) {
  if (mode == 0) return __real_calloc(a, b);
  void *p = __wrap_malloc(a * b);
  memset(p, 0, a * b);
  return p;
}
extern "C" void *__wrap_realloc(void *p, size_t n) {
  if (mode == 0) return __real_realloc(p, n);
#ifndef VF_PLAIN
  void *q = __wrap_malloc(n);
  if (p) {
    size_t o = ((Blk *)p - 1)->size;
    memcpy(q, p, o < n ? o : n);
    __wrap_free(p);
  }
  return q;
#else
  if (!p) ++live;
  return __real_realloc(p, n);
#endif
}
extern "C" char *__wrap_strdup(const char *s) {
  size_t n = strlen(s) + 1;
  return (char *)memcpy(__wrap_malloc(n), s, n);
}
void vf_begin(int m, uint8_t fill) {
#ifndef VF_PLAIN
  if (!region) {
    region = (char *)mmap(nullptr, REGION, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (region == MAP_FAILED) { perror("mmap"); _exit(9); }
    high = region;
  }
  if (high > region + (64 << 20)) { madvise(region, high - region, MADV_DONTNEED); high = region; }
#endif
  if (m == 3) {
    if (!lanes) {
      lanes = (char *)mmap(nullptr, 2 * LANE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
      if (lanes == MAP_FAILED) { perror("mmap"); _exit(9); }
    }
    lcur[0] = lanes;
    lcur[1] = lanes + LANE;
  }
  cur = region;
  last = nullptr;
  live = 0;
  memBad = false;
  fillByte = fill;
  mode = m;
}
size_t vf_live() { return live; }
const char *vf_end() {
#ifndef VF_PLAIN
  if ((mode == 1 || mode == 3) && !memBad) {
    for (Blk *b = last; b; b = b->prev) {
      if (b->magic != MAGIC) { bad("block header overwritten"); break; }
      if (!tailOk(b)) { bad("write past the end of a block"); break; }
      if (b->state == 2) {
        const unsigned char *p = (const unsigned char *)(b + 1);
        // compare with poison
        if (b->size && (p[0] != 0xDD || memcmp(p, p + 1, b->size - 1))) { bad("write to released memory"); break; }
      }
    }
  }
#endif
  if (mode && live && !memBad) {
    snprintf(memMsg, sizeof memMsg, "%zu block(s) not released with the allocator", live);
    memBad = true;
  }
  mode = 0;
  return memBad ? memMsg : nullptr;
}

// ---------------------------------------------------------------- guard buffers
Guard::Guard(size_t c) { ensure(c); }
void Guard::ensure(size_t n) {
  if (n + 8192 <= cap) return;
  if (base) munmap(base - 4096, cap + 8192);
  cap = (n + 8192 + 4095) & ~size_t(4095);
  char *p = (char *)mmap(nullptr, cap + 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED || mprotect(p + 4096, cap, PROT_READ | PROT_WRITE)) { perror("mmap"); _exit(9); }
  base = p + 4096;
}
const char *Guard::cstr(SV s) {
  ensure(s.size() + 1);
  char *p = base + cap - s.size() - 1;
  memcpy(p, s.data(), s.size());
  p[s.size()] = 0;
  lastp = p; lastn = s.size() + 1;
  return p;
}
const char *Guard::raw(SV s) {
  ensure(s.size());
  char *p = base + cap - s.size();
  memcpy(p, s.data(), s.size());
  lastp = p; lastn = s.size();
  return p;
}
const char *Guard::front(SV s) {
  ensure(s.size() + 1);
  memcpy(base, s.data(), s.size());
  base[s.size()] = 0;
  lastp = base; lastn = s.size() + 1;
  return base;
}

// ---------------------------------------------------------------- utilities
uint64_t hash64(const void *p, size_t n, uint64_t h) {
  const unsigned char *b = (const unsigned char *)p;
  while (n >= 8) { uint64_t w; memcpy(&w, b, 8); h = (h ^ w) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; b += 8; n -= 8; }
  for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ull;
  h ^= h >> 32; h *= 0xD6E8FEB86659FD93ull; h ^= h >> 32;
  return h;
}
Str show(SV s, size_t max) {
  Str r;
  for (size_t i = 0; i < s.size(); ++i) {
    if (r.size() > max) { r += "...(" + std::to_string(s.size()) + " bytes)"; break; }
    unsigned char ch = s[i];
    if (ch >= 0x20 && ch < 0x7f) r += ch;
    else { char b[8]; snprintf(b, sizeof b, "<%02x>", ch); r += b; }
  }
  return r;
}
std::vector<FamDef> &Registry::all() { static std::vector<FamDef> v; return v; }

// ---------------------------------------------------------------- runner
const size_t HBITS = 27;
struct Slot {
  std::atomic<uint64_t> progress;
  std::atomic<int> fam;
  std::atomic<int64_t> idx;
  uint64_t cases, transitions;
  char msg[4096];
  int msgFam;
  int64_t msgIdx;
  int bad, done;
};
struct Shared {
  Slot w[64];
  std::atomic<uint64_t> famCases[256], famTrans[256];
  std::atomic<uint64_t> states;
  std::atomic<int> saturated;
  char samples[256][3][400];
  std::atomic<int> nsamples[256];
  std::atomic<int> nextFam;
  std::atomic<uint64_t> table[size_t(1) << HBITS];
};
static Slot *me = nullptr;
bool Ctx::take() {
  int64_t i = n++;
  if (only >= 0) { if (i != only) return false; }
  else if (nshards > 1 && (int)((uint64_t)i % nshards) != shard) return false;
  if (me) { me->idx.store(i, std::memory_order_relaxed); me->progress.fetch_add(1, std::memory_order_relaxed); }
  ++cases;
  desc.clear();
  return true;
}
bool Ctx::block() {
  int64_t b = nb++;
  n = b << 32;
  if (only >= 0) return (only >> 32) == b;
  return nshards <= 1 || (int)((uint64_t)b % nshards) == shard;
}
bool Ctx::takeIn() {
  int64_t i = n++;
  if (only >= 0 && i != only) return false;
  if (me) { me->idx.store(i, std::memory_order_relaxed); me->progress.fetch_add(1, std::memory_order_relaxed); }
  ++cases;
  return true;
}
void Ctx::note(const char *fmt, ...) {
  if (!describe) return;
  char b[4000];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  printf("  %s\n", b);
  fflush(stdout);
}
void Ctx::fail(const char *fmt, ...) {
  char b[3500];
  va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  if (describe) { printf("  VIOLATED: %s\n", b); fflush(stdout); }
  if (me) {
    snprintf(me->msg, sizeof me->msg, "%s", b);
    me->msgFam = famIdx; me->msgIdx = n - 1; me->bad = 1;
  }
  throw Violation();
}
void Ctx::state(uint64_t h) {
  if (!sh) return;
  if (!h) h = 1;
  size_t mask = (size_t(1) << HBITS) - 1, p = h & mask;
  for (int k = 0; k < 64; ++k, p = (p + 1) & mask) {
    uint64_t v = sh->table[p].load(std::memory_order_relaxed);
    if (v == h) return;
    if (v == 0) {
      uint64_t z = 0;
      if (sh->table[p].compare_exchange_strong(z, h)) { sh->states.fetch_add(1, std::memory_order_relaxed); return; }
      if (z == h) return;
    }
  }
  sh->saturated = 1;
}
void Ctx::state(SV s) { state(hash64(s.data(), s.size())); }
bool Ctx::wantSample() { return sh && sh->nsamples[famIdx].load(std::memory_order_relaxed) < 3 && (cases % 97 == 1); }
void Ctx::sample(const Str &s) {
  if (!sh) return;
  int k = sh->nsamples[famIdx].fetch_add(1);
  if (k < 3) snprintf(sh->samples[famIdx][k], 400, "%s", s.c_str());
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static Str jstr(SV s) {
  Str r = "\"";
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { r += '\\'; r += ch; }
    else if (ch < 0x20 || ch >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
    else r += ch;
  }
  return r + "\"";
}
const Api *api(const char *name) {
  for (const Api *const *a = apis(); *a; ++a) if (!strcmp((*a)->name, name)) return *a;
  if (!strcmp(name, "main")) return mainApi();
  if (!strcmp(name, "tiny")) { // builds of other headers: their smallest blocks
    for (const Api *const *a = apis(); *a; ++a) if (!strcmp((*a)->name, "betatiny")) return *a;
    return mainApi();
  }
  fprintf(stderr, "no adapter %s\n", name);
  _exit(9);
}
static const Api *selected = nullptr;
const Api *mainApi() { return selected ? selected : apis()[0]; }

static void limitMemory(size_t gb) {
#ifndef VF_NOLIMIT
  rlimit r{gb << 30, gb << 30};
  setrlimit(RLIMIT_AS, &r);
#else
  (void)gb;
#endif
}
int main(int argc, char **argv) {
  Str prop, out, onlyFam, locale;
  bool thorough = false;
  int workers = 8;
  int64_t only = -1;
  for (int i = 1; i < argc; ++i) {
    Str a = argv[i];
    if (a == "--prop") prop = argv[++i];
    else if (a == "--out") out = argv[++i];
    else if (a == "--thorough") thorough = true;
    else if (a == "--workers") workers = atoi(argv[++i]);
    else if (a == "--fam") onlyFam = argv[++i];
    else if (a == "--api") selected = api(argv[++i]);
    else if (a == "--locale") locale = argv[++i];
    else if (a == "--case") only = atoll(argv[++i]);
    else { fprintf(stderr, "bad argument %s\n", a.c_str()); return 9; }
  }
  std::vector<FamDef> fams;
  // --prop GROUP, or a list of GROUP and GROUP.family; families of a list are called GROUP.family
  bool list = prop.find(',') != Str::npos || prop.find('.') != Str::npos;
  for (auto &f : Registry::all()) {
    Str full = Str(f.prop) + "." + f.name;
    Str l = "," + prop + ",";
    if (l.find("," + Str(f.prop) + ",") == Str::npos && l.find("," + full + ",") == Str::npos) continue;
    FamDef d = f;
    if (list) d.name = (new Str(full))->c_str();
    if (onlyFam.empty() || onlyFam == d.name) fams.push_back(d);
  }
  if (fams.empty()) { fprintf(stderr, "no families for %s\n", prop.c_str()); return 9; }
  std::sort(fams.begin(), fams.end(), [](const FamDef &a, const FamDef &b) { return strcmp(a.name, b.name) < 0; });
  if (only >= 0) { // replay one case, verbosely, in this process
    Ctx c;
    c.thorough = thorough; c.only = only; c.describe = true; c.prop = prop.c_str(); c.fam = fams[0].name;
    limitMemory(30);
    if (!locale.empty() && !setlocale(LC_ALL, locale.c_str())) return 9;
    printf("replay property=%s family=%s case=%lld\n", prop.c_str(), fams[0].name, (long long)only);
    fflush(stdout);
    try { fams[0].fn(c); } catch (Violation &) { return 1; }
    if (!c.cases) { printf("no such case\n"); return 9; }
    printf("  held\n");
    return 0;
  }
  Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (sh == MAP_FAILED) { perror("mmap"); return 9; }
  if (workers > 64) workers = 64;
  double t0 = now();
  std::vector<pid_t> pid(workers, 0);
  std::vector<uint64_t> lastProg(workers, 0);
  std::vector<double> lastT(workers, t0);
  std::vector<double> famT(fams.size(), 0);
  for (int w = 0; w < workers; ++w) {
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      me = &sh->w[w];
      limitMemory(24);
      if (!locale.empty() && !setlocale(LC_ALL, locale.c_str())) _exit(9);
      int rc = 0;
      for (size_t f = 0; f < fams.size(); ++f) {
        Ctx c;
        c.thorough = thorough; c.shard = w; c.nshards = workers; c.sh = sh;
        c.prop = fams[f].prop; c.fam = fams[f].name; c.famIdx = (int)f;
        me->fam = (int)f; me->idx = -1;
        try { fams[f].fn(c); } catch (Violation &) { rc = 1; }
        sh->famCases[f] += c.cases; sh->famTrans[f] += c.transitions;
        if (rc) break;
      }
      me->done = 1;
      _exit(rc);
    }
    pid[w] = p;
  }
  int alive = workers, badw = -1;
  Str how;
  const double HANG = 30;
  while (alive > 0) {
    int st;
    pid_t p = waitpid(-1, &st, WNOHANG);
    if (p > 0) {
      int w = -1;
      for (int k = 0; k < workers; ++k) if (pid[k] == p) w = k;
      if (w < 0) continue;
      pid[w] = 0; --alive;
      if (badw >= 0) continue;
      if (WIFSIGNALED(st)) { badw = w; how = "crash"; char b[64]; snprintf(b, sizeof b, "killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st))); snprintf(sh->w[w].msg, sizeof sh->w[w].msg, "%s", b); sh->w[w].msgFam = sh->w[w].fam; sh->w[w].msgIdx = sh->w[w].idx; }
      else if (WEXITSTATUS(st) == 1 && sh->w[w].bad) { badw = w; how = "violation"; }
      else if (WEXITSTATUS(st) != 0 || !sh->w[w].done) { badw = w; how = "exit"; snprintf(sh->w[w].msg, sizeof sh->w[w].msg, "worker ended with status %d", WEXITSTATUS(st)); sh->w[w].msgFam = sh->w[w].fam; sh->w[w].msgIdx = sh->w[w].idx; }
      if (badw >= 0) for (int k = 0; k < workers; ++k) if (pid[k]) kill(pid[k], SIGKILL);
      continue;
    }
    usleep(20000);
    double t = now();
    for (int k = 0; k < workers; ++k) {
      if (!pid[k]) continue;
      uint64_t pr = sh->w[k].progress;
      if (pr != lastProg[k]) { lastProg[k] = pr; lastT[k] = t; }
      else if (t - lastT[k] > HANG && badw < 0 && sh->w[k].idx >= 0) {
        badw = k; how = "hang";
        snprintf(sh->w[k].msg, sizeof sh->w[k].msg, "no progress for %.0f s", HANG);
        sh->w[k].msgFam = sh->w[k].fam; sh->w[k].msgIdx = sh->w[k].idx;
        for (int j = 0; j < workers; ++j) if (pid[j]) kill(pid[j], SIGKILL);
      }
    }
  }
  uint64_t cases = 0, trans = 0;
  for (size_t f = 0; f < fams.size(); ++f) { cases += sh->famCases[f]; trans += sh->famTrans[f]; }
  FILE *o = fopen(out.c_str(), "w");
  if (!o) { perror("out"); return 9; }
  fprintf(o, "{\"cases\":%llu,\"transitions\":%llu,\"states\":%llu,\"states_saturated\":%s,\"wall\":%.2f,", (unsigned long long)cases, (unsigned long long)trans, (unsigned long long)sh->states.load(), sh->saturated ? "true" : "false", now() - t0);
  fprintf(o, "\"families\":[");
  for (size_t f = 0; f < fams.size(); ++f) {
    fprintf(o, "%s{\"name\":%s,\"what\":%s,\"cases\":%llu,\"transitions\":%llu,\"samples\":[", f ? "," : "", jstr(fams[f].name).c_str(), jstr(fams[f].what).c_str(), (unsigned long long)sh->famCases[f].load(), (unsigned long long)sh->famTrans[f].load());
    int ns = sh->nsamples[f] < 3 ? sh->nsamples[f].load() : 3;
    for (int k = 0; k < ns; ++k) fprintf(o, "%s%s", k ? "," : "", jstr(sh->samples[f][k]).c_str());
    fprintf(o, "]}");
  }
  fprintf(o, "]");
  if (badw >= 0) {
    Slot &s = sh->w[badw];
    fprintf(o, ",\"bad\":{\"how\":%s,\"family\":%s,\"case\":%lld,\"msg\":%s}", jstr(how).c_str(), jstr(fams[s.msgFam].name).c_str(), (long long)s.msgIdx, jstr(s.msg).c_str());
  }
  fprintf(o, "}\n");
  fclose(o);
  return badw >= 0 ? 1 : 0;
}
