// Core of the explorer: sharded exhaustive enumeration with a monitored
// allocator, guard-page input buffers, crash and hang detection.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <string_view>
#include <vector>
#include "api.h"
typedef std::string Str;
typedef std::string_view SV;

// ---- monitored memory -------------------------------------------------
// mode 0: pass through, 1: checked arena (fill, canaries, poison), 2: ledger only,
// 3: as 1 with an arena per lane
void vf_begin(int mode, uint8_t fill);
const char *vf_end(); // null, or what is wrong
extern int vf_lane;
bool vf_lane_range(int lane, char **lo, char **hi);
size_t vf_live();     // live blocks
extern unsigned long long vf_count[3]; // system allocations, releases, bytes since the start

// ---- shared result ----------------------------------------------------
struct Shared;
struct Ctx;
typedef void (*Fam)(Ctx &);
struct FamDef {
  const char *prop;
  const char *name;
  const char *what;
  Fam fn;
};
struct Registry {
  static std::vector<FamDef> &all();
  Registry(const char *prop, const char *name, const char *what, Fam f) {
    all().push_back({prop, name, what, f});
  }
};
#define FAMILY(prop, name, what) \
  static void fam_##prop##_##name(Ctx &c); \
  static Registry reg_##prop##_##name(#prop, #name, what, fam_##prop##_##name); \
  static void fam_##prop##_##name(Ctx &c)
#define ALIAS(prop, name, what, fn) static Registry reg_##prop##_##name(#prop, #name, what, fn)

struct Case_end {};
struct Violation {};

struct Ctx {
  bool thorough = false;
  int shard = 0, nshards = 1;
  int64_t only = -1;
  int64_t n = 0; // case counter of the family
  uint64_t cases = 0, transitions = 0;
  Shared *sh = nullptr;
  const char *prop = "";
  const char *fam = "";
  int famIdx = 0;
  bool describe = false;
  Str desc;
  // true if the next case belongs to this worker
  bool take();
  // a block of cases handled entirely by one worker; cases inside are counted by takeIn()
  int64_t nb = 0;
  bool block();
  bool takeIn();
  void fail(const char *fmt, ...) __attribute__((format(printf, 2, 3), noreturn));
  void state(uint64_t h);
  void state(SV s);
  void sample(const Str &s);
  bool wantSample();
  void tick() { ++transitions; }
  void note(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
};
uint64_t hash64(const void *p, size_t n, uint64_t seed = 1469598103934665603ull);
Str show(SV s, size_t max = 300);

// ---- guarded input buffers ---------------------------------------------
// Buffer whose end (or start) touches an inaccessible page.
struct Guard {
  char *base = nullptr;
  size_t cap = 0;
  char *lastp = nullptr;
  size_t lastn = 0;
  explicit Guard(size_t cap_ = 1 << 16);
  void ensure(size_t n);
  // text followed by NUL, NUL is the last accessible byte
  const char *cstr(SV s);
  // exactly n bytes, the last accessible ones
  const char *raw(SV s);
  const char *front(SV s); // NUL terminated, first accessible byte of its page
  bool intact(SV s) const { return memcmp(lastp, s.data(), s.size()) == 0; }
  void scribble() { memset(lastp, 0x5a, lastn); }
};

// ---- adapters ------------------------------------------------------------
const Api *const *apis(); // null terminated
const Api *api(const char *name);
const Api *mainApi();

// one case under the monitored allocator
struct Scope {
  Ctx &c;
  Scope(Ctx &c_, uint8_t fill = 0xA5, int mode = 1) : c(c_) { vf_begin(mode, fill); }
  void end() {
    const char *m = vf_end();
    if (m) c.fail("memory: %s", m);
  }
};
