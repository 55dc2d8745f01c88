// C11: memory safety and complete release. The group C11 runs with the
// monitored allocator (several fill patterns, canaries, poisoned released
// blocks, inputs next to inaccessible pages); the group C11S is the compact set
// run again in sanitizer builds.
#include "lite.h"
#include <algorithm>
#define MAINAPI const Api &A = *mainApi(); (void)A
static const uint8_t FILLS[] = {0x00, 0xFF, 0x22, 0x01};
FAMILY(C11, hist_fill, "single operations from every world and pairs of operations from some, with fresh memory filled with 00, FF, 22 and 01; both initial block sizes; observed, probed, released") {
  for (const char *nm : {"main", "tiny"})
    for (uint8_t f : FILLS) { HistOpt o; o.fill = f; o.deepObs = f == 0xFF; liteHist(c, *api(nm), c.thorough ? 2 : 1, o); }
}
FAMILY(C11, hist3, "every sequence of 3 structural operations from some worlds, smallest block size, memory filled with FF") {
  HistOpt o;
  o.fill = 0xFF;
  exploreHist(c, *api("tiny"), pickWorlds(worlds(0, false), c.thorough ? 10 : 1), {opsStruct(), opsStruct(), opsStruct()}, o, true);
}
FAMILY(C11, room, "every operation with every amount of room (0..219 bytes; thorough 0..419) left in the current memory block, pairs of operations in some worlds") {
  roomHist(c, *mainApi(), c.thorough ? 2 : 1, 0xFF);
  roomHist(c, *api("tiny"), c.thorough ? 2 : 1, 0x00);
}
FAMILY(C11, texts, "texts, setters and numbers from memory ending at an inaccessible page, with the smallest block sizes") {
  liteText(c, *api("tiny"), c.thorough ? 2 : 1);
  liteVals(c, *api("tiny"), c.thorough ? 2 : 1);
  liteSizes(c, *api("tiny"), c.thorough ? 2 : 1);
}
FAMILY(C11, cpp, "the compact set on the C++ surfaces: member functions with heap allocators, Allocator objects, and the classes of zzzjson.hpp") {
  for (const char *nm : {"members", "objects", "wrapper"}) {
    const Api &A = *api(nm);
    HistOpt o;
    o.fill = 0xFF;
    liteHist(c, A, c.thorough ? 1 : 0, o);
    exploreHist(c, A, pickWorlds(worlds(1, false), c.thorough ? 12 : 2), {opsFull(), opsFull()}, o, true);
  }
}
FAMILY(C11, cpp_texts, "texts, setters, numbers and sizes on the C++ surfaces, from memory ending at an inaccessible page") {
  for (const char *nm : {"members", "objects", "wrapper"}) { liteText(c, *api(nm), c.thorough ? 1 : 0); liteVals(c, *api(nm), c.thorough ? 1 : 0); liteSizes(c, *api(nm), c.thorough ? 1 : 0); }
}
// reads before the start of the given text
static void frontCase(Ctx &c, const Api &A, const Str &t) {
  if (!c.take()) return;
  c.note("text at the start of a page: %s", show(t).c_str());
  static Guard *g = new Guard(1 << 16);
  Scope sc(c, 0x22);
  void *al = A.NewAllocator();
  const char *p = g->front(t);
  size_t cut = strlen(p);
  void *v[8];
  for (auto &x : v) x = A.NewValue(al);
  c.transitions += 15;
  A.ParseFast(v[0], p);
  A.Parse(v[1], p);
  A.ParseLen(v[2], p, t.size());
  A.SetStr(v[3], p);
  A.SetStrLenFast(v[4], p, t.size());
  A.SetNumStr(v[5], p);
  A.SetNumStrLenFast(v[6], p, t.size());
  A.SetKeyFast(v[7], p);
  A.SetStrEscape(v[3], p);
  A.SetStrLenEscape(v[3], p, t.size());
  A.ObjGet(v[0], p);
  A.ObjGetLen(v[0], p, t.size());
  for (void *x : v) { A.Stringify(x); A.GetUnEscapeStr(x); A.GetUnEscapeKey(x); A.GetDouble(x); A.GetInt(x); A.GetLongLong(x); A.Copy(x); }
  A.ObjDel(v[0], p);
  if (cut != strlen(p) || memcmp(p, t.data(), t.size())) c.fail("the text was modified");
  A.ReleaseAllocator(al);
  sc.end();
  if (c.wantSample()) c.sample(show(t, 80));
}
FAMILY(C11, front, "every text of up to 2 bytes, every token sequence of up to 4 tokens, every edit of the short seeds, placed directly after an inaccessible page, through 15 operations") {
  MAINAPI;
  for (int n = 0; n <= 2; ++n) genBytes(n, {"", ""}, [&](const Str &t) { frontCase(c, A, t); });
  genTokens(TOK_STRUCT, 4, 1, {"", ""}, [&](const Str &t) { frontCase(c, A, t); });
  genTokens(TOK_STR, 3, 1, {"\"", "\""}, [&](const Str &t) { frontCase(c, A, t); });
  for (auto &s : SEEDS) if (s.size() < 40) genEdits(s, [&](const Str &t) { frontCase(c, A, t); });
}
// lifetime of allocators
FAMILY(C11, lifetime, "every order of creating and releasing up to 4 allocators, with every kind of content including failed operations; released exactly once each") {
  static const char *const DOC[] = {nullptr, "", "1", "[1,2,{\"a\":\"b\"}]", "[1,2", "{\"a\":}"};
  for (const char *nm : {"main", "tiny", "members", "objects", "wrapper"}) {
    const Api &A = *api(nm);
    for (int n = 1; n <= 4; ++n) {
      std::vector<int> perm;
      for (int i = 0; i < n; ++i) perm.push_back(i);
      do {
        int tot = 1;
        for (int i = 0; i < n; ++i) tot *= 6;
        for (int k = 0; k < tot; ++k)
          for (int early = 0; early < n; ++early) { // allocators released before the rest is filled
            if (!c.take()) continue;
            c.note("adapter %s, %d allocators, contents %d, %d released early", nm, n, k, early);
            Scope sc(c, 0xFF);
            void *al[4] = {nullptr, nullptr, nullptr, nullptr};
            for (int i = 0; i < n; ++i) al[i] = A.NewAllocator();
            for (int step = 0; step < n; ++step) {
              int i = perm[step], d = k;
              for (int j = 0; j < i; ++j) d /= 6;
              d %= 6;
              if (DOC[d]) {
                void *v = A.NewValue(al[i]);
                RefNode r;
                bool want = refParse(DOC[d], r), got = A.Parse(v, DOC[d]);
                if (want != got) c.fail("Parse(%s) returns %d", DOC[d], got);
                if (want) { Cmp m{c, A}; m.quick(v, r); A.Stringify(v); A.Copy(v); }
                else if (A.Type(v)) c.fail("failed Parse left something");
                A.SetNumStr(v, "x");
                A.SetStr(v, "\\");
                Str big(3000 * (d + 1), 'z');
                if (!A.SetStr(v, big.c_str()) || !A.GetUnEscapeStr(v)) c.fail("SetStr");
              }
              if (step < early) { A.ReleaseAllocator(al[i]); al[i] = nullptr; }
              c.transitions += 4;
            }
            for (int step = n - 1; step >= 0; --step) if (al[perm[step]]) A.ReleaseAllocator(al[perm[step]]);
            sc.end();
            if (c.wantSample()) c.sample(std::to_string(n) + " allocators, " + std::to_string(early) + " released early");
          }
      } while (std::next_permutation(perm.begin(), perm.end()));
    }
  }
}
// ---- the compact set for sanitizer builds
FAMILY(C11S, cpp, "compact history set on the C++ surfaces") { for (const char *nm : {"members", "objects", "wrapper"}) { HistOpt o; o.deepObs = true; liteHist(c, *api(nm), 0, o); } }
FAMILY(C11S, hist, "compact history set") { for (const char *nm : {"main", "tiny"}) { HistOpt o; o.deepObs = true; liteHist(c, *api(nm), c.thorough ? 1 : 0, o); } }
FAMILY(C11S, room, "every operation with every amount of room left in the current memory block") { roomHist(c, *mainApi(), c.thorough ? 1 : 0, 0); roomHist(c, *api("tiny"), c.thorough ? 1 : 0, 0); }
FAMILY(C11S, texts, "compact text set") { for (const char *nm : {"main", "tiny"}) liteText(c, *api(nm), c.thorough ? 1 : 0); }
FAMILY(C11S, vals, "compact setter, number, escape and lookup set") { for (const char *nm : {"main", "tiny"}) liteVals(c, *api(nm), c.thorough ? 1 : 0); }
FAMILY(C11S, sizes, "14 document shapes at small sizes and around powers of two") { for (const char *nm : {"main", "tiny"}) liteSizes(c, *api(nm), c.thorough ? 1 : 0); }
