// C13 (one thread): two documents in two allocators, every interleaving of their steps.
#include "lite.h"
#include <algorithm>
static Ops kinds() { // one operation of each kind and form
  Ops r;
  std::vector<uint32_t> seen;
  for (auto &q : opsFull()) {
    if (q.x != (q.k == K_NEXT ? 1 : q.k >= K_SET ? 0 : 1) && q.x != 0) continue;
    uint32_t k = q.k * 16 + q.form;
    bool dup = false;
    for (auto s : seen) dup |= s == k;
    if (dup) continue;
    seen.push_back(k);
    r.push_back(q);
  }
  return r;
}
static Ops wide() { Ops r = opsFull(), b = opsBig(); r.insert(r.end(), b.begin(), b.end()); return r; }
struct Script { WorldDef w; Model m0; std::vector<Op> ops; };
static bool fits(Script &s) {
  Model m = s.m0;
  for (auto &q : s.ops) { if (!m.allowed(q)) return false; m.apply(q); if (m.over) return false; }
  return true;
}
static void interleave(Ctx &c, const Api &A, const Script &x, const Script &y, const HistOpt &o) {
  int n = 4 + (int)x.ops.size(), m = 4 + (int)y.ops.size();
  // every 0/1 word with n zeros and m ones, in lexicographic order
  std::vector<int> word(n, 0);
  word.insert(word.end(), m, 1);
  do {
    if (!c.takeIn()) continue;
    if (c.describe) {
      c.note("adapter %s; document 0: %s", A.name, worldName(x.w).c_str());
      for (auto &q : x.ops) c.note("  %s", opName(q).c_str());
      c.note("document 1: %s", worldName(y.w).c_str());
      for (auto &q : y.ops) c.note("  %s", opName(q).c_str());
      Str s;
      for (int b : word) s += (char)('0' + b);
      c.note("order of the steps (create, build, operations, observe, release): %s", s.c_str());
    }
    Scope sc(c, o.fill);
    uint64_t h = 1;
    try {
      Lane a(c, A, x.w, x.m0, x.ops, o), b(c, A, y.w, y.m0, y.ops, o);
      int i = 0, j = 0;
      for (int t : word) { if (t == 0) a.step(i++); else b.step(j++); h = h * 31 + t; c.state(h * 0x9E3779B97F4A7C15ull + x.m0.hash() * 3 + y.m0.hash() * 7 + (x.ops.size() ? x.ops[0].k * 64 + x.ops[0].form : 0) * 1315423911ull + (y.ops.size() ? y.ops[0].k * 64 + y.ops[0].form : 0) * 2654435761ull); }
    } catch (Case_end &) { vf_end(); continue; }
    sc.end();
    if (c.wantSample()) { Str s = worldName(x.w) + " / " + worldName(y.w) + ", order "; for (int b : word) s += (char)('0' + b); c.sample(s); }
  } while (std::next_permutation(word.begin(), word.end()));
}
static void pairs(Ctx &c, const Api &A, const std::vector<WorldDef> &wa, const std::vector<std::vector<Op>> &as, const std::vector<WorldDef> &wb, const std::vector<std::vector<Op>> &bs, const HistOpt &o) {
  for (size_t i = 0; i < as.size(); ++i)
    for (size_t j = 0; j < bs.size(); ++j) {
      if (!c.block()) continue;
      Script x{wa[(i + j) % wa.size()], {}, as[i]}, y{wb[(i * 3 + j) % wb.size()], {}, bs[j]};
      x.m0 = modelOf(x.w, false);
      y.m0 = modelOf(y.w, false);
      if (fits(x) && fits(y)) interleave(c, A, x, y, o);
    }
}
static std::vector<std::vector<Op>> singles(const Ops &q) { std::vector<std::vector<Op>> r; for (auto &x : q) r.push_back({x}); return r; }
static std::vector<std::vector<Op>> doubles(const Ops &q, size_t step) { std::vector<std::vector<Op>> r; for (size_t i = 0; i < q.size(); ++i) r.push_back({q[i], q[(i * step + 5) % q.size()]}); return r; }
FAMILY(C13, single, "two documents in two allocators, one operation each (every operation, also with texts longer than 1000 bytes, against one of each kind): all 252 interleavings of creating, building, operating, observing with every getter and releasing; texts returned to one document are compared again before its release") {
  HistOpt o;
  o.deepObs = true;
  pairs(c, *mainApi(), worlds(1, false), singles(wide()), pickWorlds(worlds(1, false), 37), singles(c.thorough ? wide() : kinds()), o);
}
FAMILY(C13, kinds, "the same on every linked API surface and block size, one operation of each kind on both sides") {
  HistOpt o;
  for (const Api *const *A = apis(); *A; ++A) pairs(c, **A, worlds(1, false), singles(kinds()), pickWorlds(worlds(1, false), 41), singles(kinds()), o);
}
FAMILY(C13, pairs2, "two operations on each document: all 924 interleavings") {
  HistOpt o;
  Ops k = kinds();
  pairs(c, *mainApi(), worlds(1, false), doubles(k, 7), worlds(1, false), doubles(k, 11), o);
  if (c.thorough) { Ops f = wide(); pairs(c, *mainApi(), worlds(1, false), doubles(f, 7), worlds(1, false), doubles(k, 11), o); }
}
