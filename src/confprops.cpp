// C14 build configurations, C15 API surfaces: the compact set and larger
// history sets on every adapter, against the same model and reference.
#include "lite.h"
static void balance(Ctx &c, const Api &A) { if (A.Balance && A.Balance() != 0) c.fail("adapter %s: %ld more allocations than releases counted", A.name, A.Balance()); }
static std::vector<const Api *> all() { std::vector<const Api *> r; for (const Api *const *a = apis(); *a; ++a) r.push_back(*a); return r; }
static bool first(const Api *A) { return A == mainApi(); }
#define EACH for (const Api *Ap : all())
static int sc(Ctx &c, const Api *A) { return c.thorough ? 1 : 0; }
static void fHist(Ctx &c) { EACH { HistOpt o; o.deepObs = true; liteHist(c, *Ap, sc(c, Ap), o); balance(c, *Ap); } }
static void fPairs(Ctx &c) { EACH { HistOpt o; exploreHist(c, *Ap, pickWorlds(worlds(1, false), c.thorough ? 6 : 1), {opsFull(), opsFull()}, o, true); balance(c, *Ap); } }
static void fRoom(Ctx &c) { EACH { if (!first(Ap)) roomHist(c, *Ap, 0, 0xFF); balance(c, *Ap); } }
static void fText(Ctx &c) { EACH { liteText(c, *Ap, sc(c, Ap)); balance(c, *Ap); } }
static void fVals(Ctx &c) { EACH { liteVals(c, *Ap, sc(c, Ap)); balance(c, *Ap); } }
static void fSizes(Ctx &c) { EACH { liteSizes(c, *Ap, c.thorough ? 2 : 1); balance(c, *Ap); } }
static void fScale(Ctx &c) {
  EACH {
    for (size_t n : {1u, 2u, 100u, 5000u})
      for (int k = 0; k < 3; ++k) {
        if (!c.take()) continue;
        c.note("adapter %s", Ap->name);
        deepCase(c, *Ap, n, k);
      }
    for (size_t n : {1u, 7u, 300u, 5000u})
      for (int k = 0; k < 3; ++k) {
        if (!c.take()) continue;
        c.note("adapter %s", Ap->name);
        wideCase(c, *Ap, n, k);
      }
  }
}
FAMILY(C14, counters, "accounting mode: after every step of parsing, serialising, copying, editing and releasing 14 document shapes of many sizes the counters equal the system allocations, releases and bytes observed") { EACH counterCases(c, *Ap); }
ALIAS(C14, hist, "the compact history set (all single operations from 60 worlds, pairs of structural operations, two allocators and release) in every configuration", fHist);
ALIAS(C14, pairs, "every pair of operations of the full alphabet from one world (thorough 6) in every configuration", fPairs);
ALIAS(C14, room, "every operation with every amount of room left in the current block, in every configuration", fRoom);
ALIAS(C14, texts, "the compact text set in every configuration", fText);
ALIAS(C14, vals, "setters, numbers, escapes and lookups in every configuration", fVals);
ALIAS(C14, sizes, "14 document shapes at every size up to 140 and around powers of two, in every configuration", fSizes);
ALIAS(C14, scale, "deep and wide documents in every configuration", fScale);
ALIAS(C15, hist, "the compact history set on every surface", fHist);
ALIAS(C15, pairs, "every pair of operations of the full alphabet from one world (thorough 6) on every surface", fPairs);
ALIAS(C15, texts, "the compact text set on every surface", fText);
ALIAS(C15, vals, "setters, numbers, escapes and lookups on every surface", fVals);
ALIAS(C15, sizes, "14 document shapes at every size up to 140 and around powers of two, on every surface", fSizes);
// new empty value obtained from an existing one (member surfaces)
FAMILY(C15, sibling, "a value created from another value, in every state of that value, is empty, independent and usable in its document") {
  EACH {
    const Api &A = *Ap;
    if (!A.Sibling) continue;
    for (auto &w : worlds(2, false)) {
      if (!c.take()) continue;
      c.note("adapter %s, %s", A.name, worldName(w).c_str());
      Scope s(c, 0xFF);
      void *al = A.NewAllocator();
      void *d = buildDoc(c, A, al, w.doc, w.origin);
      RefNode r;
      bool has = !w.doc.empty() && refParse(w.doc, r);
      void *n = A.Sibling(d);
      Cmp m{c, A};
      if (!n || n == d) c.fail("no new value");
      m.empty(n);
      if (has) m.tree(d, r); else m.empty(d);
      if (!A.SetKey(n, "nk") || !A.SetStr(n, "nv")) c.fail("the new value cannot be set");
      if (has && (r.type == T_ARR || r.type == T_OBJ)) {
        if (!(r.type == T_ARR ? A.ArrayAddFast(d, n) : A.ObjAddFast(d, n))) c.fail("the new value cannot be added");
        RefNode k;
        k.type = T_STR; k.tok = "nv";
        if (r.type == T_OBJ) { k.hasKey = true; k.key = "nk"; }
        r.kids.push_back(k);
      }
      if (has) { m.tree(d, r); m.stringify(d, r); }
      c.transitions += 6;
      A.ReleaseAllocator(al);
      s.end();
    }
  }
}
