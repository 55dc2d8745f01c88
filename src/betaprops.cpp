// C19: beta/zzzjson_beta.h, long and short names, several block sizes.
#include "lite.h"
static std::vector<const Api *> all() { std::vector<const Api *> r; for (const Api *const *a = apis(); *a; ++a) r.push_back(*a); return r; }
#define EACH for (const Api *Ap : all())
static void balance(Ctx &c, const Api &A) { if (A.Balance() != 0) c.fail("adapter %s: %ld more allocations than releases counted", A.name, A.Balance()); }
static HistOpt opt(uint8_t fill) { HistOpt o; o.singleHandle = true; o.fill = fill; return o; }
FAMILY(C19, texts, "the compact text set on every build of the beta header: read back with every getter, serialised, parsed again, failed parses leave documents intact") { EACH { liteText(c, *Ap, c.thorough ? 2 : 1); balance(c, *Ap); } }
FAMILY(C19, vals, "setters, numbers, unescaping and lookups on every build of the beta header") { EACH { liteVals(c, *Ap, c.thorough ? 2 : 1); balance(c, *Ap); } }
FAMILY(C19, sizes, "14 document shapes at every size up to 600 and around powers of two") { EACH { liteSizes(c, *Ap, 2); balance(c, *Ap); } }
FAMILY(C19, hist1, "every single operation from every world, memory filled with FF and 00, on every build of the beta header; observed with every getter and probed") {
  EACH for (uint8_t f : {0xFF, 0x00}) { HistOpt o = opt(f); o.deepObs = true; liteHist(c, *Ap, c.thorough ? 2 : 1, o); }
}
FAMILY(C19, counters, "accounting mode: the counters equal the system allocations, releases and bytes observed") { EACH counterCases(c, *Ap); }
FAMILY(C19, room, "every operation with every amount of room left in the current memory block") { EACH roomHist(c, *Ap, c.thorough ? 1 : 0, 0xFF); }
// compact set for sanitizer builds
FAMILY(C19S, hist, "compact history set") { EACH { HistOpt o = opt(0); o.deepObs = true; liteHist(c, *Ap, 0, o); } }
FAMILY(C19S, texts, "compact text set") { EACH liteText(c, *Ap, 0); }
FAMILY(C19S, vals, "compact setter, number and lookup set") { EACH liteVals(c, *Ap, 0); }
FAMILY(C19S, sizes, "document shapes at small sizes") { EACH liteSizes(c, *Ap, 0); }
FAMILY(C19S, room, "every operation with every amount of room left in the current block") { EACH roomHist(c, *Ap, 0, 0); }
