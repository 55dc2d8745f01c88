// C18: the Go binding, driven by the same explorer as the C library.
#include "lite.h"
extern "C" void vf_go_init(void);
static const Api &go() { vf_go_init(); return *mainApi(); }
FAMILY(C18, texts, "the compact text set through Parse: read back with every method, serialised, parsed again; failed parses leave documents intact") { liteText(c, go(), c.thorough ? 2 : 1); }
FAMILY(C18, vals, "string, key and number setters, escaping, unescaping and lookups: every byte string of up to 2 bytes (without NUL for the escaping setters), token sequences, key sets") { liteVals(c, go(), c.thorough ? 2 : 1); }
FAMILY(C18, sizes, "14 document shapes at growing sizes") { liteSizes(c, go(), c.thorough ? 2 : 1); }
FAMILY(C18, escape, "every \\uXXXX escape in both hex cases and surrogate pairs around all edges, decoded as string and key") {
  const Api &A = go();
  genEscapes(false, [&](const Str &t) { decodeCase(c, A, t, true); });
}
FAMILY(C18, hist1, "every single operation from every world, observed with every method and probed") {
  const Api &A = go();
  HistOpt o;
  o.deepObs = true;
  exploreHist(c, A, c.thorough ? worlds(2, false) : worlds(1, false), {opsFull()}, o);
}
FAMILY(C18, hist2, "every pair of operations of the full alphabet") {
  exploreHist(c, go(), pickWorlds(worlds(1, false), c.thorough ? 60 : 6), {opsFull(), opsFull()}, HistOpt(), true);
}
FAMILY(C18, hist3, "every sequence of 3 moves, deletions and Fast insertions; structural triples") {
  Ops s = opsRemoval();
  exploreHist(c, go(), pickWorlds(worlds(1, false), c.thorough ? 60 : 6), {s, s, s}, HistOpt(), true);
  if (c.thorough) exploreHist(c, go(), pickWorlds(worlds(0, false), 2), {opsStruct(), opsStruct(), opsStruct()}, HistOpt(), true);
}
FAMILY(C18, two, "documents in two allocators, either of them released first") {
  const Api &A = go();
  for (int rel = -1; rel <= 1; ++rel) {
    HistOpt o;
    o.release = rel;
    exploreHist(c, A, pickWorlds(worlds(1, true), c.thorough ? 200 : 20), {opsFull()}, o);
  }
}
FAMILY(C18, noisy, "every read on every handle between the operations; texts returned earlier stay unchanged") {
  const Api &A = go();
  HistOpt o;
  o.noisy = true;
  exploreHist(c, A, pickWorlds(worlds(1, false), 40), {opsFull()}, o);
  o.noisy = false;
  o.retain = true;
  exploreHist(c, A, pickWorlds(worlds(1, false), 40), {opsFull()}, o);
}
FAMILY(C18, scale, "deep, wide and long documents") {
  const Api &A = go();
  for (size_t n : {1, 2, 100, 1024, 5000, 100000}) for (int k = 0; k < 3; ++k) { if (!c.take()) continue; deepCase(c, A, n, k); }
  for (size_t n : {0, 1, 2, 7, 300, 5000, 65536, 65537}) for (int k = 0; k < 3; ++k) { if (!c.take()) continue; wideCase(c, A, n, k); }
}
