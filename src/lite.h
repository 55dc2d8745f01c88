// A compact exhaustive set that exercises every operation, runnable on any
// adapter: used for sanitizer builds, build configurations and API surfaces.
#pragma once
#include "hist.h"
#include "values.h"
// histories (uses block-numbered cases). scale 0: small, 1: medium, 2: large
void liteHist(Ctx &c, const Api &A, int scale, const HistOpt &o);
// texts, setters, numbers, escapes, lookups, sizes (uses plainly numbered cases)
void liteText(Ctx &c, const Api &A, int scale);
void liteVals(Ctx &c, const Api &A, int scale);
void liteSizes(Ctx &c, const Api &A, int scale);
// histories with every amount of room left in the current memory block
void roomHist(Ctx &c, const Api &A, int scale, uint8_t fill, const HistOpt *base = nullptr);
std::vector<WorldDef> pickWorlds(std::vector<WorldDef> w, size_t n);
void counterCases(Ctx &c, const Api &A);
