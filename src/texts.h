#pragma once
#include "gen.h"
// one text: the three parse entry points against the reference recogniser
void accept(Ctx &c, const Api &A, const Str &t);
// one valid text parsed three ways and read back (deep: with every getter)
void fidelity(Ctx &c, const Api &A, const Str &t, bool deep);
// one valid text parsed, serialised (root, descendants, copy) and parsed again
void roundtrip(Ctx &c, const Api &A, const Str &t, bool reparse);
// one invalid text parsed into positions of documents, which must stay intact
void failParse(Ctx &c, const Api &A, const Str &t, bool all);
