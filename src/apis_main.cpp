// Adapters linked into a build: listed by the build script.
#include "vf.h"
#define X(n) extern "C" const Api api_##n;
#include "apis.list"
#undef X
static const Api *const LIST[] = {
#define X(n) &api_##n,
#include "apis.list"
#undef X
    nullptr};
const Api *const *apis() { return LIST; }
