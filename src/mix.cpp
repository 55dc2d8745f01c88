// Surfaces made by taking every function from another build of the same
// interface in turn: documents handed between source files and between forms.
#include "vf.h"
#include <vector>
extern "C" const Api api_main, api_short, api_nsshort, api_members, api_nslong;
static Api mix(const char *name, std::vector<const Api *> from, size_t shift) {
  Api r = *from[0];
  // everything between the name and the flags at the end is a function pointer
  typedef void (*Fn)();
  Fn *o = (Fn *)&r.NewAllocator;
  size_t n = (size_t)((Fn *)&r.ObjDel - o) + 1;
  for (size_t i = 0; i < n; ++i) o[i] = ((Fn *)&from[(i + i / from.size() + shift) % from.size()]->NewAllocator)[i];
  r.name = name;
  r.Balance = nullptr;
  r.Sibling = nullptr;
  r.Counters = nullptr;
  return r;
}
extern "C" {
extern Api api_mixc0, api_mixc1, api_mixn0, api_mixn1;
Api api_mixc0 = mix("mixc0", {&api_main, &api_short}, 0), api_mixc1 = mix("mixc1", {&api_main, &api_short}, 1);
Api api_mixn0 = mix("mixn0", {&api_nsshort, &api_members, &api_nslong}, 0), api_mixn1 = mix("mixn1", {&api_nsshort, &api_members, &api_nslong}, 1);
}
