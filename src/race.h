// Two threads under a controlled scheduler. Only one runs at a time; a switch is
// possible before every access of the library to memory that both threads touch
// and at least one writes (found by running them, to a fixpoint). Accesses to
// anything else commute, so the schedules explored stand for all of them.
#pragma once
#include "vf.h"
#include <functional>
#include <set>
struct RaceRun {
  std::vector<size_t> preempt; // scheduling points before which the running thread is preempted
  int first = 0;
};
struct RaceResult {
  size_t points = 0;     // scheduling points passed
  size_t accesses = 0;   // library accesses to static or foreign memory
  bool stuck = false;
  bool newConflict = false;
  Str race;              // unsynchronised conflicting accesses, if any were seen
};
void raceReset();                  // forget the shared locations
RaceResult raceRun(const std::function<void(int)> &body, const RaceRun &r);
size_t raceConflicts();            // number of shared locations known
Str raceWhere();                   // what they are
