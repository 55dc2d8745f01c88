// C13 (two threads): every schedule of two threads, each with its own allocator.
#include "lite.h"
#include "race.h"
#include <ctime>
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
struct Script { WorldDef w; Model m0; std::vector<Op> ops; };
static bool fits(Script &s) {
  s.m0 = modelOf(s.w, false);
  Model m = s.m0;
  for (auto &q : s.ops) { if (!m.allowed(q)) return false; m.apply(q); if (m.over) return false; }
  return true;
}
static size_t withConflict, schedules;
static double conflictTime;
static void threads(Ctx &c, const Api &A, const Script &x, const Script &y) {
  if (c.describe) {
    c.note("adapter %s; thread 0: %s", A.name, worldName(x.w).c_str());
    for (auto &q : x.ops) c.note("  %s", opName(q).c_str());
    c.note("thread 1: %s", worldName(y.w).c_str());
    for (auto &q : y.ops) c.note("  %s", opName(q).c_str());
  }
  HistOpt o;
  o.deepObs = true;
  auto once = [&](const RaceRun &r) {
    vf_begin(3, 0xA5);
    bool bad = false, cut = false;
    Lane *l[2] = {new Lane(c, A, x.w, x.m0, x.ops, o), new Lane(c, A, y.w, y.m0, y.ops, o)};
    RaceResult q = raceRun([&](int t) {
      try { for (int i = 0; i < l[t]->steps(); ++i) l[t]->step(i); } catch (Case_end &) { cut = true; } catch (Violation &) { bad = true; }
    }, r);
    const char *m = vf_end();
    delete l[0];
    delete l[1];
    ++schedules;
    c.state(hash64(r.preempt.data(), r.preempt.size() * sizeof(size_t), (uint64_t)r.first + 77 * (uint64_t)c.n));
    if (bad || q.stuck || !q.race.empty() || (m && !cut)) {
      if (c.describe) {
        Str s;
        for (size_t p : r.preempt) s += " " + std::to_string(p);
        c.note("schedule: thread %d starts, preempted before shared accesses:%s; shared locations:%s", r.first, s.empty() ? " (none)" : s.c_str(), raceWhere().c_str());
      }
      if (bad) throw Violation();
      if (!q.race.empty()) c.fail("%s", q.race.c_str());
      if (q.stuck) c.fail("the threads do not finish under a fair schedule");
      c.fail("memory: %s", m);
    }
    return q;
  };
  raceReset();
  RaceRun r;
  for (int round = 0; round < 40; ++round) {
    bool grown = false;
    size_t n[2];
    for (int f = 0; f < 2; ++f) { r.first = f; r.preempt.clear(); RaceResult q = once(r); grown |= q.newConflict; n[f] = q.points; }
    if (grown) continue;
    if (!raceConflicts()) return; // one execution stands for every schedule
    if (!round) ++withConflict;
    double t0 = now();
    const size_t budget = c.thorough ? 20000 : 3000;
    size_t used = 0;
    for (int f = 0; f < 2 && !grown; ++f)
      for (size_t i = 0; i < n[f] && used < budget && !grown; ++i) {
        r.first = f;
        r.preempt = {i};
        RaceResult q = once(r);
        ++used;
        grown |= q.newConflict;
      }
    for (int f = 0; f < 2 && !grown; ++f)
      for (size_t i = 0; i < n[f] && used < budget && !grown; ++i)
        for (size_t j = i + 1; used < budget && !grown; ++j) {
          r.first = f;
          r.preempt = {i, j};
          RaceResult q = once(r);
          ++used;
          grown |= q.newConflict;
          if (j >= q.points) break;
        }
    conflictTime += now() - t0;
    if (!grown) return;
  }
}
static Ops wide() { Ops r = opsFull(), b = opsBig(); r.insert(r.end(), b.begin(), b.end()); return r; }
static void all(Ctx &c, const Api &A, size_t stepA, size_t stepB) {
  Ops f = wide();
  auto ws = worlds(1, false);
  for (size_t i = 0; i < f.size(); i += stepA)
    for (size_t j = 0; j < f.size(); j += stepB) {
      if (!c.block()) continue;
      if (conflictTime > (c.thorough ? 200 : 25)) continue; // the library shares memory between threads without visible effect so far
      Script x{ws[(i + j) % ws.size()], {}, {f[i]}}, y{ws[(i * 3 + j * 5) % ws.size()], {}, {f[j]}};
      if (!fits(x) || !fits(y)) continue;
      if (!c.takeIn()) continue;
      threads(c, A, x, y);
      if (c.wantSample()) c.sample(worldName(x.w) + ": " + opName(f[i]) + " || " + worldName(y.w) + ": " + opName(f[j]));
    }
}
FAMILY(C13T, threads, "two threads, each creating an allocator, building a document, performing one operation (all pairs of operations), reading everything back, editing on and releasing: every schedule up to 2 preemptions at accesses to memory that both threads touch; without such memory one execution stands for all schedules") {
  all(c, *mainApi(), 1, c.thorough ? 1 : 3);
}
FAMILY(C13T, surfaces, "the same for the C++ surfaces and small memory blocks, fewer pairs") {
  for (const Api *const *A = apis() + 1; *A; ++A) all(c, **A, c.thorough ? 1 : 5, c.thorough ? 3 : 7);
}
