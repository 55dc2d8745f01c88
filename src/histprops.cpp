// Properties decided by exhaustive operation histories.
#include "hist.h"
static std::vector<WorldDef> pick(std::vector<WorldDef> w, size_t n) { if (w.size() > n) { std::vector<WorldDef> r; for (size_t i = 0; i < n; ++i) r.push_back(w[i * w.size() / n]); return r; } return w; }
#define MAINAPI const Api &A = *mainApi(); (void)A
// ---------------------------------------------------------------- C05
FAMILY(C05, full2, "every sequence of 1..2 operations of the full alphabet (all operations, all forms, 4 handles) from each world; all handles observed, every container probed with appends and removals") {
  MAINAPI;
  HistOpt o;
  exploreHist(c, A, c.thorough ? worlds(2, false) : pick(worlds(1, false), 40), {opsFull(), opsFull()}, o);
}
FAMILY(C05, struct3, "every sequence of 3 structural operations (navigate, link, unlink, copy, set, parse, key) over 4 handles") {
  MAINAPI;
  HistOpt o;
  exploreHist(c, A, c.thorough ? worlds(1, false) : pick(worlds(0, false), 6), {opsStruct(), opsStruct(), opsStruct()}, o, true);
}
FAMILY(C05, all_worlds1, "every single operation of the full alphabet from every world (15 documents x 9 origins x all positions x 9 detached values)") {
  MAINAPI;
  HistOpt o;
  exploreHist(c, A, worlds(2, false), {opsFull()}, o);
}
FAMILY(C05, small4, "every sequence of 4 operations over a small structural alphabet (thorough only: more worlds)") {
  MAINAPI;
  HistOpt o;
  Ops s = opsRemoval();
  exploreHist(c, A, pick(worlds(0, false), c.thorough ? 24 : 3), {s, s, s, s}, o, true);
}
// ---------------------------------------------------------------- C04
FAMILY(C04, hist2, "every failing operation of the full alphabet in every state reached by one operation of the full alphabet; everything observed with every getter, then probed") {
  MAINAPI;
  HistOpt o;
  o.deepObs = true;
  exploreHist(c, A, c.thorough ? worlds(2, false) : pick(worlds(1, false), 70), {opsFull(), opsFull()}, o, true, true);
}
FAMILY(C04, hist1, "every failing operation from every world") {
  MAINAPI;
  HistOpt o;
  o.deepObs = true;
  exploreHist(c, A, worlds(2, false), {opsFull()}, o, true, true);
  exploreHist(c, A, worlds(1, true), {opsFull()}, o, true, true);
}
FAMILY(C04, hist3, "every failing operation after every pair of structural operations") {
  MAINAPI;
  HistOpt o;
  exploreHist(c, A, pick(worlds(0, false), c.thorough ? 20 : 3), {opsStruct(), opsStruct(), opsFull()}, o, true, true);
}
static Ops failing() { // operations that fail on most targets
  Ops r, f = opsFull();
  for (auto &q : f) {
    if (q.k == K_PARSE || q.k == K_NUM || q.k == K_STR || q.k == K_KEY) {
      RefNode n;
      const Str &t = istr(q.arg);
      bool bad = q.k == K_PARSE ? !refParse(t, n) : q.k == K_NUM ? !refNum(t) : q.form < 4 && !refStrBody(t);
      if (bad || q.k == K_KEY) r.push_back(q);
    } else if (q.k == K_ADEL || q.k == K_ODEL || q.k >= K_SET || (q.k <= K_OGETL)) r.push_back(q);
  }
  return r;
}
FAMILY(C04, retry, "every failing operation tried twice, then every structural operation") {
  MAINAPI;
  HistOpt o;
  Ops f = failing(), s = opsStruct();
  auto ws = pick(worlds(1, false), c.thorough ? 60 : 10);
  for (auto &w : ws) {
    Model m0 = modelOf(w, A.setTakesKey);
    if (A.setTakesKey && (w.cAlloc || m0.shared())) continue;
    for (auto &q : f) {
      if (!c.block()) continue;
      if (!opAvailable(A, q)) continue;
      Model m = m0;
      if (!m.allowed(q) || m.apply(q) != 0) continue;
      for (auto &t : s) {
        if (!opAvailable(A, t) || !m.allowed(t)) continue;
        Model m2 = m;
        m2.apply(t);
        if (m2.over || !c.takeIn()) continue;
        runHist(c, A, w, m0, {q, q, t}, o);
      }
    }
  }
}
// ---------------------------------------------------------------- C06
FAMILY(C06, copy_edit, "every copying operation followed by every operation of the full alphabet, on source or copy, one allocator") {
  MAINAPI;
  HistOpt o;
  exploreHist(c, A, c.thorough ? worlds(2, false) : worlds(1, false), {opsCopying(), opsFull()}, o);
}
FAMILY(C06, copy_edit2, "every copying operation followed by every pair of structural operations") {
  MAINAPI;
  HistOpt o;
  exploreHist(c, A, pick(worlds(0, false), c.thorough ? 30 : 6), {opsCopying(), opsStruct(), opsStruct()}, o, true);
}
static Ops crossCopy() {
  Ops r;
  for (auto &q : opsCopying()) if (q.k == K_COPY || (q.x < 2) != (q.y < 2)) r.push_back(q);
  return r;
}
FAMILY(C06, two_alloc, "source and target in different allocators: every copying operation, then every operation of the full alphabet, then one of the two allocators is released (each in turn, or none) and the other document observed and probed") {
  MAINAPI;
  for (int rel = -1; rel <= 1; ++rel) {
    HistOpt o;
    o.release = rel;
    exploreHist(c, A, c.thorough ? worlds(2, true) : worlds(1, true), {crossCopy(), opsFull()}, o);
  }
}
FAMILY(C06, two_alloc3, "different allocators: two copying operations in a row around every structural operation, then release of either allocator") {
  MAINAPI;
  for (int rel = 0; rel <= 1; ++rel) {
    HistOpt o;
    o.release = rel;
    exploreHist(c, A, pick(worlds(0, true), c.thorough ? 20 : 5), {crossCopy(), opsStruct(), crossCopy()}, o, true);
    exploreHist(c, A, pick(worlds(1, true), c.thorough ? 20 : 5), {opsStruct(), crossCopy(), opsStruct()}, o, true);
  }
}
// ---------------------------------------------------------------- C07
FAMILY(C07, removal3, "every sequence of 3 (thorough 4) moves, deletions and Fast insertions over 4 handles") {
  MAINAPI;
  HistOpt o;
  Ops s = opsRemoval();
  if (c.thorough) exploreHist(c, A, worlds(0, false), {s, s, s, s}, o);
  exploreHist(c, A, c.thorough ? worlds(2, false) : pick(worlds(1, false), 60), {s, s, s}, o);
}
// two containers X and Y of either kind; every sequence of appends, removals by
// position, transfers and re-insertions of held values
namespace {
struct ListSpace {
  Ctx &c;
  const Api &A;
  bool obj[2];
  int origin, init[2];
  struct St { std::vector<int> l[2]; std::vector<int> held; int next; };
  // op codes
  struct O { int k, i, t; };
  static Str name(const O &o) {
    static const char *N[] = {"append new to", "delete from", "move out of (keep)", "transfer from", "re-insert held into", "to the end of", "replace by SetFast from held in", "delete by key from"};
    return Str(N[o.k]) + " " + (o.t ? "Y" : "X") + "[" + std::to_string(o.i) + "]";
  }
  void ops(const St &s, std::vector<O> &r) const {
    for (int t = 0; t < 2; ++t) {
      int n = (int)s.l[t].size();
      if (n < 5) r.push_back({0, n, t});
      for (int i = 0; i < n; ++i) {
        r.push_back({1, i, t});
        if (s.held.size() < 2) r.push_back({2, i, t});
        if (t == 0) { r.push_back({3, i, t}); r.push_back({5, i, t}); }
        if (s.held.size()) r.push_back({6, i, t});
      }
      if (s.held.size()) r.push_back({4, 0, t});
    }
  }
  static void apply(St &s, const O &o) {
    auto &l = s.l[o.t];
    switch (o.k) {
    case 0: l.push_back(s.next++); break;
    case 1: l.erase(l.begin() + o.i); break;
    case 2: s.held.push_back(l[o.i]); l.erase(l.begin() + o.i); break;
    case 3: { int v = l[o.i]; l.erase(l.begin() + o.i); s.l[1 - o.t].push_back(v); break; }
    case 4: l.push_back(s.held.back()); s.held.pop_back(); break;
    case 5: { int v = l[o.i]; l.erase(l.begin() + o.i); l.push_back(v); break; }
    case 6: l[o.i] = s.held.back(); s.held.pop_back(); break;
    }
  }
  void run(const std::vector<O> &seq) {
    if (c.describe) { c.note("X %s with %d, Y %s with %d children, built by %s", obj[0] ? "object" : "array", init[0], obj[1] ? "object" : "array", init[1], ORIGIN[origin]); for (auto &o : seq) c.note("  %s", name(o).c_str()); }
    Scope sc(c);
    void *al = A.NewAllocator();
    St s = start();
    void *v[2];
    // values: key of object children is "k<number>" of the position's current owner, content is the number
    // keys travel with a value but are dropped by arrays, so each value gets its key before insertion
    std::vector<Str> keyOf(64);
    std::vector<Str> posKey[2];
    for (int t = 0; t < 2; ++t) {
      RefNode r;
      r.type = obj[t] ? T_OBJ : T_ARR;
      for (int x : s.l[t]) { RefNode k; k.type = T_NUM; k.tok = std::to_string(x); if (obj[t]) { k.hasKey = true; k.key = "k" + k.tok; } r.kids.push_back(k); posKey[t].push_back(k.key); }
      v[t] = buildDoc(c, A, al, refDump(r), origin);
    }
    std::vector<void *> held;
    std::vector<bool> heldKey;
    auto child = [&](int t, int i) -> void * {
      void *h;
      if (!obj[t]) h = A.ArrayGet(v[t], (size_t)i);
      else { h = A.Begin(v[t]); for (int j = 0; j < i && h; ++j) h = A.Next(h); }
      if (!h) c.fail("child %d of %zu is missing", i, s.l[t].size());
      return h;
    };
    auto insert = [&](int t, void *h, int val) {
      Str k = "k" + std::to_string(val);
      if (obj[t]) { if (!A.SetKey(h, k.c_str())) c.fail("SetKey of a detached value failed"); }
      if (!(obj[t] ? A.ObjAddFast(v[t], h) : A.ArrayAddFast(v[t], h))) c.fail("insertion failed");
      if (A.Type(h) != 0) c.fail("the source handle of a Fast insertion is not empty");
      posKey[t].push_back(k);
    };
    for (auto &o : seq) {
      c.tick();
      auto &l = s.l[o.t];
      switch (o.k) {
      case 0: { void *h = A.NewValue(al); if (!A.SetNumStr(h, std::to_string(s.next).c_str())) c.fail("SetNumStr"); insert(o.t, h, s.next); break; }
      case 1:
        if (!obj[o.t]) { if (!A.ArrayDel(v[o.t], (size_t)o.i)) c.fail("ArrayDel(%d) failed", o.i); }
        else if (!A.ObjDel(v[o.t], posKey[o.t][o.i].c_str())) c.fail("ObjDel(%s) failed", posKey[o.t][o.i].c_str());
        posKey[o.t].erase(posKey[o.t].begin() + o.i);
        break;
      case 2: { void *h = child(o.t, o.i); if (!A.Move(h)) c.fail("Move failed"); held.push_back(h); posKey[o.t].erase(posKey[o.t].begin() + o.i); break; }
      case 3: case 5: {
        void *h = child(o.t, o.i);
        int dst = o.k == 3 ? 1 - o.t : o.t;
        Str k = posKey[o.t][o.i];
        posKey[o.t].erase(posKey[o.t].begin() + o.i);
        bool ok;
        if (obj[dst]) {
          if (!obj[o.t]) { if (!A.Move(h) || !A.SetKey(h, ("k" + std::to_string(l[o.i])).c_str())) c.fail("Move or SetKey failed"); k = "k" + std::to_string(l[o.i]); }
          ok = A.ObjAddFast(v[dst], h);
        } else ok = A.ArrayAddFast(v[dst], h);
        if (!ok) c.fail("transfer failed");
        posKey[dst].push_back(k);
        break;
      }
      case 4: { void *h = held.back(); held.pop_back(); insert(o.t, h, s.held.back()); break; }
      case 6: {
        void *h = held.back();
        held.pop_back();
        void *x = child(o.t, o.i);
        const char *k = A.setTakesKey && obj[o.t] ? A.GetKey(h) : nullptr; // beta: a keyed target takes the key of a keyed source
        if (k) posKey[o.t][o.i] = k;
        if (!A.SetFast(x, h)) c.fail("SetFast failed");
        break;
      }
      }
      apply(s, o);
    }
    c.state(hashOf(s));
    for (int t = 0; t < 2; ++t) {
      RefNode r;
      r.type = obj[t] ? T_OBJ : T_ARR;
      for (size_t i = 0; i < s.l[t].size(); ++i) { RefNode k; k.type = T_NUM; k.tok = std::to_string(s.l[t][i]); if (obj[t]) { k.hasKey = true; k.key = posKey[t][i]; } r.kids.push_back(k); }
      Cmp m{c, A};
      m.quick(v[t], r);
      m.stringify(v[t], r);
      if (!obj[t]) for (size_t i = 0; i <= r.kids.size(); ++i) { void *h = A.ArrayGet(v[t], i); if ((h != nullptr) != (i < r.kids.size())) c.fail("ArrayGet(%zu) of %zu", i, r.kids.size()); if (h) m.quick(h, r.kids[i]); }
      // empty it completely, last child first, then append
      for (size_t i = r.kids.size(); i-- > 0;) { void *h = child(t, (int)i); if (!A.Move(h)) c.fail("Move of the last child failed"); RefNode q = r.kids[i]; m.quick(h, q); if (A.Next(h)) c.fail("a moved value still has a sibling"); r.kids.pop_back(); s.l[t].pop_back(); m.quick(v[t], r); }
      void *h = A.NewValue(al);
      A.SetNull(h);
      if (obj[t] && !A.SetKey(h, "e")) c.fail("SetKey");
      if (!(obj[t] ? A.ObjAddFast(v[t], h) : A.ArrayAddFast(v[t], h))) c.fail("append after emptying failed");
      RefNode k; k.type = T_NULL; k.tok = "null"; k.hasKey = obj[t]; if (obj[t]) k.key = "e";
      r.kids.push_back(k);
      m.quick(v[t], r);
      c.transitions += 6;
    }
    for (size_t i = 0; i < held.size(); ++i) { size_t l = 0; const char *p = A.GetNumFast(held[i], &l); if (!p || Str(p, l) != std::to_string(s.held[i])) c.fail("a held value changed"); }
    A.ReleaseAllocator(al);
    sc.end();
    if (c.wantSample()) { Str t; for (auto &o : seq) t += name(o) + "; "; c.sample(t); }
  }
  static uint64_t hashOf(const St &s) { Str o; for (int t = 0; t < 2; ++t) { for (int x : s.l[t]) o += (char)('0' + x); o += '|'; } for (int x : s.held) o += (char)('0' + x); return hash64(o.data(), o.size(), 99); }
  St start() const { St s; s.next = 0; for (int t = 0; t < 2; ++t) for (int i = 0; i < init[t]; ++i) s.l[t].push_back(s.next++); return s; }
  void rec(const St &s, std::vector<O> &seq, int depth) {
    std::vector<O> r;
    ops(s, r);
    for (auto &o : r) {
      if (seq.empty() && !c.block()) continue;
      St n = s;
      apply(n, o);
      seq.push_back(o);
      if (c.takeIn()) run(seq);
      if (depth > 1) rec(n, seq, depth - 1);
      seq.pop_back();
    }
  }
};
} // namespace
FAMILY(C07, lists, "two containers (array or object, 0..3 initial children, 9 origins): every sequence of up to 4 (thorough 5) appends, deletions, moves out, re-insertions, transfers and replacements at every position; then emptied from the back and appended to") {
  MAINAPI;
  for (int ob = 0; ob < 4; ++ob)
    for (int org = 0; org < NORIGIN; ++org)
      for (int n = 0; n <= 3; ++n) {
        int depth = c.thorough ? 5 : (n == 3 ? (org < 3 ? 4 : 3) : 4);
        if (!c.thorough && org >= 3) depth = 3;
        ListSpace l{c, A, {(ob & 1) != 0, (ob & 2) != 0}, org, {n, n ? 1 : 0}};
        std::vector<ListSpace::O> seq;
        l.rec(l.start(), seq, depth);
      }
}
// ---------------------------------------------------------------- C03
FAMILY(C03, hist, "Stringify of every handle and every descendant after every pair of operations") {
  MAINAPI;
  HistOpt o;
  o.strings = true;
  exploreHist(c, A, pick(worlds(1, false), c.thorough ? 1000 : 20), {opsFull(), opsFull()}, o);
}
FAMILY(C03, hist3, "Stringify of every handle and every descendant after every sequence of 3 structural operations") {
  MAINAPI;
  HistOpt o;
  o.strings = true;
  exploreHist(c, A, pick(worlds(0, false), c.thorough ? 12 : 2), {opsStruct(), opsStruct(), opsStruct()}, o, true);
}
// ---------------------------------------------------------------- C12
FAMILY(C12, hist, "every pair of operations: all texts returned after each step are kept and compared at the end, copied arguments are overwritten after the call, Fast arguments must stay intact") {
  MAINAPI;
  HistOpt o;
  o.retain = true;
  exploreHist(c, A, pick(worlds(1, false), c.thorough ? 1000 : 16), {opsFull(), opsFull()}, o);
  exploreHist(c, *api("tiny"), pick(worlds(0, false), c.thorough ? 100 : 6), {opsFull(), opsFull()}, o);
}
FAMILY(C12, hist3, "the same for every sequence of 3 structural operations") {
  MAINAPI;
  HistOpt o;
  o.retain = true;
  exploreHist(c, A, pick(worlds(0, false), c.thorough ? 8 : 2), {opsSmall(), opsSmall(), opsSmall()}, o, true);
}
// ---------------------------------------------------------------- C20
FAMILY(C20, hist, "every pair of operations with every read operation on every handle and descendant between and after the steps: reads agree with the document and do not affect it") {
  MAINAPI;
  HistOpt o;
  o.noisy = true;
  o.deepObs = true;
  exploreHist(c, A, pick(worlds(1, false), c.thorough ? 200 : 10), {opsFull(), opsFull()}, o);
}
FAMILY(C20, hist1, "every read after every single operation from every world") {
  MAINAPI;
  HistOpt o;
  o.noisy = true;
  o.deepObs = true;
  exploreHist(c, A, worlds(2, false), {opsFull()}, o);
}
