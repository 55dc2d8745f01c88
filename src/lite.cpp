#include "lite.h"
std::vector<WorldDef> pickWorlds(std::vector<WorldDef> w, size_t n) {
  if (w.size() <= n) return w;
  std::vector<WorldDef> r;
  for (size_t i = 0; i < n; ++i) r.push_back(w[i * w.size() / n]);
  return r;
}
void liteHist(Ctx &c, const Api &A, int scale, const HistOpt &o) {
  static const size_t one[] = {60, 200, 4000}, two[] = {0, 2, 12}, three[] = {0, 0, 1};
  exploreHist(c, A, pickWorlds(worlds(scale ? 2 : 1, false), one[scale]), {opsFull()}, o);
  if (scale == 0) exploreHist(c, A, pickWorlds(worlds(0, false), 6), {opsStruct(), opsRemoval()}, o, true);
  if (two[scale]) exploreHist(c, A, pickWorlds(worlds(1, false), two[scale]), {opsFull(), opsFull()}, o, true);
  if (three[scale]) exploreHist(c, A, pickWorlds(worlds(0, false), three[scale]), {opsStruct(), opsStruct(), opsStruct()}, o, true);
  if (!A.setTakesKey) for (int rel = -1; rel <= 1; ++rel) { // two allocators
    HistOpt p = o;
    p.release = rel;
    exploreHist(c, A, pickWorlds(worlds(1, true), scale ? 30 : 8), {opsFull()}, p);
    exploreHist(c, A, pickWorlds(worlds(0, true), scale ? 4 : 1), {opsCopying(), opsStruct()}, p, true);
  }
}
void liteText(Ctx &c, const Api &A, int scale) {
  for (size_t i = 0; i < SEEDS.size(); ++i) {
    if (scale || i % 3 == 0 || SEEDS[i].size() < 30) {
      fidelity(c, A, SEEDS[i], true);
      roundtrip(c, A, SEEDS[i], true);
    }
  }
  genDocs(scale == 2 ? 5 : scale ? 4 : 3, [&](const Str &t) { fidelity(c, A, t, true); roundtrip(c, A, t, true); });
  genTokens(TOK_STRUCT, scale == 2 ? 7 : scale ? 6 : 5, 1, {"", ""}, [&](const Str &t) { accept(c, A, t); });
  genTokens(TOK_NUM, scale ? 5 : 4, 1, {"[", "]"}, [&](const Str &t) { accept(c, A, t); });
  for (auto &x : CTX_INNER) genTokens(TOK_STR, scale ? 3 : 2, 1, x, [&](const Str &t) { accept(c, A, t); });
  genTokens(TOK_WORD, 4, 0, {"[", "]"}, [&](const Str &t) { accept(c, A, t); });
  for (int n = 0; n <= (scale ? 2 : 1); ++n) genBytes(n, CTX_ALL[0], [&](const Str &t) { accept(c, A, t); });
  for (auto &x : CTX_ALL) genBytes(1, x, [&](const Str &t) { accept(c, A, t); });
  for (size_t i = 0; i < SEEDS.size(); i += scale ? 1 : 6) if (scale == 2 || SEEDS[i].size() < 40) genEdits(SEEDS[i], [&](const Str &t) { accept(c, A, t); });
  for (size_t i = 0; i < SEEDS.size(); i += scale ? 4 : 12) if (SEEDS[i].size() < 30) genEdits(SEEDS[i], [&](const Str &t) { failParse(c, A, t, false); });
}
void liteVals(Ctx &c, const Api &A, int scale) {
  for (int n = 0; n <= (scale ? 2 : 1); ++n)
    genBytes(n, {"", ""}, [&](const Str &t) {
      if (n == 2 && scale < 2 && (unsigned char)t[0] % 5 && t[0] != '\\' && t[0] != '"' && t[0] != '-') return;
      setterCase(c, A, t, F_ALL, n < 2);
      if (A.SetStrEscape) escapeCase(c, A, t);
    });
  genBodies(TOK_STR, scale == 2 ? 4 : scale ? 3 : 2, 1, "", [&](const Str &t) { setterCase(c, A, t, F_STR, false); decodeCase(c, A, t, true); });
  genBodies({"\\u", "D8", "dc", "00", "DF", "E0", "ff", "a"}, scale ? 5 : 4, 1, "", [&](const Str &t) { setterCase(c, A, t, F_STR, false); decodeCase(c, A, t, false); });
  genTokens(TOK_NUM, scale ? 5 : 4, 1, {"", ""}, [&](const Str &t) { setterCase(c, A, t, F_NUM, false); literalCase(c, A, t); });
  for (int u = 0; u < 0x10000; u += scale == 2 ? 7 : scale ? 61 : 509) {
    char b[16];
    snprintf(b, sizeof b, "\\u%04x", u);
    setterCase(c, A, b, F_STR, false);
    decodeCase(c, A, b, true);
  }
  for (const char *s : {"2147483647", "2147483648", "-2147483648", "9223372036854775807", "-9223372036854775808", "1e308", "123456789012345678901234567890", "0.1", "4.9e-324", "-0.0", "1.7976931348623157e308", "0.30000000000000004"}) literalCase(c, A, s);
  if (A.SetInt && A.GetInt) {
    for (long long x = -300; x < 300; x += 100) intRange(c, A, x, x + 99, 7, true);
    for (int k = 8; k < 63; ++k) intRange(c, A, (1LL << k) - 3, (1LL << k) + 3, 6, true);
    intRange(c, A, -2147483648LL, -2147483645LL, 7, true);
    intRange(c, A, 2147483644LL, 2147483647LL, 7, true);
    intRange(c, A, -9223372036854775807LL - 1, -9223372036854775805LL, 6, true);
  }
  std::vector<Str> q = {"", "a", "aa", "ab", "b", "ba"};
  for (int n = 0; n <= (scale ? 3 : 2); ++n) {
    int tot = 1;
    for (int i = 0; i < n; ++i) tot *= (int)q.size();
    for (int k = 0; k < tot; ++k)
      for (int how = 0; how < 4; ++how) {
        std::vector<Str> ks;
        for (int i = 0, r = k; i < n; ++i, r /= (int)q.size()) ks.push_back(q[r % q.size()]);
        if (!c.take()) continue;
        lookupCase(c, A, ks, q, how, true);
      }
  }
}
void liteSizes(Ctx &c, const Api &A, int scale) {
  for (auto &k : SIZE_KINDS)
    for (size_t n : sizes(scale == 2 ? 600 : scale ? 140 : 70, std::min<size_t>(k.maxn, scale == 2 ? 20000 : scale ? 5000 : 1100))) {
      Str t = k.make(n);
      fidelity(c, A, t, n < 200);
      roundtrip(c, A, t, true);
    }
}
static int roomOf(Ctx &c, const Api &A, const WorldDef &w, const Model &m0) {
  // largest padding that does not make the library obtain another block
  auto blocks = [&](int pad) {
    HistOpt o;
    o.singleHandle = A.setTakesKey;
    o.probes = false;
    o.pad = pad;
    o.countOnly = true;
    runHist(c, A, w, m0, {}, o);
    return histBlocks();
  };
  size_t base = blocks(0);
  int lo = 0, hi = 1 << 15;
  if (blocks(hi) == base) return -1;
  while (hi - lo > 1) { int mid = (lo + hi) / 2; (blocks(mid) == base ? lo : hi) = mid; }
  return lo;
}
void roomHist(Ctx &c, const Api &A, int scale, uint8_t fill, const HistOpt *base) {
  static const size_t nw[] = {4, 10, 60};
  static const int span[] = {150, 220, 420};
  Ops full = opsFull(), st = opsStruct(), rm = opsRemoval();
  auto ws = pickWorlds(worlds(1, false), nw[scale]);
  for (size_t wi = 0; wi < ws.size(); ++wi) {
    const WorldDef &w = ws[wi];
    Model m0 = modelOf(w, A.setTakesKey);
    bool single = A.setTakesKey;
    if (single && m0.shared()) continue;
    bool have = false;
    int room = -1;
    for (int left = 0; left < span[scale]; ++left) {
      if (!c.block()) continue;
      if (!have) { room = roomOf(c, A, w, m0); have = true; }
      HistOpt o;
      if (base) o = *base;
      o.fill = fill;
      o.singleHandle = single;
      o.pad = room >= left ? room - left : left;
      auto one = [&](const Op &q) {
        Model m = m0;
        if (!opAvailable(A, q) || !m.allowed(q)) return;
        m.apply(q);
        if (m.over || (single && m.shared())) return;
        if (c.takeIn()) runHist(c, A, w, m0, {q}, o);
      };
      for (auto &q : full) one(q);
      if (scale == 0 || (scale == 1 && wi >= 2)) continue;
      for (auto &q : st) for (auto &r : rm) {
        Model m = m0;
        if (!m.allowed(q)) continue;
        m.apply(q);
        if (m.over || (single && m.shared()) || !m.allowed(r)) continue;
        m.apply(r);
        if (m.over || (single && m.shared())) continue;
        if (c.takeIn()) runHist(c, A, w, m0, {q, r}, o);
      }
    }
  }
}
// accounting mode: the counters follow what is really obtained from and returned to the system
void counterCases(Ctx &c, const Api &A) {
  unsigned long long z[3];
  if (!A.Counters || !A.Counters(z)) return;
  for (auto &k : SIZE_KINDS)
    for (size_t n : sizes(c.thorough ? 400 : 60, std::min<size_t>(k.maxn, c.thorough ? 70000 : 5000))) {
      if (!c.take()) continue;
      Str t = k.make(n);
      c.note("adapter %s, %s of size %zu", A.name, k.name, n);
      c.state(hash64(t.data(), t.size(), 140));
      Scope s(c);
      unsigned long long l0[3], r0[3], l[3];
      A.Counters(l0);
      memcpy(r0, vf_count, sizeof r0);
      auto same = [&](const char *after) {
        A.Counters(l);
        static const char *const N[] = {"allocations", "releases", "bytes"};
        for (int i = 0; i < 3; ++i) if (uint32_t(l[i] - l0[i]) != uint32_t(vf_count[i] - r0[i])) c.fail("adapter %s, after %s: %u %s counted, %u made", A.name, after, uint32_t(l[i] - l0[i]), N[i], uint32_t(vf_count[i] - r0[i]));
        ++c.transitions;
      };
      void *a = A.NewAllocator();
      same("NewAllocator");
      void *v = A.NewValue(a), *o = A.NewValue(a);
      same("NewValue");
      A.Parse(v, t.c_str());
      same("Parse");
      A.Stringify(v);
      same("Stringify");
      void *cp = A.Copy(v);
      same("Copy");
      A.SetObj(o);
      A.SetKey(v, "k");
      A.ObjAdd(o, v);
      if (cp) { A.SetKey(cp, "k"); A.ObjAddFast(o, cp); }
      same("edits");
      A.Parse(v, "[1,");
      A.SetStr(v, t.c_str());
      same("failures");
      void *b = A.NewAllocator();
      void *w = A.NewValue(b);
      A.ParseLen(w, t.data(), t.size());
      A.ReleaseAllocator(b);
      same("work in a second allocator");
      A.ReleaseAllocator(a);
      same("ReleaseAllocator");
      s.end();
    }
}
