// Bounded exhaustive exploration of operation histories: an abstract document
// model (ordered trees and handles) and the real library run in lock step.
#pragma once
#include "gen.h"

// ---- interned strings ------------------------------------------------------
int intern(const Str &s);
const Str &istr(int i);

// ---- operations --------------------------------------------------------------
enum K : uint8_t {
  K_BEGIN, K_NEXT, K_AGET, K_OGET, K_OGETL, K_COPY, K_NEW,
  K_NULL, K_BOOL, K_ARR, K_OBJ, K_NUM, K_STR, K_KEY, K_PARSE,
  K_MOVE, K_ADEL, K_ODEL,
  K_SET, K_SETF, K_OADD, K_OADDF, K_AADD, K_AADDF
};
// forms of K_NUM: 0 SetNumStr 1 SetNumStrFast 2 SetNumStrLen 3 SetNumStrLenFast 4 SetInt 5 SetLong 6 SetLongLong 7 SetDouble 8 SetNum
// forms of K_STR/K_KEY: 0 plain 1 Fast 2 Len 3 LenFast 4 Escape 5 LenEscape
// forms of K_PARSE: 0 Parse 1 ParseLen 2 ParseFast
struct Op {
  K k;
  int8_t x, y;   // slots (y: source of binary operations, destination of navigation)
  int8_t form;
  int arg;       // interned text, index, or 0/1
};
Str opName(const Op &o);

// ---- model --------------------------------------------------------------------
const int MAXN = 120, MAXKIDS = 24, NSLOT = 6;
struct MN {
  uint8_t type, nk;
  bool hasKey, dead;
  int16_t key, tok;
  uint8_t parent; // 0xFF none
  uint8_t kids[MAXKIDS];
};
struct MSlot {
  int16_t node;  // -1: empty value
  uint8_t alloc;
  bool used;     // a handle exists
};
struct Model {
  int n = 0;
  bool over = false; // bound on nodes or children exceeded
  bool takesKey = false;
  MN a[MAXN];
  MSlot s[NSLOT];
  int add(int type);
  int fromRef(const RefNode &r);
  void toRef(int n, RefNode &r) const;
  bool inside(int n, int anc) const; // n is anc or below it
  void kill(int n);                  // n and everything below is no longer usable
  void overwrite(int n);             // drop content of n
  void detach(int n);
  void append(int c, int n);
  int copyOf(int n);
  bool live(int sl) const { return s[sl].used && (s[sl].node < 0 || !a[s[sl].node].dead); }
  bool allowed(const Op &o) const;   // within the preconditions
  int apply(const Op &o);            // expected result: 0/1, or -2 for operations without a result
  void dump(int n, Str &o) const;
  uint64_t hash() const;
  bool shared() const;               // two usable handles to one value
};

// ---- worlds ----------------------------------------------------------------------
struct WorldDef {
  Str doc;                 // document of slot 0, empty: empty value
  int origin;              // how it is built
  std::vector<int> path;   // slot 1: child indices from the root; {-1}: empty value; {}: second handle to the root
  Str c;                   // slot 2: detached document ("": empty value)
  Str ckey;                // key of it ("-": none)
  int cAlloc;              // allocator of slot 2 (and 3)
};
const int NORIGIN = 9;
extern const char *ORIGIN[NORIGIN];
Str worldName(const WorldDef &w);
std::vector<WorldDef> worlds(int level, bool twoAlloc);
void *buildDoc(Ctx &c, const Api &A, void *al, const Str &doc, int origin);

struct HistOpt {
  bool probes = true;     // destructive probes at the end
  bool deepObs = false;   // every getter on every node at the end
  bool noisy = false;     // every read between all steps
  bool retain = false;    // keep returned texts and check them at the end
  int release = -1;       // release this allocator first and check the other
  bool strings = false;   // Stringify of every node at the end
  bool singleHandle = false;
  int mode = 1;           // memory monitor
  uint8_t fill = 0xA5;
  int pad = -1;           // bytes stored between building the world and the first operation
  int repeat = 1;         // each operation this many times
  bool countOnly = false; // only build the world and count memory blocks
};
size_t histBlocks();      // result of a countOnly run
bool opAvailable(const Api &A, const Op &q);
// the same, one step at a time, for documents that are worked on alternately:
// creation of the allocator, building, each operation, observation, release
struct LaneState;
struct Lane {
  LaneState *s;
  Lane(Ctx &c, const Api &A, const WorldDef &w, const Model &m0, const std::vector<Op> &ops, const HistOpt &o);
  ~Lane();
  Lane(const Lane &) = delete;
  int steps() const;
  void step(int i); // throws Violation, or Case_end beyond the bounds of the model
};
// run one history on the implementation and compare; m0 is the model of the world
void runHist(Ctx &c, const Api &A, const WorldDef &w, const Model &m0, const std::vector<Op> &ops, const HistOpt &o);
Model modelOf(const WorldDef &w, bool takesKey);
// all histories over the alphabet: every sequence of exactly 1..depth operations.
// last: if set, only these as final operation (deepest level)
typedef std::vector<Op> Ops;
void exploreHist(Ctx &c, const Api &A, const std::vector<WorldDef> &ws, const std::vector<Ops> &levels, const HistOpt &o, bool onlyFullDepth = false, bool lastFails = false);
Ops opsBig(), opsFull(), opsStruct(), opsCopying(), opsRemoval(), opsRefs(), opsSmall(), opsTok();
std::vector<WorldDef> worldsTok(bool twoAlloc);
// called for each history instead of running it (trace generation)
typedef std::function<void(const WorldDef &, const Model &, const std::vector<Op> &)> HistSink;
void enumHist(const std::vector<WorldDef> &ws, const std::vector<Ops> &levels, bool takesKey, const HistSink &f);
