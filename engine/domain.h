// Abstract domain of the analyser: values, symbolic addresses, memory regions,
// typestate of opaque objects, execution contexts and the specification state.
#pragma once
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include "llvm/IR/Instructions.h"
#include "llvm/IR/Module.h"

typedef int64_t i64; typedef uint32_t u32; typedef uint64_t u64; typedef uint8_t u8;

// ---------------------------------------------------------------- values --------------
enum class VK : u8 { Undef, Top, Lin, Fn, Data, FCtx, Agg, Bits };   // Bits: a = index of the mask of undefined bits, c = the defined ones
struct Val {
  VK k = VK::Undef; u32 a = 0; i64 c = 0;
  bool operator==(const Val &o) const { return k == o.k && a == o.a && c == o.c; }
  bool operator!=(const Val &o) const { return !(*this == o); }
};
enum class SK : u8 { Addr, Size, Delta, Dflt };
struct Sym { SK k; u32 region; u32 terms; i64 c; i64 m;
  bool operator<(const Sym &o) const { return std::tie(k, region, terms, c, m) < std::tie(o.k, o.region, o.terms, o.c, o.m); } };
typedef std::vector<std::pair<u32, int>> Terms;
// hash-consing tables for symbols, linear term lists and aggregates
struct Tables {
  std::vector<Sym> syms; std::map<Sym, u32> symIx;
  std::vector<Terms> terms{Terms()}; std::map<Terms, u32> termIx{{Terms(), 0}};
  std::vector<std::vector<Val>> aggs; std::map<std::vector<std::tuple<u8, u32, i64>>, u32> aggIx;
  std::vector<u64> masks; std::map<u64, u32> maskIx;
  u32 mask(u64 m) { auto it = maskIx.find(m); if (it != maskIx.end()) return it->second; masks.push_back(m); return maskIx[m] = masks.size() - 1; }
  u32 sym(Sym s) { auto it = symIx.find(s); if (it != symIx.end()) return it->second; syms.push_back(s); return symIx[s] = syms.size() - 1; }
  u32 term(const Terms &t) { auto it = termIx.find(t); if (it != termIx.end()) return it->second; terms.push_back(t); return termIx[t] = terms.size() - 1; }
  u32 agg(const std::vector<Val> &v) {
    std::vector<std::tuple<u8, u32, i64>> key; for (auto &x : v) key.push_back({(u8)x.k, x.a, x.c});
    auto it = aggIx.find(key); if (it != aggIx.end()) return it->second;
    aggs.push_back(v); return aggIx[key] = aggs.size() - 1; }
};
extern Tables T;
inline Val undef() { return {}; }
inline Val top() { return {VK::Top, 0, 0}; }
inline Val num(i64 c) { return {VK::Lin, 0, c}; }
inline Val symv(u32 s) { return {VK::Lin, T.term({{s, 1}}), 0}; }
inline Val addrOf(u32 r, i64 off = 0) { Val v = symv(T.sym({SK::Addr, r, 0, 0, 0})); v.c = off; return v; }
inline Val sizeOf(u32 r) { return symv(T.sym({SK::Size, r, 0, 0, 0})); }
inline Val fnv(u32 i) { return {VK::Fn, i, 0}; }
inline Val data(u32 tag) { return {VK::Data, tag, 0}; }
inline Val agg(const std::vector<Val> &v) { return {VK::Agg, T.agg(v), 0}; }
inline bool isNum(const Val &v) { return v.k == VK::Lin && v.a == 0; }
inline Val add(const Val &x, const Val &y, int sign = 1) {
  if (x.k != VK::Lin || y.k != VK::Lin) return (x.k == VK::Undef || y.k == VK::Undef) ? undef() : top();
  std::map<u32, int> m; for (auto &t : T.terms[x.a]) m[t.first] += t.second; for (auto &t : T.terms[y.a]) m[t.first] += sign * t.second;
  Terms r; for (auto &p : m) if (p.second) r.push_back(p);
  return {VK::Lin, T.term(r), x.c + sign * y.c};
}
inline Val scale(const Val &x, i64 f) {
  if (x.k != VK::Lin) return x.k == VK::Undef ? undef() : top();
  if (f == 0) return num(0);
  Terms r = T.terms[x.a]; for (auto &p : r) p.second *= (int)f;
  return {VK::Lin, T.term(r), x.c * f};
}
// integers of which only some bits are defined (bit-fields, packed flags)
inline u64 ones(unsigned w) { return w >= 64 ? ~(u64)0 : ((u64)1 << w) - 1; }
inline bool bitsOf(const Val &v, unsigned w, u64 &und, u64 &val) {
  if (v.k == VK::Undef) { und = ones(w); val = 0; return true; }
  if (v.k == VK::Bits) { und = T.masks[v.a] & ones(w); val = (u64)v.c & ones(w) & ~und; return true; }
  if (isNum(v)) { und = 0; val = (u64)v.c & ones(w); return true; }
  return false;
}
inline Val mkBits(u64 und, u64 val, unsigned w) {
  und &= ones(w); val &= ones(w) & ~und;
  if (!und) return num((i64)val);
  if (und == ones(w)) return undef();
  return {VK::Bits, T.mask(und), (i64)val};
}
inline bool partial(const Val &v) { return v.k == VK::Bits || v.k == VK::Undef; }
static const i64 INF = (i64)1 << 60;
extern i64 stackMin;                            // the smallest stack an allocator of the user returns
inline void interval(const Val &v, i64 &lo, i64 &hi) {   // v is Lin
  lo = hi = v.c;
  for (auto &t : T.terms[v.a]) {
    const Sym &s = T.syms[t.first]; i64 l, h;
    switch (s.k) {
    case SK::Addr: l = 65536; h = (i64)1 << 47; break;
    case SK::Size: case SK::Dflt: l = s.k == SK::Dflt ? (s.region == 1 ? 8192 : 65536) : stackMin; h = (i64)1 << 40; break;
    default: l = 0; h = s.m - 1;
    }
    if (t.second > 0) { lo += l * t.second; hi += h * t.second; } else { lo += h * t.second; hi += l * t.second; }
  }
}
// region of a pointer-like linear value: exactly one address term with coefficient 1
inline bool pointsTo(const Val &v, u32 &region) {
  if (v.k != VK::Lin) return false; int n = 0;
  for (auto &t : T.terms[v.a]) if (T.syms[t.first].k == SK::Addr) { if (t.second != 1) return false; region = T.syms[t.first].region; ++n; }
  return n == 1;
}

// ---------------------------------------------------------------- memory --------------
struct Cell { u32 base; i64 off; i64 size; bool fill; Val v; };
struct Obj { u32 base; i64 off; char type; u8 st; u32 tag; };       // st: 1 alive, 2 moved-from
struct Dead { u32 base; i64 off; i64 size; u8 kind; };               // 1 destructor ran, 2 out of scope
struct Ext { u32 base; i64 lo, hi; };
enum class RK : u8 { Alloca, Client, Stack, Heap, Exc, Global };
struct Region {
  RK kind = RK::Client; bool alive = true, init = false; bool client = false;
  Val size; u32 align = 1; int ctx = -1; int co = -1; u32 tag = 0; int refs = 0;
  const void *site = nullptr;       // alloca / global / typeinfo
  const llvm::Function *dtor = nullptr;
  Val run;                          // Stack: top of the part handed to the context
  std::vector<Cell> cells; std::vector<Obj> objs; std::vector<Dead> dead; std::vector<Ext> ext;
};
enum { TAG_MOVED = 0x7fffffff, TAG_NONE = 0 };

// ---------------------------------------------------------------- specification -------
struct Op {                          // public operation in progress in a client frame
  u8 code = 0; int h = -1, h2 = -1, co = -1, var = 0; u32 tag = 0; u32 prevTag = 0;
  int pv = -1, out = -1, ret = -1, fobj = -1, aobj = -1;   // regions owned by the client for this operation
  int failed = -1;                   // exception region of a payload/functor copy that threw in this operation
  u8 failKind = 0; bool prevHas = false;
  Val target;                        // object the operation was made on
};
struct Client {
  u8 role = 0;                       // 0 resumer, 1 coroutine-function
  u8 st = 0;                         // 0 choosing, 1 operation in progress, 2 exception caught: decide, 3 winding down
  int co = -1; Op op;
  Val peer[2]; u8 peerMade[2] = {0, 0}; int peerReg = -1; int peerOwner = 0;
  int exc = -1;                      // st 2/3: exception in hand
  u8 fin = 0; int finArg = 0;        // st 3: what follows the cleanup (1 return, 2 throw type finArg, 3 continue unwinding exc)
  int it = -1; u8 itSt = 0; int itH = -1;     // iterator: region, 0 none 1 at-coroutine 2 end; handle it refers to
  u8 used = 0;                       // bounded-history flags of a scenario
  int keep = -1;                     // object pushed last, still alive
};
enum Phase : u8 { PNone, PBuilding, PNotStarted, PActive, PDone };
struct Co {
  bool used = false; u8 phase = PNone; bool started = false, dying = false, early = false; int resumer = -1; int stack = -1; u8 stackSt = 0; int ctx = -1;
  u32 valTag = 0; bool has = false, taken = false; int refRegion = -1; int exc = -1; bool excSeen = false; u8 guard = 0;
  u32 fTag = 0, aTag = 0; u8 aKind = 0; Val fRun; bool fRunLive = false; int fin = 0; bool consumed = false, fRvalue = false;
};
struct Handle { u32 region = 0; bool made = false, busy = false; int owner = -1; int creator = 0; };
struct Caught { u32 region; int handlers; bool client; };
struct Ghost {
  int holder = 0;                    // 0 resumer, k+1 function of coroutine k
  std::vector<Co> co; std::vector<Handle> h; int clientCaught = 0; bool noThrow = false; int created = 0;
};

// ---------------------------------------------------------------- program state -------
struct FnInfo;
struct Frame {
  bool client = false;
  FnInfo *fi = nullptr; const llvm::Instruction *ip = nullptr; std::vector<Val> slots;
  std::vector<std::pair<const void *, u32>> allocas;
  int freeExc = -1;                  // exception object to free when this (destructor) frame returns
  Val self; i64 selfSize = 0;        // destructor frames: range that ends its lifetime on return
  Client c;
};
enum class CS : u8 { New, Suspended, Running, Dead };
struct Ctx {
  CS st = CS::New; u32 serial = 1; const llvm::Function *entry = nullptr; int stack = -1;
  std::vector<std::shared_ptr<Frame>> fr;
};
struct Fact { u32 terms; i64 m, res; bool eq;       // terms mod m == / != res
  bool operator<(const Fact &o) const { return std::tie(terms, m, res, eq) < std::tie(o.terms, o.m, o.res, o.eq); } };
struct State {
  std::vector<std::shared_ptr<Region>> reg;     // index = region id (0 unused)
  std::vector<Ctx> ctx; int cur = 0;
  std::vector<Caught> caught;
  std::vector<std::pair<const llvm::GlobalVariable *, u32>> globals;
  Ghost g; u32 nextTag = 1;
  std::vector<Fact> facts;           // residues decided by a branch
  // not part of the abstract state (diagnostics only)
  const llvm::Instruction *lastRepo = nullptr; int node = 0; unsigned backEdges = 0, depthSteps = 0; unsigned fuzzy = 0;   // fuzzy: how many decisions since the last operation boundary were not determined
  std::vector<std::string> trail;

  Region &R(u32 r) { auto &p = reg[r]; if (p.use_count() > 1) p = std::make_shared<Region>(*p); return *p; }
  const Region &r(u32 i) const { return *reg[i]; }
  u32 newRegion(RK k) { for (u32 i = 1; i < reg.size(); ++i) if (!reg[i]) { reg[i] = std::make_shared<Region>(); reg[i]->kind = k; return i; }
    reg.push_back(std::make_shared<Region>()); reg.back()->kind = k; return reg.size() - 1; }
  std::vector<std::shared_ptr<Frame>> &frames() { return ctx[cur].fr; }
  Frame &top() { auto &p = frames().back(); if (p.use_count() > 1) p = std::make_shared<Frame>(*p); return *p; }
  Frame &F(int c, int i) { auto &p = ctx[c].fr[i]; if (p.use_count() > 1) p = std::make_shared<Frame>(*p); return *p; }
};
