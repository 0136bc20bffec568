// Transfer functions of the abstract interpreter over LLVM IR.
using namespace llvm;
Tables T;
i64 stackMin = 65536;
struct Prune {};
enum BI { B_NONE, B_NOP, B_OPAQUE_COPY, B_OPAQUE_MOVE, B_OPAQUE_DTOR, B_OPAQUE_CASSIGN, B_OPAQUE_MASSIGN, B_FCALL, B_ALLOC, B_DEALLOC,
  B_MAKE, B_JUMP, B_ONTOP, B_MALLOC, B_MMAP, B_FREE, B_NEW, B_DELETE, B_CXA_ALLOC, B_CXA_FREE, B_CXA_THROW, B_CXA_BEGIN, B_CXA_END, B_CXA_RETHROW,
  B_CUREXC, B_RETHROWEXC, B_EP_ADDREF, B_EP_RELEASE, B_EP_GET, B_TERMINATE, B_ASSERT, B_ABORT, B_LIFE_START, B_LIFE_END, B_MEMCPY, B_MEMSET,
  B_EXPECT, B_TYPEID, B_DEFSIZE, B_MINSIZE, B_MAXSIZE, B_OBJSIZE, B_ISCONST, B_FALSE, B_MINMAX, B_UNCAUGHT, B_THROWBAD, B_GETEXCPTR, B_IDENT, B_PAGESIZE, B_STACKSAVE, B_TRAP, B_OPAQUE_OTHER, B_UNKNOWN };
struct FnInfo {
  Function *f; u32 id; std::string dem, shortName; int bi = B_NONE; char ty = 0; bool isDtor = false, isCtor = false, prealloc = false, repo = false;
  DenseMap<const Value *, int> slot; int n = 0; DenseMap<const BasicBlock *, int> bix;
  bool liveDone = false; DenseMap<const Instruction *, std::vector<char>> live;
};
static Module *M; static const DataLayout *DL; static std::string repoPrefix;
static std::vector<FnInfo *> fns; static DenseMap<const Function *, FnInfo *> fnOf;
static std::vector<const GlobalVariable *> caughtTI;      // exception types the library names in its handlers
static std::vector<State> *forks; static unsigned forkCount;
static u64 nInstr = 0; static std::map<std::string, u64> stat;       // measured counters
static std::set<std::string> unknownCalls, imprecise, reachedFns;
static void report(State &s, const char *rule, std::set<std::string> props, const std::string &msg);
[[noreturn]] static void fatal(State &s, const char *rule, std::set<std::string> props, const std::string &msg);
static std::set<std::string> pending(State &s);
static Client *curClient(State &s, int ctx, int *idx);
static bool observing(int c);
static void acquired(State &s, const char *what);
[[noreturn]] static void unsure(State &s, const std::string &why);
static void clientReturned(State &s, Val v);
static void clientThrown(State &s, int exc);
static void fnEntered(State &s, Val self, Val peer);
static void switchCheck(State &s, bool ontop);
static void payloadEvent(State &s, char ty, bool copy, Val src);
static bool mayThrow(State &s, char ty, bool copy);
static void markFailed(State &s, char ty, int exc);
static void stackAllocated(State &s, u32 region, char kind, u32 tag, u32 from = 0);
static void stackFreed(State &s, u32 region, char kind, u32 tag, bool exact);
static Client *curClient(State &s, int ctx, int *idx);

static std::string demName(const std::string &n) {
  std::string d = demangle(n);
  return d;
}
static int ends(const std::string &s, const char *t) { size_t n = strlen(t); return s.size() >= n && s.compare(s.size() - n, n, t) == 0; }
static int starts(const std::string &s, const char *t) { return s.compare(0, strlen(t), t) == 0; }
struct TyInfo { i64 size = 8, align = 1; bool trivialDtor = false; };
static std::map<char, TyInfo> tyInfos;
static const TyInfo &tyInfo(char t) { return tyInfos[t]; }
static void classify(FnInfo *fi) {
  const std::string n = fi->f->getName().str(); const std::string &d = fi->dem;
  if (ends(n, "D1Ev") || ends(n, "D2Ev") || ends(n, "D0Ev")) fi->isDtor = d.find("::~") != std::string::npos;
  for (const char *t : {"C1E", "C2E"}) if (n.find(t) != std::string::npos) fi->isCtor = true;
  fi->prealloc = starts(d, "boost::context::preallocated::preallocated(void*, unsigned long,");
  int &b = fi->bi;
  if (fi->f->isIntrinsic()) {
    switch (fi->f->getIntrinsicID()) {
    case Intrinsic::lifetime_start: b = B_LIFE_START; break;
    case Intrinsic::lifetime_end: b = B_LIFE_END; break;
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: b = B_MEMCPY; break;
    case Intrinsic::memset: b = B_MEMSET; break;
    case Intrinsic::expect: case Intrinsic::threadlocal_address: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: b = B_IDENT; break;
    case Intrinsic::eh_typeid_for: b = B_TYPEID; break;
    case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: b = B_MINMAX; break;
    case Intrinsic::objectsize: b = B_OBJSIZE; break;
    case Intrinsic::is_constant: b = B_FALSE; break;
    case Intrinsic::trap: case Intrinsic::debugtrap: b = B_TRAP; break;
    case Intrinsic::stacksave: b = B_STACKSAVE; break;
    default: b = B_NOP;
    }
    return;
  }
  if (starts(d, "h::") && d.size() > 6) {
    char c = d[3]; std::string C(1, c), q = "h::" + C + "::";
    if (starts(d, q.c_str())) {
      std::string r = d.substr(q.size()); fi->ty = c;
      if (r == C + "(h::" + C + " const&)") b = B_OPAQUE_COPY;
      else if (r == C + "(h::" + C + "&&)") b = B_OPAQUE_MOVE;
      else if (r == "~" + C + "()") b = B_OPAQUE_DTOR;
      else if (r == "operator=(h::" + C + " const&)") b = B_OPAQUE_CASSIGN;
      else if (r == "operator=(h::" + C + "&&)") b = B_OPAQUE_MASSIGN;
      else if (starts(r, "operator()(")) b = B_FCALL;
      else if (r == "allocate()") b = B_ALLOC;
      else if (starts(r, "deallocate(")) b = B_DEALLOC;
      else if (starts(r, (C + "(").c_str()) && fi->f->isDeclaration()) b = B_OPAQUE_OTHER;
      if (b) { fi->isDtor = fi->isCtor = false; return; }
    }
  }
  if (!fi->f->isDeclaration()) {
    if (n == "__clang_call_terminate") b = B_TERMINATE;
    return;
  }
  static const std::map<std::string, int> tab = {
    {"make_fcontext", B_MAKE}, {"jump_fcontext", B_JUMP}, {"ontop_fcontext", B_ONTOP}, {"malloc", B_MALLOC}, {"mmap", B_MMAP}, {"mmap64", B_MMAP}, {"free", B_FREE},
    {"_Znwm", B_NEW}, {"_ZnwmSt11align_val_t", B_NEW}, {"_Znam", B_NEW}, {"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZdlPv", B_DELETE}, {"_ZdlPvm", B_DELETE}, {"_ZdlPvSt11align_val_t", B_DELETE}, {"_ZdlPvmSt11align_val_t", B_DELETE}, {"_ZdaPv", B_DELETE},
    {"__cxa_allocate_exception", B_CXA_ALLOC}, {"__cxa_free_exception", B_CXA_FREE}, {"__cxa_throw", B_CXA_THROW}, {"__cxa_begin_catch", B_CXA_BEGIN},
    {"__cxa_end_catch", B_CXA_END}, {"__cxa_rethrow", B_CXA_RETHROW}, {"_ZSt17current_exceptionv", B_CUREXC}, {"__cxa_get_exception_ptr", B_GETEXCPTR},
    {"_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", B_RETHROWEXC}, {"_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", B_EP_ADDREF},
    {"_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", B_EP_RELEASE}, {"_ZNKSt15__exception_ptr13exception_ptr6_M_getEv", B_EP_GET},
    {"_ZSt9terminatev", B_TERMINATE}, {"__cxa_call_terminate", B_TERMINATE}, {"__assert_fail", B_ASSERT}, {"abort", B_ABORT}, {"_exit", B_ABORT}, {"exit", B_ABORT}, {"__cxa_pure_virtual", B_ABORT},
    {"_ZSt18uncaught_exceptionv", B_UNCAUGHT}, {"_ZSt19uncaught_exceptionsv", B_UNCAUGHT}, {"memcpy", B_MEMCPY}, {"memmove", B_MEMCPY}, {"memset", B_MEMSET},
    {"_ZN5boost7context12stack_traits12default_sizeEv", B_DEFSIZE}, {"_ZN5boost7context12stack_traits12minimum_sizeEv", B_MINSIZE}, {"_ZN5boost7context12stack_traits12maximum_sizeEv", B_MAXSIZE}, {"_ZN5boost7context12stack_traits9page_sizeEv", B_PAGESIZE}};
  auto it = tab.find(n);
  if (it != tab.end()) b = it->second; else b = B_UNKNOWN;
}
static FnInfo *info(Function *f) {
  auto &p = fnOf[f]; if (p) return p;
  p = new FnInfo; p->f = f; p->id = fns.size(); fns.push_back(p); p->dem = demName(f->getName().str());
  p->shortName = p->dem; classify(p);
  if (auto *sp = f->getSubprogram()) { std::string fn = sp->getFilename().str(); if (!fn.empty() && fn[0] != '/') fn = sp->getDirectory().str() + "/" + fn; p->repo = fn.compare(0, repoPrefix.size(), repoPrefix) == 0; }
  for (auto &a : f->args()) p->slot[&a] = p->n++;
  int nb = 0;
  for (auto &b : *f) { p->bix[&b] = nb++; for (auto &i : b) if (!i.getType()->isVoidTy()) p->slot[&i] = p->n++; }
  return p;
}
static FnInfo *fnByName(const char *n) { Function *f = M->getFunction(n); return f ? info(f) : nullptr; }
static void liveness(FnInfo *fi) {
  if (fi->liveDone) return; fi->liveDone = true;
  size_t nb = fi->bix.size(); std::vector<std::vector<char>> in(nb, std::vector<char>(fi->n, 0)); bool ch = true;
  auto use = [&](std::vector<char> &l, const Value *v) { auto it = fi->slot.find(v); if (it != fi->slot.end()) l[it->second] = 1; };
  while (ch) {
    ch = false;
    std::vector<const BasicBlock *> bbs; for (auto &b : *fi->f) bbs.push_back(&b);
    for (auto it = bbs.rbegin(); it != bbs.rend(); ++it) {
      const BasicBlock *b = *it; std::vector<char> l(fi->n, 0);
      for (const BasicBlock *sb : successors(b)) {
        auto &x = in[fi->bix[sb]]; for (int i = 0; i < fi->n; ++i) l[i] |= x[i];
        for (auto &ph : sb->phis()) use(l, ph.getIncomingValueForBlock(b));
      }
      for (auto ii = b->rbegin(); ii != b->rend(); ++ii) {
        const Instruction &I = *ii;
        if (isa<CallBase>(I)) { auto x = l; auto s = fi->slot.find(&I); if (s != fi->slot.end()) x[s->second] = 0; fi->live[&I] = x; }
        auto s = fi->slot.find(&I); if (s != fi->slot.end()) l[s->second] = 0;
        if (isa<PHINode>(I)) continue;
        for (auto &o : I.operands()) use(l, o.get());
      }
      auto &x = in[fi->bix[b]]; if (x != l) { x = l; ch = true; }
    }
  }
}
// ---------------------------------------------------------------- locations -----------
static std::string locOf(const Instruction *I, bool *repo = nullptr) {
  if (repo) *repo = false;
  if (!I) return "?";
  const DebugLoc &D = I->getDebugLoc(); if (!D) return "?";
  auto *S = cast<DIScope>(D.getScope()); std::string f = S->getFilename().str();
  if (!f.empty() && f[0] != '/') f = S->getDirectory().str() + "/" + f;
  if (f.compare(0, repoPrefix.size(), repoPrefix) == 0) { if (repo) *repo = true; }
  return f + ":" + std::to_string(D.getLine());
}
static std::string site(State &s, int c = -1) {
  if (c < 0) c = s.cur;
  auto &fr = s.ctx[c].fr;
  for (int i = (int)fr.size() - 1; i >= 0; --i) { if (fr[i]->client) continue; bool rp; std::string l = locOf(fr[i]->ip, &rp); if (rp) return l + " in " + fr[i]->fi->dem; }
  return "";
}
static std::vector<std::string> stackTrace(State &s) {
  std::vector<std::string> v;
  auto &fr = s.ctx[s.cur].fr;
  for (int i = (int)fr.size() - 1; i >= 0 && v.size() < 14; --i)
    v.push_back(fr[i]->client ? (fr[i]->c.role ? "<coroutine-function>" : "<resumer>") : fr[i]->fi->dem + " at " + locOf(fr[i]->ip));
  return v;
}
// ---------------------------------------------------------------- values --------------
static bool residue(State &s, u32 terms, i64 c, i64 m, i64 &out) {      // (terms + c) mod m decided by an earlier branch?
  for (auto &f : s.facts) if (f.eq && f.terms == terms && f.m % m == 0) { out = (((f.res + c) % m) + m) % m; return true; }
  return false;
}
static Val simp(State &s, const Val &x) {             // replace remainders that an earlier branch decided
  if (s.facts.empty() || x.k != VK::Lin) return x;
  Val r = x;
  for (auto &t : T.terms[x.a]) { const Sym y = T.syms[t.first]; i64 k; if (y.k == SK::Delta && residue(s, y.terms, y.c, y.m, k)) r = add(add(r, scale(symv(t.first), t.second), -1), num(k * t.second)); }
  return r;
}
static bool knownAligned(State &s, const Val &x_, i64 m) {
  Val x = simp(s, x_);
  if (x.k != VK::Lin) return false;
  { i64 k; if (residue(s, x.a, x.c, m, k)) return k == 0; }
  i64 c = x.c; Terms rest;
  for (auto &t : T.terms[x.a]) {
    const Sym &y = T.syms[t.first];
    if (y.k == SK::Addr && s.r(y.region).kind != RK::Stack && s.r(y.region).align % m == 0) continue;
    if (y.k == SK::Dflt && y.region == 0 && 4096 % m == 0) continue;
    rest.push_back(t);
  }
  if (rest.empty()) return c % m == 0;
  for (auto &t : T.terms[x.a]) {
    const Sym &y = T.syms[t.first];
    if (y.k == SK::Delta && t.second == -1 && y.m % m == 0) {
      Val d{VK::Lin, y.terms, y.c}; Val r = add(add(x, symv(t.first)), d, -1);
      if (isNum(r) && r.c % m == 0) return true;
      if (!isNum(r) && knownAligned(s, r, m)) return true;
    }
  }
  return false;
}
static Val lowBits(State &s, const Val &x_, i64 m) {    // x mod m
  Val x = simp(s, x_); { i64 k; if (residue(s, x.a, x.c, m, k)) return num(k); }
  if (isNum(x)) return num(x.c & (m - 1));
  if (knownAligned(s, x, m)) return num(0);
  i64 c = ((x.c % m) + m) % m;
  return symv(T.sym({SK::Delta, 0, x.a, c, m}));
}
static i64 maskw(i64 v, unsigned w) { return w >= 64 ? v : (i64)((u64)v & (((u64)1 << w) - 1)); }
static i64 sextw(i64 v, unsigned w) { if (w >= 64) return v; u64 b = (u64)1 << (w - 1); return (i64)((((u64)v & (((u64)1 << w) - 1)) ^ b) - b); }
static u32 globalRegion(State &s, const GlobalVariable *g);
static Val evalC(State &s, const Constant *c) {
  if (auto *i = dyn_cast<ConstantInt>(c)) return i->getBitWidth() <= 64 ? num((i64)i->getZExtValue()) : top();
  if (isa<ConstantPointerNull>(c)) return num(0);
  if (isa<UndefValue>(c)) return undef();
  if (auto *a = dyn_cast<GlobalAlias>(c)) return evalC(s, a->getAliasee());
  if (auto *f = dyn_cast<Function>(c)) return fnv(info(const_cast<Function *>(f))->id);
  if (auto *g = dyn_cast<GlobalVariable>(c)) return addrOf(globalRegion(s, g));
  if (auto *e = dyn_cast<ConstantExpr>(c)) {
    if (auto *g = dyn_cast<GEPOperator>(e)) {
      APInt off(64, 0); if (!g->accumulateConstantOffset(*DL, off)) return top();
      return add(evalC(s, cast<Constant>(g->getPointerOperand())), num(off.getSExtValue()));
    }
    if (e->getOpcode() == Instruction::PtrToInt || e->getOpcode() == Instruction::IntToPtr || e->getOpcode() == Instruction::BitCast) return evalC(s, e->getOperand(0));
    return top();
  }
  if (isa<ConstantStruct>(c) || isa<ConstantArray>(c)) { std::vector<Val> v; for (auto &o : c->operands()) v.push_back(evalC(s, cast<Constant>(o.get()))); return agg(v); }
  if (isa<ConstantAggregateZero>(c) && c->getType()->isStructTy()) { std::vector<Val> v; for (unsigned i = 0; i < c->getType()->getStructNumElements(); ++i) v.push_back(evalC(s, c->getAggregateElement(i))); return agg(v); }
  return top();
}
static Val ev(State &s, const Frame &f, const Value *v) {
  auto it = f.fi->slot.find(v); if (it != f.fi->slot.end()) return f.slots[it->second];
  if (auto *c = dyn_cast<Constant>(v)) return evalC(s, c);
  return top();
}
// ---------------------------------------------------------------- memory --------------
static void rawStore(Region &r, u32 base, i64 off, i64 n, Val v, bool fill = false) {
  std::vector<Cell> out; out.reserve(r.cells.size() + 2);
  for (auto &c : r.cells) {
    if (c.base != base || c.off + c.size <= off || c.off >= off + n) { out.push_back(c); continue; }
    auto piece = [&](i64 o, i64 e) {
      if (o >= e) return;
      if (c.fill) out.push_back({base, o, e - o, true, c.v});
      else if (isNum(c.v) && c.size <= 8) { i64 sh = (o - c.off) * 8; out.push_back({base, o, e - o, false, num(maskw((i64)((u64)c.v.c >> sh), (e - o) * 8))}); }
      else if (c.v.k == VK::Bits && c.size <= 8) { i64 sh = (o - c.off) * 8; Val q = mkBits(T.masks[c.v.a] >> sh, (u64)c.v.c >> sh, (e - o) * 8); if (q.k != VK::Undef) out.push_back({base, o, e - o, false, q}); }
      else if (c.v.k == VK::Top) out.push_back({base, o, e - o, false, top()});
    };
    piece(c.off, std::min(c.off + c.size, off)); piece(std::max(c.off, off + n), c.off + c.size);
  }
  if (fill || v.k != VK::Undef) out.push_back({base, off, n, fill, v});
  std::sort(out.begin(), out.end(), [](const Cell &a, const Cell &b) { return std::tie(a.base, a.off) < std::tie(b.base, b.off); });
  r.cells.swap(out);
}
static Val rawLoad(const Region &r, u32 base, i64 off, i64 n) {
  std::vector<const Cell *> ov; i64 covered = 0;
  for (auto &c : r.cells) {
    if (c.base != base || c.off + c.size <= off || c.off >= off + n) continue;
    if (!c.fill && c.off == off && c.size == n) return c.v;
    ov.push_back(&c); covered += std::min(c.off + c.size, off + n) - std::max(c.off, off);
  }
  if (ov.empty()) return undef();
  if (n > 8) { bool zero = covered == n; for (auto *c : ov) if (!c->fill) zero = false; return zero ? top() : top(); }
  u64 v = 0, und = ones(n * 8); bool ok = true;
  for (auto *c : ov) {
    i64 b = std::max(c->off, off), e = std::min(c->off + c->size, off + n);
    for (i64 p = b; p < e; ++p) {
      u64 by, ub = 0;
      if (c->fill && isNum(c->v)) by = c->v.c & 255; else if (isNum(c->v) && c->size <= 8) by = ((u64)c->v.c >> ((p - c->off) * 8)) & 255;
      else if (c->v.k == VK::Bits && !c->fill && c->size <= 8) { by = ((u64)c->v.c >> ((p - c->off) * 8)) & 255; ub = (T.masks[c->v.a] >> ((p - c->off) * 8)) & 255; }
      else { ok = false; by = 0; }
      und &= ~((u64)255 << ((p - off) * 8)); und |= ub << ((p - off) * 8);
      v |= by << ((p - off) * 8);
    }
  }
  if (!ok) return top();
  return mkBits(und, v, n * 8);
}
static void writeConst(State &s, Region &r, u32 base, i64 off, const Constant *c) {
  Type *t = c->getType();
  if (isa<UndefValue>(c)) return;
  if (isa<ConstantAggregateZero>(c)) { rawStore(r, base, off, DL->getTypeAllocSize(t), num(0), true); return; }
  if (auto *st = dyn_cast<StructType>(t)) { auto *l = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) writeConst(s, r, base, off + (i64)l->getElementOffset(i).getFixedValue(), c->getAggregateElement(i)); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) {
    i64 es = DL->getTypeAllocSize(at->getElementType()); if (at->getNumElements() > 256) { rawStore(r, base, off, es * at->getNumElements(), top()); return; }
    for (unsigned i = 0; i < at->getNumElements(); ++i) if (auto *e = c->getAggregateElement(i)) writeConst(s, r, base, off + es * i, e); return; }
  rawStore(r, base, off, DL->getTypeStoreSize(t), evalC(s, c));
}
static u32 globalRegion(State &s, const GlobalVariable *g) {
  for (auto &p : s.globals) if (p.first == g) return p.second;
  u32 id = s.newRegion(RK::Global); Region &r = s.R(id);
  r.size = num(g->getValueType()->isSized() ? (i64)DL->getTypeAllocSize(g->getValueType()).getFixedValue() : 8); r.site = g; r.align = g->getAlign() ? g->getAlign()->value() : 1;
  s.globals.push_back({g, id});
  if (g->hasInitializer() && (!g->getName().starts_with("_ZT") || g->getName().starts_with("_ZTV"))) { u32 b = addrOf(id).a; Region tmp; writeConst(s, tmp, b, 0, g->getInitializer()); s.R(id).cells = tmp.cells; s.R(id).init = true; }
  return id;
}
static void killRegion(State &s, u32 id, const char *why) {
  Region &r = s.R(id);
  if (!r.objs.empty()) {
    auto objs = r.objs; r.objs.clear();
    for (auto &o : objs) {
      std::string w = std::string("object of type ") + o.type + " is never destroyed: " + why;
      if (o.type == 'F') report(s, "callable-leaked", {"C12"}, w);
      else if (o.type == 'A') report(s, "allocator-copy-leaked", {"C11", "C24"}, w);
      else if (o.type == 'L') report(s, "locals-not-unwound", {"C10"}, w);
      else if (!tyInfo(o.type).trivialDtor) report(s, "payload-leaked", {"C06"}, w);
    }
  }
  Region &q = s.R(id); q.alive = false; q.cells.clear(); q.dead.clear(); q.ext.clear();
}
static std::string describe(State &s, u32 id) {
  const Region &r = s.r(id);
  switch (r.kind) {
  case RK::Alloca: { auto *a = static_cast<const AllocaInst *>(r.site); return "local variable" + (a && a->hasName() ? " '" + a->getName().str() + "'" : std::string()) + (a ? " of " + demName(a->getFunction()->getName().str()) : ""); }
  case RK::Client: return "object owned by the caller"; case RK::Stack: return "coroutine stack"; case RK::Heap: return "heap block";
  case RK::Exc: return "exception object"; case RK::Global: return "global " + static_cast<const GlobalVariable *>(r.site)->getName().str();
  }
  return "?";
}
struct Addr { u32 r; u32 base; i64 off; };
static std::set<std::string> operator+(std::set<std::string> a, const std::set<std::string> &b) { a.insert(b.begin(), b.end()); return a; }
static Addr resolve(State &s, const Val &p_, i64 n, i64 align, const char *what, bool checkDead = true) {
  u32 id; const Val p = simp(s, p_);
  if (p.k == VK::Undef) fatal(s, "uninitialised-pointer", {"C16"}, std::string(what) + " through an uninitialised pointer");
  if (p.k == VK::Top) unsure(s, std::string(what) + " through a pointer the analysis cannot bound");
  if (p.k != VK::Lin) fatal(s, "bad-pointer", {"C16"}, std::string(what) + " through a value that is not an object pointer");
  if (!pointsTo(p, id)) {
    if (isNum(p)) { fatal(s, "null-pointer", {"C16"}, std::string(what) + " through a null pointer (offset " + std::to_string(p.c) + ")"); }
    unsure(s, std::string(what) + " through an unresolved address");
  }
  const Region &r = s.r(id);
  if (!r.alive) {
    std::set<std::string> ps{"C16"}; if (r.kind == RK::Stack || r.kind == RK::Heap) ps.insert("C11");
    fatal(s, "dead-memory", ps, std::string(what) + " in memory already released (" + describe(s, id) + ")"); }
  Addr a{id, p.a, p.c};
  if (n > 0) {
    stat["memory_accesses"]++;
    bool stk = r.kind == RK::Stack || (r.kind == RK::Heap && r.co >= 0);
    if (stk) {
      Val rel = add(p, addrOf(id), -1); i64 lo, hi; interval(rel, lo, hi); Val fromTop = add(add(rel, num(n)), r.size, -1); i64 l2, h2; interval(fromTop, l2, h2);
      // rel = S - k: lower bound by the minimal stack size
      if (lo < 0 || h2 > 0) { report(s, "stack-bounds", {"C15", "C28"}, std::string(what) + " outside the coroutine stack: up to " + std::to_string(h2) + " bytes above its top"); throw Prune(); }
      if (align > 1 && !knownAligned(s, p, align)) { if (s.fuzzy > 3) unsure(s, "alignment of an address chosen by a loop"); report(s, "stack-alignment", {"C15", "C20"}, std::string(what) + " requires alignment " + std::to_string(align) + " which the address on the coroutine stack does not guarantee"); }
      bool found = false, grow = false; Ext ne{p.a, p.c, p.c + n};
      for (auto &e : r.ext) if (e.base == p.a) { found = true; if (p.c < e.lo || p.c + n > e.hi) { grow = true; ne.lo = std::min(e.lo, p.c); ne.hi = std::max(e.hi, p.c + n); } }
      if (!found || grow) {
        for (auto &e : r.ext) if (e.base != p.a) {
          Val d = add(Val{VK::Lin, ne.base, ne.lo}, Val{VK::Lin, e.base, e.hi}, -1), d2 = add(Val{VK::Lin, e.base, e.lo}, Val{VK::Lin, ne.base, ne.hi}, -1);
          i64 a1, b1, a2, b2; interval(d, a1, b1); interval(d2, a2, b2);
          if (a1 < 0 && a2 < 0) { report(s, "stack-overlap", {"C15", "C28", "C16"}, std::string(what) + " may overlap another object placed on the coroutine stack"); throw Prune(); }
        }
        if (r.run.k == VK::Lin) { Val d = add(Val{VK::Lin, ne.base, ne.lo}, r.run, -1); i64 a1, b1; interval(d, a1, b1); if (a1 < 0) { report(s, "stack-overlap", {"C15", "C28", "C16"}, std::string(what) + " may overlap the part of the stack handed to the context"); throw Prune(); } }
        Region &w = s.R(id); if (!found) w.ext.push_back(ne); else for (auto &e : w.ext) if (e.base == p.a) e = ne;
        stat["placement_obligations"]++;
      }
    } else if (isNum(r.size)) {
      if (r.kind == RK::Heap && align > 1 && !knownAligned(s, p, align)) { if (s.fuzzy > 3) unsure(s, "alignment of an address chosen by a loop"); report(s, "heap-alignment", {"C16", "C20"}, std::string(what) + " requires alignment " + std::to_string(align) + " which memory from operator new does not guarantee"); }
      if (p.c < 0 || p.c + n > r.size.c) fatal(s, "out-of-bounds", {"C16"}, std::string(what) + " outside " + describe(s, id));
    }
    if (checkDead) for (auto &d : s.r(id).dead) if (d.base == p.a && p.c < d.off + d.size && p.c + n > d.off)
      fatal(s, d.kind == 1 ? "after-destructor" : "out-of-scope", {"C16"}, std::string(what) + (d.kind == 1 ? " of an object whose destructor has run (" : " of an object that is out of scope (") + describe(s, id) + ")");
  }
  return a;
}
// what lies below the control structures belongs to the context
static void hitsContext(State &s, const Val &p, const char *what) {
  u32 id; if (!pointsTo(p, id) || !s.r(id).alive || s.r(id).run.k != VK::Lin) return;
  i64 lo, hi; interval(add(p, s.r(id).run, -1), lo, hi);
  if (hi < 0) fatal(s, "stack-overlap", std::set<std::string>{"C15", "C28", "C16"}, std::string(what) + " into the part of the stack handed to the context");
}
static void revive(State &s, u32 id, u32 base, i64 off, i64 n) {
  const Region &r = s.r(id); bool any = false;
  for (auto &d : r.dead) if (d.base == base && off < d.off + d.size && off + n > d.off) any = true;
  if (!any) return;
  Region &w = s.R(id); std::vector<Dead> out;
  for (auto &d : w.dead) {
    if (d.base != base || off >= d.off + d.size || off + n <= d.off) { out.push_back(d); continue; }
    if (d.off < off) out.push_back({base, d.off, off - d.off, d.kind});
    if (d.off + d.size > off + n) out.push_back({base, off + n, d.off + d.size - off - n, d.kind});
  }
  w.dead = out;
}
static void overwriteCheck(State &s, const Addr &a, i64 n) {
  for (auto &o : s.r(a.r).objs) if (o.base == a.base && !tyInfo(o.type).trivialDtor) {
    i64 sz = 1; if (a.off <= o.off && o.off < a.off + n + sz - 1) {
      fatal(s, "object-overwritten", o.type == 'F' ? std::set<std::string>{"C12", "C16"} : o.type == 'A' ? std::set<std::string>{"C24", "C11"} : std::set<std::string>{"C06", "C04"}, std::string("raw write over a live object of type ") + o.type); }
  }
}
// an operation that only tests or reads may write to nothing but its own temporaries and its result
static void noteWrite(State &s, const Addr &a, const Instruction *I) {
  const Region &r = s.r(a.r);
  if (r.kind == RK::Global) { std::string l = site(s); if (!l.empty()) report(s, "global-write", {"C22"}, "writes " + describe(s, a.r)); return; }
  int idx = -1; Client *c = curClient(s, s.cur, &idx);
  if (!c || c->st != 1 || !observing(c->op.code)) return;
  if (r.kind == RK::Alloca) {
    auto &fr = s.frames(); for (size_t i = idx + 1; i < fr.size(); ++i) for (auto &al : fr[i]->allocas) if (al.second == a.r) return;
  } else if ((int)a.r == c->op.ret || (int)a.r == c->op.out || (int)a.r == c->it) return;
  stat["writes_by_observers"]++;
  report(s, "observer-writes", {"C22", "C03"}, "an operation that only observes writes " + describe(s, a.r));
}
static std::map<const Instruction *, std::set<i64>> siteVals;
static Val loadTy(State &s, const Val &p, Type *t, i64 align) {
  if (auto *st = dyn_cast<StructType>(t)) { auto *l = DL->getStructLayout(st); std::vector<Val> v; for (unsigned i = 0; i < st->getNumElements(); ++i) v.push_back(loadTy(s, add(p, num(l->getElementOffset(i))), st->getElementType(i), 1)); return agg(v); }
  i64 n = DL->getTypeStoreSize(t); Addr a = resolve(s, p, n, align, "read");
  const Region &r = s.r(a.r);
  if (r.kind == RK::Global && !r.init) return top();
  Val v = rawLoad(r, a.base, a.off, n);
  if (t->isIntegerTy() && isNum(v) && t->getIntegerBitWidth() < 64) v.c = maskw(v.c, t->getIntegerBitWidth());
  return v;
}
static void storeTy(State &s, const Val &p, Type *t, Val v, i64 align, const Instruction *I) {
  if (auto *st = dyn_cast<StructType>(t)) { auto *l = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); ++i) storeTy(s, add(p, num(l->getElementOffset(i))), st->getElementType(i), v.k == VK::Agg ? T.aggs[v.a][i] : v, 1, I); return; }
  i64 n = DL->getTypeStoreSize(t); Addr a = resolve(s, p, n, align, "write"); overwriteCheck(s, a, n);
  if ((isNum(v) || v.k == VK::Bits) && v.c != 0 && v.c != 1 && I) { auto &sv = siteVals[I]; sv.insert(v.c); if (sv.size() > 16) v = top(); }
  noteWrite(s, a, I);
  rawStore(s.R(a.r), a.base, a.off, n, v);
}
static const Obj *objAt(const Region &r, u32 base, i64 off) { for (auto &o : r.objs) if (o.base == base && o.off == off) return &o; return nullptr; }
// ---------------------------------------------------------------- control -------------
static void gotoBlock(State &s, Frame &f, const BasicBlock *from, const BasicBlock *to) {
  if (f.fi->bix[to] <= f.fi->bix[from] && ++s.backEdges > (s.fuzzy > 3 ? 300 : 3000)) {
    if (s.fuzzy > 3) unsure(s, "number of iterations of a loop is not determined");
    fatal(s, "no-progress", std::set<std::string>{"C02"} + pending(s), "a loop in the library does not end"); }
  std::vector<std::pair<int, Val>> nv;
  for (auto &ph : to->phis()) nv.push_back({f.fi->slot[&ph], ev(s, f, ph.getIncomingValueForBlock(from))});
  for (auto &p : nv) f.slots[p.first] = p.second;
  f.ip = &*to->getFirstNonPHIOrDbg();
}
static void advance(Frame &f) { f.ip = f.ip->getNextNonDebugInstruction(); }
// result of the call instruction the top frame is waiting at
static void deliver(State &s, Val v) {
  if (s.frames().empty()) fatal(s, "context-returned", std::set<std::string>{"C02", "C16"} + pending(s), "the entry function of an execution context returned");
  Frame &f = s.top();
  if (f.client) { clientReturned(s, v); return; }
  auto *cb = cast<CallBase>(f.ip);
  auto it = f.fi->slot.find(cb); if (it != f.fi->slot.end()) f.slots[it->second] = v;
  if (auto *iv = dyn_cast<InvokeInst>(cb)) gotoBlock(s, f, iv->getParent(), iv->getNormalDest()); else advance(f);
}
static void freeExc(State &s, u32 id) { s.R(id).alive = false; s.R(id).cells.clear(); }
static void popFrame(State &s, const char *why) {
  auto fp = s.frames().back();
  for (auto &a : fp->allocas) if (s.reg[a.second] && s.r(a.second).alive) killRegion(s, a.second, why);
  if (fp->selfSize > 0) {
    u32 id; if (pointsTo(fp->self, id) && s.r(id).alive) {
      revive(s, id, fp->self.a, fp->self.c, fp->selfSize);
      Region &w = s.R(id); w.dead.push_back({fp->self.a, fp->self.c, fp->selfSize, 1});
      std::sort(w.dead.begin(), w.dead.end(), [](const Dead &a, const Dead &b) { return std::tie(a.base, a.off, a.size) < std::tie(b.base, b.off, b.size); });
      // contents of a destroyed object are indeterminate
      rawStore(w, fp->self.a, fp->self.c, fp->selfSize, undef());
    }
  }
  if (fp->freeExc >= 0) freeExc(s, fp->freeExc);
  s.frames().pop_back();
}
static void pushCall(State &s, FnInfo *fi, const std::vector<Val> &args) {
  if (s.frames().size() > 200) fatal(s, "no-progress", std::set<std::string>{"C02"} + pending(s), "unbounded recursion in the library");
  auto f = std::make_shared<Frame>(); f->fi = fi; f->slots.resize(fi->n); f->ip = &*fi->f->getEntryBlock().getFirstNonPHIOrDbg();
  unsigned i = 0;
  for (auto &a : fi->f->args()) {
    Val v = i < args.size() ? args[i] : undef();
    if (a.hasByValAttr()) {
      i64 n = DL->getTypeAllocSize(a.getParamByValType()); Addr src = resolve(s, v, n, 1, "read of an argument");
      u32 id = s.newRegion(RK::Alloca); { Region &r = s.R(id); r.size = num(n); r.align = a.getParamAlign() ? a.getParamAlign()->value() : 16; r.ctx = s.cur; }
      Region tmp; u32 b = addrOf(id).a;
      for (auto &c : s.r(src.r).cells) if (c.base == src.base && c.off >= src.off && c.off + c.size <= src.off + n) rawStore(tmp, b, c.off - src.off, c.size, c.v, c.fill);
      s.R(id).cells = tmp.cells; f->allocas.push_back({&a, id}); v = addrOf(id);
    }
    f->slots[i++] = v;
  }
  if (fi->isCtor || fi->isDtor) {
    const Argument *th = fi->f->arg_size() ? fi->f->getArg(0) : nullptr; i64 n = th ? th->getDereferenceableBytes() : 0; u32 id;
    if (n && pointsTo(args[0], id) && s.r(id).alive) {
      if (fi->isCtor) { i64 al = th->getParamAlign() ? th->getParamAlign()->value() : 1; resolve(s, args[0], n, al, "construction of an object", false); revive(s, id, args[0].a, args[0].c, n); }
      else { f->self = args[0]; f->selfSize = n; }
    }
  }
  if (fi->isDtor && fi->f->arg_size()) { u32 id; if (pointsTo(args[0], id)) resolve(s, args[0], std::max<i64>(1, fi->f->getArg(0)->getDereferenceableBytes()), 1, "destructor call"); }
  reachedFns.insert(fi->dem); stat["calls"]++;
  if (fi->prealloc && args.size() == 5) {      // boost::context::preallocated( sp, size, sctx)
    Val want = add(args[3], add(args[4], args[1], -1), -1); u32 id; stat["preallocated_checked"]++;
    if (!(args[2] == want)) report(s, "remaining-stack", {"C15"}, "the size passed on to the context is not the size of the stack below the address passed on");
    if (!pointsTo(args[4], id) || !(args[4] == add(addrOf(id), s.r(id).size)) || !(args[3] == s.r(id).size)) report(s, "stack-context-altered", {"C15", "C11"}, "the stack context passed on differs from the one the allocator returned");
    else if (isNum(add(args[1], args[4], -1)) ? add(args[1], args[4], -1).c > 0 : false) report(s, "remaining-stack", {"C15"}, "the stack pointer passed on lies above the stack");
  }
  s.frames().push_back(f);
}
// ---------------------------------------------------------------- exceptions ----------
static const GlobalVariable *asTI(const Value *v) { return dyn_cast<GlobalVariable>(v->stripPointerCasts()); }
static bool subtype(const GlobalVariable *t, const GlobalVariable *c) {
  if (t == c) return true;
  if (!t->hasInitializer()) {                          // classes of the standard library
    StringRef n = t->getName(), b = c->getName(); if (!n.consume_front("_ZTISt")) return false;
    if (b == "_ZTISt9exception") return true;
    auto is = [&](std::initializer_list<const char *> l) { for (auto *x : l) if (n == x) return true; return false; };
    if (b == "_ZTISt11logic_error") return is({"12domain_error", "16invalid_argument", "12length_error", "12out_of_range"});
    if (b == "_ZTISt13runtime_error") return is({"11range_error", "14overflow_error", "15underflow_error", "12system_error"});
    if (b == "_ZTISt9bad_alloc") return n == "20bad_array_new_length";
    return false; }
  auto *in = t->getInitializer();
  if (in->getNumOperands() >= 3) for (unsigned i = 2; i < in->getNumOperands(); ++i) if (auto *b = dyn_cast<GlobalVariable>(in->getOperand(i))) if (b->getName().starts_with("_ZTI") && !t->getName().starts_with("_ZTIP") && subtype(b, c)) return true;
  return false;
}
static i64 typeId(const GlobalVariable *g) { static std::map<const GlobalVariable *, i64> m; auto it = m.find(g); if (it != m.end()) return it->second; i64 k = m.size() + 1; return m[g] = k; }
static bool foreign(State &s, int exc) { return exc > 0 && s.r(exc).kind == RK::Exc && s.r(exc).site == M->getGlobalVariable("_ZTIN10__cxxabiv115__forced_unwindE", true); }
[[noreturn]] static void terminate(State &s, int exc, const std::string &why) {
  std::set<std::string> ps{"C27"}; ps = ps + pending(s); if (exc >= 0) ps.insert("C07");
  (void)exc; fatal(s, "terminate", ps, "std::terminate is reached: " + why);
}
static void releaseRef(State &s, u32 e) { Region &r = s.R(e); if (--r.refs <= 0) freeExc(s, e); }
// a forced unwinding of the thread that no frame of the library intercepts leaves the library's sight
static bool intercepted(State &s) {
  for (auto it = s.frames().rbegin(); it != s.frames().rend(); ++it) {
    auto &fp = *it; if (fp->client) return false; if (!fp->fi->repo) continue;
    if (fp->fi->f->doesNotThrow()) return true;
    if (auto *iv = dyn_cast<InvokeInst>(cast<CallBase>(fp->ip))) { auto *lp = iv->getLandingPadInst();
      for (unsigned i = 0; i < lp->getNumClauses(); ++i) if (lp->isCatch(i)) { Constant *c = lp->getClause(i); if (isa<ConstantPointerNull>(c)) return true; if (auto *g = asTI(c)) if (subtype(M->getGlobalVariable("_ZTIN10__cxxabiv115__forced_unwindE", true), g)) return true; } }
  }
  return false;
}
static void throwExc(State &s, u32 exc) {
  stat["throws"]++;
  if (foreign(s, exc) && !s.frames().empty() && !intercepted(s)) throw Prune();
  for (;;) {
    if (s.frames().empty()) terminate(s, exc, "an exception leaves the entry function of an execution context");
    auto fp = s.frames().back();
    if (fp->client) { clientThrown(s, exc); return; }
    auto *cb = cast<CallBase>(fp->ip);
    if (auto *iv = dyn_cast<InvokeInst>(cb)) {
      auto *lp = iv->getLandingPadInst(); const GlobalVariable *ti = static_cast<const GlobalVariable *>(s.r(exc).site); i64 sel = -1;
      for (unsigned i = 0; i < lp->getNumClauses() && sel < 0; ++i) {
        if (!lp->isCatch(i)) continue;
        Constant *c = lp->getClause(i);
        if (isa<ConstantPointerNull>(c)) sel = 1000000; else if (auto *g = asTI(c)) if (ti && subtype(ti, g)) sel = typeId(g);
      }
      if (sel < 0 && lp->isCleanup()) sel = 0;
      if (sel >= 0) {
        Frame &f = s.top(); gotoBlock(s, f, iv->getParent(), iv->getUnwindDest());
        f.slots[f.fi->slot[lp]] = agg({addrOf(exc), num(sel)});
        f.ip = lp->getNextNonDebugInstruction(); return;
      }
    } else if (cb->doesNotThrow()) terminate(s, exc, "an exception leaves a call marked as not throwing");
    bool nu = fp->fi->f->doesNotThrow(); std::string d = fp->fi->dem;
    if (nu) terminate(s, exc, "an exception leaves the non-throwing function " + d);
    popFrame(s, "its scope is left by an exception");
  }
}
static int newExc(State &s, const GlobalVariable *ti) {
  u32 id = s.newRegion(RK::Exc); Region &r = s.R(id); r.size = num(16); r.align = 16; r.refs = 1; r.site = ti; return id;
}
// ---------------------------------------------------------------- context switches ----
static void doSwitch(State &s, const Val &to, const Val &dat, FnInfo *ontop) {
  if (to.k == VK::Undef) fatal(s, "uninitialised-context", std::set<std::string>{"C16"} + pending(s), "resumes an uninitialised execution context");
  if (to.k == VK::Top) unsure(s, "resumes an unknown execution context");
  if (to.k != VK::FCtx) fatal(s, "empty-context", std::set<std::string>{"C16"} + pending(s), "resumes an empty execution context");
  Ctx &c = s.ctx[to.a];
  if (c.st == CS::Dead) fatal(s, "finished-context", std::set<std::string>{"C16"} + pending(s), "resumes an execution context whose stack was released");
  if (c.st == CS::Running || c.serial != (u32)to.c) fatal(s, "stale-context", std::set<std::string>{"C16"} + pending(s), "resumes an execution context through an outdated handle");
  switchCheck(s, ontop != nullptr); stat["switches"]++;
  { std::string l = site(s); if (!l.empty()) { s.trail.push_back(l); if (s.trail.size() > 8) s.trail.erase(s.trail.begin()); } }
  int from = s.cur; s.ctx[from].st = CS::Suspended; s.ctx[from].serial++;
  Val h{VK::FCtx, (u32)from, (i64)s.ctx[from].serial};
  s.cur = to.a; bool fresh = s.ctx[s.cur].st == CS::New; s.ctx[s.cur].st = CS::Running; s.ctx[s.cur].serial++;
  if (ontop) { if (fresh) unsure(s, "ontop_fcontext on a context that never ran"); pushCall(s, ontop, {h, dat}); return; }
  if (fresh) pushCall(s, info(const_cast<Function *>(s.ctx[s.cur].entry)), {h, dat});
  else deliver(s, agg({h, dat}));
}
// ---------------------------------------------------------------- calls ---------------
static void copyBytes(State &s, const Val &d, const Val &sv, i64 n) {
  if (n <= 0) return;
  Addr a = resolve(s, sv, n, 1, "read"), b = resolve(s, d, n, 1, "write"); overwriteCheck(s, b, n);
  std::vector<Cell> src;
  for (auto &c : s.r(a.r).cells) {
    if (c.base != a.base || c.off + c.size <= a.off || c.off >= a.off + n) continue;
    if (c.off >= a.off && c.off + c.size <= a.off + n) src.push_back(c);
    else { i64 o = std::max(c.off, a.off), e = std::min(c.off + c.size, a.off + n); Cell x = c; x.off = o; x.size = e - o; if (!c.fill) x.v = rawLoad(s.r(a.r), a.base, o, e - o); src.push_back(x); }
  }
  noteWrite(s, b, nullptr);
  Region &w = s.R(b.r); rawStore(w, b.base, b.off, n, undef());
  for (auto &c : src) rawStore(w, b.base, b.off + (c.off - a.off), c.size, c.v, c.fill);
}
static void fork(State s2, void (*k)(State &, const std::vector<Val> &), const std::vector<Val> &a) {
  if (++forkCount > 20000) return;
  try { k(s2, a); forks->push_back(std::move(s2)); } catch (Prune &) {}
}
static void throwUser(State &s, const std::vector<Val> &a) {      // a[0].c: type letter, a[1].c: 1 copy
  u32 e = newExc(s, a.size() > 2 ? caughtTI[a[2].c] : M->getGlobalVariable("_ZTIN1h8user_excE", true)); markFailed(s, (char)a[0].c, e); throwExc(s, e);
}
static void forkThrow(State &s, char t, bool copy) {
  fork(s, throwUser, {num(t), num(copy)});
  for (size_t i = 0; i < caughtTI.size(); ++i) fork(s, throwUser, {num(t), num(copy), num(i)});
}
static void throwBadAlloc(State &s, const std::vector<Val> &) {
  static GlobalVariable *g = M->getGlobalVariable("_ZTIN1h8user_excE", true);
  u32 e = newExc(s, g); markFailed(s, 'm', e); throwExc(s, e);
}
static const char *payloadProp(char t) { return t == 'F' ? "C12" : t == 'A' ? "C24" : "C06"; }
static void builtin(State &s, const CallBase *cb, FnInfo *fi, const std::vector<Val> &args) {
  switch (fi->bi) {
  case B_NOP: deliver(s, cb->getType()->isVoidTy() ? undef() : top()); return;
  case B_IDENT: deliver(s, args[0]); return;
  case B_FALSE: deliver(s, num(0)); return;
  case B_TRAP: fatal(s, "trap", std::set<std::string>{"C16"} + pending(s), "execution reaches a trap (undefined behaviour in the source)");
  case B_OBJSIZE: deliver(s, num(-1)); return;
  case B_STACKSAVE: deliver(s, num(1)); return;
  case B_UNCAUGHT: deliver(s, top()); return;
  case B_OPAQUE_OTHER: fatal(s, "payload-converted", {"C04", "C05", "C20"}, "the library builds a payload other than by copying or moving the one pushed: " + fi->dem);
  case B_UNKNOWN: unknownCalls.insert(fi->dem); deliver(s, cb->getType()->isVoidTy() ? undef() : top()); return;
  case B_MINMAX: {
    Val x = args[0], y = args[1]; if (x.k != VK::Lin || y.k != VK::Lin) { deliver(s, top()); return; }
    i64 lo, hi; interval(add(x, y, -1), lo, hi); auto id = fi->f->getIntrinsicID(); bool mx = id == Intrinsic::umax || id == Intrinsic::smax;
    deliver(s, lo >= 0 ? (mx ? x : y) : hi <= 0 ? (mx ? y : x) : top()); return; }
  case B_LIFE_START: { Val p = args[1]; u32 id; if (pointsTo(p, id)) { if (!s.r(id).objs.empty()) killRegion(s, id, "its scope is entered again"); Region &r = s.R(id); r.alive = true; r.cells.clear(); r.dead.clear(); } deliver(s, undef()); return; }
  case B_LIFE_END: { Val p = args[1]; u32 id; if (pointsTo(p, id) && s.r(id).kind == RK::Alloca) { killRegion(s, id, "its scope ends"); Region &r = s.R(id); r.alive = true; if (isNum(r.size)) r.dead.push_back({p.a, 0, r.size.c, 2}); } deliver(s, undef()); return; }
  case B_MMAP: {
    fatal(s, "wrong-allocator", {"C24"}, "maps memory: a stack that does not come from the allocator given, nor from the default one"); }
  case B_MEMCPY: { if (!isNum(args[2])) hitsContext(s, args[0], "a copy"); if (isNum(args[2])) copyBytes(s, args[0], args[1], args[2].c); else unsure(s, "copy of unknown length"); deliver(s, args[0]); return; }
  case B_MEMSET: {
    if (!isNum(args[2])) { hitsContext(s, args[0], "a fill"); unsure(s, "fill of unknown length"); }
    i64 n = args[2].c; if (n > 0) { Addr a = resolve(s, args[0], n, 1, "write"); overwriteCheck(s, a, n); noteWrite(s, a, nullptr); rawStore(s.R(a.r), a.base, a.off, n, args[1].k == VK::Lin ? num(args[1].c & 255) : top(), isNum(args[1])); }
    deliver(s, args[0]); return; }
  case B_TYPEID: { auto *g = asTI(cb->getArgOperand(0)); deliver(s, num(g ? typeId(g) : 1000000)); return; }
  case B_DEFSIZE: deliver(s, symv(T.sym({SK::Dflt, 0, 0, 0, 0}))); return;
  case B_MINSIZE: case B_MAXSIZE: deliver(s, symv(T.sym({SK::Dflt, fi->bi == B_MINSIZE ? 1u : 2u, 0, 0, 0}))); return;
  case B_PAGESIZE: deliver(s, num(4096)); return;
  case B_MALLOC: case B_NEW: {
    acquired(s, "memory");
    if (mayThrow(s, 'm', false)) { if (fi->bi == B_NEW) fork(s, throwBadAlloc, {}); else { State s2 = s; if (++forkCount < 20000) try { markFailed(s2, 'm', -2); deliver(s2, num(0)); forks->push_back(std::move(s2)); } catch (Prune &) {} } }
    u32 id = s.newRegion(RK::Heap); { Region &r = s.R(id); r.size = args[0].k == VK::Lin ? args[0] : num(0); r.align = 16; if (args.size() > 1 && isNum(args[1]) && args[1].c > 16) r.align = args[1].c; }
    if (fi->bi == B_MALLOC) stackAllocated(s, id, 'm', args[0].k == VK::Lin && !(args[0] == symv(T.sym({SK::Dflt, 0, 0, 0, 0}))) ? 1 : 0);
    deliver(s, addrOf(id)); return; }
  case B_FREE: case B_DELETE: {
    u32 id; Val p = args[0];
    if (isNum(p) && p.c == 0) { deliver(s, undef()); return; }
    if (!pointsTo(p, id)) { if (p.k == VK::Top) unsure(s, "release of an unknown block"); fatal(s, "bad-release", {"C11", "C16"}, "releases a block that was not allocated"); }
    if (s.r(id).kind != RK::Heap) fatal(s, "bad-release", {"C11", "C16"}, "releases memory that was not allocated on the heap");
    if (!s.r(id).alive) fatal(s, "double-release", std::set<std::string>{"C11", "C16"} + pending(s), "releases memory twice");
    if (!(p == addrOf(id))) fatal(s, "bad-release", std::set<std::string>{"C11", "C16"} + pending(s), "releases memory through a pointer that is not its start");
    if (s.r(id).co >= 0) stackFreed(s, id, 'm', 0, true);
    killRegion(s, id, "its memory is released"); deliver(s, undef()); return; }
  // ---- exceptions
  case B_CXA_ALLOC: { u32 id = newExc(s, nullptr); Region &r = s.R(id); r.refs = 0; if (isNum(args[0])) r.size = args[0]; deliver(s, addrOf(id)); return; }
  case B_CXA_FREE: { u32 id; if (pointsTo(args[0], id)) freeExc(s, id); deliver(s, undef()); return; }
  case B_CXA_THROW: { u32 id; if (!pointsTo(args[0], id)) unsure(s, "throw of an unknown object"); Region &r = s.R(id); r.refs = 1; r.site = asTI(cb->getArgOperand(1)); if (args[2].k == VK::Fn) r.dtor = fns[args[2].a]->f; throwExc(s, id); return; }
  case B_GETEXCPTR: deliver(s, args[0]); return;
  case B_CXA_BEGIN: {
    u32 id; if (!pointsTo(args[0], id)) unsure(s, "handler for an unknown exception");
    if (!s.r(id).alive) fatal(s, "dead-exception", {"C07", "C16"}, "handles an exception object that was already released");
    if (!s.caught.empty() && s.caught.back().region == id && !s.caught.back().client) { auto &c = s.caught.back(); c.handlers = c.handlers < 0 ? -c.handlers + 1 : c.handlers + 1; }
    else s.caught.push_back({id, 1, false});
    deliver(s, addrOf(id)); return; }
  case B_CXA_END: {
    if (s.caught.empty()) { deliver(s, undef()); return; }
    auto &c = s.caught.back(); u32 id = c.region;
    if (c.handlers < 0) { if (++c.handlers == 0) s.caught.pop_back(); deliver(s, undef()); return; }
    if (--c.handlers == 0) {
      s.caught.pop_back(); Region &r = s.R(id);
      if (--r.refs <= 0) {
        if (r.dtor && !r.dtor->isDeclaration()) { pushCall(s, info(const_cast<Function *>(r.dtor)), {addrOf(id)}); s.top().freeExc = id; return; }
        freeExc(s, id); }
    }
    deliver(s, undef()); return; }
  case B_CXA_RETHROW: { if (s.caught.empty()) terminate(s, -1, "rethrow without a current exception"); auto &c = s.caught.back(); c.handlers = -c.handlers; u32 id = c.region; throwExc(s, id); return; }
  case B_CUREXC: {
    Val v = num(0); if (!s.caught.empty()) { u32 id = s.caught.back().region; s.R(id).refs++; v = addrOf(id); }
    Addr a = resolve(s, args[0], 8, 8, "write"); revive(s, a.r, a.base, a.off, 8); rawStore(s.R(a.r), a.base, a.off, 8, v); deliver(s, undef()); return; }
  case B_RETHROWEXC: {
    Addr a = resolve(s, args[0], 8, 8, "read"); Val v = rawLoad(s.r(a.r), a.base, a.off, 8); u32 id;
    if (v.k == VK::Undef) fatal(s, "uninitialised-exception", {"C07", "C16"}, "rethrows an uninitialised exception pointer");
    if (!pointsTo(v, id)) { if (isNum(v)) fatal(s, "null-exception", {"C07", "C16", "C27"}, "rethrows a null exception pointer"); unsure(s, "rethrow of an unknown exception"); }
    if (!s.r(id).alive) fatal(s, "dead-exception", {"C07", "C16"}, "rethrows an exception object that was already released");
    s.R(id).refs++; throwExc(s, id); return; }
  case B_EP_ADDREF: case B_EP_RELEASE: {
    Addr a = resolve(s, args[0], 8, 8, "read"); Val v = rawLoad(s.r(a.r), a.base, a.off, 8); u32 id;
    if (v.k == VK::Undef) fatal(s, "uninitialised-exception", {"C07", "C16"}, "uses an uninitialised exception pointer");
    if (pointsTo(v, id)) {
      if (!s.r(id).alive) fatal(s, "dead-exception", {"C07", "C16"}, "uses an exception object that was already released");
      if (fi->bi == B_EP_ADDREF) s.R(id).refs++; else { rawStore(s.R(a.r), a.base, a.off, 8, num(0)); releaseRef(s, id); } }
    deliver(s, undef()); return; }
  case B_EP_GET: deliver(s, loadTy(s, args[0], PointerType::getUnqual(M->getContext()), 8)); return;
  case B_TERMINATE: terminate(s, -1, "an exception hits a boundary declared not to throw");
  case B_ABORT: fatal(s, "abort", std::set<std::string>{"C27"} + pending(s), "the library aborts the program");
  case B_ASSERT: { std::string m = "?"; if (auto *g = dyn_cast<GlobalVariable>(cb->getArgOperand(0))) if (g->hasInitializer()) if (auto *d = dyn_cast<ConstantDataArray>(g->getInitializer())) if (d->isCString()) m = d->getAsCString().str();
    fatal(s, "assertion", std::set<std::string>{"C21"} + pending(s), "assertion fires for a correct use: " + m); }
  // ---- execution contexts
  case B_MAKE: {
    u32 id; if (!pointsTo(args[0], id) || (s.r(id).kind != RK::Stack && !(s.r(id).kind == RK::Heap && s.r(id).co >= 0))) fatal(s, "foreign-stack", std::set<std::string>{"C11", "C15", "C24", "C28"}, "creates an execution context on memory that did not come from the stack allocator");
    if (!s.r(id).alive) fatal(s, "dead-memory", {"C11", "C16"}, "creates an execution context on a released stack");
    Val rel = add(args[0], addrOf(id), -1), fromTop = add(rel, s.r(id).size, -1), bottom = add(rel, args[1], -1); i64 l, h, l2, h2, l3, h3; interval(rel, l, h); interval(fromTop, l2, h2); interval(bottom, l3, h3);
    stat["contexts_created"]++;
    if (l < 0 || h2 > 0) report(s, "stack-bounds", {"C15", "C28"}, "the stack handed to the context does not lie inside the allocated stack");
    if (l3 < 0) report(s, "stack-bounds", {"C15", "C28"}, "the stack handed to the context reaches below the allocated stack");
    for (auto &e : s.r(id).ext) { Val d = add(Val{VK::Lin, e.base, e.lo}, args[0], -1); i64 a1, b1; interval(d, a1, b1); if (a1 < 0) report(s, "stack-overlap", {"C15", "C28"}, "the stack handed to the context may overlap the control structures on it"); }
    acquired(s, "an execution context");
    s.R(id).run = args[0];
    int c = -1; for (size_t i = 1; i < s.ctx.size(); ++i) if (s.ctx[i].st == CS::Dead && s.ctx[i].serial == 0) { c = i; break; }
    if (c < 0) { c = s.ctx.size(); s.ctx.push_back(Ctx()); }
    s.ctx[c] = Ctx(); s.ctx[c].entry = fns[args[2].a]->f; s.ctx[c].stack = id;
    deliver(s, Val{VK::FCtx, (u32)c, 1}); return; }
  case B_JUMP: doSwitch(s, args[0], args[1], nullptr); return;
  case B_ONTOP: doSwitch(s, args[0], args[1], args[2].k == VK::Fn ? fns[args[2].a] : nullptr); return;
  // ---- opaque user types
  case B_OPAQUE_COPY: case B_OPAQUE_MOVE: {
    bool copy = fi->bi == B_OPAQUE_COPY; char t = fi->ty; const char *pp = payloadProp(t);
    i64 al = tyInfo(t).align, sz = tyInfo(t).size;
    Addr d = resolve(s, args[0], sz, al, "construction of an object", false), r = resolve(s, args[1], sz, 1, "read of an object");
    const Obj *o = objAt(s.r(r.r), r.base, r.off); stat["object_events"]++;
    std::set<std::string> ps{pp}; if (t != 'F' && t != 'A') ps = ps + std::set<std::string>{"C04", "C16"}; else ps.insert("C16");
    if (!o || o->type != t) fatal(s, "use-of-dead-object", ps + pending(s), std::string(copy ? "copies" : "moves") + " an object of type " + t + " that is not alive");
    if (objAt(s.r(d.r), d.base, d.off) && tyInfo(t).trivialDtor) { Region &w = s.R(d.r); for (size_t i = 0; i < w.objs.size(); ++i) if (w.objs[i].base == d.base && w.objs[i].off == d.off) { w.objs.erase(w.objs.begin() + i); break; } }
    if (objAt(s.r(d.r), d.base, d.off)) fatal(s, "constructs-over-live", {pp}, std::string("constructs an object of type ") + t + " over one that is still alive");
    payloadEvent(s, t, copy, args[1]);
    if (!cb->doesNotThrow() && !fi->f->doesNotThrow() && mayThrow(s, t, copy)) forkThrow(s, t, copy);
    o = objAt(s.r(r.r), r.base, r.off); u32 tag = o->st == 2 ? (u32)TAG_MOVED : o->tag; 
    if (!copy) for (auto &x : s.R(r.r).objs) if (x.base == r.base && x.off == r.off) x.st = 2;
    revive(s, d.r, d.base, d.off, sz); rawStore(s.R(d.r), d.base, d.off, sz, undef());
    Region &w = s.R(d.r); w.objs.push_back({d.base, d.off, t, 1, tag}); std::sort(w.objs.begin(), w.objs.end(), [](const Obj &a, const Obj &b) { return std::tie(a.base, a.off) < std::tie(b.base, b.off); });
    deliver(s, undef()); return; }
  case B_OPAQUE_CASSIGN: case B_OPAQUE_MASSIGN: {
    bool copy = fi->bi == B_OPAQUE_CASSIGN; char t = fi->ty; i64 sz = tyInfo(t).size;
    Addr d = resolve(s, args[0], sz, 1, "assignment to an object"), r = resolve(s, args[1], sz, 1, "read of an object"); stat["object_events"]++;
    const Obj *o = objAt(s.r(r.r), r.base, r.off); const Obj *x = objAt(s.r(d.r), d.base, d.off);
    if (!o || !x) fatal(s, "use-of-dead-object", std::set<std::string>{payloadProp(t), "C16", "C04"} + pending(s), std::string("assigns an object of type ") + t + " that is not alive");
    payloadEvent(s, t, copy, args[1]);
    if (t != 'F' && t != 'A' && !s.r(d.r).client) report(s, "stored-by-assignment", {"C04", "C05"}, std::string("a value of type ") + t + " is stored by assigning to an older one: what an assignment does is up to the payload, it need not replace the value");
    if (!cb->doesNotThrow() && !fi->f->doesNotThrow() && mayThrow(s, t, copy)) forkThrow(s, t, copy);
    u32 tag = o->st == 2 ? (u32)TAG_MOVED : o->tag;
    if (!copy) for (auto &y : s.R(r.r).objs) if (y.base == r.base && y.off == r.off) y.st = 2;
    for (auto &y : s.R(d.r).objs) if (y.base == d.base && y.off == d.off) { y.st = 1; y.tag = tag; }
    deliver(s, args[0]); return; }
  case B_OPAQUE_DTOR: {
    char t = fi->ty; i64 sz = tyInfo(t).size; Addr d = resolve(s, args[0], sz, 1, "destruction of an object"); stat["object_events"]++;
    const Obj *o = objAt(s.r(d.r), d.base, d.off);
    std::set<std::string> ps{payloadProp(t)}; 
    if (!o || o->type != t) fatal(s, "destroys-dead-object", ps + pending(s), std::string("destroys an object of type ") + t + " that is not alive");
    if (s.r(d.r).client) fatal(s, "destroys-foreign-object", ps + pending(s), std::string("destroys an object of type ") + t + " owned by the caller");
    if (t == 'F') for (auto &c : s.g.co) if (c.used && c.fRunLive && c.fRun == args[0]) c.fRunLive = false;
    Region &w = s.R(d.r); for (size_t i = 0; i < w.objs.size(); ++i) if (w.objs[i].base == d.base && w.objs[i].off == d.off) { w.objs.erase(w.objs.begin() + i); break; }
    deliver(s, undef()); return; }
  case B_FCALL: {
    Addr d = resolve(s, args[0], 1, 1, "call of the callable"); const Obj *o = objAt(s.r(d.r), d.base, d.off);
    if (!o || o->type != 'F') fatal(s, "use-of-dead-object", std::set<std::string>{"C12", "C01", "C16"} + pending(s), "calls a callable that is not alive");
    fnEntered(s, args[0], args[1]); return; }
  case B_ALLOC: {
    Addr d = resolve(s, args[0], tyInfo('A').size, 1, "call of the allocator"); const Obj *o = objAt(s.r(d.r), d.base, d.off);
    if (!o || o->type != 'A') fatal(s, "use-of-dead-object", {"C24", "C16"}, "allocates through an allocator that is not alive");
    if (!cb->doesNotThrow() && !fi->f->doesNotThrow() && mayThrow(s, 'A', false)) forkThrow(s, 'A', false);
    u32 tag = o->st == 2 ? (u32)TAG_MOVED : o->tag; u32 id = s.newRegion(RK::Stack); { Region &r = s.R(id); r.size = sizeOf(id); r.tag = tag; r.align = 1; }
    stackAllocated(s, id, 'A', tag, d.r);
    deliver(s, agg({sizeOf(id), add(addrOf(id), sizeOf(id))})); return; }
  case B_DEALLOC: {
    Addr d = resolve(s, args[0], tyInfo('A').size, 1, "call of the allocator"); const Obj *o = objAt(s.r(d.r), d.base, d.off);
    if (!o || o->type != 'A') fatal(s, "use-of-dead-object", std::set<std::string>{"C24", "C11", "C16"} + pending(s), "releases a stack through an allocator that is not alive");
    u32 tag = o->st == 2 ? (u32)TAG_MOVED : o->tag;
    Addr c = resolve(s, args[1], 16, 1, "read of the stack context"); Val sz = rawLoad(s.r(c.r), c.base, c.off, 8), sp = rawLoad(s.r(c.r), c.base, c.off + 8, 8); u32 id;
    if (!pointsTo(sp, id) || s.r(id).kind != RK::Stack) fatal(s, "bad-release", std::set<std::string>{"C11"} + pending(s), "releases a stack context that the allocator did not return");
    if (!s.r(id).alive) fatal(s, "double-release", std::set<std::string>{"C11", "C16"} + pending(s), "releases a coroutine stack twice");
    stackFreed(s, id, 'A', tag, sp == add(addrOf(id), sizeOf(id)) && sz == sizeOf(id));
    killRegion(s, id, "the coroutine stack it lives on is released"); deliver(s, undef()); return; }
  default: unsure(s, "unhandled call " + fi->dem);
  }
}
// ---------------------------------------------------------------- instructions --------
static Val cmp(State &s, CmpInst::Predicate p, Val x, Val y, unsigned w) {
  if (x.k == VK::Bits || y.k == VK::Bits) {
    u64 ux, vx, uy, vy; if (!bitsOf(x, w, ux, vx) || !bitsOf(y, w, uy, vy)) return top();
    u64 lx = vx, hx = vx | ux, ly = vy, hy = vy | uy;
    switch (p) {
    case CmpInst::ICMP_EQ: case CmpInst::ICMP_NE: if ((vx ^ vy) & ~ux & ~uy) return num(p == CmpInst::ICMP_NE); break;
    case CmpInst::ICMP_ULT: if (hx < ly) return num(1); if (lx >= hy) return num(0); break;
    case CmpInst::ICMP_ULE: if (hx <= ly) return num(1); if (lx > hy) return num(0); break;
    case CmpInst::ICMP_UGT: if (lx > hy) return num(1); if (hx <= ly) return num(0); break;
    case CmpInst::ICMP_UGE: if (lx >= hy) return num(1); if (hx < ly) return num(0); break;
    case CmpInst::ICMP_SLT: case CmpInst::ICMP_SGE: { u64 sb = (u64)1 << (w - 1); if (isNum(y) && vy == 0 && !(ux & sb)) return num(((vx & sb) != 0) == (p == CmpInst::ICMP_SLT)); break; }   // sign test
    case CmpInst::ICMP_SGT: { u64 sb = (u64)1 << (w - 1); if (isNum(y) && vy == ones(w) && !(ux & sb)) return num(!(vx & sb)); break; }
    default: break;
    }
    return undef();
  }
  if (x.k == VK::Undef || y.k == VK::Undef) return undef();
  bool eq = p == CmpInst::ICMP_EQ, ne = p == CmpInst::ICMP_NE;
  auto res = [&](bool e) { return num(eq ? e : !e); };
  if (x.k == VK::FCtx || y.k == VK::FCtx || x.k == VK::Fn || y.k == VK::Fn) {
    if (!eq && !ne) { if (x == y) return num(p == CmpInst::ICMP_ULE || p == CmpInst::ICMP_UGE); if (isNum(y) && y.c == 0) return num(p == CmpInst::ICMP_UGT || p == CmpInst::ICMP_UGE); return top(); }
    if (x == y) return res(true);
    if (x.k == VK::Top || y.k == VK::Top || x.k == VK::Data || y.k == VK::Data) return top();
    return res(false);
  }
  if (x.k != VK::Lin || y.k != VK::Lin) return top();
  if (isNum(x) && isNum(y)) {
    u64 a = maskw(x.c, w), b = maskw(y.c, w); i64 sa = sextw(x.c, w), sb = sextw(y.c, w);
    switch (p) {
    case CmpInst::ICMP_EQ: return num(a == b); case CmpInst::ICMP_NE: return num(a != b); case CmpInst::ICMP_UGT: return num(a > b); case CmpInst::ICMP_UGE: return num(a >= b);
    case CmpInst::ICMP_ULT: return num(a < b); case CmpInst::ICMP_ULE: return num(a <= b); case CmpInst::ICMP_SGT: return num(sa > sb); case CmpInst::ICMP_SGE: return num(sa >= sb);
    case CmpInst::ICMP_SLT: return num(sa < sb); case CmpInst::ICMP_SLE: return num(sa <= sb); default: return top();
    }
  }
  x = simp(s, x); y = simp(s, y); if (isNum(x) && isNum(y)) return cmp(s, p, x, y, w);
  Val d = add(x, y, -1); u32 rx, ry; bool px = pointsTo(x, rx), py = pointsTo(y, ry);
  if ((eq || ne) && px && py && rx != ry) return res(false);
  if (px && py && rx != ry) return top();
  i64 lo, hi; interval(d, lo, hi);
  if (eq || ne) { if (lo == 0 && hi == 0) return res(true); if (lo > 0 || hi < 0) return res(false); return top(); }
  int r = -1;
  switch (p) {
  case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: r = lo > 0 ? 1 : hi <= 0 ? 0 : -1; break;
  case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: r = lo >= 0 ? 1 : hi < 0 ? 0 : -1; break;
  case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: r = hi < 0 ? 1 : lo >= 0 ? 0 : -1; break;
  case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: r = hi <= 0 ? 1 : lo > 0 ? 0 : -1; break;
  default: break;
  }
  return r < 0 ? top() : num(r);
}
static Val binop(State &s, unsigned op, Val x, Val y, unsigned w) {
  if (op == Instruction::And || op == Instruction::Or || op == Instruction::Mul) { if (!isNum(y)) std::swap(x, y);
    if (isNum(y) && y.c == 0) { if (op != Instruction::Or) return num(0); return x; } }
  if (partial(x) || partial(y)) {
    u64 ux, vx, uy, vy; if (!bitsOf(x, w, ux, vx) || !bitsOf(y, w, uy, vy)) return (op == Instruction::And || op == Instruction::Or) && (x.k == VK::Top || y.k == VK::Top) ? top() : undef();
    u64 u = ux | uy, low = u & (~u + 1), k = low - 1;     // k: the bits below the lowest undefined one
    switch (op) {
    case Instruction::And: { u64 z = (~ux & ~vx) | (~uy & ~vy); return mkBits(u & ~z, vx & vy, w); }
    case Instruction::Or: { u64 o = vx | vy; return mkBits(u & ~o, o, w); }
    case Instruction::Xor: return mkBits(u, vx ^ vy, w);
    case Instruction::Add: return mkBits(~k, vx + vy, w);
    case Instruction::Sub: return mkBits(~k, vx - vy, w);
    case Instruction::Mul: return mkBits(~k, vx * vy, w);
    case Instruction::Shl: if (!isNum(y) || vy >= w) return undef(); return mkBits(ux << vy, vx << vy, w);
    case Instruction::LShr: if (!isNum(y) || vy >= w) return undef(); return mkBits(ux >> vy, vx >> vy, w);
    case Instruction::AShr: { if (!isNum(y) || vy >= w) return undef(); u64 sb = (u64)1 << (w - 1), hi = vy ? ones(w) & ~(ones(w) >> vy) : 0; return mkBits((ux >> vy) | (ux & sb ? hi : 0), (vx >> vy) | (vx & sb ? hi : 0), w); }
    default: return undef();
    }
  }
  if (x.k != VK::Lin || y.k != VK::Lin) return top();
  bool c = isNum(x) && isNum(y); u64 a = x.c, b = y.c;
  auto N = [&](u64 v) { return num(maskw((i64)v, w)); };
  switch (op) {
  case Instruction::Add: return c ? N(a + b) : w == 64 ? add(x, y) : top();
  case Instruction::Sub: return c ? N(a - b) : w == 64 ? add(x, y, -1) : top();
  case Instruction::Mul: return c ? N(a * b) : (w == 64 && isNum(y)) ? scale(x, y.c) : top();
  case Instruction::And: {
    if (c) return N(a & b);
    if (w != 64 || !isNum(y)) return top();
    u64 m = (u64)y.c + 1; if (m && (m & (m - 1)) == 0) return lowBits(s, x, m);           // x & (m-1)
    u64 k = ~(u64)y.c + 1; if (k && (k & (k - 1)) == 0) return add(x, lowBits(s, x, k), -1); // x & -k
    return top(); }
  case Instruction::Or: return c ? N(a | b) : top();
  case Instruction::Xor: return c ? N(a ^ b) : top();
  case Instruction::Shl: return isNum(y) && y.c < (i64)w ? (c ? N(a << b) : w == 64 ? scale(x, (i64)1 << y.c) : top()) : top();
  case Instruction::LShr: return c && b < w ? N((u64)maskw(x.c, w) >> b) : top();
  case Instruction::AShr: return c && b < w ? N((u64)(sextw(x.c, w) >> b)) : top();
  case Instruction::UDiv: return c && b ? N((u64)maskw(x.c, w) / (u64)maskw(y.c, w)) : top();
  case Instruction::URem: if (c && b) return N((u64)maskw(x.c, w) % (u64)maskw(y.c, w)); if (w == 64 && isNum(y) && b && (b & (b - 1)) == 0) return lowBits(s, x, b); return top();
  case Instruction::SDiv: return c && b ? N((u64)(sextw(x.c, w) / sextw(y.c, w))) : top();
  case Instruction::SRem: return c && b ? N((u64)(sextw(x.c, w) % sextw(y.c, w))) : top();
  }
  return top();
}
// an undetermined comparison of one remainder with a constant: terms mod m == res
static bool remainderTest(State &s, const Val &x, const Val &y, Fact &f) {
  if (x.k != VK::Lin || y.k != VK::Lin) return false;
  Val d = simp(s, add(x, y, -1)); auto &ts = T.terms[d.a]; if (ts.size() != 1) return false;
  const Sym q = T.syms[ts[0].first]; if (q.k != SK::Delta || (ts[0].second != 1 && ts[0].second != -1)) return false;
  i64 k = ts[0].second == 1 ? -d.c : d.c; if (k < 0 || k >= q.m) return false;
  f = {q.terms, q.m, (((k - q.c) % q.m) + q.m) % q.m, true}; return true;
}
struct Alt { Val v; };
static void forkSlot(State &s, const Instruction *I, Val other) {     // clone in which I evaluates to other
  if (++forkCount > 20000) return;
  State s2 = s; try { Frame &f = s2.top(); f.slots[f.fi->slot[I]] = other; advance(f); forks->push_back(std::move(s2)); } catch (Prune &) {}
}
static void step(State &s) {
  ++nInstr;
  Frame &f = s.top(); const Instruction &I = *f.ip; if (f.fi->repo) s.lastRepo = &I;
  auto set = [&](Val v) { Frame &g = s.top(); g.slots[g.fi->slot[&I]] = v; advance(g); };
  switch (I.getOpcode()) {
  case Instruction::Alloca: {
    auto &A = cast<AllocaInst>(I); Val n = ev(s, f, A.getArraySize()); u32 id = s.newRegion(RK::Alloca);
    { Region &r = s.R(id); r.size = isNum(n) ? num((i64)DL->getTypeAllocSize(A.getAllocatedType()).getFixedValue() * n.c) : top(); r.align = A.getAlign().value(); r.ctx = s.cur; r.site = &A; }
    s.top().allocas.push_back({&A, id}); set(addrOf(id)); return; }
  case Instruction::Load: { auto &L = cast<LoadInst>(I); Val p = ev(s, f, L.getPointerOperand()); set(loadTy(s, p, L.getType(), L.getAlign().value())); return; }
  case Instruction::Store: { auto &S = cast<StoreInst>(I); Val p = ev(s, f, S.getPointerOperand()), v = ev(s, f, S.getValueOperand()); storeTy(s, p, S.getValueOperand()->getType(), v, S.getAlign().value(), &I); advance(s.top()); return; }
  case Instruction::GetElementPtr: {
    auto *G = cast<GEPOperator>(&I); APInt C(64, 0); MapVector<Value *, APInt> Var; Val b = ev(s, f, G->getPointerOperand());
    if (!G->collectOffset(*DL, 64, Var, C)) { set(top()); return; }
    Val r = b; i64 c = C.getSExtValue();
    if (c || !Var.empty()) { r = add(b, num(c)); for (auto &p : Var) { Val x = ev(s, f, p.first); unsigned w = p.first->getType()->getIntegerBitWidth(); if (isNum(x)) x.c = sextw(x.c, w); r = add(r, scale(x, p.second.getSExtValue())); } }
    set(r); return; }
  case Instruction::ICmp: {
    auto &C = cast<ICmpInst>(I); Type *t = C.getOperand(0)->getType(); Val x = ev(s, f, C.getOperand(0)), y = ev(s, f, C.getOperand(1)); auto pr = C.getPredicate();
    Val r = cmp(s, pr, x, y, t->isIntegerTy() ? t->getIntegerBitWidth() : 64);
    if (r.k == VK::Top && x.k == VK::Lin && isNum(y) && y.c == 0) { if (pr == CmpInst::ICMP_UGT || pr == CmpInst::ICMP_SGT) pr = CmpInst::ICMP_NE; else if (pr == CmpInst::ICMP_ULE || pr == CmpInst::ICMP_SLE) pr = CmpInst::ICMP_EQ; }
    Fact q; if (r.k == VK::Top && (pr == CmpInst::ICMP_EQ || pr == CmpInst::ICMP_NE) && remainderTest(s, x, y, q)) {
      bool eq = pr == CmpInst::ICMP_EQ; i64 no = 0; bool denied = false;
      for (auto &p : s.facts) if (!p.eq && p.terms == q.terms && p.m == q.m) { ++no; if (p.res == q.res) denied = true; }
      Fact n = q; n.eq = false;
      if (denied) { set(num(!eq)); return; }
      if (no + 1 < q.m) { s.facts.push_back(n); forkSlot(s, &I, num(!eq)); s.facts.pop_back(); }   // all but one residue excluded: it is this one
      s.facts.push_back(q); s.facts.erase(std::remove_if(s.facts.begin(), s.facts.end(), [&](const Fact &p) { return !p.eq && p.terms == q.terms && q.m % p.m == 0; }), s.facts.end());
      set(num(eq)); return; }
    set(r); return; }
  case Instruction::Select: {
    Val c = ev(s, f, I.getOperand(0)), a = ev(s, f, I.getOperand(1)), b = ev(s, f, I.getOperand(2));
    if (isNum(c)) { set(c.c & 1 ? a : b); return; }
    if (partial(c)) fatal(s, "uninitialised-branch", std::set<std::string>{"C16"} + pending(s), "decision depends on an uninitialised value");
    if (a == b) { set(a); return; }
    forkSlot(s, &I, b); set(a); return; }
  case Instruction::Br: {
    auto &B = cast<BranchInst>(I);
    if (!B.isConditional()) { gotoBlock(s, f, B.getParent(), B.getSuccessor(0)); return; }
    Val c = ev(s, f, B.getCondition()); stat["branches"]++;
    if (partial(c)) fatal(s, "uninitialised-branch", std::set<std::string>{"C16"} + pending(s), "decision depends on an uninitialised value");
    if (isNum(c)) { gotoBlock(s, f, B.getParent(), B.getSuccessor(c.c & 1 ? 0 : 1)); return; }
    ++s.fuzzy;
    if (++forkCount < 20000) { State s2 = s; try { gotoBlock(s2, s2.top(), B.getParent(), B.getSuccessor(1)); forks->push_back(std::move(s2)); } catch (Prune &) {} }
    gotoBlock(s, s.top(), B.getParent(), B.getSuccessor(0)); return; }
  case Instruction::Switch: {
    auto &W = cast<SwitchInst>(I); Val c = ev(s, f, W.getCondition());
    if (partial(c)) fatal(s, "uninitialised-branch", std::set<std::string>{"C16"} + pending(s), "decision depends on an uninitialised value");
    if (isNum(c)) { const BasicBlock *d = W.getDefaultDest(); for (auto &k : W.cases()) if ((i64)k.getCaseValue()->getZExtValue() == c.c) d = k.getCaseSuccessor(); gotoBlock(s, f, W.getParent(), d); return; }
    for (auto &k : W.cases()) if (++forkCount < 20000) { State s2 = s; try { gotoBlock(s2, s2.top(), W.getParent(), k.getCaseSuccessor()); forks->push_back(std::move(s2)); } catch (Prune &) {} }
    gotoBlock(s, s.top(), W.getParent(), W.getDefaultDest()); return; }
  case Instruction::Ret: {
    Val v = I.getNumOperands() ? ev(s, f, I.getOperand(0)) : undef(); popFrame(s, "its scope ends"); deliver(s, v); return; }
  case Instruction::Resume: {
    Val v = ev(s, f, I.getOperand(0)); u32 e; if (v.k != VK::Agg || !pointsTo(T.aggs[v.a][0], e)) unsure(s, "resumes unwinding of an unknown exception");
    bool nu = f.fi->f->doesNotThrow(); if (nu) terminate(s, e, "an exception leaves the non-throwing function " + f.fi->dem);
    popFrame(s, "its scope is left by an exception"); throwExc(s, e); return; }
  case Instruction::Unreachable: fatal(s, "unreachable", std::set<std::string>{"C16"} + pending(s), "execution runs into code declared unreachable (undefined behaviour)");
  case Instruction::ExtractValue: { auto &E = cast<ExtractValueInst>(I); Val v = ev(s, f, E.getAggregateOperand()); for (unsigned i : E.indices()) v = v.k == VK::Agg ? T.aggs[v.a][i] : v.k == VK::Undef ? undef() : top(); set(v); return; }
  case Instruction::InsertValue: {
    auto &E = cast<InsertValueInst>(I); Val v = ev(s, f, E.getAggregateOperand()), x = ev(s, f, E.getInsertedValueOperand()); unsigned n = I.getType()->isStructTy() ? I.getType()->getStructNumElements() : I.getType()->getArrayNumElements();
    std::vector<Val> e = v.k == VK::Agg ? T.aggs[v.a] : std::vector<Val>(n, v); if (E.getNumIndices() != 1) { set(top()); return; } e[E.getIndices()[0]] = x; set(agg(e)); return; }
  case Instruction::Trunc: { Val v = ev(s, f, I.getOperand(0)); unsigned w = I.getType()->getIntegerBitWidth(); if (v.k == VK::Data && w == 1 && I.getOperand(0)->getType()->isIntegerTy(8)) { set(v); return; }   /* a bool in memory and in a register */ if (v.k == VK::Bits) { set(mkBits(T.masks[v.a], v.c, w)); return; } set(isNum(v) ? num(maskw(v.c, w)) : v.k == VK::Undef ? undef() : top()); return; }
  case Instruction::ZExt: { Val v = ev(s, f, I.getOperand(0)); if (v.k == VK::Data && I.getOperand(0)->getType()->isIntegerTy(1) && I.getType()->isIntegerTy(8)) { set(v); return; } if (partial(v)) { u64 u, q; bitsOf(v, I.getOperand(0)->getType()->getIntegerBitWidth(), u, q); set(mkBits(u, q, I.getType()->getIntegerBitWidth())); return; } set(isNum(v) ? num(maskw(v.c, I.getOperand(0)->getType()->getIntegerBitWidth())) : v.k == VK::Undef ? undef() : top()); return; }
  case Instruction::SExt: { Val v = ev(s, f, I.getOperand(0)); unsigned w = I.getType()->getIntegerBitWidth(); if (v.k == VK::Bits) { unsigned n = I.getOperand(0)->getType()->getIntegerBitWidth(); u64 u, q; bitsOf(v, n, u, q); set(mkBits((u64)sextw(u, n), (u64)sextw(q, n), w)); return; } set(isNum(v) ? num(maskw(sextw(v.c, I.getOperand(0)->getType()->getIntegerBitWidth()), w)) : v.k == VK::Undef ? undef() : top()); return; }
  case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast: set(ev(s, f, I.getOperand(0))); return;
  case Instruction::Freeze: { Val v = ev(s, f, I.getOperand(0)); set(partial(v) ? top() : v); return; }
  case Instruction::Fence: advance(f); return;
  case Instruction::AtomicRMW: {
    auto &A = cast<AtomicRMWInst>(I); Val p = ev(s, f, A.getPointerOperand()), v = ev(s, f, A.getValOperand()); Type *t = A.getType(); Val o = loadTy(s, p, t, 1); Val n = top(); unsigned w = t->isIntegerTy() ? t->getIntegerBitWidth() : 64;
    switch (A.getOperation()) { case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = binop(s, Instruction::Add, o, v, w); break; case AtomicRMWInst::Sub: n = binop(s, Instruction::Sub, o, v, w); break; case AtomicRMWInst::Or: n = binop(s, Instruction::Or, o, v, w); break; case AtomicRMWInst::And: n = binop(s, Instruction::And, o, v, w); break; default: break; }
    storeTy(s, p, t, n, 1, &I); set(o); return; }
  case Instruction::AtomicCmpXchg: {
    auto &A = cast<AtomicCmpXchgInst>(I); Val p = ev(s, f, A.getPointerOperand()); Type *t = A.getCompareOperand()->getType(); Val o = loadTy(s, p, t, 1); Val q = cmp(s, CmpInst::ICMP_EQ, o, ev(s, f, A.getCompareOperand()), t->isIntegerTy() ? t->getIntegerBitWidth() : 64);
    if (!isNum(q)) unsure(s, "compare-exchange on an unknown value");
    if (q.c) storeTy(s, p, t, ev(s, s.top(), A.getNewValOperand()), 1, &I);
    set(agg({o, q})); return; }
  case Instruction::Call: case Instruction::Invoke: {
    auto &C = cast<CallBase>(I); Val cv = ev(s, f, C.getCalledOperand());
    if (C.isInlineAsm()) { unknownCalls.insert("inline assembly"); deliver(s, C.getType()->isVoidTy() ? undef() : top()); return; }
    std::vector<Val> args; for (auto &a : C.args()) args.push_back(a->getType()->isMetadataTy() ? undef() : ev(s, f, a.get()));
    if (cv.k != VK::Fn) { if (cv.k == VK::Top) unsure(s, "call through an unknown pointer"); fatal(s, "bad-call", std::set<std::string>{"C16"} + pending(s), "call through an invalid pointer"); }
    FnInfo *fi = fns[cv.a];
    if (fi->bi) builtin(s, &C, fi, args); else pushCall(s, fi, args);
    return; }
  default:
    if (I.isBinaryOp()) { if (!I.getType()->isIntegerTy()) { set(top()); return; } set(binop(s, I.getOpcode(), ev(s, f, I.getOperand(0)), ev(s, f, I.getOperand(1)), I.getType()->getIntegerBitWidth())); return; }
    set(top());
  }
}
