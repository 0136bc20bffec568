// Most general clients and the specification they check the library against.
enum OpCode : u8 { O_NONE, O_CTOR_L, O_CTOR_C, O_CTOR_R, O_CTOR_AL, O_CTOR_AR, O_DTOR, O_MCTOR, O_MASSIGN, O_SWAP, O_BOOL, O_NOT, O_PULL, O_PUSHL, O_PUSHR, O_GET,
  O_SMCTOR, O_SMASSIGN, O_SDTOR, O_SBOOL, O_SNOT, O_PBEGIN, O_PINC, O_PPOST, O_PDEREF, O_PARROW, O_PCMP, O_OBEGIN, O_OINC, O_ODEREF, O_OASSIGN, O_OCMP,
  O_RETURN, O_THROW, O_CATCH_ON, O_CATCH_OFF, O_CONTINUE, O_PROPAGATE, O_DROPIT };
static const char *opName[] = {"-", "construct(fn lvalue)", "construct(fn const lvalue)", "construct(fn rvalue)", "construct(allocator lvalue, fn lvalue)", "construct(allocator rvalue, fn rvalue)",
  "destroy", "move-construct", "move-assign", "swap", "operator bool", "operator!", "pull operator()", "push(lvalue)", "push(rvalue)", "get", "counterpart move-construct", "counterpart move-assign", "counterpart destroy",
  "counterpart operator bool", "counterpart operator!", "pull begin", "++it", "it++", "*it", "it->", "iterator compare", "push begin", "++out", "*out", "*out = value", "output iterator compare",
  "function returns", "function throws", "enter handler", "leave handler", "catch and go on", "let exception propagate", "drop iterator"};
struct Scenario {
  std::string name; int kind = 1; bool mainPull = true; bool moves = false, peer = false, iter = false, ctors = false, nested = false, catchh = false, throwing = false, core = false; int handles = 1, maxCo = 1;
} static sc;
static int throwKinds = 5;
static const char *throwTI[] = {"_ZTIN1h8user_excE", "_ZTIi", "_ZTIN1h12user_derivedE", "_ZTIPKc", "_ZTIDn"};
static i64 sizeMain = 8, sizeV = 0; static char objTy = 0;     // 0: plain data
static bool kConst = false, kRef = false, kVoid = false, kCopyF = false, kThrowF = false, kPushL = true, kPushR = true;
static bool isRef() { return kRef; }
static bool isVoid() { return kVoid; }

static bool pushOp(int c) { return c == O_PUSHL || c == O_PUSHR || c == O_OASSIGN; }
static bool pullOp(int c) { return c == O_PULL || c == O_PINC || c == O_PPOST; }
static bool transferOp(int c) { return pushOp(c) || pullOp(c); }
static bool ctorOp(int c) { return c >= O_CTOR_L && c <= O_CTOR_AR; }
static bool queryOp(int c) { return c == O_BOOL || c == O_NOT || c == O_GET || c == O_SBOOL || c == O_SNOT || c == O_PBEGIN || c == O_PDEREF || c == O_PARROW || c == O_PCMP || c == O_OBEGIN || c == O_OINC || c == O_ODEREF || c == O_OCMP; }
static bool moveOp(int c) { return c == O_MCTOR || c == O_MASSIGN || c == O_SWAP; }
static bool peerMoveOp(int c) { return c == O_SMCTOR || c == O_SMASSIGN || c == O_SDTOR; }
static std::set<std::string> opProps(int c) {        // the guarantee an operation exists for
  if (ctorOp(c)) return {"C01"};
  if (c == O_DTOR) return {"C10", "C11"};
  if (moveOp(c)) return {"C13"};
  if (peerMoveOp(c)) return {"C14"};
  if (c == O_PINC || c == O_PPOST) return {"C02", "C17"};
  if (c == O_OASSIGN) return {"C02", "C18"};
  if (transferOp(c)) return {"C02"};
  if (c == O_GET) return {"C04"};
  if (c == O_PBEGIN || c == O_PDEREF || c == O_PARROW || c == O_PCMP) return {"C17"};
  if (c == O_OBEGIN || c == O_OINC || c == O_ODEREF || c == O_OCMP) return {"C18"};
  if (c == O_BOOL || c == O_NOT || c == O_SBOOL || c == O_SNOT) return {"C09"};
  return {};
}
static Client *curClient(State &s, int ctx, int *idx) {
  auto &fr = s.ctx[ctx].fr; for (int i = (int)fr.size() - 1; i >= 0; --i) if (fr[i]->client) { if (idx) *idx = i; return &s.F(ctx, i).c; }
  return nullptr;
}
static bool observing(int c) { return queryOp(c) && c != O_GET; }
static int coOfCtx(State &s, int ctx) { if (ctx == 0) return -1; int st = s.ctx[ctx].stack; for (size_t k = 0; k < s.g.co.size(); ++k) if (s.g.co[k].used && s.g.co[k].stack == st) return k; return -1; }
static int actorOf(State &s, int ctx) { return ctx == 0 ? 0 : coOfCtx(s, ctx) + 1; }
// once constructed, a coroutine acquires nothing more
static void acquired(State &s, const char *what) {
  stat["acquisitions_judged"]++;
  Client *c = curClient(s, s.cur, nullptr); int op = 0;
  if (c) { if (c->st != 1 || !c->op.code) return; op = c->op.code; }
  else {                               // before the function is entered or after it has ended
    int k = coOfCtx(s, s.cur); if (k < 0) return;
    const Co &q = s.g.co[k]; if (q.dying) op = O_DTOR;
    else if (q.resumer >= 0) for (size_t x = 0; x < s.ctx.size(); ++x) if (s.ctx[x].st != CS::Dead && s.ctx[x].st != CS::New && actorOf(s, x) == q.resumer) { Client *d = curClient(s, x, nullptr); if (d && d->st == 1) op = d->op.code; }
  }
  if (!op || ctorOp(op)) return;
  if (transferOp(op) || queryOp(op) || moveOp(op) || peerMoveOp(op) || op == O_DTOR)
    report(s, "acquires", {"C32"}, std::string(opName[op]) + " of a constructed coroutine acquires " + what);
}
// guarantees whose fulfilment is outstanding at this moment (they are broken if execution stops here)
static std::set<std::string> pending(State &s) {
  std::set<std::string> p;
  for (size_t c = 0; c < s.ctx.size(); ++c) for (auto &f : s.ctx[c].fr) if (f->client && f->c.st != 0 && f->c.op.code) {
    auto q = opProps(f->c.op.code); p.insert(q.begin(), q.end());
    if (f->c.op.failed >= 0 && f->c.op.failKind != 'F' && f->c.op.failKind != 'A' && f->c.op.failKind != 'm') p.insert("C08");
    if (f->c.op.code == O_MASSIGN || f->c.op.code == O_DTOR) { p.insert("C11"); }
  }
  for (auto &k : s.g.co) if (k.used) { if (k.exc >= 0 && !k.excSeen) p.insert("C07"); if (k.dying && k.phase != PDone && k.phase != PNotStarted) p.insert("C10"); if (k.dying) p.insert("C11"); }
  if (sc.nested) p.insert("C26");
  return p;
}
// ---- hooks called by the interpreter -------------------------------------------------------
static void switchCheck(State &s, bool ontop) {
  if (s.g.holder == -2) { report(s, "foreign-unwind-swallowed", {"C10"}, "a forced unwinding of the thread that passes through the coroutine-function is swallowed by the library"); throw Prune(); }
  int n = 0; for (auto &c : s.caught) if (!c.client) ++n;
  if (n) report(s, "switch-in-handler", {"C25"}, "control is transferred while the library is handling an exception");
  Client *c = curClient(s, s.cur, nullptr);
  if (c && c->st == 1) {
    int o = c->op.code;
    if (queryOp(o) || o == O_MCTOR || o == O_SWAP || o == O_SMCTOR || o == O_SMASSIGN || o == O_SDTOR) {
      std::set<std::string> ps{"C03"}; if (moveOp(o)) ps.insert("C13"); if (peerMoveOp(o)) ps.insert("C14"); auto q = opProps(o); if (o != O_BOOL && o != O_NOT && o != O_SBOOL && o != O_SNOT && o != O_GET) ps.insert(q.begin(), q.end());
      report(s, "switch-in-query", ps, std::string(opName[o]) + " transfers control"); throw Prune();
    }
    if (o == O_MASSIGN && !ontop) { report(s, "switch-in-query", {"C03", "C13"}, "move assignment resumes a coroutine"); throw Prune(); }
    if (o == O_MASSIGN && c->op.h == c->op.h2) { report(s, "switch-in-query", {"C03", "C13"}, "self-move assignment transfers control"); throw Prune(); }
  }
}
static bool inTransit(State &s, Client *c) { return c && c->st == 1 && pushOp(c->op.code) && s.g.holder != actorOf(s, s.cur); }
static bool mayThrow(State &s, char ty, bool copy) {
  if (s.g.noThrow) return false;
  Client *c = curClient(s, s.cur, nullptr); if (!c || c->st != 1) return false;
    if (ty == 'F') return sc.ctors && ctorOp(c->op.code) && (copy || kThrowF) && c->op.failed == -1;
  if (ty == 'A' || ty == 'm') return sc.ctors && ctorOp(c->op.code) && !copy && c->op.failed == -1;
  return sc.throwing && inTransit(s, c) && c->op.failed == -1;
}
static void markFailed(State &s, char ty, int exc) {
  Client *c = curClient(s, s.cur, nullptr); if (!c) return;
  c->op.failed = exc; c->op.failKind = ty;
  if (pushOp(c->op.code)) { s.g.holder = actorOf(s, s.cur); Co &k = s.g.co[c->op.co]; k.valTag = c->op.prevTag; k.has = sc.mainPull ? false : c->op.prevHas; }
  if (ctorOp(c->op.code)) s.g.holder = actorOf(s, s.cur);
}
static void payloadEvent(State &s, char ty, bool copy, Val src) {
  if (ty == 'A') return;
  u32 sid = 0; pointsTo(src, sid); const Obj *so = objAt(s.r(sid), src.a, src.c);
  if (ty == 'F') { if (kCopyF) return; for (auto &k : s.g.co) if (copy && k.used && k.fRvalue && so && so->tag == k.fTag) report(s, "rvalue-callable-copied", {"C12"}, "a callable passed as rvalue is copied");
    if (copy && so && !s.r(sid).client) report(s, "callable-copied-again", {"C12"}, "a callable the coroutine already holds is copied instead of moved");
    return; }
  if (kConst && copy) return;      // there is no other way to take a value out of a const object
  if (copy) for (auto &x : s.ctx) for (auto &f : x.fr) if (f->client && f->c.op.code == O_PUSHR && f->c.op.pv == (int)sid) report(s, "rvalue-copied", {"C05"}, "a payload pushed as rvalue is copied");
  Client *c = curClient(s, s.cur, nullptr); if (!c || c->st != 1) return;
  int o = c->op.code;
  if (copy && (o == O_PUSHR)) report(s, "rvalue-copied", {"C05"}, "a payload pushed as rvalue is copied");
  if (copy && o == O_GET) report(s, "read-copies", {"C05"}, "reading a value copies the payload instead of moving it");
  if (isRef()) report(s, "reference-copied", {"C04", "C05"}, "a payload passed by reference is copied or moved");
  if (copy && (o == O_PDEREF || o == O_PARROW)) report(s, "deref-copies", {"C17"}, "dereferencing an iterator copies the payload");
}
static void stackAllocated(State &s, u32 region, char kind, u32 tag, u32 from) {
  if (kind != 'm') acquired(s, "a stack");
  Client *c = curClient(s, s.cur, nullptr); int k = c && c->st == 1 && ctorOp(c->op.code) ? c->op.co : -1;
  if (kind == 'm') {          // heap block: it is the stack when the default allocator is in use
    if (k < 0 || s.g.co[k].aKind != 'm' || s.g.co[k].stackSt) {
      bool stackAlloc = false; auto &fr = s.frames(); if (!fr.empty() && !fr.back()->client && fr.back()->fi->dem.find("stack") != std::string::npos) stackAlloc = true;
      if (stackAlloc) report(s, "extra-stack", k >= 0 && s.g.co[k].aKind == 'A' ? std::set<std::string>{"C11", "C24"} : std::set<std::string>{"C11"}, "takes a stack that is not this coroutine's one stack from its allocator");
      return;
    }
  } else if (k < 0) { report(s, "extra-stack", {"C11", "C24"}, "allocates a stack outside the construction of a coroutine"); return; }
  Co &q = s.g.co[k];
  if (q.stackSt) { report(s, "extra-stack", {"C11"}, "allocates a second stack for one coroutine"); return; }
  if (kind != q.aKind) { report(s, "wrong-allocator", {"C24"}, "the stack does not come from the allocator given"); return; }
  if (kind == 'm' && tag) report(s, "wrong-allocator", {"C24"}, "the size of the stack is not the one the default allocator of Boost.Context chooses");
  if (kind == 'A' && c->op.code == O_CTOR_AL && c->op.aobj > 0 && from != (u32)c->op.aobj) report(s, "wrong-allocator", {"C24"}, "the stack is allocated through a copy, not through the allocator passed");
  if (kind == 'A' && tag != q.aTag) report(s, "wrong-allocator", {"C24"}, tag == TAG_MOVED ? "the stack is allocated through an allocator that was already moved from" : "the stack comes from another allocator");
  q.stack = region; q.stackSt = 1; s.R(region).co = k; stat["stacks_allocated"]++;
}
static void stackFreed(State &s, u32 region, char kind, u32 tag, bool exact) {
  int k = -1; for (size_t i = 0; i < s.g.co.size(); ++i) if (s.g.co[i].used && s.g.co[i].stack == (int)region) k = i;
  if (!exact) report(s, "stack-context-altered", {"C11"}, "the stack context given back differs from the one the allocator returned");
  stat["stacks_freed"]++;
  if (k >= 0) {
    Co &q = s.g.co[k];
    if (kind == 'A' && tag != q.aTag) report(s, "wrong-allocator", {"C24", "C11"}, tag == TAG_MOVED ? "the stack is released through an allocator that was already moved from" : "the stack is released through another allocator");
    q.stackSt = 2;
  }
  for (size_t c = 1; c < s.ctx.size(); ++c) if (s.ctx[c].stack == (int)region && s.ctx[c].st != CS::Dead) {
    if ((int)c == s.cur || s.ctx[c].st == CS::Running) fatal(s, "stack-released-in-use", std::set<std::string>{"C11", "C16"} + pending(s), "releases the stack the program is running on");
    for (auto &f : s.ctx[c].fr) if (f->client) fatal(s, "stack-released-in-use", std::set<std::string>{"C10", "C11", "C16"} + pending(s), "releases the stack of a function that was not unwound");
    auto fr = s.ctx[c].fr;
    for (auto &f : fr) for (auto &a : f->allocas) if (s.reg[a.second] && s.r(a.second).alive) killRegion(s, a.second, "the stack it lives on is released");
    s.ctx[c].fr.clear(); s.ctx[c].st = CS::Dead; s.ctx[c].serial++; s.ctx[c].entry = nullptr;
  }
}
// ---- helpers for client objects ----------------------------------------------------------
static u32 clientObj(State &s, char ty, i64 size, u32 tag) { u32 id = s.newRegion(RK::Client); Region &r = s.R(id); r.size = num(size); r.align = 128; r.client = true; r.tag = tag; u32 b = addrOf(id).a; if (ty) r.objs.push_back({b, 0, ty, 1, tag}); return id; }
static u32 plainRegion(State &s, i64 size) { u32 id = s.newRegion(RK::Client); Region &r = s.R(id); r.size = num(size); r.align = 128; return id; }
static void dropRegion(State &s, int id) { if (id > 0) { Region &r = s.R(id); r.objs.clear(); r.cells.clear(); r.alive = false; } }
static u32 newPayload(State &s, u32 tag) {
  u32 id = clientObj(s, objTy, sizeV, tag);
  if (!objTy) { u32 b = addrOf(id).a; rawStore(s.R(id), b, 0, sizeV, data(tag)); }
  return id;
}
// value found at an address: its tag, TAG_MOVED, or -1 when there is no complete live value there
static i64 valueAt(State &s, const Val &p, std::string &why) {
  u32 id; if (!pointsTo(p, id)) { why = "no object"; return -1; }
  const Region &r = s.r(id); if (!r.alive) { why = "an object in released memory (" + describe(s, id) + ")"; return -1; }
  for (auto &d : r.dead) if (d.base == p.a && p.c < d.off + d.size && p.c + std::max<i64>(1, sizeV) > d.off) { why = "an object whose lifetime has ended"; return -1; }
  if (objTy) { auto *o = objAt(r, p.a, p.c); if (!o || o->type != objTy) { why = "memory that holds no live payload"; return -1; } return o->st == 2 ? TAG_MOVED : (i64)o->tag; }
  Val v = rawLoad(r, p.a, p.c, sizeV); if (v.k == VK::Data) return v.a; why = v.k == VK::Undef ? "uninitialised memory" : "something that is not a pushed value"; return -1;
}
static Val handleAddr(State &s, int h) { return addrOf(s.g.h[h].region); }
static bool coValid(State &s, int k) {           // specification of operator bool
  if (k < 0) return false; Co &c = s.g.co[k]; return c.used && (c.phase == PNotStarted || c.phase == PActive); }
static void call(State &s, const char *fn, std::vector<Val> args) {
  FnInfo *fi = fnByName(fn); if (!fi || fi->f->isDeclaration()) { std::string m = std::string("missing analysis root ") + fn; throw std::runtime_error(m); }
  // i8/i1 flags are passed as they are
  pushCall(s, fi, args);
}
static std::string clause(int o) { return std::string("after ") + opName[o] + ": "; }
static void nestedToo(std::set<std::string> &p) { if (sc.nested) p.insert("C26"); }
static void rep2(State &s, const char *rule, std::set<std::string> ps, const std::string &m) { nestedToo(ps); report(s, rule, ps, m); }
// a deviation that keeps the operations in flight from what they exist for
static void rep3(State &s, const char *rule, std::set<std::string> ps, const std::string &m) { auto q = pending(s); ps.insert(q.begin(), q.end()); rep2(s, rule, ps, m); }

static int excHolders(State &s, int e, int except) {      // references that legitimately exist besides those of coroutine `except`
  int n = 0; for (size_t q = 0; q < s.g.co.size(); ++q) if ((int)q != except && s.g.co[q].used && s.g.co[q].exc == e) ++n;
  for (auto &x : s.ctx) for (auto &f : x.fr) if (f->client && f->c.exc == e) ++n;
  for (auto &x : s.caught) if ((int)x.region == e) ++n;
  return n;
}
// everything a coroutine owned must be gone once it has been destroyed
static void checkReleased(State &s, int k, int op) {
  Co &c = s.g.co[k];
  if (c.guard == 1) rep2(s, "locals-not-unwound", {"C10"}, clause(op) + "local objects of the coroutine-function were not destroyed");
  if (c.stackSt == 1) {
    rep2(s, "stack-leaked", {"C11"}, clause(op) + "the coroutine's stack was not given back to its allocator"); 
    // drop what lives on the leaked stack so that the rest of the history can be judged on its own
    int st = c.stack; for (size_t x = 1; x < s.ctx.size(); ++x) if (s.ctx[x].stack == st && s.ctx[x].st != CS::Dead) throw Prune();
    dropRegion(s, st);
  }
  for (size_t i = 1; i < s.reg.size(); ++i) if (s.reg[i] && s.r(i).alive && !s.r(i).client) for (auto &o : s.r(i).objs) {
    if (o.type == 'F' && (o.tag == c.fTag)) rep2(s, "callable-leaked", {"C12"}, clause(op) + "a copy of the callable outlives the coroutine");
    if (o.type == 'A' && (o.tag == c.aTag)) rep2(s, "allocator-copy-leaked", {"C11", "C24"}, clause(op) + "a copy of the stack allocator outlives the coroutine");
  }
  if (c.exc > 0 && s.reg[c.exc] && s.r(c.exc).alive && s.r(c.exc).refs > excHolders(s, c.exc, k)) rep2(s, "exception-leaked", {"C07"}, clause(op) + "the exception object is still referenced after the coroutine was destroyed");
  
  s.g.co[k] = Co();
}
static int allocCo(State &s) { for (size_t k = 0; k < s.g.co.size(); ++k) if (!s.g.co[k].used) { s.g.co[k] = Co(); s.g.co[k].used = true; return k; } return -1; }
// ---- starting operations ------------------------------------------------------------------
struct Choice { u8 op; int h = -1, h2 = -1, var = 0; };
static Val peerAddr(State &s, Client &c, int slot) { return c.peer[slot]; }
static void preparePush(State &s, Client &c, int k, Val) {
  c.op.co = k; c.op.tag = s.nextTag++; c.op.prevTag = s.g.co[k].valTag; c.op.prevHas = s.g.co[k].has;
  if (!isVoid()) {
    if (c.op.var == 1) {     // the object pushed last, with a new value
      c.op.pv = c.keep; c.keep = -1; Region &r = s.R(c.op.pv); u32 b = addrOf(c.op.pv).a;
      if (objTy) { r.objs.clear(); r.objs.push_back({b, 0, objTy, 1, c.op.tag}); } else rawStore(r, b, 0, sizeV, data(c.op.tag));
    } else c.op.pv = newPayload(s, c.op.tag);
  }
  Co &q = s.g.co[k]; q.valTag = c.op.tag; q.has = true; q.taken = false; q.refRegion = isRef() ? c.op.pv : -1;
}
static void startOp(State &s, const Choice &ch) {
  Frame &fr = s.top(); Client &c = fr.c; int me = actorOf(s, s.cur); c.op = Op(); c.op.code = ch.op; c.op.h = ch.h; c.op.h2 = ch.h2; c.op.var = ch.var;
  stat["operations"]++;
  int k = -1; Val obj;
  if (ch.h >= 0) { k = s.g.h[ch.h].owner; obj = handleAddr(s, ch.h); } else if (c.role == 1) { k = c.co; obj = c.peer[c.peerOwner < 0 ? 0 : c.peerOwner]; }
  c.op.target = obj; c.op.co = k; c.st = 1;
  bool onMain = ch.h >= 0;
  auto beginTransfer = [&](bool push) {
    if (push) preparePush(s, c, k, obj);
    if (onMain) { s.g.co[k].resumer = me; s.g.h[ch.h].busy = true; s.g.holder = k + 1; }
    else s.g.holder = s.g.co[k].resumer;
    c.op.ret = plainRegion(s, 8);
  };
  switch (ch.op) {
  case O_CTOR_L: case O_CTOR_C: case O_CTOR_R: case O_CTOR_AL: case O_CTOR_AR: {
    int n = allocCo(s); Co &q = s.g.co[n]; q.phase = PBuilding; q.fTag = s.nextTag++; q.fRvalue = ch.op == O_CTOR_R || ch.op == O_CTOR_AR; c.op.co = n; c.op.fobj = clientObj(s, 'F', tyInfo('F').size, q.fTag); s.g.created++;
    bool al = ch.op == O_CTOR_AL || ch.op == O_CTOR_AR; q.aKind = al ? 'A' : 'm'; if (al) { q.aTag = s.nextTag++; c.op.aobj = clientObj(s, 'A', tyInfo('A').size, q.aTag); }
    s.g.h[ch.h].owner = n; s.g.h[ch.h].busy = true; s.g.h[ch.h].creator = me;
    if (sc.mainPull) { q.resumer = me; s.g.holder = n + 1; }
    Val f = addrOf(c.op.fobj), a = al ? addrOf(c.op.aobj) : Val();
    static const char *nm[] = {"k_ctor", "k_ctor_c", "k_ctor_r", "k_ctor_al", "k_ctor_ar"};
    if (al) call(s, nm[ch.op - O_CTOR_L], {obj, a, f}); else call(s, nm[ch.op - O_CTOR_L], {obj, f});
    return; }
  case O_DTOR: if (k >= 0) s.g.co[k].dying = true; s.g.h[ch.h].busy = true; call(s, "k_dtor", {obj}); return;
  case O_MCTOR: call(s, "k_mctor", {obj, handleAddr(s, ch.h2)}); return;
  case O_MASSIGN: if (k >= 0 && ch.h != ch.h2) s.g.co[k].dying = true; c.op.ret = -1; call(s, "k_massign", {obj, handleAddr(s, ch.h2)}); return;
  case O_SWAP: call(s, "k_swap", {obj, handleAddr(s, ch.h2)}); return;
  case O_BOOL: call(s, "k_bool", {obj}); return;
  case O_NOT: call(s, "k_not", {obj}); return;
  case O_SBOOL: c.op.target = peerAddr(s, c, ch.var); call(s, "s_bool", {c.op.target}); return;
  case O_SNOT: c.op.target = peerAddr(s, c, ch.var); call(s, "s_not", {c.op.target}); return;
  case O_PULL: beginTransfer(false); call(s, "pull_call", {obj, addrOf(c.op.ret)}); return;
  case O_PUSHL: case O_PUSHR:
    beginTransfer(true);
    if (isVoid()) call(s, "push_call", {obj, addrOf(c.op.ret)}); else call(s, isRef() ? "push_call" : ch.op == O_PUSHL ? "push_call_l" : "push_call_r", {obj, addrOf(c.op.ret), addrOf(c.op.pv)});
    return;
  case O_GET: c.op.out = plainRegion(s, std::max<i64>(8, sizeV)); call(s, "pull_get", {obj, addrOf(c.op.out)}); return;
  case O_SMCTOR: if (c.it > 0) { dropRegion(s, c.it); c.it = -1; c.itSt = 0; c.itH = -1; } c.peerReg = plainRegion(s, 64); c.peer[1] = addrOf(c.peerReg); c.op.target = c.peer[1]; call(s, "s_mctor", {c.peer[1], c.peer[0]}); return;
  case O_SMASSIGN: if (c.it > 0) { dropRegion(s, c.it); c.it = -1; c.itSt = 0; c.itH = -1; } c.op.target = c.peer[ch.var]; call(s, "s_massign", {c.peer[ch.var], c.peer[ch.h2]}); return;
  case O_SDTOR: if (c.it > 0) { dropRegion(s, c.it); c.it = -1; c.itSt = 0; c.itH = -1; } c.op.target = c.peer[1]; call(s, "s_dtor", {c.peer[1]}); return;
  case O_PBEGIN: c.it = plainRegion(s, 64); c.itH = ch.h; call(s, ch.var ? "pit_begin_nm" : "pit_begin", {addrOf(c.it), obj}); return;
  case O_PINC: beginTransfer(false); c.op.target = addrOf(c.it); call(s, "pit_inc", {addrOf(c.it), addrOf(c.op.ret)}); return;
  case O_PPOST: beginTransfer(false); dropRegion(s, c.op.ret); c.op.ret = -1; call(s, "pit_postinc", {addrOf(c.it)}); return;
  case O_PDEREF: c.op.out = plainRegion(s, 8); call(s, "pit_deref", {addrOf(c.it), addrOf(c.op.out)}); return;
  case O_PARROW: c.op.out = plainRegion(s, 8); call(s, "pit_arrow", {addrOf(c.it), addrOf(c.op.out)}); return;
  case O_PCMP: { static const char *nm[] = {"pit_eq_end", "pit_ne_end", "pit_eq_nmend", "pit_eq_def", "pit_eq_begin", "pit_eq_copy"}; call(s, nm[ch.var], {addrOf(c.it), obj}); return; }
  case O_OBEGIN: c.it = plainRegion(s, 64); c.itH = ch.h; call(s, "oit_begin", {addrOf(c.it), obj}); return;
  case O_OINC: c.op.ret = plainRegion(s, 8); c.op.target = addrOf(c.it); call(s, "oit_inc", {addrOf(c.it), addrOf(c.op.ret)}); return;
  case O_ODEREF: c.op.ret = plainRegion(s, 8); c.op.target = addrOf(c.it); call(s, "oit_deref", {addrOf(c.it), addrOf(c.op.ret)}); return;
  case O_OASSIGN: beginTransfer(true); c.op.target = addrOf(c.it); call(s, "oit_assign", {addrOf(c.it), addrOf(c.op.ret), addrOf(c.op.pv)}); return;
  case O_OCMP: { static const char *nm[] = {"oit_eq_end", "oit_ne_end", "oit_eq_def", "oit_eq_begin", "oit_eq_copy"}; call(s, nm[ch.var], {addrOf(c.it), obj}); return; }
  case O_CATCH_ON: { int e = newExc(s, M->getGlobalVariable("_ZTIi", true)); s.caught.push_back({(u32)e, 1, true}); s.g.clientCaught = 1; c.st = 0; return; }
  case O_CATCH_OFF: { if (s.caught.empty() || !s.caught.back().client) throw Prune(); u32 e = s.caught.back().region; s.caught.pop_back(); releaseRef(s, e); s.g.clientCaught = 0; c.st = 0; return; }
  case O_DROPIT: dropRegion(s, c.it); c.it = -1; c.itSt = 0; c.itH = -1; c.st = 0; return;
  case O_CONTINUE: case O_PROPAGATE: {
    int e = c.exc; c.exc = -1;
    if (ch.op == O_CONTINUE) { releaseRef(s, e); c.st = 0; return; }
    c.st = 3; c.exc = e; c.fin = 3; return; }
  case O_RETURN: c.st = 3; c.fin = 1; return;
  case O_THROW: c.st = 3; c.fin = ch.var == 9 ? 4 : 2; c.finArg = ch.var; return;
  }
}
// ---- winding down a coroutine-function: locals die, then it ends -----------------------------
static void windDown(State &s) {
  Client &c = s.top().c; 
  if (c.peerMade[1]) { c.op = Op(); c.op.code = O_SDTOR; c.op.var = 99; c.op.target = c.peer[1]; c.op.co = c.co; call(s, "s_dtor", {c.peer[1]}); return; }
  for (size_t h = 0; h < s.g.h.size(); ++h) if (s.g.h[h].made && s.g.h[h].creator == c.co + 1 && sc.nested) {
    int k = s.g.h[h].owner; c.op = Op(); c.op.code = O_DTOR; c.op.h = h; c.op.co = k; c.op.var = 99; if (k >= 0) s.g.co[k].dying = true; call(s, "k_dtor", {handleAddr(s, h)}); return; }
  if (c.it > 0) dropRegion(s, c.it);
  if (c.keep > 0) dropRegion(s, c.keep);
  Co &k = s.g.co[c.co]; k.guard = 2; int fin = c.fin, arg = c.finArg, e = c.exc; 
  if (c.peerReg > 0) dropRegion(s, c.peerReg);
  bool forced = fin == 3 && s.r(e).site == M->getGlobalVariable("_ZTIN5boost7context6detail13forced_unwindE", true);
  s.frames().pop_back();
  if (fin == 1) { k.phase = PDone; k.fin = 1; s.g.holder = k.resumer; deliver(s, undef()); return; }
  if (fin == 2) { e = newExc(s, arg >= 20 ? caughtTI[arg - 20] : M->getGlobalVariable(throwTI[arg], true)); k.phase = PDone; k.fin = 2; k.exc = e; k.excSeen = false; s.g.holder = k.resumer; throwExc(s, e); return; }
  if (fin == 4) { e = newExc(s, M->getGlobalVariable("_ZTIN10__cxxabiv115__forced_unwindE", true)); k.phase = PDone; k.fin = 4; s.g.holder = -2; throwExc(s, e); return; }
  if (forced) { s.g.holder = k.resumer; throwExc(s, e); return; }
  k.phase = PDone; k.fin = 2; k.exc = e; k.excSeen = false; s.g.holder = k.resumer; throwExc(s, e);
}
// ---- the coroutine-function is entered --------------------------------------------------------
static void fnEntered(State &s, Val self, Val peer) {
  int k = coOfCtx(s, s.cur); stat["function_entries"]++;
  if (k < 0) { rep2(s, "foreign-stack", {"C28", "C02"}, "the coroutine-function is entered on a stack that is not its coroutine's own"); throw Prune(); }
  Co &c = s.g.co[k]; u32 fid; pointsTo(self, fid); const Obj *o = objAt(s.r(fid), self.a, self.c); u32 tag = o ? (o->st == 2 ? (u32)TAG_MOVED : o->tag) : 0;
  if (c.started) { rep3(s, "entered-twice", {"C01"}, "the coroutine-function is entered a second time"); throw Prune(); }
  if (c.dying) { rep2(s, "entered-while-destroyed", {"C01", "C10"}, "destroying a coroutine that never ran enters its function"); throw Prune(); }
  if (s.g.holder != k + 1) {
    Client *w = curClient(s, 0, nullptr); std::set<std::string> ps{"C01"}; if (w && (queryOp(w->op.code) || moveOp(w->op.code))) ps.insert("C03"); if (w && w->op.failed >= 0 && pushOp(w->op.code)) ps.insert("C08");
    rep2(s, "entered-early", ps, "the coroutine-function is entered although nothing transferred control to it"); throw Prune(); }
  if (tag == (u32)TAG_MOVED) { rep2(s, "moved-callable-run", {"C12", "C01"}, "the callable that runs has been moved from"); }
  else if (tag != c.fTag) rep2(s, "wrong-callable", {"C12", "C26"}, "the callable that runs is not (a copy of) the one passed");
  if (s.r(fid).client) rep2(s, "callers-callable-run", {"C12"}, "the function runs on the caller's callable, not on a copy owned by the coroutine");
  c.started = true; c.phase = PActive; c.fRun = self; c.fRunLive = true; c.guard = 1; c.ctx = s.cur;
  u32 pid; if (!pointsTo(peer, pid) || !s.r(pid).alive) { rep2(s, "unusable-counterpart", {"C01", "C16"}, "the coroutine-function receives no usable counterpart"); throw Prune(); }
  auto f = std::make_shared<Frame>(); f->client = true; f->c.role = 1; f->c.co = k; f->c.peer[0] = peer; f->c.peerMade[0] = 1;
  s.frames().push_back(f);
}
// ---- results ----------------------------------------------------------------------------------
static void checkCaught(State &s, int op) {
  if (!sc.catchh) return; size_t want = s.g.clientCaught; bool ok = s.caught.size() == want; for (auto &c : s.caught) if (!c.client) ok = false;
  if (!ok && s.cur == 0) { report(s, "handler-state", {"C25"}, clause(op) + "the exceptions being handled are not those handled before the operation"); throw Prune(); }
}
static void endObjects(State &s, Client &c) {
  if (sc.core && pushOp(c.op.code) && c.op.pv > 0 && c.op.var < 2 && (c.op.code != O_PUSHR || isRef())) {
    if (c.keep > 0) dropRegion(s, c.keep);
    c.keep = c.op.pv; c.op.pv = -1; Region &r = s.R(c.keep); u32 b = addrOf(c.keep).a; r.tag = 0;
    if (objTy) { r.objs.clear(); r.objs.push_back({b, 0, objTy, 1, TAG_NONE}); } else rawStore(r, b, 0, sizeV, data(TAG_NONE));
  }
  for (int *r : {&c.op.pv, &c.op.out, &c.op.ret, &c.op.fobj, &c.op.aobj}) { dropRegion(s, *r); *r = -1; } }
static void checkArgs(State &s, Client &c) {       // objects the caller lent to the operation
  int o = c.op.code;
  if (c.op.fobj > 0) { auto &os = s.r(c.op.fobj).objs; bool rv = o == O_CTOR_R || o == O_CTOR_AR; if (!rv && (os.empty() || os[0].st != 1)) rep2(s, "callable-modified", {"C12", "C21"}, clause(o) + "the callable passed as lvalue was moved from"); }
  if (c.op.aobj > 0) { auto &os = s.r(c.op.aobj).objs; if (o == O_CTOR_AL && (os.empty() || os[0].st != 1)) rep2(s, "allocator-modified", {"C24"}, clause(o) + "the allocator passed as lvalue was moved from"); }
  if (c.op.pv > 0 && (o != O_PUSHR || isRef())) {
    std::string why; i64 t = valueAt(s, addrOf(c.op.pv), why);
    if (t != (i64)c.op.tag) { std::set<std::string> ps{"C05"}; if (o == O_OASSIGN) ps.insert("C18"); if (isRef()) ps.insert("C04"); rep2(s, "lvalue-modified", ps, clause(o) + "the payload passed as lvalue was changed or moved from"); }
  }
}
static std::set<std::string> holderProps(State &s, int op, int k) {
  std::set<std::string> ps = opProps(op); ps.insert("C02"); if (k >= 0 && s.g.co[k].phase == PNotStarted) ps.insert("C01"); if (k >= 0 && s.g.co[k].dying) ps.insert("C10"); return ps; }
// control is back at a client: it must be the one the specification gives control to
static void checkHolder(State &s, int op, int k, bool thrown) {
  int me = actorOf(s, s.cur);
  if (s.g.holder == me) return;
  if (s.g.holder == -2) { rep2(s, "foreign-unwind-swallowed", {"C10"}, clause(op) + "a forced unwinding of the thread that passes through the coroutine-function is swallowed by the library"); throw Prune(); }
  std::set<std::string> ps = holderProps(s, op, k);
  if (s.cur != 0 && coOfCtx(s, s.cur) >= 0 && s.g.co[coOfCtx(s, s.cur)].dying) { ps.insert("C10"); }
  for (auto &q : s.g.co) if (q.used && q.exc >= 0 && !q.excSeen) ps.insert("C07");
  Client *w = curClient(s, 0, nullptr); if (w && w->st == 1 && w->op.failed >= 0 && pushOp(w->op.code)) ps.insert("C08");
  Client *c2 = curClient(s, s.cur, nullptr); if (c2 && c2->op.failed >= 0 && pushOp(c2->op.code)) ps.insert("C08");
  std::string who = s.g.holder == 0 ? "the resumer" : "the coroutine-function";
  rep3(s, "control-misdirected", ps, clause(op) + (thrown ? "an exception arrives" : "the operation returns") + " here although control belongs to " + who);
  throw Prune();
}
static void observe(State &s, const std::string &what);
static std::string ghostKey(State &s);
static void checkRunReleased(State &s, int k, int op) {
  Co &q = s.g.co[k]; if (q.phase == PDone && q.fRunLive) { q.fRunLive = false; rep2(s, "captures-kept", {"C12"}, clause(op) + "the coroutine-function has ended but what it captured was not released"); }
}
static void finishHandleGone(State &s, Client &c, int h, int op) {
  int k = s.g.h[h].owner; s.g.h[h].made = false; s.g.h[h].busy = false; s.g.h[h].owner = -1;
  { Region &r = s.R(s.g.h[h].region); r.cells.clear(); r.dead.clear(); }
  if (c.itH == h && c.it > 0) { dropRegion(s, c.it); c.it = -1; c.itSt = 0; c.itH = -1; }
  if (k >= 0) checkReleased(s, k, op);
}
static void ownMove(State &s, Client &c, int h) { (void)s; if (c.itH == h && c.it > 0) { dropRegion(s, c.it); c.it = -1; c.itSt = 0; c.itH = -1; } }
static void clientReturned(State &s, Val v) {
  Frame &fr = s.top(); Client &c = fr.c; int op = c.op.code, k = c.op.co, me = actorOf(s, s.cur); bool onMain = c.op.h >= 0;
  if (me < 0) fatal(s, "foreign-stack", {"C28", "C16"}, "an operation returns in a context whose stack was released");
  checkHolder(s, op, k, false); checkCaught(s, op);
  std::string pre = ghostKey(s), outcome = "returns";
  if (c.op.failed != -1 && c.st == 1) {
    bool f = c.op.failKind == 'F' || c.op.failKind == 'A' || c.op.failKind == 'm';
    rep3(s, "failure-swallowed", f ? std::set<std::string>{"C11", "C12"} : std::set<std::string>{"C08", "C07"}, clause(op) + (f ? "the failure of the construction was swallowed" : "the exception thrown by the payload did not reach the pusher")); throw Prune(); }
  if (transferOp(op)) {
    Co &q = s.g.co[k];
    if (onMain) {
      if (q.exc >= 0 && !q.excSeen && q.phase == PDone) { rep3(s, "exception-swallowed", {"C07", "C02"}, clause(op) + "the exception that ended the coroutine-function was not delivered to its resumer"); q.excSeen = true; throw Prune(); }
      checkRunReleased(s, k, op); q.resumer = -1; s.g.h[c.op.h].busy = false;
      if (!sc.mainPull) { q.has = false; }
    } else if (s.g.co[k].dying) { rep3(s, "resumed-normally", {"C10"}, clause(op) + "the function of a coroutine being destroyed is resumed normally"); throw Prune(); }
    if (c.op.ret > 0) { u32 b = addrOf(c.op.ret).a; Val r = rawLoad(s.r(c.op.ret), b, 0, 8); if (!(r == c.op.target)) { auto ps = opProps(op); rep2(s, "wrong-reference", ps, clause(op) + "the operation does not return the object it was made on"); } }
    if (op == O_PINC || op == O_PPOST || op == O_OASSIGN) c.itSt = coValid(s, k) ? 1 : 2;
    checkArgs(s, c);
  } else if (ctorOp(op)) {
    Co &q = s.g.co[k]; s.g.h[c.op.h].made = true; s.g.h[c.op.h].busy = false;
    if (sc.mainPull) {
      if (!q.started) { rep3(s, "not-entered", {"C01"}, "constructing a pull coroutine did not run its function"); throw Prune(); }
      if (q.exc >= 0 && !q.excSeen) { rep3(s, "exception-swallowed", {"C07"}, "the exception that ended the coroutine-function during construction was not delivered to the constructor's caller"); throw Prune(); }
      q.resumer = -1; checkRunReleased(s, k, op);
    } else { q.phase = PNotStarted; }
    checkArgs(s, c);
    if (q.phase != PDone && q.stackSt != 1) rep2(s, "stack-missing", {"C11", "C24"}, "the coroutine runs without a stack from its allocator");
  } else switch (op) {
  case O_DTOR: if (k >= 0 && s.g.co[k].phase == PActive && s.g.co[k].guard == 1) rep2(s, "locals-not-unwound", {"C10"}, "destroying the coroutine did not unwind its function"), s.g.co[k].guard = 2; finishHandleGone(s, c, c.op.h, op); break;
  case O_MCTOR: s.g.h[c.op.h].made = true; s.g.h[c.op.h].creator = me; s.g.h[c.op.h].owner = s.g.h[c.op.h2].owner; s.g.h[c.op.h2].owner = -1; ownMove(s, c, c.op.h2); break;
  case O_MASSIGN: if (c.op.h != c.op.h2) {
      int old = s.g.h[c.op.h].owner; s.g.h[c.op.h].owner = s.g.h[c.op.h2].owner; s.g.h[c.op.h2].owner = -1; ownMove(s, c, c.op.h); ownMove(s, c, c.op.h2);
      if (old >= 0) {
        if (s.g.co[old].stackSt == 1 || s.g.co[old].guard == 1) { rep2(s, "assign-keeps-target", {"C13"}, "move assignment over a live coroutine does not destroy the one previously owned by the target"); throw Prune(); }
        checkReleased(s, old, op); }
    } break;
  case O_SWAP: if (c.op.h != c.op.h2) std::swap(s.g.h[c.op.h].owner, s.g.h[c.op.h2].owner); ownMove(s, c, c.op.h); ownMove(s, c, c.op.h2); break;
  case O_BOOL: case O_NOT: {
    bool want = coValid(s, k); if (op == O_NOT) want = !want; outcome = v.k == VK::Lin ? (v.c & 1 ? "true" : "false") : "?";
    if (!isNum(v)) unsure(s, "result of a validity test is not determined");
    if ((v.c & 1) != (i64)want) {
      std::set<std::string> ps{"C09"}; if (k < 0) ps.insert("C13"); else { if (s.g.co[k].exc >= 0) ps.insert("C07"); } if (sc.moves) ps.insert("C13");
      rep2(s, "validity", ps, std::string(opName[op]) + " is " + (v.c & 1 ? "true" : "false") + (k < 0 ? " for an object that is not a coroutine" : want == (op == O_BOOL) ? " although the function has not ended" : " although the function has ended")); throw Prune(); }
    break; }
  case O_SBOOL: case O_SNOT: {
    bool want = c.peerOwner == c.op.var; if (op == O_SNOT) want = !want; outcome = v.k == VK::Lin ? (v.c & 1 ? "true" : "false") : "?";
    if (!isNum(v)) unsure(s, "result of a validity test is not determined");
    if ((v.c & 1) != (i64)want) { std::set<std::string> ps{"C09"}; if (sc.peer) ps.insert("C14"); rep2(s, "validity", ps, std::string("inside the coroutine-function, ") + opName[op] + " is " + (v.c & 1 ? "true" : "false") + " but should not be"); throw Prune(); }
    break; }
  case O_GET: {
    Co &q = s.g.co[k]; std::string why; Val p = addrOf(c.op.out);
    if (isRef()) { p = rawLoad(s.r(c.op.out), p.a, 0, 8); if (!(p == addrOf(q.refRegion < 0 ? 0 : q.refRegion))) { rep2(s, "wrong-object", {"C04"}, "reading a reference payload does not yield the object that was pushed"); throw Prune(); } }
    i64 t = valueAt(s, p, why);
    if (!(q.taken && objTy && !isRef()) && t != (i64)q.valTag) { rep2(s, "wrong-value", {"C04"}, "reading yields " + (t < 0 ? why : t == TAG_MOVED ? "a moved-from value" : "a value other than the one pushed last")); throw Prune(); }
    if (objTy && !isRef()) q.taken = true;
    break; }
  case O_PDEREF: case O_PARROW: {
    Co &q = s.g.co[k]; std::string why; Val p = addrOf(c.op.out); p = rawLoad(s.r(c.op.out), p.a, 0, 8);
    if (isRef() && !(p == addrOf(q.refRegion < 0 ? 0 : q.refRegion))) { rep2(s, "wrong-object", {"C04", "C17"}, "dereferencing an iterator does not yield the object that was pushed"); throw Prune(); }
    i64 t = valueAt(s, p, why);
    if (!(q.taken && objTy && !isRef()) && t != (i64)q.valTag) { rep2(s, "wrong-value", {"C04", "C17"}, "dereferencing an iterator yields " + (t < 0 ? why : t == TAG_MOVED ? std::string("a moved-from value") : std::string("a value other than the current one"))); throw Prune(); }
    break; }
  case O_PBEGIN: case O_OBEGIN: c.itSt = coValid(s, onMain ? k : c.co) ? 1 : 2; break;
  case O_PCMP: case O_OCMP: {
    bool pc = op == O_PCMP; bool end = c.itSt == 2, valid = coValid(s, onMain ? k : c.co); bool want;
    if (pc) want = c.op.var == 0 ? end : c.op.var == 1 ? !end : c.op.var == 2 ? end : c.op.var == 3 ? end : c.op.var == 4 ? end == !valid : true;
    else want = c.op.var == 0 ? end : c.op.var == 1 ? !end : c.op.var == 2 ? end : c.op.var == 3 ? end == !valid : true;
    outcome = v.k == VK::Lin ? (v.c & 1 ? "true" : "false") : "?";
    if (!isNum(v)) unsure(s, "result of an iterator comparison is not determined");
    static const char *pn[] = {"it == end()", "it != end()", "it == end( c)", "it == iterator()", "it == begin()", "copy == it && !(copy != it)"}, *on[] = {"out == end( c)", "out != end( c)", "out == iterator()", "out == begin( c)", "copy == out && !(copy != out)"};
    if ((v.c & 1) != (i64)want) { rep2(s, "iterator-compare", {pc ? "C17" : "C18"}, std::string(pc ? pn[c.op.var] : on[c.op.var]) + " is " + (v.c & 1 ? "true" : "false") + (end ? " for an iterator at the end" : " for an iterator that is not at the end")); throw Prune(); }
    break; }
  case O_OINC: case O_ODEREF: { u32 b = addrOf(c.op.ret).a; Val r = rawLoad(s.r(c.op.ret), b, 0, 8); if (!(r == c.op.target)) rep2(s, "wrong-reference", {"C18"}, "++out or *out does not return the iterator itself"); break; }
  case O_SMCTOR: c.peerMade[1] = 1; c.peerOwner = c.peerOwner == 0 ? 1 : c.peerOwner; break;
  case O_SMASSIGN: if (c.op.var != c.op.h2) { int from = c.op.h2, to = c.op.var; c.peerOwner = c.peerOwner == from ? to : -1; } break;
  case O_SDTOR: c.peerMade[1] = 0; if (c.peerOwner == 1) c.peerOwner = -1; dropRegion(s, c.peerReg); c.peerReg = -1; c.peer[1] = Val(); break;
  }
  observe(s, pre + "|" + (c.role ? "fn:" : "") + opName[op] + "/" + std::to_string(c.op.var) + "|" + outcome + "|" + ghostKey(s));
  Client &d = s.top().c; endObjects(s, d); bool wind = d.op.var == 99 && d.st == 3; d.op = Op(); if (wind) return; d.st = 0;
}
static void clientThrown(State &s, int exc) {
  Frame &fr = s.top(); Client &c = fr.c; int op = c.op.code, k = c.op.co, me = actorOf(s, s.cur);
  const GlobalVariable *ti = static_cast<const GlobalVariable *>(s.r(exc).site); bool forced = ti == M->getGlobalVariable("_ZTIN5boost7context6detail13forced_unwindE", true);
  if (!s.r(exc).alive) fatal(s, "dead-exception", {"C07", "C16"}, "an exception object is thrown after its release");
  if (c.role == 1) {       // an exception passes into the coroutine-function
    Co &q = s.g.co[c.co];
    if (forced) {
      if (!q.dying) { std::set<std::string> ps{"C10", "C02"}; if (sc.peer) ps.insert("C14"); rep3(s, "unwound-alive", ps, "the coroutine-function is unwound although its coroutine is not being destroyed"); throw Prune(); }
      if (c.st == 3) fatal(s, "terminate", {"C27", "C10"}, "unwinding is started again while the function is being unwound");
      checkArgs(s, c); 
      if (c.op.h >= 0) s.g.h[c.op.h].busy = false;
      endObjects(s, c); c.op = Op(); c.st = 3; c.fin = 3; c.exc = exc; q.resumer = s.g.holder; s.g.holder = c.co + 1; return;
    }
  } else if (forced) { rep3(s, "unwind-escapes", {"C10", "C07"}, clause(op) + "the unwinding of a coroutine-function reaches its resumer as an exception"); throw Prune(); }
  checkHolder(s, op, k, true);
  std::string pre = ghostKey(s);
  if (c.st == 3) terminate(s, exc, "an exception leaves a destructor during cleanup");
  if (c.op.failed != -1) {
    if (c.op.failed != -2 && c.op.failed != exc) { rep3(s, "wrong-exception", {"C08", "C07"}, clause(op) + "the exception that arrives is not the one the failed operation threw"); throw Prune(); }
    if (transferOp(op)) { checkArgs(s, c); if (c.op.h >= 0) { s.g.h[c.op.h].busy = false; s.g.co[k].resumer = -1; } }
  } else if ((transferOp(op) && c.op.h >= 0) || ctorOp(op)) {
    Co &q = s.g.co[k];
    if (q.exc < 0 || q.phase != PDone) { rep3(s, "spurious-exception", ctorOp(op) ? std::set<std::string>{"C07", "C02"} : std::set<std::string>{"C07", "C02", "C32"}, clause(op) + "an exception arrives that the coroutine-function did not throw"); throw Prune(); }
    if (q.excSeen) { rep3(s, "exception-twice", {"C07"}, clause(op) + "the same exception is delivered a second time"); throw Prune(); }
    if (q.exc != exc) { rep3(s, "wrong-exception", {"C07"}, clause(op) + "the exception that arrives is not the object the coroutine-function threw"); throw Prune(); }
    q.excSeen = true; checkRunReleased(s, k, op); q.resumer = -1; if (transferOp(op)) { checkArgs(s, c); s.g.h[c.op.h].busy = false; }
  } else {
    std::set<std::string> ps = opProps(op); ps.insert("C07"); ps.insert("C27"); rep3(s, "spurious-exception", ps, clause(op) + "an exception leaves an operation that must not throw"); throw Prune(); }
  observe(s, pre + "|" + (c.role ? "fn:" : "") + opName[op] + "|throws|" + ghostKey(s));
  bool ctor = ctorOp(op); int h = c.op.h;
  if (ctor) checkArgs(s, c);
  Client &d = s.top().c;
  if (d.itSt && (op == O_PINC || op == O_PPOST || op == O_OASSIGN) && d.op.failed == -1) { dropRegion(s, d.it); d.it = -1; d.itSt = 0; d.itH = -1; }
  endObjects(s, d); 
  // the exception is caught here: the resumer handles it at once, the function decides
  if (d.role == 0) {
    releaseRef(s, exc);
    d.op = Op(); d.st = 0;
    if (ctor) { s.g.h[h].busy = false; s.g.h[h].owner = -1; { Region &r = s.R(s.g.h[h].region); r.cells.clear(); r.dead.clear(); } if (s.g.co[k].phase == PBuilding || sc.mainPull) checkReleased(s, k, op); }
    checkCaught(s, op);
  } else {
    d.op = Op(); d.st = 2; d.exc = exc;
    if (ctor) { s.g.h[h].busy = false; s.g.h[h].owner = -1; { Region &r = s.R(s.g.h[h].region); r.cells.clear(); r.dead.clear(); } checkReleased(s, k, op); }
  }
}
// ---- choices -----------------------------------------------------------------------------------
static void handleChoices(State &s, Client &c, std::vector<Choice> &v, int me) {
  int H = s.g.h.size();
  for (int h = 0; h < H; ++h) {
    Handle &x = s.g.h[h]; if (x.busy) continue;
    if (sc.nested && me == 1 && h == 0) continue;           // the function of coroutine 0 works on handle 1 only
    if (!x.made) {
      bool free = false; for (auto &q : s.g.co) if (!q.used) free = true;
      if (free) {
        if (sc.ctors) for (u8 o : {O_CTOR_L, O_CTOR_C, O_CTOR_R, O_CTOR_AL, O_CTOR_AR}) v.push_back({o, h});
        else v.push_back({O_CTOR_AL, h});
      }
      if (sc.moves) for (int g = 0; g < H; ++g) if (g != h && s.g.h[g].made && !s.g.h[g].busy && (!sc.nested || s.g.h[g].creator == me)) v.push_back({O_MCTOR, h, g});
      continue;
    }
    v.push_back({O_BOOL, h}); v.push_back({O_NOT, h});
    if (!(sc.nested && me == 1 && x.creator != 1)) v.push_back({O_DTOR, h});
    if (sc.moves && (!sc.nested || x.creator == me)) for (int g = 0; g < H; ++g) if (s.g.h[g].made && !s.g.h[g].busy && (!sc.nested || s.g.h[g].creator == me)) { v.push_back({O_MASSIGN, h, g}); v.push_back({O_SWAP, h, g}); }
    bool valid = coValid(s, x.owner);
    if (valid) {
      if (sc.mainPull) { v.push_back({O_PULL, h}); if (!isVoid()) v.push_back({O_GET, h}); }
      else { if (kPushL) v.push_back({O_PUSHL, h}); if (kPushR) v.push_back({O_PUSHR, h}); if (c.keep > 0) v.push_back({O_PUSHL, h, -1, 1}); }
    }
    if (sc.iter && !isVoid() && !(sc.nested && (me == 1 || x.creator == 1))) {
      bool pull = sc.mainPull;
      if (c.it < 0) { v.push_back({(u8)(pull ? O_PBEGIN : O_OBEGIN), h}); if (pull) v.push_back({O_PBEGIN, h, -1, 1}); }
      else if (c.itH == h) {
        v.push_back({O_DROPIT, h});
        for (int i = 0; i < (pull ? 6 : 5); ++i) v.push_back({(u8)(pull ? O_PCMP : O_OCMP), h, -1, i});
        if (!pull) { v.push_back({O_OINC, h}); v.push_back({O_ODEREF, h}); }
        if (c.itSt == 1 && valid) { if (pull) { v.push_back({O_PINC, h}); v.push_back({O_PPOST, h}); v.push_back({O_PDEREF, h}); v.push_back({O_PARROW, h}); } else if (kPushL) { v.push_back({O_OASSIGN, h}); if (c.keep > 0) v.push_back({O_OASSIGN, h, -1, 1}); } }
      }
    }
  }
}
static std::vector<Choice> choices(State &s) {
  std::vector<Choice> v; Client &c = s.top().c; int me = actorOf(s, s.cur);
  if (c.st == 2) { v.push_back({O_CONTINUE}); v.push_back({O_PROPAGATE}); return v; }
  if (c.role == 0) {
    handleChoices(s, c, v, me);
    if (sc.catchh) v.push_back({(u8)(s.g.clientCaught ? O_CATCH_OFF : O_CATCH_ON)});
    return v;
  }
  bool pull = !sc.mainPull;        // the counterpart's direction
  if (c.peerOwner >= 0) {
    if (pull) { v.push_back({O_PULL}); if (!isVoid() && s.g.co[c.co].has) v.push_back({O_GET}); }
    else { if (kPushL) v.push_back({O_PUSHL}); if (kPushR) v.push_back({O_PUSHR}); if (c.keep > 0) v.push_back({O_PUSHL, -1, -1, 1}); }
  }
  v.push_back({O_SBOOL, -1, -1, 0}); v.push_back({O_SNOT, -1, -1, 0});
  // the function may look at the object through which it is being run
  if (!sc.nested) for (int h = 0; h < (int)s.g.h.size(); ++h) { Handle &x = s.g.h[h]; if (x.made && x.busy && x.owner >= 0 && !s.g.co[x.owner].dying && (!sc.mainPull || isVoid() || s.g.co[x.owner].has)) { v.push_back({O_BOOL, h}); v.push_back({O_NOT, h}); } }
  if (sc.peer) {
    if (c.peerMade[1]) { v.push_back({O_SBOOL, -1, -1, 1}); v.push_back({O_SNOT, -1, -1, 1}); v.push_back({O_SDTOR}); for (int a = 0; a < 2; ++a) for (int b = 0; b < 2; ++b) v.push_back({O_SMASSIGN, -1, b, a}); }
    else v.push_back({O_SMCTOR});
  }
  if (sc.iter && !isVoid() && c.peerOwner >= 0) {
    if (c.it < 0) { v.push_back({(u8)(pull ? O_PBEGIN : O_OBEGIN)}); if (pull) v.push_back({O_PBEGIN, -1, -1, 1}); }
    else {
      v.push_back({O_DROPIT});
      for (int i = 0; i < (pull ? 6 : 5); ++i) v.push_back({(u8)(pull ? O_PCMP : O_OCMP), -1, -1, i});
      if (!pull) { v.push_back({O_OINC}); v.push_back({O_ODEREF}); }
      if (c.itSt == 1) { if (pull) { v.push_back({O_PINC}); v.push_back({O_PPOST}); v.push_back({O_PDEREF}); v.push_back({O_PARROW}); } else if (kPushL) { v.push_back({O_OASSIGN}); if (c.keep > 0) v.push_back({O_OASSIGN, -1, -1, 1}); } }
    }
  }
  if (sc.nested && c.co == s.g.h[0].owner) handleChoices(s, c, v, 1);
  v.push_back({O_RETURN});
  int nt = sc.core ? 4 : 1; for (int i = 0; i < nt; ++i) v.push_back({O_THROW, -1, -1, i}); if (sc.core) v.push_back({O_THROW, -1, -1, 9});
  if (sc.core) for (size_t i = 0; i < caughtTI.size(); ++i) v.push_back({O_THROW, -1, -1, 20 + (int)i});
  return v;
}
static std::string ghostKey(State &s) {        // specification state, for comparison between configurations
  std::string k = "h" + std::to_string(s.g.holder);
  for (auto &c : s.g.co) { k += c.used ? "[" + std::to_string(c.phase) + std::to_string(c.started) + std::to_string(c.has) + std::to_string(c.taken) + std::to_string(c.exc >= 0) + std::to_string(c.excSeen) + std::to_string(c.guard) + std::to_string(c.stackSt) + "]" : "[]"; }
  for (auto &h : s.g.h) k += h.made ? "o" + std::to_string(h.owner) : "-";
  return k;
}
