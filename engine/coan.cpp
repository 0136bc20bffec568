// coan: interprocedural typestate analysis of Boost.Coroutine2 over LLVM IR.
// A worklist fixpoint over (client program point, abstract state); nothing of the
// analysed program is executed and no path condition is built or solved.
#include <algorithm>
#include <chrono>
#include <deque>
#include <functional>
#include <fstream>
#include <iostream>
#include <stdexcept>
#include <tuple>
#include "llvm/ADT/DenseMap.h"
#include "llvm/ADT/MapVector.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Operator.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "domain.h"
#include "interp.inc"
#include "client.inc"

struct Node { int parent; std::string label; u8 op = 0; };
static std::vector<Node> gnodes;
struct Viol { std::string rule, site, msg; std::set<std::string> props; std::vector<std::string> path, stack, trail; u64 count = 0; };
static std::map<std::string, Viol> viols; static std::vector<std::string> violOrder;
static std::set<std::string> observations;
static bool incomplete = false; static std::string incompleteWhy;

static std::string label(State &s, const Choice &c) {
  Client &k = s.top().c; std::string l = k.role ? "function of coroutine " + std::to_string(k.co) : "resumer"; l += ": "; l += opName[c.op];
  if (c.h >= 0) l += " h" + std::to_string(c.h); if (c.h2 >= 0) l += " <- " + std::string(c.op == O_SMASSIGN ? "p" : "h") + std::to_string(c.h2); if (c.var) l += " #" + std::to_string(c.var); return l; }
static std::string curLabel;
// the answer was right before a query or move, which was the last thing that happened
static bool staleAnswer(State &s) {
  for (int n = s.node; n > 0; n = gnodes[n].parent) {
    int o = gnodes[n].op; if (queryOp(o) || moveOp(o) || peerMoveOp(o)) return true;
    if (transferOp(o) || ctorOp(o) || o == O_RETURN || o == O_THROW || o == O_DTOR) return false;
  }
  return false;
}
static void record(State &s, const char *rule, std::set<std::string> props, const std::string &msg) {
  std::string st = site(s);
  if (st.empty() && s.lastRepo) { st = locOf(s.lastRepo) + " in " + demName(s.lastRepo->getFunction()->getName().str()); }
  std::string key = std::string(rule) + "|" + st + "|" + msg; auto it = viols.find(key);
  if (it != viols.end()) { it->second.count++; it->second.props.insert(props.begin(), props.end()); return; }
  for (const char *r : {"validity", "wrong-value", "wrong-object", "iterator-compare"}) if (!strcmp(r, rule) && staleAnswer(s)) props.insert("C03");
  Viol v; v.rule = rule; v.site = st; v.msg = msg; v.props = props; v.count = 1; v.stack = stackTrace(s); v.trail = s.trail;
  for (int n = s.node; n > 0; n = gnodes[n].parent) v.path.push_back(gnodes[n].label);
  std::reverse(v.path.begin(), v.path.end()); v.path.push_back(curLabel);
  viols[key] = v; violOrder.push_back(key);
}
static void report(State &s, const char *rule, std::set<std::string> props, const std::string &msg) { record(s, rule, props, msg); }
[[noreturn]] static void fatal(State &s, const char *rule, std::set<std::string> props, const std::string &msg) { auto q = pending(s); props.insert(q.begin(), q.end()); record(s, rule, props, msg); throw Prune(); }
static bool dbgUnsure = getenv("COAN_DEBUG");
[[noreturn]] static void unsure(State &s, const std::string &why) {
  imprecise.insert(why + " [" + site(s) + "]");
  if (dbgUnsure) { std::cerr << "UNSURE " << why << "\n"; for (auto &l : stackTrace(s)) std::cerr << "   " << l << "\n"; }
  throw Prune(); }
static void observe(State &, const std::string &what) { observations.insert(what); }

// ---------------------------------------------------------------- canonical form ------
enum { TAG_STALE = 0x7ffffffe };
struct Canon {
  State &s; std::vector<u32> rm; std::vector<u32> order; std::vector<int> cm; int deadCtx = -1;
  std::map<u32, u32> tagm; std::unordered_map<u32, u32> termm, aggm; std::set<u32> liveTags;
  Canon(State &s_) : s(s_) {}
  void region(u32 r) { if (r == 0 || r >= s.reg.size() || !s.reg[r]) return; if (rm[r]) return; order.push_back(r); rm[r] = order.size(); }
  void iregion(int r) { if (r > 0) region(r); }
  std::unordered_set<u32> seenTerm;
  void term(u32 t) { if (!t || !seenTerm.insert(t).second) return; 
    // visit in a structural order so that discovery does not depend on table order
    std::vector<std::pair<std::string, u32>> ks; for (auto &p : T.terms[t]) ks.push_back({symKey(p.first), p.first}); std::sort(ks.begin(), ks.end());
    for (auto &p : ks) { const Sym y = T.syms[p.second]; region(y.region); term(y.terms); } }
  std::string symKey(u32 i) { const Sym &y = T.syms[i]; std::string k = std::to_string((int)y.k) + ":" + (y.region ? std::to_string(rm[y.region]) + "." + std::to_string((int)s.reg[y.region]->kind) : "") + ":" + std::to_string(y.c) + ":" + std::to_string(y.m) + "("; return k + termKey(y.terms) + ")"; }
  std::string termKey(u32 t) { std::vector<std::string> v; for (auto &p : T.terms[t]) v.push_back(std::to_string(p.second) + "*" + symKey(p.first)); std::sort(v.begin(), v.end()); std::string r; for (auto &x : v) r += x + "+"; return r; }
  void val(const Val &v) {
    if (v.k == VK::Lin) term(v.a); else if (v.k == VK::Agg) for (auto x : T.aggs[v.a]) val(x);
    else if (v.k == VK::FCtx) ;
  }
  u32 mt(u32 t) {
    if (!t) return 0; auto it = termm.find(t); if (it != termm.end()) return it->second;
    Terms r; for (auto p : T.terms[t]) { Sym y = T.syms[p.first]; if (y.region) y.region = rm[y.region]; y.terms = mt(y.terms); r.push_back({T.sym(y), p.second}); }
    std::sort(r.begin(), r.end()); u32 n = T.term(r); termm[t] = n; return n; }
  u32 tag(u32 t) { if (t == 0 || t == TAG_MOVED) return t; if (!liveTags.count(t)) return TAG_STALE; auto it = tagm.find(t); if (it != tagm.end()) return it->second; u32 n = tagm.size() + 1; return tagm[t] = n; }
  Val mv(const Val &v) {
    switch (v.k) {
    case VK::Lin: return {VK::Lin, mt(v.a), v.c};
    case VK::Data: return data(tag(v.a));
    case VK::Agg: { auto it = aggm.find(v.a); if (it != aggm.end()) return {VK::Agg, it->second, 0}; std::vector<Val> e = T.aggs[v.a]; for (auto &x : e) x = mv(x); Val r = agg(e); aggm[v.a] = r.a; return r; }
    case VK::FCtx: { int n = cm[v.a]; if (n < 0) { needDead = true; return {VK::FCtx, (u32)deadCtx, 1}; } auto &c = s.ctx[v.a]; return {VK::FCtx, (u32)n, (i64)((u32)v.c == c.serial ? 2 : 1)}; }
    default: return v;
    } }
  bool needDead = false;
  void run() {
    rm.assign(s.reg.size(), 0);
    // dead SSA values and finished operations carry no information
    for (size_t c = 0; c < s.ctx.size(); ++c) for (size_t i = 0; i < s.ctx[c].fr.size(); ++i) {
      auto &p = s.ctx[c].fr[i]; if (p->client) { if (p->c.st == 0) { if (p->c.op.code) { s.F(c, i).c.op = Op(); } } continue; }
      liveness(p->fi); auto it = p->fi->live.find(p->ip); if (it == p->fi->live.end()) continue; auto &lv = it->second; bool ch = false;
      for (int x = 0; x < p->fi->n; ++x) if (!lv[x] && p->slots[x].k != VK::Undef) ch = true;
      if (ch) { Frame &f = s.F(c, i); for (int x = 0; x < f.fi->n; ++x) if (!lv[x]) f.slots[x] = undef(); }
    }
    // contexts: main, then by the coroutine they belong to
    cm.assign(s.ctx.size(), -1); std::vector<std::pair<int, int>> al;
    for (size_t c = 1; c < s.ctx.size(); ++c) if (s.ctx[c].st != CS::Dead) { int k = 99; for (size_t q = 0; q < s.g.co.size(); ++q) if (s.g.co[q].used && s.g.co[q].stack == s.ctx[c].stack) k = q; al.push_back({k, (int)c}); }
    std::sort(al.begin(), al.end()); cm[0] = 0; for (size_t i = 0; i < al.size(); ++i) cm[al[i].second] = i + 1; deadCtx = al.size() + 1;
    // roots in a fixed order
    for (auto &h : s.g.h) region(h.region);
    for (auto &k : s.g.co) { if (!k.has) k.valTag = 0; if (!k.used) k = Co(); iregion(k.stack); iregion(k.refRegion); iregion(k.exc); val(k.fRun); 
      if (k.has) liveTags.insert(k.valTag); if (k.used) { liveTags.insert(k.fTag); liveTags.insert(k.aTag); } }
    std::vector<int> cord{0}; for (auto &a : al) cord.push_back(a.second);
    for (int c : cord) {
      iregion(s.ctx[c].stack);
      for (auto &f : s.ctx[c].fr) {
        if (f->client) { auto &k = f->c; for (int r : {k.op.pv, k.op.out, k.op.ret, k.op.fobj, k.op.aobj, k.op.failed, k.peerReg, k.exc, k.it, k.keep}) iregion(r); val(k.op.target); val(k.peer[0]); val(k.peer[1]); if (k.op.code) { liveTags.insert(k.op.tag); liveTags.insert(k.op.prevTag); } continue; }
        for (auto &v : f->slots) val(v); for (auto &a : f->allocas) region(a.second); val(f->self); iregion(f->freeExc);
      } }
    for (auto &c : s.caught) region(c.region);
    std::sort(s.globals.begin(), s.globals.end(), [](auto &a, auto &b) { return a.first->getName() < b.first->getName(); });
    for (auto &g : s.globals) if (!g.first->isConstant()) region(g.second);
    for (size_t i = 0; i < order.size(); ++i) {
      u32 id = order[i]; if (!s.reg[id]->alive) continue; const Region r = *s.reg[id];
      val(r.size); val(r.run); if (r.co < 0) {} 
      std::vector<std::pair<std::string, const Cell *>> cs; for (auto &c : r.cells) cs.push_back({termKey(c.base), &c});
      std::sort(cs.begin(), cs.end(), [](auto &a, auto &b) { return std::tie(a.first, a.second->off) < std::tie(b.first, b.second->off); });
      for (auto &c : cs) { term(c.second->base); val(c.second->v); }
      for (auto &o : r.objs) term(o.base); for (auto &d : r.dead) term(d.base); for (auto &e : r.ext) term(e.base);
    }
    // rewrite
    std::vector<std::shared_ptr<Region>> nr(order.size() + 1);
    // addresses of regions that are gone for good cannot occur: everything reachable was visited
    for (size_t i = 0; i < order.size(); ++i) {
      auto p = std::make_shared<Region>(*s.reg[order[i]]); Region &r = *p; 
      if (!r.alive) { r.cells.clear(); r.objs.clear(); r.dead.clear(); r.ext.clear(); r.run = Val(); r.size = num(0); r.refs = 0; r.tag = 0; r.co = -1; r.ctx = -1; }
      r.size = mv(r.size); r.run = mv(r.run); if (r.ctx >= 0) r.ctx = r.ctx < (int)cm.size() ? cm[r.ctx] : -1; if (r.kind == RK::Stack || r.client) r.tag = tag(r.tag); else r.tag = 0;
      for (auto &c : r.cells) { c.base = mt(c.base); c.v = mv(c.v); } for (auto &o : r.objs) { o.base = mt(o.base); o.tag = tag(o.tag); } for (auto &d : r.dead) d.base = mt(d.base); for (auto &e : r.ext) e.base = mt(e.base);
      std::sort(r.cells.begin(), r.cells.end(), [](const Cell &a, const Cell &b) { return std::tie(a.base, a.off) < std::tie(b.base, b.off); });
      std::sort(r.objs.begin(), r.objs.end(), [](const Obj &a, const Obj &b) { return std::tie(a.base, a.off) < std::tie(b.base, b.off); });
      std::sort(r.dead.begin(), r.dead.end(), [](const Dead &a, const Dead &b) { return std::tie(a.base, a.off, a.size, a.kind) < std::tie(b.base, b.off, b.size, b.kind); });
      std::sort(r.ext.begin(), r.ext.end(), [](const Ext &a, const Ext &b) { return std::tie(a.base, a.lo) < std::tie(b.base, b.lo); });
      nr[i + 1] = p; }
    auto ir = [&](int &r) { if (r > 0) r = rm[r]; };
    for (auto &h : s.g.h) h.region = rm[h.region];
    for (auto &k : s.g.co) { ir(k.stack); ir(k.refRegion); ir(k.exc); k.fRun = k.fRunLive ? mv(k.fRun) : Val(); k.valTag = tag(k.valTag); k.fTag = tag(k.fTag); k.aTag = tag(k.aTag); if (k.ctx >= 0) k.ctx = cm[k.ctx]; }
    for (int c : cord) { auto &x = s.ctx[c]; ir(x.stack);
      for (size_t i = 0; i < x.fr.size(); ++i) { Frame &f = s.F(c, i);
        if (f.client) { auto &k = f.c; for (int *r : {&k.op.pv, &k.op.out, &k.op.ret, &k.op.fobj, &k.op.aobj, &k.op.failed, &k.peerReg, &k.exc, &k.it, &k.keep}) ir(*r); k.op.target = mv(k.op.target); k.peer[0] = mv(k.peer[0]); k.peer[1] = mv(k.peer[1]); k.op.tag = tag(k.op.tag); k.op.prevTag = tag(k.op.prevTag); continue; }
        for (auto &v : f.slots) v = mv(v); for (auto &a : f.allocas) a.second = rm[a.second]; f.self = mv(f.self); ir(f.freeExc); } }
    for (auto &c : s.caught) c.region = rm[c.region];
    std::vector<std::pair<const GlobalVariable *, u32>> ng; for (auto &g : s.globals) if (rm[g.second]) ng.push_back({g.first, rm[g.second]}); s.globals = ng;
    std::vector<Ctx> nc; for (int c : cord) { Ctx x = s.ctx[c]; x.serial = 2; nc.push_back(x); }
    if (needDead) { Ctx d; d.st = CS::Dead; d.serial = 2; nc.push_back(d); }
    std::vector<Fact> nf; for (auto f : s.facts) {
      std::vector<u32> st{f.terms}; bool live = true; while (!st.empty() && live) { u32 t = st.back(); st.pop_back(); for (auto &p : T.terms[t]) { const Sym &y = T.syms[p.first]; if (y.region && (!rm[y.region] || !nr[rm[y.region]]->alive)) live = false; if (y.terms) st.push_back(y.terms); } }
      if (live) { f.terms = mt(f.terms); nf.push_back(f); } }
    std::sort(nf.begin(), nf.end()); s.facts.swap(nf);
    s.cur = cm[s.cur]; s.ctx.swap(nc); s.reg.swap(nr); s.nextTag = tagm.size() + 1; s.g.created = 0;
  }
};
struct Buf {
  std::string b; template <class X> void p(X x) { b.append((const char *)&x, sizeof x); }
  void v(const Val &x) { p((u8)x.k); p(x.a); p(x.c); } };
static std::pair<u64, u64> key(State &s) {
  Buf b; b.p(s.cur); b.p(s.g.holder); b.p(s.g.clientCaught); b.p(s.g.noThrow);
  for (auto &r : s.reg) { if (!r) continue; b.p((u8)r->kind); b.p(r->alive); b.p(r->client); if (!r->alive) continue; b.v(r->size); b.p(r->align); b.p(r->ctx); b.p(r->co); b.p(r->tag); b.p(r->refs); b.p(r->site); b.p(r->dtor); b.v(r->run);
    b.p(r->cells.size()); for (auto &c : r->cells) { b.p(c.base); b.p(c.off); b.p(c.size); b.p(c.fill); b.v(c.v); }
    b.p(r->objs.size()); for (auto &o : r->objs) { b.p(o.base); b.p(o.off); b.p(o.type); b.p(o.st); b.p(o.tag); }
    b.p(r->dead.size()); for (auto &d : r->dead) { b.p(d.base); b.p(d.off); b.p(d.size); b.p(d.kind); }
    b.p(r->ext.size()); for (auto &e : r->ext) { b.p(e.base); b.p(e.lo); b.p(e.hi); } }
  for (auto &c : s.ctx) { b.p((u8)c.st); b.p(c.entry); b.p(c.stack); b.p(c.fr.size());
    for (auto &f : c.fr) {
      b.p(f->client);
      if (f->client) { auto &k = f->c; b.p(k.role); b.p(k.st); b.p(k.co); b.p(k.peerMade[0]); b.p(k.peerMade[1]); b.p(k.peerReg); b.p(k.peerOwner); b.p(k.exc); b.p(k.fin); b.p(k.finArg); b.p(k.it); b.p(k.itSt); b.p(k.itH); b.p(k.used); b.p(k.keep); b.v(k.peer[0]); b.v(k.peer[1]);
        auto &o = k.op; b.p(o.code); b.p(o.h); b.p(o.h2); b.p(o.co); b.p(o.var); b.p(o.tag); b.p(o.prevTag); b.p(o.pv); b.p(o.out); b.p(o.ret); b.p(o.fobj); b.p(o.aobj); b.p(o.failed); b.p(o.failKind); b.p(o.prevHas); b.v(o.target); continue; }
      b.p(f->fi->id); b.p(f->ip); for (auto &v : f->slots) b.v(v); for (auto &a : f->allocas) { b.p(a.first); b.p(a.second); } b.p(f->freeExc); b.v(f->self); b.p(f->selfSize); } }
  for (auto &c : s.caught) { b.p(c.region); b.p(c.handlers); b.p(c.client); }
  for (auto &g : s.globals) { b.p(g.first); b.p(g.second); }
  for (auto &k : s.g.co) { b.p(k.used); b.p(k.phase); b.p(k.started); b.p(k.dying); b.p(k.resumer); b.p(k.stack); b.p(k.stackSt); b.p(k.ctx); b.p(k.valTag); b.p(k.has); b.p(k.taken); b.p(k.refRegion); b.p(k.exc); b.p(k.excSeen); b.p(k.guard); b.p(k.fTag); b.p(k.aTag); b.p(k.aKind); b.v(k.fRun); b.p(k.fRunLive); b.p(k.fin); b.p(k.consumed); b.p(k.fRvalue); }
  for (auto &h : s.g.h) { b.p(h.region); b.p(h.made); b.p(h.busy); b.p(h.owner); b.p(h.creator); }
  for (auto &f : s.facts) { b.p(f.terms); b.p(f.m); b.p(f.res); b.p(f.eq); }
  u64 h1 = 1469598103934665603ull, h2 = 0x9E3779B97F4A7C15ull;
  for (unsigned char c : b.b) { h1 = (h1 ^ c) * 1099511628211ull; h2 = (h2 + c) * 0xff51afd7ed558ccdull; h2 ^= h2 >> 29; }
  return {h1, h2};
}
// ---------------------------------------------------------------- exploration ---------
static i64 constOf(const char *n) { auto *g = M->getGlobalVariable(n, true); if (!g || !g->hasInitializer()) throw std::runtime_error(std::string("missing analysis constant ") + n); return cast<ConstantInt>(g->getInitializer())->getSExtValue(); }
static std::string js(const std::string &s) { std::string o = "\""; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if ((unsigned char)c < 32) o += ' '; else o += c; } return o + "\""; }
template <class C> static std::string jl(const C &c) { std::string o = "["; bool f = true; for (auto &x : c) { if (!f) o += ","; f = false; o += js(x); } return o + "]"; }
struct PH { size_t operator()(const std::pair<u64, u64> &p) const { return p.first; } };
static std::string scanModule();
int main(int argc, char **argv) {
  if (argc < 6) { std::cerr << "usage: coan <bc> <scenario> <kind> <mainpull> <repo include prefix> [max states] [max seconds]\n"; return 64; }
  LLVMContext C; SMDiagnostic err; auto mod = parseIRFile(argv[1], err, C); if (!mod) { std::cerr << "cannot read " << argv[1] << "\n"; return 65; }
  M = mod.get(); DL = &M->getDataLayout(); repoPrefix = argv[5];
  std::string scn = argv[2]; u64 maxStates = argc > 6 ? atoll(argv[6]) : 400000; double maxSec = argc > 7 ? atof(argv[7]) : 240;
  auto t0 = std::chrono::steady_clock::now(); auto sec = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
  if (scn == "scan") { std::cout << scanModule() << std::endl; return 0; }
  sc.name = scn; sc.kind = atoi(argv[3]); sc.mainPull = atoi(argv[4]);
  auto has = [&](const char *x) { return ("," + scn + ",").find(std::string(",") + x + ",") != std::string::npos; };
  sc.core = has("core"); sc.throwing = has("throwing") || sc.core; sc.moves = has("moves"); sc.peer = has("peer"); sc.iter = has("iter"); sc.ctors = has("ctors"); sc.nested = has("nested"); sc.catchh = has("catch");
  if (sc.moves) sc.handles = sc.maxCo = 2; if (sc.nested) sc.handles = sc.maxCo = 2;
  std::string error;
  u64 explored = 0, transitions = 0, maxQ = 0;
  try {
    sizeMain = constOf("k_size_main"); sizeV = constOf("k_size_V"); stackMin = sizeV <= 512 ? 8192 : 65536; objTy = constOf("k_obj_type"); kRef = constOf("k_is_ref"); kConst = constOf("k_is_const"); kCopyF = constOf("k_copy_only_f"); kThrowF = constOf("k_move_throws_f"); kVoid = constOf("k_is_void"); kPushL = constOf("k_push_l"); kPushR = constOf("k_push_r");
    for (char t : {objTy, 'F', 'A'}) if (t) { std::string n = std::string("k_ty_") + t; tyInfos[t] = {constOf((n + "_size").c_str()), constOf((n + "_align").c_str()), (bool)constOf((n + "_trivial").c_str())}; }
    {
      std::set<std::string> known{"_ZTIN5boost7context6detail13forced_unwindE", "_ZTIN10__cxxabiv115__forced_unwindE"}; for (auto *n : throwTI) known.insert(n);
      std::map<std::string, const GlobalVariable *> ex;
      for (auto &F : *M) { auto *sp = F.getSubprogram(); if (!sp || F.isDeclaration()) continue; std::string fn = sp->getFilename().str(); if (!fn.empty() && fn[0] != '/') fn = sp->getDirectory().str() + "/" + fn;
        if (fn.compare(0, repoPrefix.size(), repoPrefix)) continue;
        for (auto &B : F) if (auto *L = B.getLandingPadInst()) for (unsigned i = 0; i < L->getNumClauses(); ++i) if (L->isCatch(i)) if (auto *g = dyn_cast<GlobalVariable>(L->getClause(i))) if (!known.count(g->getName().str())) ex[g->getName().str()] = g; }
      for (auto &p : ex) if (caughtTI.size() < 6) caughtTI.push_back(p.second);
    }
    State s0; s0.reg.push_back(nullptr); s0.ctx.resize(1); s0.ctx[0].st = CS::Running; s0.g.co.resize(sc.maxCo); s0.g.h.resize(sc.handles);
    for (auto &h : s0.g.h) h.region = plainRegion(s0, sizeMain);
    auto f0 = std::make_shared<Frame>(); f0->client = true; s0.ctx[0].fr.push_back(f0);
    gnodes.push_back({-1, ""}); { Canon c(s0); c.run(); }
    std::unordered_set<std::pair<u64, u64>, PH> seen; seen.insert(key(s0)); std::deque<State> q; q.push_back(s0);
    std::vector<State> fk; forks = &fk;
    while (!q.empty()) {
      if (seen.size() > maxStates || sec() > maxSec) { incomplete = true; incompleteWhy = seen.size() > maxStates ? "state limit" : "time limit"; break; }
      State s = std::move(q.front()); q.pop_front(); ++explored;
      auto cs = choices(s);
      for (auto &ch : cs) {
        ++transitions; std::string lab = label(s, ch); curLabel = lab; forkCount = 0; fk.clear();
        State t = s; t.backEdges = t.depthSteps = 0; t.fuzzy = 0; 
        bool started = false; std::vector<State> work;
        try { startOp(t, ch); started = true; } catch (Prune &) {}
        if (started) work.push_back(std::move(t));
        for (auto &x : fk) work.push_back(std::move(x)); fk.clear();
        while (!work.empty()) {
          State w = std::move(work.back()); work.pop_back(); bool done = false;
          try {
            while (!done) {
              if (w.frames().empty()) fatal(w, "context-returned", std::set<std::string>{"C02", "C16"} + pending(w), "the entry function of an execution context returned");
              auto &tp = *w.frames().back();
              if (tp.client) { if (tp.c.st == 3) windDown(w); else if (tp.c.st == 1) throw std::runtime_error("operation in progress without a frame"); else done = true; }
              else { step(w); if (++w.depthSteps > 200000) fatal(w, "no-progress", std::set<std::string>{"C02"} + pending(w), "an operation does not end"); }
              if (!fk.empty()) { for (auto &x : fk) work.push_back(std::move(x)); fk.clear(); }
            }
          } catch (Prune &) { for (auto &x : fk) work.push_back(std::move(x)); fk.clear(); continue; }
          w.backEdges = w.depthSteps = 0; w.fuzzy = 0; { Canon c(w); c.run(); }
          auto k = key(w); if (!seen.insert(k).second) continue;
          gnodes.push_back({s.node, lab, ch.op}); w.node = gnodes.size() - 1; q.push_back(std::move(w)); if (q.size() > maxQ) maxQ = q.size();
        }
        if (forkCount > 20000) { incomplete = true; incompleteWhy = "branching limit"; }
      }
    }
  } catch (std::exception &e) { error = e.what(); }
  std::string o = "{"; auto kv = [&](const std::string &k, const std::string &v) { if (o.size() > 1) o += ",\n"; o += js(k) + ":" + v; };
  kv("scenario", js(scn)); kv("kind", std::to_string(sc.kind)); kv("mainpull", std::to_string((int)sc.mainPull)); kv("states", std::to_string(gnodes.size())); kv("explored", std::to_string(explored)); kv("transitions", std::to_string(transitions));
  stat["instructions"] = nInstr; for (auto &p : stat) kv(p.first, std::to_string(p.second));
  kv("functions", jl(reachedFns)); kv("unknown_calls", jl(unknownCalls)); kv("imprecise", jl(imprecise)); kv("incomplete", incomplete ? js(incompleteWhy) : "null"); kv("error", error.empty() ? "null" : js(error)); kv("seconds", std::to_string(sec()));
  std::string vs = "["; for (auto &k : violOrder) { auto &v = viols[k]; if (vs.size() > 1) vs += ",\n"; vs += "{\"rule\":" + js(v.rule) + ",\"site\":" + js(v.site) + ",\"message\":" + js(v.msg) + ",\"properties\":" + jl(v.props) + ",\"count\":" + std::to_string(v.count) + ",\"path\":" + jl(v.path) + ",\"call_stack\":" + jl(v.stack) + ",\"switches\":" + jl(v.trail) + "}"; }
  kv("violations", vs + "]"); kv("observations", jl(observations)); o += "}";
  std::cout << o << std::endl; std::cout.flush(); _Exit(error.empty() ? 0 : 70);
}
// ---------------------------------------------------------------- module scan --------
// Rules over the whole module, independent of the fixpoint: no library function names a
// mutable global or asks for the identity of its thread (H1, H2); every library definition
// has vague linkage (L1) and none is private to a translation unit (L2).
static std::string scanModule() {
  static const std::set<std::string> ident = {"pthread_self", "thrd_current", "gettid", "syscall", "sched_getcpu", "pthread_getspecific", "pthread_setspecific", "rand", "random", "drand48", "getenv", "secure_getenv", "time", "clock", "clock_gettime", "gettimeofday", "getpid", "_ZNSt6chrono3_V212steady_clock3nowEv", "_ZNSt6chrono3_V212system_clock3nowEv", "_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE"};
  struct F { std::string rule, site, msg; std::set<std::string> props; std::vector<std::string> path; }; std::vector<F> out;
  u64 nRepo = 0, nGlob = 0, nOperands = 0, nReach = 0; std::set<std::string> fnames;
  auto isRepo = [&](Function &f) { return !f.isDeclaration() && info(&f)->repo; };
  auto where = [&](const Instruction &i) { return locOf(&i) + " in " + demName(i.getFunction()->getName().str()); };
  auto stdStream = [](StringRef n) { return n == "_ZSt4cout" || n == "_ZSt4cerr" || n == "_ZSt4clog" || n == "stderr" || n == "stdout" || n == "_ZSt7nothrow"; };
  std::function<void(const Value *, std::set<const GlobalVariable *> &, std::set<Function *> &, int)> refs = [&](const Value *v, std::set<const GlobalVariable *> &g, std::set<Function *> &f, int d) {
    if (d > 8) return; if (auto *x = dyn_cast<GlobalVariable>(v)) { g.insert(x); return; } if (auto *x = dyn_cast<Function>(v)) { f.insert(const_cast<Function *>(x)); return; }
    if (auto *c = dyn_cast<ConstantExpr>(v)) for (auto &o : c->operands()) refs(o, g, f, d + 1); };
  for (auto &f : *M) {
    if (!isRepo(f)) continue; ++nRepo; fnames.insert(demName(f.getName().str()));
    auto l = f.getLinkage(); std::string d = demName(f.getName().str()), at = f.getSubprogram()->getFilename().str() + ":" + std::to_string(f.getSubprogram()->getLine()) + " in " + d;
    bool gen = d.find("__invoke") != std::string::npos || starts(d, "__cxx_global") || starts(d, "_GLOBAL__");
    if (l == GlobalValue::ExternalLinkage || l == GlobalValue::CommonLinkage) out.push_back({"strong-definition", at, "the headers define a function with ordinary external linkage: two translation units do not link", {"C23"}, {}});
    if (f.hasLocalLinkage() && !gen) out.push_back({"per-unit-definition", at, "the headers define a function that is private to every translation unit", {"C23"}, {}});
    for (auto &b : f) for (auto &i : b) { if (isa<DbgInfoIntrinsic>(i)) continue; std::set<const GlobalVariable *> gs; std::set<Function *> fs;
      for (auto &o : i.operands()) { ++nOperands; refs(o, gs, fs, 0); }
      for (auto *g : gs) { ++nGlob; if (g->isConstant() && !g->isThreadLocal()) continue; if (stdStream(g->getName())) continue;
        out.push_back({g->isThreadLocal() ? "thread-local-state" : "global-state", where(i), "a library function uses the " + std::string(g->isThreadLocal() ? "thread-local" : "global") + " variable " + demName(g->getName().str()), {"C22"}, {}}); } }
    // closure over what the function may call, not entering the user's code or Boost.Context
    std::map<Function *, Function *> par; std::deque<Function *> q; q.push_back(&f); par[&f] = nullptr;
    while (!q.empty()) { Function *c = q.front(); q.pop_front(); ++nReach;
      for (auto &b : *c) for (auto &i : b) { if (isa<DbgInfoIntrinsic>(i)) continue; std::set<const GlobalVariable *> gs; std::set<Function *> fs; for (auto &o : i.operands()) refs(o, gs, fs, 0);
        for (auto *t : fs) { if (ident.count(t->getName().str())) { std::vector<std::string> p; for (Function *x = c; x; x = par[x]) p.push_back(demName(x->getName().str())); out.push_back({"thread-identity", at, "a library function depends on its thread or environment through " + t->getName().str(), {"C22"}, p}); continue; }
          std::string tn = demName(t->getName().str()); if (t->isDeclaration() || par.count(t) || starts(tn, "h::") || starts(tn, "boost::context::") || isRepo(*t)) continue; par[t] = c; q.push_back(t); } } }
  }
  for (auto &g : M->globals()) {
    std::string d = demName(g.getName().str()); if (d.find("boost::coroutines2::") == std::string::npos || g.isDeclaration()) continue;
    if (starts(d, "typeinfo") || starts(d, "vtable")) continue;
    if (!g.isConstant() || g.isThreadLocal()) out.push_back({"global-state", d, "the library defines the mutable " + std::string(g.isThreadLocal() ? "thread-local" : "global") + " variable " + d, {"C22"}, {}});
    if (g.getLinkage() == GlobalValue::ExternalLinkage || g.getLinkage() == GlobalValue::CommonLinkage) out.push_back({"strong-definition", d, "the headers define a variable with ordinary external linkage: two translation units do not link", {"C23"}, {}});
    if (g.hasLocalLinkage() && !g.isConstant()) out.push_back({"per-unit-definition", d, "the headers define a variable of which every translation unit has its own copy", {"C23"}, {}});
  }
  std::string o = "{\"library_functions\":" + std::to_string(nRepo) + ",\"global_operands\":" + std::to_string(nGlob) + ",\"operands\":" + std::to_string(nOperands) + ",\"closure\":" + std::to_string(nReach) + ",\"functions\":" + jl(fnames) + ",\"violations\":[";
  std::set<std::string> done; bool first = true;
  for (auto &v : out) { if (!done.insert(v.rule + v.site + v.msg).second) continue; if (!first) o += ","; first = false; o += "{\"rule\":" + js(v.rule) + ",\"site\":" + js(v.site) + ",\"message\":" + js(v.msg) + ",\"properties\":" + jl(v.props) + ",\"path\":" + jl(v.path) + "}"; }
  return o + "]}";
}
