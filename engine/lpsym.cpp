// lpsym: symbolic execution of LLVM IR (the library's own compiled code plus a harness).
// Floating-point inputs are exact reals (polynomials over input/log/... atoms, lowered to linear
// real arithmetic with one variable per monomial), integer inputs are bit-vectors; Z3 decides every
// branch and every assertion.  Violations are replayed on a native build before they are reported.
#include "poly.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <random>
#include <sstream>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>

using namespace llvm;
typedef z3::expr E;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

// ---------------------------------------------------------------- values
struct SymBV { E e; unsigned w; bool b; };  // b: Bool sort (w==1)
struct Agg;
struct Val {
  enum K : u8 { I, F, SB, SR, AGG, UND, PK } k; // PK: bytes of an integer, some of them those of symbolic reals
  union { u64 i; const SymBV *s; const Poly *p; Agg *g; };
  long double f;
  Val() : k(UND), i(0) {}
};
struct Agg { std::vector<Val> v; std::vector<u32> off, size; };
static inline Val VI(u64 i) { Val v; v.k = Val::I; v.i = i; return v; }
static inline Val VF(long double f) { Val v; v.k = Val::F; v.f = f; v.i = 0; return v; }
static inline Val VSR(const Poly *p) { Val v; v.k = Val::SR; v.p = p; return v; }
static inline u64 maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sext(u64 v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

// ---------------------------------------------------------------- memory
struct SymCell { u32 off, size; Val v; };
struct Obj {
  int rc = 1; u32 size = 0; u8 kind = 0; bool alive = true; // kind 1 heap 2 stack 3 global 4 func
  std::vector<u8> b, init; std::vector<SymCell> sym;
};
struct Page { int rc = 1; Obj *o[64]; };
struct PCNode { E e; PCNode *parent; int depth; };
struct ModelInfo { z3::model m; std::vector<bool> act; };
typedef std::shared_ptr<ModelInfo> ModelRef;

struct FnInfo;
struct Ins;
struct Frame { FnInfo *fn; u32 pc; u32 base; const Ins *call; std::vector<u32> allocas; };
struct State {
  std::vector<Page *> pages;
  u32 nextObj = 1;
  std::vector<Val> regs;
  std::vector<Frame> fr;
  PCNode *pc = nullptr;
  ModelRef model;
  u64 instrs = 0;
  std::map<int, u64> assign;         // int input -> value
  std::map<int, Rat> assignR;        // atom -> value
  std::vector<std::pair<std::string, Val>> outs;
  std::vector<std::pair<std::string, Val>> &outsV() { return outs; }
  std::map<std::string, int> known;
  int prio = 0;
  int live = 0; // heap blocks
  std::map<u64, std::vector<u32>> freed; // with parameter reuse: freed blocks by size class, handed out again last first (1) or lowest first (2)
  u64 exPtr = 0, exTi = 0; std::string exWhat; bool unwinding = false; std::vector<std::pair<u64, u64>> caught; // C++ exceptions
};

// ---------------------------------------------------------------- code
enum Op : u8 { O_ALLOCA, O_LOAD, O_STORE, O_GEP, O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_UNREACH, O_SELECT, O_ICMP, O_FCMP,
  O_BIN, O_FBIN, O_FNEG, O_CAST, O_EXTRACT, O_INSERT, O_RMW, O_CMPXCHG, O_FENCE, O_FREEZE, O_LPAD, O_RESUME, O_EXTELT, O_INSELT, O_SHUF, O_UNSUP };
struct Edge { u32 target; std::vector<std::pair<int, int>> moves; };
struct Ins {
  Op op; u8 fpk = 0; unsigned w = 0; int dst = -1; int a = 0, b = 0, c = 0;
  unsigned sub = 0; u64 imm = 0; std::vector<int> args; std::vector<std::pair<int, int64_t>> scaled;
  std::vector<Edge> edges; std::vector<std::pair<u64, int>> cases; FnInfo *callee = nullptr; int normalEdge = -1, unwindEdge = -1;
  std::vector<unsigned> idx; std::vector<u64> byval; Type *ty = nullptr; const Instruction *src = nullptr; bool isptr = false; u32 lanes = 0;
};
struct FnInfo {
  Function *f = nullptr; std::string name; bool decoded = false; bool ext = false; int extId = -1; u32 obj = 0; int nregs = 0; int nargs = 0;
  std::vector<Ins> code; bool fcmp = false; bool mergeable = false; u64 calls = 0; bool isLib = false;
};

struct PathEnd { std::string why; };          // path ends without a verdict
struct Fault { std::string kind, what; bool undef; };
struct Stop {};

static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

struct Engine {
  LLVMContext lctx; std::unique_ptr<Module> mod; const DataLayout *DL = nullptr;
  z3::context z; PolyCtx P; z3::solver S;
  std::map<const Function *, FnInfo *> fns; std::vector<FnInfo *> fnByObj; std::map<u32, FnInfo *> objFn;
  std::map<const GlobalValue *, u64> gaddr;
  std::vector<Val> consts; std::map<const Constant *, int> constIdx;
  Page *emptyPage = nullptr; Obj *deadObj;
  std::map<std::string, std::string> params; std::map<std::string, bool> paramUsed;
  std::map<std::string, std::pair<Rat, Rat>> fixedDummy; std::map<std::string, std::string> fixed; bool fixedMode = false;
  // inputs
  struct Input { std::string name; int kind; int atom = -1; int var = -1; Rat lo, hi; int64_t ilo = 0, ihi = 0; }; // kind 0 double,1 float,2 ld,3 int,4 bool
  std::vector<Input> inputs; std::map<std::string, int> inputIdx;
  struct IVar { E e; int64_t lo, hi; bool undef; unsigned w; int input; };
  std::vector<IVar> ivars;
  std::unordered_map<unsigned, int> varOf; // z3 ast id -> mono id (>=0) or ~ivar
  std::vector<std::vector<State *>> dummy;
  std::vector<State *> *work = nullptr; std::vector<State *> later;
  // stats
  u64 nPaths = 0, nInstr = 0, nForks = 0, nQueries = 0, nSat = 0, nUnsat = 0, nUnk = 0, nAssertDis = 0, nAssertConst = 0, nAssertUnk = 0, nIdent = 0, nIdentOpen = 0, nMerge = 0, nIncomplete = 0, nModelHits = 0, nInfeasible = 0, nRounded = 0;
  int splitK = 0, splitN = 0; bool shared = false;
  double tSolver = 0, tStart = now(), budget = 1e9, tReplay = 0; bool truncated = false;
  u64 maxInstr = 60000000; u32 maxDepth = 2500; int maxPathQ = 0; unsigned qTimeout = 8000;
  std::map<std::string, u64> incomplete; std::map<std::string, u64> assertHits;
  std::map<std::string, u64> validated; u64 nTraces = 0, nTraceOk = 0, nTraceDiverge = 0, nTraceNoModel = 0; int sampleEvery = 1, sampleMax = 12; 
  std::string replayCmd, replayAsan, replayVg, workDir = "/tmp", harnessEntry = "harness_main", tag = "run";
  std::vector<std::string> samples;
  struct Viol { std::string id, what, file, native; bool confirmed; };
  std::vector<Viol> viols; std::map<std::string, int> violTries; int nConfirmed = 0;
  std::mt19937 rng; unsigned seed = 1;
  std::vector<Rat> logRatios; bool logLemmas = false;
  bool useModels = false;
  double toln = 1e-6;
  Rat TOL;

  Engine() : P(z), S(z) {
    deadObj = new Obj; deadObj->alive = false; deadObj->rc = 1 << 30;
    TOL = ratOf(1e-9L);
  }

  // ------------------------------------------------------------ bit-vector expressions
  std::unordered_map<unsigned, SymBV *> bvIntern[2];
  const SymBV *mk(const E &e, unsigned w, bool b) {
    unsigned id = Z3_get_ast_id(z, e);
    auto &m = bvIntern[b];
    auto it = m.find(id);
    if (it != m.end()) return it->second;
    SymBV *s = new SymBV{e, w, b};
    m[id] = s;
    return s;
  }
  Val vbool(const E &e) {
    if (e.is_true()) return VI(1);
    if (e.is_false()) return VI(0);
    Val v; v.k = Val::SB; v.s = mk(e, 1, true); return v;
  }
  Val vbv(const E &e0, unsigned w) {
    E e = e0.simplify();
    u64 n;
    if (e.is_numeral() && Z3_get_numeral_uint64(z, e, (uint64_t *)&n)) return VI(n);
    if (w == 1) { // keep booleans as Bool
      E b = (e == z.bv_val(1, 1)); b = b.simplify();
      return vbool(b);
    }
    Val v; v.k = Val::SB; v.s = mk(e, w, false); return v;
  }
  E bvOf(const Val &v, unsigned w) {
    if (v.k == Val::I) return z.bv_val((uint64_t)(v.i & maskw(w)), w);
    if (v.k == Val::SB) {
      if (v.s->b) return z3::ite(v.s->e, z.bv_val(1, w), z.bv_val(0, w));
      return v.s->e;
    }
    throw PathEnd{"integer operation on a symbolic real"};
  }
  std::unordered_map<unsigned, E *> notC;
  E mkNot(const E &e) {
    if (e.is_true()) return z.bool_val(false);
    if (e.is_false()) return z.bool_val(true);
    if (e.is_app() && e.decl().decl_kind() == Z3_OP_NOT) return e.arg(0);
    return !e;
  }
  E boolOf(const Val &v) {
    if (v.k == Val::I) return z.bool_val((v.i & 1) != 0);
    if (v.k == Val::SB) { if (v.s->b) return v.s->e; return v.s->e == z.bv_val(1, v.s->w); }
    throw PathEnd{"boolean of unexpected value"};
  }
  E mkAnd(const E &a, const E &b) {
    if (a.is_true()) return b; if (b.is_true()) return a; if (a.is_false() || b.is_false()) return z.bool_val(false);
    if (z3::eq(a, b)) return a; return a && b;
  }
  E mkOr(const E &a, const E &b) {
    if (a.is_false()) return b; if (b.is_false()) return a; if (a.is_true() || b.is_true()) return z.bool_val(true);
    if (z3::eq(a, b)) return a; return a || b;
  }
  int newIVar(const std::string &n, unsigned w, int64_t lo, int64_t hi, bool undef, int input) {
    E e = z.bv_const(n.c_str(), w);
    ivars.push_back(IVar{e, lo, hi, undef, w, input});
    varOf[Z3_get_ast_id(z, e)] = ~(int)(ivars.size() - 1);
    return ivars.size() - 1;
  }
  u64 undefCount = 0;
  Val undefInt(unsigned w) {
    int v = newIVar("undef" + std::to_string(undefCount++), w, 0, 0, true, -1);
    return vbv(ivars[v].e, w);
  }
  Val undefReal() {
    Atom *a = P.newAtom(A_UNDEF, "undef" + std::to_string(undefCount++));
    return VSR(P.atomPoly(a->id));
  }

  // ------------------------------------------------------------ dependencies and axioms
  std::unordered_map<unsigned, std::vector<int>> depC; std::vector<E> depKeep;
  const std::vector<int> &deps(const E &e) {
    unsigned id = Z3_get_ast_id(z, e);
    auto it = depC.find(id);
    if (it != depC.end()) return it->second;
    std::set<int> r; std::unordered_set<unsigned> seen; std::vector<E> st{e};
    while (!st.empty()) {
      E x = st.back(); st.pop_back();
      unsigned xi = Z3_get_ast_id(z, x);
      if (!seen.insert(xi).second) continue;
      auto c = depC.find(xi);
      if (c != depC.end()) { r.insert(c->second.begin(), c->second.end()); continue; }
      if (!x.is_app()) continue;
      unsigned n = x.num_args();
      if (n == 0) { auto v = varOf.find(xi); if (v != varOf.end()) r.insert(v->second); }
      for (unsigned i = 0; i < n; i++) st.push_back(x.arg(i));
    }
    depKeep.push_back(e);
    return depC[id] = std::vector<int>(r.begin(), r.end());
  }
  E low(const Poly *p) {
    for (auto &t : p->t) if (t.first) { E v = P.var(t.first); varOf[Z3_get_ast_id(z, v)] = t.first; }
    return P.lower(p);
  }
  bool depsUndef(const E &e) {
    for (int d : deps(e)) {
      if (d < 0) { if (ivars[~d].undef) return true; }
      else for (auto &fe : P.monos[d]->f) if (P.atoms[fe.first]->kind == A_UNDEF) return true;
    }
    return false;
  }
  // active axiom set in the solver, with undo per level
  std::vector<bool> act; std::set<int> actI; std::vector<std::vector<int>> undo;
  void activate(int d) {
    if (d < 0) {
      int v = ~d;
      if (ivars[v].undef || !actI.insert(v).second) return;
      undo.back().push_back(d);
      S.add(z3::sge(ivars[v].e, z.bv_val((int)ivars[v].lo, ivars[v].w)) && z3::sle(ivars[v].e, z.bv_val((int)ivars[v].hi, ivars[v].w)));
      return;
    }
    if (d == 0) return;
    if (act.size() < P.monos.size()) act.resize(P.monos.size() + 64);
    if (act[d]) return;
    act[d] = true; undo.back().push_back(d);
    PolyCtx::Range r = P.monoRange(d);
    E v = P.var(d); varOf[Z3_get_ast_id(z, v)] = d;
    if (r.hasLo) S.add(v >= P.num(r.lo));
    if (r.hasHi) S.add(v <= P.num(r.hi));
    Mono *m = P.monos[d];
    if (m->isAtom()) {
      Atom *a = P.atoms[m->f[0].first];
      if (a->kind == A_POLY) { E x = low(a->arg); for (int k : deps(x)) activate(k); S.add(v == x); }
      if (a->kind == A_LOG) { E x = low(a->arg); for (int k : deps(x)) activate(k); S.add(v <= x - 1); }
      if (a->kind == A_SQRT) { S.add(v >= 0); }
      return;
    }
    // product x*rest : McCormick
    auto f = m->f;
    bool neg = false; for (auto &x : f) if (x.second < 0) neg = true;
    if (neg) return;
    auto g = f; int xa = g.back().first;
    if (--g.back().second == 0) g.pop_back();
    int mx = P.getMono({{xa, 1}}), mr = P.getMono(g);
    if ((int)P.monoVar.size() <= std::max(mx, mr)) return;
    PolyCtx::Range a = P.monoRange(mx), b = P.monoRange(mr);
    activate(mx); activate(mr);
    E x = P.var(mx), y = P.var(mr);
    if (a.hasLo && b.hasLo) S.add(v >= P.num(a.lo) * y + P.num(b.lo) * x - P.num(a.lo * b.lo));
    if (a.hasHi && b.hasHi) S.add(v >= P.num(a.hi) * y + P.num(b.hi) * x - P.num(a.hi * b.hi));
    if (a.hasHi && b.hasLo) S.add(v <= P.num(a.hi) * y + P.num(b.lo) * x - P.num(a.hi * b.lo));
    if (a.hasLo && b.hasHi) S.add(v <= P.num(a.lo) * y + P.num(b.hi) * x - P.num(a.lo * b.hi));
  }
  void lpush() { S.push(); undo.emplace_back(); }
  void lpop() {
    S.pop();
    for (int d : undo.back()) { if (d < 0) actI.erase(~d); else act[d] = false; }
    undo.pop_back();
  }
  void ladd(const E &e) { for (int d : deps(e)) activate(d); S.add(e); }
  std::vector<PCNode *> stk;
  void sync(PCNode *n) {
    std::vector<PCNode *> want; 
    PCNode *x = n;
    // find common ancestor
    while (x && !(x->depth < (int)stk.size() && stk[x->depth] == x)) { want.push_back(x); x = x->parent; }
    int keep = x ? x->depth + 1 : 0;
    while ((int)stk.size() > keep) { lpop(); stk.pop_back(); }
    for (auto it = want.rbegin(); it != want.rend(); ++it) { lpush(); ladd((*it)->e); stk.push_back(*it); }
  }
  z3::check_result check() {
    double t = now();
    if (t - tStart > budget + 10) { truncated = true; throw Stop{}; }
    z3::check_result r;
    try { r = S.check(); } catch (z3::exception &ex) { r = z3::unknown; }
    tSolver += now() - t; nQueries++;
    if (r == z3::sat) nSat++; else if (r == z3::unsat) nUnsat++; else nUnk++;
    return r;
  }
  ModelRef getModel() { return ModelRef(new ModelInfo{S.get_model(), act}); }
  // is pc && e satisfiable
  z3::check_result query(PCNode *pc, const E &e, ModelRef *m) {
    sync(pc); lpush(); ladd(e);
    z3::check_result r = check();
    if (r == z3::sat && m) *m = getModel();
    lpop();
    return r;
  }
  void addPC(State &s, const E &e) {
    if (e.is_true()) return;
    s.pc = new PCNode{e, s.pc, s.pc ? s.pc->depth + 1 : 0};
    noteEq(s, e);
  }
  // remember equalities of a single atom with a constant
  std::unordered_map<unsigned, std::pair<const Poly *, int>> cmpPoly; // z3 id -> (poly, 0 gt 1 ge 2 eq)
  void noteEq(State &s, const E &e) {
    bool neg = false; E x = e;
    if (x.is_app() && x.decl().decl_kind() == Z3_OP_NOT) { neg = true; x = x.arg(0); }
    auto it = cmpPoly.find(Z3_get_ast_id(z, x));
    if (it == cmpPoly.end()) return;
    const Poly *p = it->second.first; int k = it->second.second;
    Rat c0 = 0, c1 = 0; int at = -1;
    for (auto &t : p->t) {
      if (t.first == 0) c0 = t.second;
      else if (at < 0 && P.monos[t.first]->isAtom()) { at = P.monos[t.first]->f[0].first; c1 = t.second; }
      else return;
    }
    if (at < 0) return;
    Rat v = -c0 / c1; Atom *a = P.atoms[at];
    bool le = (k == 0 && neg) , ge = (k == 1 && !neg); // p<=0 / p>=0
    if (c1 < 0) std::swap(le, ge);
    if ((k == 2 && !neg) || (le && a->hasLo && a->lo == v) || (ge && a->hasHi && a->hi == v)) s.assignR[at] = v;
  }
  const Poly *substR(State &s, const Poly *p) {
    if (s.assignR.empty()) return p;
    bool any = false;
    for (auto &t : p->t) for (auto &fe : P.monos[t.first]->f) if (s.assignR.count(fe.first)) any = true;
    if (!any) return p;
    std::map<int, Rat> m;
    for (auto &t : p->t) {
      Rat c = t.second; std::vector<std::pair<int, int>> g;
      for (auto &fe : P.monos[t.first]->f) {
        auto it = s.assignR.find(fe.first);
        if (it == s.assignR.end()) { g.push_back(fe); continue; }
        if (fe.second < 0 && it->second == 0) return p;
        for (int k = 0; k < std::abs(fe.second); k++) { if (fe.second > 0) c *= it->second; else c /= it->second; }
      }
      m[P.getMono(g)] += c;
    }
    std::vector<std::pair<int, Rat>> t;
    for (auto &x : m) if (x.second != 0) t.push_back(x);
    return P.intern(std::move(t));
  }
  bool evalModel(ModelRef &m, const E &e, bool &res) {
    if (!m) return false;
    for (int d : deps(e)) if (d > 0 && (d >= (int)m->act.size() || !m->act[d])) return false;
    E r = m->m.eval(e, true);
    if (r.is_true()) { res = true; return true; }
    if (r.is_false()) { res = false; return true; }
    return false;
  }

  State *cur = nullptr; // the state being executed
  // ------------------------------------------------------------ deciding
  State *clone(State &s) {
    State *n = new State(s);
    for (Page *p : n->pages) if (p) p->rc++;
    return n;
  }
  void freeState(State *s) {
    for (Page *p : s->pages) if (p && --p->rc == 0) { for (Obj *o : p->o) if (o) decObj(o); delete p; }
    delete s;
  }
  void decObj(Obj *o) { if (o == deadObj) return; if (--o->rc == 0) delete o; }

  // value of a boolean for this state; forks a copy for the other value
  bool decide(State &s, const E &c0, bool prefer = true, bool deferOther = false) {
    if (c0.is_true()) return true;
    if (c0.is_false()) return false;
    bool flip = false; E c = c0;
    if (c.is_app() && c.decl().decl_kind() == Z3_OP_NOT) { c = c.arg(0); flip = true; }
    unsigned id = Z3_get_ast_id(z, c);
    PCNode *n = s.pc;
    for (int k = 0; n && k < 12; k++, n = n->parent) {
      if (Z3_get_ast_id(z, n->e) == id) return !flip;
      if (n->e.is_app() && n->e.decl().decl_kind() == Z3_OP_NOT && Z3_get_ast_id(z, n->e.arg(0)) == id) return flip;
    }
    if (fixedMode) throw PathEnd{"symbolic branch in fixed mode"};
    if (depsUndef(c)) throw Fault{"uninitialised", "control flow depends on an uninitialised value", true};
    E nc = mkNot(c);
    bool canT = false, canF = false, known; ModelRef mT, mF;
    if (evalModel(s.model, c, known)) { nModelHits++; if (known) { canT = true; mT = s.model; } else { canF = true; mF = s.model; } }
    if (!canT) { auto r = query(s.pc, c, useModels ? &mT : nullptr); canT = r != z3::unsat; }
    if (!canF) { if (!canT) canF = true; else { auto r = query(s.pc, nc, useModels ? &mF : nullptr); canF = r != z3::unsat; } }
    if (canT && !canF) return !flip;   // implied: no constraint needed
    if (!canT && canF) return flip;
    nForks++;
    bool pref = flip ? !prefer : prefer;
    State *o = clone(s);
    if (pref) { addPC(*o, nc); o->model = mF; addPC(s, c); s.model = mT; }
    else { addPC(*o, c); o->model = mT; addPC(s, nc); s.model = mF; }
    if (deferOther && work == &mainWork) { o->prio++; later.push_back(o); } else work->push_back(o);
    return pref != flip;
  }
  std::vector<State *> mainWork;

  Val norm(State &s, const Val &v) {
    if (v.k != Val::SB || s.assign.empty()) return v;
    z3::expr_vector a(z), b(z); bool any = false;
    for (int d : deps(v.s->e)) if (d < 0) { auto it = s.assign.find(~d); if (it != s.assign.end()) { a.push_back(ivars[~d].e); b.push_back(z.bv_val((uint64_t)it->second, ivars[~d].w)); any = true; } }
    if (!any) return v;
    E e = E(v.s->e).substitute(a, b).simplify();
    return v.s->b ? vbool(e) : vbv(e, v.s->w);
  }
  u64 concretize(State &s, Val v, unsigned w) {
    v = norm(s, v);
    if (v.k == Val::I) return v.i;
    if (v.k == Val::UND) throw Fault{"uninitialised", "use of an undefined value", true};
    if (v.k != Val::SB) throw PathEnd{"concretising a symbolic real as integer"};
    if (v.s->b) return decide(s, v.s->e) ? 1 : 0;
    if (depsUndef(v.s->e)) throw Fault{"uninitialised", "address or size depends on an uninitialised value", true};
    for (int guard = 0; guard < 64; guard++) {
      int var = -1;
      for (int d : deps(v.s->e)) if (d < 0) { var = ~d; break; }
      ModelRef m = s.model;
      // model for current path
      { ModelRef m2; bool ok = false; if (m) { bool all = true; for (int d : deps(v.s->e)) if (d > 0 && (d >= (int)m->act.size() || !m->act[d])) all = false; ok = all; }
        if (!ok) { if (query(s.pc, z.bool_val(true), &m2) == z3::unsat) throw PathEnd{"infeasible"}; m = m2; if (!m) throw PathEnd{"solver unknown"}; s.model = m; } }
      if (var >= 0) {
        E val = m->m.eval(ivars[var].e, true); uint64_t n = 0; Z3_get_numeral_uint64(z, val, &n);
        int64_t sv = sext(n, ivars[var].w);
        if (sv < ivars[var].lo || sv > ivars[var].hi) { ModelRef m2; sync(s.pc); lpush(); activate(~var); auto r = check(); if (r == z3::sat) m2 = getModel(); lpop(); if (!m2) throw PathEnd{"solver unknown"}; s.model = m2; val = m2->m.eval(ivars[var].e, true); Z3_get_numeral_uint64(z, val, &n); }
        decide(s, ivars[var].e == z.bv_val(n, ivars[var].w));
        s.assign[var] = n;
        v = norm(s, v);
      } else {
        E val = m->m.eval(v.s->e, true); uint64_t n = 0; Z3_get_numeral_uint64(z, val, &n);
        decide(s, v.s->e == z.bv_val(n, w));
        return n;
      }
      if (v.k == Val::I) return v.i;
    }
    throw PathEnd{"cannot concretise"};
  }

  // ------------------------------------------------------------ memory access
  Obj *&slot(State &s, u32 id) {
    u32 pg = id >> 6;
    if (pg >= s.pages.size()) s.pages.resize(pg + 1, nullptr);
    Page *p = s.pages[pg];
    if (!p) { p = new Page; for (auto &o : p->o) o = nullptr; s.pages[pg] = p; }
    else if (p->rc > 1) {
      Page *n = new Page; memcpy(n->o, p->o, sizeof p->o);
      for (Obj *o : n->o) if (o && o != deadObj) o->rc++;
      p->rc--; s.pages[pg] = n; p = n;
    }
    return p->o[id & 63];
  }
  Obj *getR(State &s, u32 id) {
    u32 pg = id >> 6;
    if (pg >= s.pages.size() || !s.pages[pg]) return nullptr;
    return s.pages[pg]->o[id & 63];
  }
  Obj *getW(State &s, u32 id) {
    Obj *&o = slot(s, id);
    if (o && o != deadObj && o->rc > 1) { Obj *n = new Obj(*o); n->rc = 1; o->rc--; o = n; }
    return o;
  }
  // the size classes of the system's allocator
  static u64 cls(u64 n) { return n + 8 < 32 ? 32 : (n + 8 + 15) / 16 * 16; }
  int reuse_ = -1;
  bool reuse() { if (reuse_ < 0) { auto it = params.find("reuse"); reuse_ = it == params.end() ? 0 : it->second == "1" ? 1 : it->second == "2" ? 2 : 0; if (it != params.end()) paramUsed["reuse"] = true; } return reuse_ != 0; }
  u32 newObj(State &s, u64 size, u8 kind, bool zero = false) {
    if (size > (64u << 20)) throw Fault{"alloc", "allocation of " + std::to_string(size) + " bytes", false};
    u32 id = 0;
    if (kind == 1 && reuse()) { auto it = s.freed.find(cls(size)); if (it != s.freed.end() && !it->second.empty()) { auto q = reuse_ == 2 ? std::min_element(it->second.begin(), it->second.end()) : it->second.end() - 1; id = *q; it->second.erase(q); } }
    if (!id) id = s.nextObj++;
    Obj *o = new Obj; o->size = size; o->kind = kind; o->b.assign(size, 0); o->init.assign(size, zero ? 1 : 0);
    slot(s, id) = o;
    return id;
  }
  void killObj(State &s, u32 id) { Obj *&o = slot(s, id); if (o) decObj(o); o = deadObj; }
  Obj *access(State &s, u64 addr, u64 n, bool write) {
    u32 id = addr >> 32, off = (u32)addr;
    if (id == 0) throw Fault{"memory", "null pointer access", false};
    Obj *o = write ? getW(s, id) : getR(s, id);
    if (!o) throw Fault{"memory", "wild pointer access", false};
    if (!o->alive) throw Fault{"memory", "use after free or after scope", false};
    if (o->kind == 4) throw Fault{"memory", "access to code", false};
    if ((u64)off + n > o->size) throw Fault{"memory", "out-of-bounds access at offset " + std::to_string((int)off) + " of an object of " + std::to_string(o->size) + " bytes", false};
    return o;
  }
  // ---- packed values: an integer of n bytes as pieces, each a value of its own
  struct Pc { u32 off, size; Val v; };
  static Val bitsOf(const Val &v, u32 size) { // a known real as the integer with its bits
    if (v.k != Val::F) return v;
    u64 r = 0; if (size == 4) { float q = v.f; memcpy(&r, &q, 4); } else { double q = v.f; memcpy(&r, &q, 8); } return VI(r);
  }
  static Val realOf(const Val &v, int fpk) { // the other way round
    if (v.k != Val::I || fpk == 3 || !fpk) return v;
    if (fpk == 1) { float q; memcpy(&q, &v.i, 4); return VF(q); } double q; memcpy(&q, &v.i, 8); return VF(q);
  }
  static std::vector<Pc> pieces(const Val &v, u32 n) {
    std::vector<Pc> r;
    if (v.k == Val::PK) for (size_t k = 0; k < v.g->v.size(); k++) r.push_back(Pc{v.g->off[k], v.g->size[k], v.g->v[k]});
    else if (n > 8 && v.k == Val::I) { for (u32 k = 0; k < n; k += 8) r.push_back(Pc{k, std::min(n - k, 8u), VI(k ? 0 : v.i)}); }
    else r.push_back(Pc{0, n, bitsOf(v, n)});
    return r;
  }
  Val pack(std::vector<Pc> p, u32 n) {
    if (p.size() == 1 && p[0].size == n) return p[0].v;
    bool ints = n <= 8; for (auto &x : p) if (x.v.k != Val::I && x.v.k != Val::SB) ints = false;
    if (ints) {
      E r(z); bool first = true;
      for (auto &x : p) { E e = bvOf(x.v, x.size * 8); r = first ? e : z3::concat(e, r); first = false; }
      return vbv(r, n * 8);
    }
    Val v; v.k = Val::PK; v.g = new Agg;
    for (auto &x : p) { v.g->off.push_back(x.off); v.g->size.push_back(x.size); v.g->v.push_back(x.v); }
    return v;
  }
  // bytes [from, from+n) of a value of `size` bytes
  Val part(const Val &v, u32 size, u32 from, u32 n) {
    std::vector<Pc> r;
    for (auto &x : pieces(v, size)) {
      u32 lo = std::max(x.off, from), hi = std::min(x.off + x.size, from + n);
      if (lo >= hi) continue;
      Val y = x.v;
      if (hi - lo != x.size) {
        u32 sh = lo - x.off, m = hi - lo;
        if (y.k == Val::I) y = VI((y.i >> (sh * 8)) & maskw(m * 8));
        else if (y.k == Val::SB) y = vbv(bvOf(y, x.size * 8).extract(sh * 8 + m * 8 - 1, sh * 8), m * 8);
        else if (y.k != Val::UND) throw PathEnd{"part of a symbolic real"};
      }
      r.push_back(Pc{lo - from, hi - lo, y});
    }
    return pack(r, n);
  }
  static void put(std::vector<Pc> &r, u32 at, const Val &v, u32 n) { for (auto &x : pieces(v, n)) r.push_back(Pc{at + x.off, x.size, x.v}); }
  // bitwise operations and shifts by whole bytes
  Val packOp(State &s, unsigned op, unsigned w, const Val &a, const Val &b) {
    u32 n = w / 8; std::vector<Pc> r;
    if (w % 8) throw PathEnd{"integer operation on a symbolic real"};
    if (op == Instruction::LShr || op == Instruction::Shl) {
      if (b.k != Val::I || b.i % 8 || b.i >= w) throw PathEnd{"integer operation on a symbolic real"};
      u32 k = b.i / 8; if (!k) return a;
      if (op == Instruction::LShr) { put(r, 0, part(a, n, k, n - k), n - k); put(r, n - k, VI(0), k); }
      else { put(r, 0, VI(0), k); put(r, k, part(a, n, 0, n - k), n - k); }
      return pack(r, n);
    }
    if (op != Instruction::Or && op != Instruction::And && op != Instruction::Xor && op != Instruction::Add) throw PathEnd{"integer operation on a symbolic real"};
    std::set<u32> cut; for (auto *v : {&a, &b}) for (auto &x : pieces(*v, n)) { cut.insert(x.off); cut.insert(x.off + x.size); }
    for (auto it = cut.begin(); std::next(it) != cut.end(); ++it) {
      u32 lo = *it, m = *std::next(it) - lo; Val x = part(a, n, lo, m), y = part(b, n, lo, m), q;
      auto zero = [&](const Val &v) { return v.k == Val::I && !(v.i & maskw(m * 8)); };
      auto ones = [&](const Val &v) { return v.k == Val::I && (v.i & maskw(m * 8)) == maskw(m * 8); };
      if (op == Instruction::And) { if (zero(x) || zero(y)) q = VI(0); else if (ones(x)) q = y; else if (ones(y)) q = x; else if ((x.k == Val::I || x.k == Val::SB) && (y.k == Val::I || y.k == Val::SB)) q = vbv(bvOf(x, m * 8) & bvOf(y, m * 8), m * 8); else throw PathEnd{"integer operation on a symbolic real"}; }
      else if (zero(x)) q = y; else if (zero(y)) q = x;
      else if (op != Instruction::Add && (x.k == Val::I || x.k == Val::SB) && (y.k == Val::I || y.k == Val::SB)) q = op == Instruction::Or ? vbv(bvOf(x, m * 8) | bvOf(y, m * 8), m * 8) : vbv(bvOf(x, m * 8) ^ bvOf(y, m * 8), m * 8);
      else throw PathEnd{"integer operation on a symbolic real"};
      put(r, lo, q, m);
    }
    return pack(r, n);
  }
  // ---- vectors: a value of its own per lane
  Val lanesOf(const std::vector<Val> &e) { Val v; v.k = Val::AGG; v.g = new Agg; v.g->v = e; return v; }
  Val lane(const Val &v, u32 k) { if (v.k == Val::UND) return Val(); if (v.k != Val::AGG || k >= v.g->v.size()) throw PathEnd{"vector lane"}; return v.g->v[k]; }
  static unsigned fpSize(int k) { return k == 1 ? 4 : k == 2 ? 8 : 10; }
  Val load(State &s, u64 addr, unsigned size, unsigned w, int fpk) {
    Obj *o = access(s, addr, size, false);
    u32 off = (u32)addr;
    if (!fpk && size > 8 && size % 8 == 0) { std::vector<Pc> r; for (u32 k = 0; k < size; k += 8) put(r, k, load(s, addr + k, 8, 64, 0), 8); return pack(r, size); }
    if (!o->sym.empty()) {
      bool overlap = false;
      for (auto &c : o->sym) {
        if (c.off == off && c.size == size) {
          Val v = c.v;
          if (fpk && v.k == Val::SB) throw PathEnd{"symbolic integer read as real"};
          if (!fpk && v.k == Val::SB && !v.s->b && v.s->w != w) { if (w < v.s->w) return vbv(v.s->e.extract(w - 1, 0), w); return vbv(z3::zext(v.s->e, w - v.s->w), w); }
          return v;
        }
        if (c.off < off + size && off < c.off + c.size) overlap = true;
      }
      if (overlap) {
        bool real = false; for (auto &c : o->sym) if (c.off < off + size && off < c.off + c.size && c.v.k != Val::SB) real = true;
        if (real && !fpk && w == size * 8) {
          std::vector<Pc> r;
          for (u32 k = 0; k < size;) {
            const SymCell *in = nullptr; u32 e = size;
            for (auto &c : o->sym) { if (c.v.k == Val::SB) continue; if (c.off <= off + k && off + k < c.off + c.size) in = &c; else if (c.off > off + k && c.off - off < e) e = c.off - off; }
            if (in) { if (in->off != off + k || in->off + in->size > off + size) throw PathEnd{"partial read of a symbolic real"}; put(r, k, in->v, in->size); k += in->size; continue; }
            for (u32 m; k < e; k += m) { m = std::min(e - k, 8u); put(r, k, load(s, addr + k, m, m * 8, 0), m); }
          }
          return pack(r, size);
        }
        if (fpk) throw PathEnd{"partial read of a symbolic cell"};
        // byte-wise assembly for integers
        E r(z); bool first = true;
        for (unsigned k = 0; k < size; k++) {
          E by(z); bool found = false;
          for (auto &c : o->sym) if (c.off <= off + k && off + k < c.off + c.size) {
            if (c.v.k != Val::SB) throw PathEnd{"partial read of a symbolic real"};
            E x = c.v.s->b ? z3::ite(c.v.s->e, z.bv_val(1, c.size * 8), z.bv_val(0, c.size * 8)) : (c.v.s->w < c.size * 8 ? z3::zext(c.v.s->e, c.size * 8 - c.v.s->w) : c.v.s->e);
            unsigned bo = off + k - c.off; by = x.extract(bo * 8 + 7, bo * 8); found = true;
          }
          if (!found) { if (!o->init[off + k]) by = bvOf(undefInt(8), 8); else by = z.bv_val((unsigned)o->b[off + k], 8); }
          r = first ? by : z3::concat(by, r); first = false;
        }
        if (w < size * 8) r = r.extract(w - 1, 0);
        return vbv(r, w);
      }
    }
    bool uninit = false, allun = true;
    for (unsigned k = 0; k < size; k++) { if (!o->init[off + k]) uninit = true; else allun = false; }
    if (uninit) {
      if (fpk) { return undefReal(); }
      if (allun) return undefInt(w);
      E r(z); bool first = true;
      for (unsigned k = 0; k < size; k++) { E by = o->init[off + k] ? z.bv_val((unsigned)o->b[off + k], 8) : bvOf(undefInt(8), 8); r = first ? by : z3::concat(by, r); first = false; }
      if (w < size * 8) r = r.extract(w - 1, 0);
      return vbv(r, w);
    }
    const u8 *p = &o->b[off];
    if (fpk == 1) { float f; memcpy(&f, p, 4); return VF(f); }
    if (fpk == 2) { double f; memcpy(&f, p, 8); return VF(f); }
    if (fpk == 3) { long double f = 0; memcpy(&f, p, 10); return VF(f); }
    u64 x = 0; memcpy(&x, p, size > 8 ? 8 : size);
    if (size > 8) throw PathEnd{"wide integer load"};
    return VI(x & maskw(w));
  }
  void clearCells(Obj *o, u32 off, u32 size) {
    for (size_t k = 0; k < o->sym.size();) {
      auto &c = o->sym[k];
      if (c.off < off + size && off < c.off + c.size) {
        if (c.off < off || c.off + c.size > off + size) {
          if (c.v.k != Val::SB) throw PathEnd{"partial overwrite of a symbolic real"};
          // split into bytes
          SymCell cc = c; o->sym.erase(o->sym.begin() + k);
          E x = cc.v.s->b ? z3::ite(cc.v.s->e, z.bv_val(1, cc.size * 8), z.bv_val(0, cc.size * 8)) : (cc.v.s->w < cc.size * 8 ? z3::zext(cc.v.s->e, cc.size * 8 - cc.v.s->w) : cc.v.s->e);
          for (u32 q = 0; q < cc.size; q++) if (cc.off + q < off || cc.off + q >= off + size) {
            Val bv = vbv(x.extract(q * 8 + 7, q * 8), 8);
            if (bv.k == Val::I) { o->b[cc.off + q] = bv.i; o->init[cc.off + q] = 1; } else o->sym.push_back(SymCell{cc.off + q, 1, bv});
          }
          continue;
        }
        o->sym.erase(o->sym.begin() + k);
      } else k++;
    }
  }
  void store(State &s, u64 addr, const Val &v, unsigned size, int fpk) {
    if (v.k == Val::PK) { for (auto &x : pieces(v, size)) store(s, addr + x.off, x.v, x.size, 0); return; }
    Obj *o = access(s, addr, size, true);
    u32 off = (u32)addr;
    if (!o->sym.empty()) clearCells(o, off, size);
    if (v.k == Val::I || v.k == Val::F) {
      u8 *p = &o->b[off];
      if (v.k == Val::I) { memset(p, 0, size); memcpy(p, &v.i, size > 8 ? 8 : size); }
      else if (fpk == 1 || (fpk == 0 && size == 4)) { float f = (float)v.f; memcpy(p, &f, 4); }
      else if (fpk == 2 || (fpk == 0 && size == 8)) { double f = (double)v.f; memcpy(p, &f, 8); }
      else { memcpy(p, &v.f, 10); }
      memset(&o->init[off], 1, size);
    } else if (v.k == Val::UND) memset(&o->init[off], 0, size);
    else if (v.k == Val::AGG) throw PathEnd{"aggregate store"};
    else { memset(&o->init[off], 1, size); o->sym.push_back(SymCell{off, size, v}); }
  }
  void memcopy(State &s, u64 dst, u64 src, u64 n) {
    if (!n) return;
    Obj *so = access(s, src, n, false);
    u32 soff = (u32)src, doff = (u32)dst;
    std::vector<u8> b(so->b.begin() + soff, so->b.begin() + soff + n), in(so->init.begin() + soff, so->init.begin() + soff + n);
    std::vector<SymCell> cells;
    for (auto &c : so->sym) if (c.off < soff + n && soff < c.off + c.size) {
      if (c.off < soff || c.off + c.size > soff + n) {
        if (c.v.k != Val::SB) throw PathEnd{"partial copy of a symbolic real"};
        E x = c.v.s->b ? z3::ite(c.v.s->e, z.bv_val(1, c.size * 8), z.bv_val(0, c.size * 8)) : (c.v.s->w < c.size * 8 ? z3::zext(c.v.s->e, c.size * 8 - c.v.s->w) : c.v.s->e);
        for (u32 q = 0; q < c.size; q++) if (c.off + q >= soff && c.off + q < soff + n) {
          Val bv = vbv(x.extract(q * 8 + 7, q * 8), 8);
          if (bv.k == Val::I) { b[c.off + q - soff] = bv.i; in[c.off + q - soff] = 1; } else cells.push_back(SymCell{c.off + q - soff + doff, 1, bv});
        }
        continue;
      }
      cells.push_back(SymCell{c.off - soff + doff, c.size, c.v});
    }
    Obj *d = access(s, dst, n, true);
    if (!d->sym.empty()) clearCells(d, doff, n);
    memcpy(&d->b[doff], b.data(), n); memcpy(&d->init[doff], in.data(), n);
    for (auto &c : cells) d->sym.push_back(c);
  }
#include "exec.inc"
};

#include "main.inc"
