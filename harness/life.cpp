// C32: results outlive what they were computed from, and everything is given back in the end.
//   mode 0: one session, its objects released in any order, the others read after each release
//   mode 1: asking again and again does not pile anything up
#include "session.h"
static int live(Session &s) { (void)s; return sym_live(); }
static void round(const Session &like, bool judge, bool other = false) {
  Session s(0, &like); if (other) s.vary(); while (!s.done()) s.step();
  enum { VAL, QUA, PAR, ONE, TWO, LST, AGG, NUM }; bool on[NUM]; for (bool &x : on) x = true;
  // partitions of the sweep, held on their own
  std::vector<Any> list; if (s.P.op) for (auto &x : s.P.op->getPartitions()) { Any y; y.o = x.second; list.push_back(y); } if (s.P.hp) for (auto &x : s.P.hp->getPartitions()) { Any y; y.h = x.second; list.push_back(y); } if (s.P.dp) for (auto &x : s.P.dp->getPartitions()) { Any y; y.d = x.second; list.push_back(y); }
  if (s.raw) { on[VAL] = false; on[AGG] = false; }
  Rec want[NUM];
  for (int step = 0; step <= NUM; step++) {
    for (int k = 0; k < NUM; k++) if (on[k]) {
      Rec r;
      if (k == VAL) { cells(r, s.D); metas(r, s.D); } if (k == QUA && !s.raw) { quals(r, s.D, *s.Q); metas(r, *s.Q); } if (k == PAR) { answers(r, s.P); r.push_back(s.P.base().getP(P_OPT)); r.push_back(s.P.base().computeAUC()); put(r, s.P.solve(s.q)); }
      if (k == ONE) full(r, s.a); if (k == TWO) full(r, s.b); if (k == LST) for (Any &x : list) full(r, x); if (k == AGG) s.g.read(r);
      if (!step) want[k] = r; else if (judge) sym_assert(sameRec(r, want[k]), "what is still held reads as before");
    }
    std::vector<int> c; for (int k = 0; k < NUM; k++) if (on[k]) c.push_back(k);
    if (c.empty()) break;
    // `free` of them go in any order, then the rest in a fixed one
    int pick = judge && step < sym_param("free", 3) ? sym_fix(sym_int("drop", step * 8 + (int)c.size(), 0, (int)c.size() - 1)) : 0, k = c[pick]; on[k] = false;
    if (k == VAL) { Data e; e.shape(s.D.kind, s.D.nd, s.D.A, s.D.B, s.D.C, s.D.T, s.D.t); s.D.adopt(e); }
    if (k == QUA) { s.Q.reset(); s.P.oq.reset(); s.P.hq.reset(); s.P.dq.reset(); s.P.md.reset(); }
    if (k == PAR) { s.P.op.reset(); s.P.hp.reset(); s.P.dp.reset(); }
    if (k == ONE) s.a.drop(); if (k == TWO) s.b.drop(); if (k == LST) list.clear(); if (k == AGG) s.g.drop();
  }
}
static void again(const Session &like) {
  Session s(0, &like); while (!s.done()) s.step();
  int first = 0;
  for (int k = 0; k < 4; k++) {
    s.r = Rec();
    if (s.Q) { s.Q->compute(); if (sym_param("norm", 0)) s.Q->normalize(); }
    s.P.base().computeBestPartitions(s.th); { answers(s.r, s.P); } s.a = solveAny(s.P, s.p); s.b = solveAny(s.P, s.q); if (!s.raw) { s.g.drop(); s.g.make(s.a, s.D); s.g.read(s.r); }
    s.r = Rec(); int now = live(s); if (k == 1) first = now; if (k > 1) sym_assert(now <= first, "asking again holds no more memory than before");
  }
}
extern "C" void harness_main() {
  Session A(0);
  if (sym_param("mode", 0) == 1) { again(A); return; }
  round(A, false); int base = sym_live(); round(A, true); sym_assert(sym_live() <= base, "everything is given back once released");
  if (sym_param("stride", 1)) return; // with fixed data only: symbolic data would fork all over again
  round(A, false, true); sym_assert(sym_live() <= base, "everything is given back once released, with other data and parameters");
}
