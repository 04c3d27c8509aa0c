// C17-C19: aggregates of every part hold the sum and the mean of its values.
// The partition is chosen by symbolic case splits: its parts get gain 1 per element, every other region 0, p = 1.
#include "data.h"
typedef std::vector<double> v1; typedef std::vector<v1> v2; typedef std::vector<v2> v3;
static void flat(double x, v1 &o) { o.push_back(x); }
template <class T> static void flat(const std::vector<T> &x, v1 &o) { for (const T &y : x) flat(y, o); }
static int nChoice = 0;
static int choose(int hi) { int m = sym_param("random", 0); int k = nChoice++; if (m < 0) return 0; return m ? (int)(mix(m, k, 5) % (unsigned)(hi + 1)) : hi ? sym_fix(sym_int("choice", k * 64 + hi, 0, hi)) : 0; }
// with direct=1 the partition is built from its cuts instead of being computed
static std::vector<int> cutO; static std::vector<bool> keepH; static std::vector<std::shared_ptr<UpperTriangularMatrix<int>>> cutD;
static void note(int h, int i, int j, int c) { if (!cutO.empty() && c >= 0 && h == 0) cutO[i] = c; if (!keepH.empty()) keepH[h] = c >= 0; if (!cutD.empty()) (*cutD[h])(i, j, c); }
static void pick(Prob &P, int h, int i, int j, bool cutLeft) {
  bool inner = P.kind != ORD && !P.t.kids[h].empty(); int cuts = P.kind == HIE ? 0 : j - i;
  // 0: keep, 1: children, 2..: cut after i+k (the left piece is not cut in time again)
  int c = choose((cutLeft ? cuts : 0) + (inner ? 1 : 0));
  if (c == 0) { note(h, i, j, j); P.G[h][P.at(i, j)] = P.sizeOf(h, i, j); return; }
  if (inner && c == 1) { note(h, i, j, -1); for (int k : P.t.kids[h]) pick(P, k, i, j, true); return; }
  int at = i + c - 1 - (inner ? 1 : 0);
  note(h, i, j, at); pick(P, h, i, at, false); pick(P, h, at + 1, j, true);
}
template <class A> static v1 sums(A &a) { v1 o; flat(a.getSum(), o); return o; }
template <class A> static v1 means(A &a) { v1 o; flat(a.getMean(), o); return o; }
static PartR ext(const OPart &p) { return PartR{0, p.getStart(), p.getEnd(), 0, 0, 0}; }
static PartR ext(const HPart &p) { return PartR{p.getH(), 0, 0, 0, 0, 0}; }
static PartR ext(const DPart &p) { return PartR{p.getH(), p.getStart(), p.getEnd(), 0, 0, 0}; }
template <class G> static void verify(Data &D, G &agg, const Sol &s) {
  auto as = agg.getAggregates();
  sym_assert(as.size() == s.parts.size(), "one aggregate per part");
  for (size_t k = 0; k < s.parts.size(); k++) {
    const PartR &x = s.parts[k]; PartR e = ext(as[k].getPart());
    sym_assert(e.h == x.h && e.s == x.s && e.e == x.e, "aggregates in the order of the parts");
    v1 su = sums(as[k]), me = means(as[k]);
    sym_assert((int)su.size() == D.V && (int)me.size() == D.V, "one sum and mean per attribute");
    for (int a = 0; a < D.V; a++) {
      LD w = D.sum(x.h, x.s, x.e, a);
      sym_assert(sym_close(su[a] * D.inv, w * D.inv), "sum of the part's values"); sym_assert(sym_close(me[a] * D.inv, w * D.inv / D.size(x.h, x.s, x.e)), "mean of the part's values");
      sym_outf("sum", (int)k * 100003 + a, su[a] * D.inv);
    }
  }
}
extern "C" void harness_main() {
  Prob P; P.setup(); Data D; D.shapeParams(); D.fill(); D.build(sym_param("set", 0));
  bool direct = sym_param("direct", 0);
  if (direct) { if (P.kind == ORD) cutO.assign(P.n, P.n - 1); if (P.kind == HIE) keepH.assign(P.H, true); if (P.kind == SPT) for (int h = 0; h < P.H; h++) cutD.push_back(std::shared_ptr<UpperTriangularMatrix<int>>(new UpperTriangularMatrix<int>(P.n))); }
  pick(P, P.root(), 0, P.n - 1, true);
  P.build(); Sol s;
  if (P.kind == ORD) {
    std::shared_ptr<OPartition> r = direct ? std::shared_ptr<OPartition>(new OPartition(cutO, P.oq, 1)) : P.op->computeBestPartition(1); s = P.sol(*r);
    if (D.o1) { OAggregationN1 g(r, D.o1); verify(D, g, s); } if (D.o2) { OAggregationN2 g(r, D.o2); verify(D, g, s); }
    if (D.o3) { OAggregationN3 g(r, D.o3); verify(D, g, s); } if (D.o4) { OAggregationN4 g(r, D.o4); verify(D, g, s); }
  } else if (P.kind == HIE) {
    std::shared_ptr<HPartition> r = direct ? std::shared_ptr<HPartition>(new HPartition(keepH, P.hq, 1, *P.md)) : P.hp->computeBestPartition(1); s = P.sol(*r);
    if (D.h1) { HAggregationN1 g(r, D.h1); verify(D, g, s); } if (D.h2) { HAggregationN2 g(r, D.h2); verify(D, g, s); }
    if (D.h3) { HAggregationN3 g(r, D.h3); verify(D, g, s); } if (D.h4) { HAggregationN4 g(r, D.h4); verify(D, g, s); }
  } else {
    std::shared_ptr<DPartition> r = direct ? std::shared_ptr<DPartition>(new DPartition(cutD, P.dq, 1, *P.md)) : P.dp->computeBestPartition(1); s = P.sol(*r);
    if (D.d2) { DAggregationN2 g(r, D.d2); verify(D, g, s); } if (D.d3) { DAggregationN3 g(r, D.d3); verify(D, g, s); } if (D.d4) { DAggregationN4 g(r, D.d4); verify(D, g, s); }
  }
  P.outs(s);
}
