// C30: the C++ functions that R/lpaggreg.R offers to R return what the library computes, in R's conventions.
#include "data.h"
#include "rsrc.inc" // the C++ source held in R/lpaggreg.R, extracted at build time
static const Rcpp::DataFrame *frame(const Rcpp::List &l, const char *n) { const Rcpp::NamedValue *c = l.find(n); return c && c->v.kind == 3 ? c->v.df.get() : nullptr; }
static const std::vector<double> *column(const Rcpp::DataFrame *d, const char *n) { if (!d) return nullptr; const Rcpp::NamedValue *c = d->find(n); return c && c->v.kind == 2 ? &c->v.vec->v : nullptr; }
static bool number(const Rcpp::List &l, const char *n, double &x) { const Rcpp::NamedValue *c = l.find(n); if (!c || c->v.kind != 1) return false; x = c->v.num; return true; }
static double cell(const std::vector<double> *v, size_t k) { return (*v)[k]; }
static void call(Data &D, int round) {
  // the array as R holds it: dimensions (A,B,T), (leaves,A,B) or (leaves,A,T), the first one running fastest
  int d0 = D.kind == ORD ? D.A : D.L, d1 = D.kind == ORD ? D.B : D.A, d2 = D.kind == HIE ? D.B : D.T;
  std::shared_ptr<Rcpp::Store> st(new Rcpp::Store()); st->v.assign(d0 * d1 * d2, 0); st->dim = {d0, d1, d2};
  for (int i = 0; i < d0; i++) for (int j = 0; j < d1; j++) for (int k = 0; k < d2; k++) st->v[i + d0 * (j + d1 * k)] = D.kind == ORD ? D.x[0][D.at(i, j, 0)][k] : D.kind == HIE ? D.x[i][D.at(j, k, 0)][0] : D.x[i][D.at(j, 0, 0)][k];
  std::shared_ptr<Rcpp::Store> hs(new Rcpp::Store()); if (D.kind != ORD) for (int p : D.t.par) hs->v.push_back(p < 0 ? 0 : p + 1);
  Rcpp::SEXPREC th; th.v = sym_param("th", 128) / 1024.0; float t = (float)th.v;
  // what the library computes
  Quals Q(D); Q.compute(); Q.normalize(); Prob P; P.kind = D.kind; P.n = D.T; P.t = D.t; P.H = D.H;
  if (Q.o) P.op.reset(new OPartitioner(*Q.o)); if (Q.h) P.hp.reset(new HPartitioner(*Q.h)); if (Q.d) P.dp.reset(new DPartitioner(*Q.d));
  P.base().computeBestPartitions(t); std::vector<Prob::Tup> want = P.tuples(); auto quals = P.base().getQualityList();
  Rcpp::NumericVector micro(st), hier(hs); std::vector<double> before = st->v, hbefore = hs->v;
  Rcpp::List r = D.kind == ORD ? oaggregate(micro, &th) : D.kind == HIE ? haggregate(micro, hier, &th) : daggregate(micro, hier, &th);
  bool kept = true; for (size_t k = 0; k < before.size(); k++) kept &= st->v[k] == before[k]; sym_assert(kept && hs->v == hbefore, "the caller's array and hierarchy are left as they were");
  const Rcpp::DataFrame *parts = frame(r, "Partitions"), *ql = frame(r, "Qualities"); sym_assert(parts && ql, "both data frames are there"); if (!parts || !ql) return;
  const char *names[] = {"Parameter", "Gain", "Loss", D.kind == ORD ? "Start" : "Node", D.kind == ORD ? "End" : "Size", D.kind == SPT ? "Start" : nullptr, D.kind == SPT ? "End" : nullptr};
  const std::vector<double> *col[7] = {0, 0, 0, 0, 0, 0, 0}; bool ok = true;
  for (int k = 0; k < 7; k++) if (names[k]) { col[k] = column(parts, names[k]); if (!col[k] || col[k]->size() != want.size()) ok = false; }
  sym_assert(ok, "every column is there, with one row per part"); if (!ok) return;
  bool ext = true, val = true;
  for (size_t k = 0; k < want.size(); k++) {
    const PartR &x = want[k].r;
    if (D.kind == ORD) ext &= cell(col[3], k) == x.s + 1 && cell(col[4], k) == x.e + 1;
    else { ext &= cell(col[3], k) == x.h + 1 && cell(col[4], k) == x.size; if (D.kind == SPT) ext &= cell(col[5], k) == x.s + 1 && cell(col[6], k) == x.e + 1; }
    val &= (cell(col[0], k) == want[k].p) & (cell(col[1], k) == (double)x.g) & (cell(col[2], k) == (double)x.l);
  }
  sym_assert(ext, "rows hold the parts' extents, counted from 1"); sym_assert(val, "rows hold the parts' parameter, gain and loss");
  const std::vector<double> *a = column(ql, "Parameter"), *b = column(ql, "Gain"), *c = column(ql, "Loss");
  ok = a && b && c && a->size() == quals.size() && b->size() == quals.size() && c->size() == quals.size(); sym_assert(ok, "one row per listed parameter"); if (!ok) return;
  size_t k = 0; val = true; for (auto &q : quals) { val &= ((*a)[k] == q.first) & ((*b)[k] == (double)q.second->getGain()) & ((*c)[k] == (double)q.second->getLoss()); k++; }
  sym_assert(val, "quality rows hold parameter, gain and loss");
  double po = -1, au = -1; bool n1 = number(r, "POpt", po), n2 = number(r, "AUC", au); sym_assert(n1 && n2, "POpt and AUC are there");
  sym_assert(po == P.base().getP(P_OPT), "POpt is the best-compromise parameter"); sym_assert(au == P.base().computeAUC(), "AUC is the area value");
  sym_out("rows", round, (int)want.size());
}
//   again=1: called again with other data (each cell that of its mirror image) and the hierarchy tree2, then once more with the first
extern "C" void harness_main() {
  Data D; D.shapeParams(); D.fill(); D.build(0); call(D, 0);
  if (!sym_param("again", 0)) return;
  Data E; E.shape(D.kind, D.nd, D.A, D.B, D.C, D.T, sym_param("tree2", -1) >= 0 ? Tree(treePar(sym_param("tree2", -1))) : D.t);
  for (int l = 0; l < E.L; l++) for (int k = 0; k < E.V; k++) for (int s = 0; s < E.T; s++) E.x[l][k][s] = D.x[D.L - 1 - l % D.L][E.V - 1 - k][E.T - 1 - s]; // l % L: leaves may differ in number
  E.build(0); call(E, 1); call(D, 2);
}
