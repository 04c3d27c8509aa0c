// C25: queries change nothing, recomputing reflects the current data.
//   mode 0: symbolic qualities   mode 1: from data, with aggregates   mode 2: values changed / normalized, computed again
#include "data.h"
static void same(const std::vector<LD> &a, const std::vector<LD> &b, const char *w) { bool ok = a.size() == b.size(); for (size_t k = 0; ok && k < a.size(); k++) ok &= a[k] == b[k]; sym_assert(ok, w); }
static std::vector<LD> snap(Prob &P) { std::vector<LD> v; for (int h = 0; h < P.H; h++) for (int i = 0; i < P.n; i++) for (int j = i; j < P.n; j++) { v.push_back(P.cell(h, i, j)->getGain()); v.push_back(P.cell(h, i, j)->getLoss()); } return v; }
static std::vector<LD> snap(Data &D, Quals &Q) { std::vector<LD> v; for (int h = 0; h < D.H; h++) for (int i = 0; i < D.T; i++) for (int j = i; j < D.T; j++) { v.push_back(Q.gain(h, i, j)); v.push_back(Q.loss(h, i, j)); } return v; }
static std::vector<LD> cells(Data &D) { std::vector<LD> v; for (int l = 0; l < D.L; l++) for (int k = 0; k < D.V; k++) for (int s = 0; s < D.T; s++) v.push_back(D.get(l, k, s)); return v; }
static std::vector<LD> known(Data &D) { std::vector<LD> v; for (int l = 0; l < D.L; l++) for (int k = 0; k < D.V; k++) for (int s = 0; s < D.T; s++) v.push_back(D.x[l][k][s]); return v; }
struct Held { std::shared_ptr<OPartition> o; std::shared_ptr<HPartition> h; std::shared_ptr<DPartition> d;
  Held(Prob &P, float p) { if (P.kind == ORD) o = P.op->computeBestPartition(p); else if (P.kind == HIE) h = P.hp->computeBestPartition(p); else d = P.dp->computeBestPartition(p); }
  Sol sol() { return o ? Prob::sol(*o) : h ? Prob::sol(*h) : Prob::sol(*d); } };
static bool sameOrder(const Sol &a, const Sol &b) { if (a.parts.size() != b.parts.size()) return false; for (size_t k = 0; k < a.parts.size(); k++) if (a.parts[k].h != b.parts[k].h || a.parts[k].s != b.parts[k].s || a.parts[k].e != b.parts[k].e || a.parts[k].size != b.parts[k].size) return false; return true; }
static void kept(const Sol &a, const Sol &b, const char *w) {
  bool ok = sameOrder(a, b); sym_assert(ok, w); if (!ok) return;
  bool q = (a.g == b.g) & (a.l == b.l) & (a.p == b.p); for (size_t k = 0; k < a.parts.size(); k++) q &= (a.parts[k].g == b.parts[k].g) & (a.parts[k].l == b.parts[k].l);
  sym_assert(q, "earlier partitions keep their quality");
}
struct Lists3 { std::vector<float> p; std::map<float, Sol> part; std::vector<Prob::Tup> t; std::map<float, std::shared_ptr<Quality>> q; float opt, area; Lists3() : opt(0), area(0) {}
  explicit Lists3(Prob &P) : p(P.base().getPList()), part(P.partitions()), t(P.tuples()), q(P.base().getQualityList()), opt(P.base().getP(P_OPT)), area(P.base().computeAUC()) {}
  bool same(const Lists3 &o) const { bool ok = p == o.p && part.size() == o.part.size() && opt == o.opt && area == o.area && q.size() == o.q.size() && t.size() == o.t.size();
    for (size_t k = 0; ok && k < t.size(); k++) ok = t[k].p == o.t[k].p && t[k].r.h == o.t[k].r.h && t[k].r.s == o.t[k].r.s && t[k].r.e == o.t[k].r.e && t[k].r.size == o.t[k].r.size;
    for (auto &x : q) if (!o.q.count(x.first)) ok = false; for (auto &x : part) { auto it = o.part.find(x.first); if (it == o.part.end() || !sameOrder(x.second, it->second)) ok = false; } return ok; } };
static float par(int k) { int v = sym_param(k ? "pb" : "pa", -1); return v >= 0 ? (float)v / 16 : sym_float("p", k, 0, 1); }
// the qualities are changed in place (or normalized) after a sweep: the partitioner answers from the current ones
static void edited(Prob &P, float p, float q) {
  P.sweep(sym_param("th", 256) / 1024.0f, sym_param("min", 0) / 1024.0f, sym_param("max", 1024) / 1024.0f); std::vector<float> l = P.base().getPList(); std::map<float, Sol> was = P.partitions();
  if (sym_param("edit", 0) == 2) { Quals Q(P); Q.normalize(); }
  else if (sym_param("edit", 0) == 3) { // a single one of them, by as much as the whole spectrum
    int h = P.H > 1 ? sym_fix(sym_int("eh", 0, 0, P.H - 1)) : 0, i = P.n > 1 ? sym_fix(sym_int("ei", 0, 0, P.n - 1)) : 0, j = P.n > 1 ? sym_fix(sym_int("ej", 0, 0, P.n - 1)) : 0; if (j < i) std::swap(i, j);
    auto c = P.cell(h, i, j); int up = sym_fix(sym_int("eu", 0, 0, 1)); c->setGain(c->getGain() + (up ? 12 : -12)); c->setLoss(c->getLoss() + (up ? -3 : 3));
  }
  else for (int h = 0; h < P.H; h++) for (int i = 0; i < P.n; i++) for (int j = i; j < P.n; j++) { auto c = P.cell(h, i, j); LD g = c->getGain(); c->setGain(c->getLoss() + (h + j) % 3); c->setLoss(g - (h + 2 * i) % 5); }
  std::vector<float> ask{p, q, l.front(), l.back(), l[l.size() / 2]}; std::vector<Sol> got; for (float x : ask) { Held a(P, x); got.push_back(a.sol()); }
  sym_assert(l == P.base().getPList(), "the list stays until the next sweep"); std::map<float, Sol> now = P.partitions(); bool ok = was.size() == now.size(); for (auto &x : was) if (!now.count(x.first) || !sameOrder(x.second, now[x.first])) ok = false; sym_assert(ok, "the sweep's partitions stay");
  auto same1 = [&]() { P.sweep(sym_param("th", 256) / 1024.0f, sym_param("min", 0) / 1024.0f, sym_param("max", 1024) / 1024.0f); };
  same1(); Lists3 rep(P);
  P.sweep(0.5f, 0.25f, 0.75f); std::map<float, Sol> again = P.partitions(); std::vector<float> m = P.base().getPList();
  P.partitioner(); same1(); sym_assert(rep.same(Lists3(P)), "the same sweep again is made on the current qualities");
  for (size_t k = 0; k < ask.size(); k++) { Held b(P, ask[k]); kept(b.sol(), got[k], "a request is answered from the current qualities"); }
  P.sweep(0.5f, 0.25f, 0.75f); sym_assert(m == P.base().getPList(), "a sweep is made on the current qualities"); now = P.partitions(); ok = again.size() == now.size(); for (auto &x : again) if (!now.count(x.first) || !sameOrder(x.second, now[x.first])) ok = false; sym_assert(ok, "a sweep is made on the current qualities");
}
static void queries(Prob &P) {
  std::vector<LD> before = snap(P); float p = par(0), q = par(1);
  Held a(P, p); Sol sa = a.sol(); same(before, snap(P), "a partition leaves the qualities unchanged");
  Held b(P, q); Sol sb = b.sol();
  if (sym_param("sweep", 1)) {
    P.sweep(sym_param("th", 256) / 1024.0f, sym_param("min", 0) / 1024.0f, sym_param("max", 1024) / 1024.0f);
    std::map<float, Sol> l = P.partitions(); std::vector<float> list = P.base().getPList(); auto ql = P.base().getQualityList(); float opt = P.base().getP(P_OPT), area = P.base().computeAUC(); P.base().getP(P_MAX); P.base().getP(P_MIN); size_t nt = P.tuples().size();
    { auto qm = P.base().getQualityList(); bool ok = ql.size() == qm.size() && list == P.base().getPList() && nt == P.tuples().size(); for (auto &x : ql) if (!qm.count(x.first) || qm[x.first] != x.second) ok = false; sym_assert(ok, "asking for presets, area and lists leaves the lists as they are"); sym_assert(opt == P.base().getP(P_OPT) && area == P.base().computeAUC(), "the presets and the area stay the same"); }
    same(before, snap(P), "a sweep leaves the qualities unchanged");
    Held c(P, q); kept(sb, c.sol(), "asking again for the same parameter gives the same parts");
    std::map<float, Sol> m = P.partitions(); bool ok = l.size() == m.size(); for (auto &x : l) if (!m.count(x.first) || !sameOrder(x.second, m[x.first])) ok = false; sym_assert(ok, "the sweep's partitions stay");
    // and a sweep leaves earlier ones' partitions alone
    auto keep = P.op ? P.op->getPartitions() : std::map<float, std::shared_ptr<OPartition>>(); auto keeph = P.hp ? P.hp->getPartitions() : std::map<float, std::shared_ptr<HPartition>>(); auto keepd = P.dp ? P.dp->getPartitions() : std::map<float, std::shared_ptr<DPartition>>();
    P.sweep(0.5f, 0.25f, 0.5f); ok = true;
    for (auto &x : keep) ok &= sameOrder(Prob::sol(*x.second), l[x.first]); for (auto &x : keeph) ok &= sameOrder(Prob::sol(*x.second), l[x.first]); for (auto &x : keepd) ok &= sameOrder(Prob::sol(*x.second), l[x.first]);
    sym_assert(ok, "partitions of an earlier sweep keep their parts");
  }
  Held d(P, p); kept(sa, d.sol(), "asking again for the same parameter gives the same parts");
  kept(sa, a.sol(), "earlier partitions keep their parts"); kept(sb, b.sol(), "earlier partitions keep their parts");
  same(before, snap(P), "queries leave the qualities unchanged");
  P.partitioner(); Held e(P, p); kept(sa, e.sol(), "a new partitioner gives the same parts");
  if (sym_param("edit", 0)) edited(P, p, q);
  P.outs(sa, 0); P.outs(sb, 1);
}
// many requests and sweeps on one partitioner, each answered like the first
static void longrun(Prob &P) {
  int rounds = sym_param("rounds", 300), m = 64; std::vector<Sol> first(m); std::vector<Lists3> sw(5);
  Lists3 held; bool swept = false; int every = sym_param("every", 3);
  for (int k = 0; k < rounds; k++) {
    int i = k * 29 % m; Held a(P, (float)i / m); Sol s = a.sol();
    if (k < m) { first[i] = s; sym_assert(sym_close(P.critSol(s, (float)i / m) * P.inv, P.best((float)i / m) * P.inv), "the best partition"); } else kept(first[i], s, "asking again for the same parameter gives the same parts");
    if (k % every == 0) {
      if (swept) sym_assert(Lists3(P).same(held), "the lists stay until the next sweep");
      int j = k / every % 5; P.sweep((1 + j) / 16.0f, j / 32.0f, 1 - j / 16.0f); Lists3 l(P); held = l; swept = true;
      if (k < 5 * every) sw[j] = l; else sym_assert(l.same(sw[j]), "the same sweep gives the same lists");
    }
  }
}
static void aggregates(Data &D, Prob &P, float p) {
  Held a(P, p); Sol s = a.sol();
  for (int k = 0; k < 2; k++) {
    if (D.o1) { OAggregationN1 g(a.o, D.o1); g.getAggregates(); } if (D.o2) { OAggregationN2 g(a.o, D.o2); g.getAggregates(); } if (D.o3) { OAggregationN3 g(a.o, D.o3); g.getAggregates(); } if (D.o4) { OAggregationN4 g(a.o, D.o4); g.getAggregates(); }
    if (D.h1) { HAggregationN1 g(a.h, D.h1); g.getAggregates(); } if (D.h2) { HAggregationN2 g(a.h, D.h2); g.getAggregates(); } if (D.h3) { HAggregationN3 g(a.h, D.h3); g.getAggregates(); } if (D.h4) { HAggregationN4 g(a.h, D.h4); g.getAggregates(); }
    if (D.d2) { DAggregationN2 g(a.d, D.d2); g.getAggregates(); } if (D.d3) { DAggregationN3 g(a.d, D.d3); g.getAggregates(); } if (D.d4) { DAggregationN4 g(a.d, D.d4); g.getAggregates(); }
  }
  kept(s, a.sol(), "aggregates leave the partition unchanged");
}
static void adoptQ(Prob &P, Data &D, Quals &Q) {
  P.kind = D.kind; P.n = D.T; P.t = D.t; P.H = D.H; P.md.reset(new HValuesMetaData(Q.h ? Q.h->getMetaData() : Q.d ? Q.d->getMetaData() : HValuesMetaData(1, std::vector<int>{1, -1})));
  if (Q.o) { P.oq = Q.o->getQualities(); P.op.reset(new OPartitioner(*Q.o)); } if (Q.h) { P.hq = Q.h->getQualities(); P.hp.reset(new HPartitioner(*Q.h)); } if (Q.d) { P.dq = Q.d->getQualities(); P.dp.reset(new DPartitioner(*Q.d)); }
}
static void fresh(Data &D, Quals &Q, const char *w, bool norm = false) {
  Data E; E.shape(D.kind, D.nd, D.A, D.B, D.C, D.T, D.t); E.x = D.x; E.build(0); Quals R(E); R.compute(); if (norm) R.normalize();
  std::vector<LD> a = snap(D, Q), b = snap(E, R); bool ok = a.size() == b.size(); for (size_t k = 0; ok && k < a.size(); k++) ok &= sym_close(a[k], b[k]); sym_assert(ok, w);
}
static void change(Data &D, int round) {
  for (int u = sym_param("changes", 1); u > 0; u--) {
    int l = sym_fix(sym_int("cl", round * 8 + u, 0, D.L - 1)), k = sym_fix(sym_int("ck", round * 8 + u, 0, D.V - 1)), s = sym_fix(sym_int("cs", round * 8 + u, 0, D.T - 1));
    D.x[l][k][s] = sym_param("tozero", 0) ? 0 : sym_real("c", round * 8 + u, 1, 50); D.set(l, k, s, D.x[l][k][s]);
  }
}
static void recompute() {
  Data D; D.shapeParams(); D.fill(); D.build(sym_param("set", 0)); Quals Q(D); Q.compute(); int norm = sym_param("norm", 0);
  std::vector<LD> first = snap(D, Q); Q.compute(); same(first, snap(D, Q), "computing again without a change gives the same");
  Quals O(D); O.compute(); // another one on the same data
  if (norm) { Q.normalize(); same(first, snap(D, O), "normalizing leaves other qualities of the same data alone"); Q.compute(); same(first, snap(D, Q), "computing again after normalizing gives the same"); if (norm > 1) Q.normalize(); }
  for (int k = 1; k < sym_param("rounds", 1); k++) { Q.compute(); if (norm && k % 2) Q.normalize(); if (k % 16 == 0) { D.x[0][0][0] = k; D.set(0, 0, 0, k); } } // a long history
  change(D, 1); same(known(D), cells(D), "the values are as set");
  Q.compute(); fresh(D, Q, "computing again reflects the current values"); same(known(D), cells(D), "computing qualities leaves the data unchanged");
  if (norm > 1) { Q.normalize(); fresh(D, Q, "normalizing again reflects the current values", true); same(known(D), cells(D), "normalizing leaves the data unchanged"); Q.compute(); }
  change(D, 2); Q.compute(); fresh(D, Q, "computing again reflects the current values"); O.compute(); fresh(D, O, "computing again reflects the current values");
}
extern "C" void harness_main() {
  int m = sym_param("mode", 0);
  if (m == 2) { recompute(); return; }
  if (m == 3) { Prob P; P.setup(); P.fill(); P.build(); longrun(P); return; }
  if (m == 0) { Prob P; P.setup(); P.fill(); P.build(); queries(P); return; }
  Data D; D.shapeParams(); D.fill(); D.build(sym_param("set", 0)); Quals Q(D); Q.compute(); if (sym_param("norm", 0)) Q.normalize();
  Prob P; adoptQ(P, D, Q); std::vector<LD> b = snap(D, Q);
  same(known(D), cells(D), "computing qualities leaves the data unchanged");
  aggregates(D, P, par(0)); same(known(D), cells(D), "aggregates leave the data unchanged"); same(b, snap(D, Q), "aggregates leave the qualities unchanged");
  queries(P); same(known(D), cells(D), "queries leave the data unchanged"); same(b, snap(D, Q), "queries leave the qualities unchanged");
  Quals R(D); R.compute(); if (sym_param("norm", 0)) R.normalize(); same(b, snap(D, R), "computing again on the same data gives the same");
}
