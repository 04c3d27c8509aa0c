// One user of the library from data (or qualities) to aggregates, in steps that can be interleaved with another's.
#pragma once
#include "data.h"
typedef std::vector<LD> Rec;
inline void put(Rec &o, double x) { o.push_back(x); }
template <class T> inline void put(Rec &o, const std::vector<T> &x) { for (const T &y : x) put(o, y); }
inline void put(Rec &o, const Sol &s) { o.push_back(s.g); o.push_back(s.l); o.push_back(s.p); for (const PartR &x : s.parts) { o.push_back(x.h); o.push_back(x.s); o.push_back(x.e); o.push_back(x.size); o.push_back(x.g); o.push_back(x.l); } }
struct Any { std::shared_ptr<OPartition> o; std::shared_ptr<HPartition> h; std::shared_ptr<DPartition> d; Sol sol() const { return o ? Prob::sol(*o) : h ? Prob::sol(*h) : Prob::sol(*d); } void drop() { o.reset(); h.reset(); d.reset(); } };
inline void put(Rec &r, const HValuesMetaData &m) { put(r, m.getHsize()); put(r, m.getLeaveSize()); put(r, m.getRoot()); for (int x : m.getParents()) put(r, x); for (int x : m.getPath()) put(r, x); auto size = m.getSize(); for (auto &x : size) { put(r, x.first); put(r, x.second); } auto kids = m.getChildren(); for (auto &x : kids) { put(r, x.size()); for (int y : x) put(r, y); } }
inline void put(Rec &r, Quality &q) { r.push_back(q.getGain()); r.push_back(q.getLoss()); }
inline void put(Rec &r, const oqualities &q) { for (int i = 0; i < (int)q->getSize(); i++) for (int j = i; j < (int)q->getSize(); j++) put(r, *(*q)(i, j)); }
// everything a partition gives access to
inline void full(Rec &r, const Any &a) {
  put(r, a.sol());
  if (a.o) { for (int x : a.o->getCuts()) put(r, x); put(r, a.o->getQualities()); }
  if (a.h) { for (bool x : a.h->getAggregated()) put(r, x); for (auto &x : *a.h->getQualities()) put(r, *x); put(r, a.h->getMetaData()); }
  if (a.d) { auto cuts = a.d->getCuts(); for (auto &c : cuts) for (int i = 0; i < (int)c->getSize(); i++) for (int j = i; j < (int)c->getSize(); j++) put(r, (*c)(i, j)); auto qs = a.d->getQualities(); for (auto &x : *qs) put(r, x); put(r, a.d->getMetaData()); }
}
inline Any solveAny(Prob &P, float p) { Any a; if (P.kind == ORD) a.o = P.op->computeBestPartition(p); else if (P.kind == HIE) a.h = P.hp->computeBestPartition(p); else a.d = P.dp->computeBestPartition(p); return a; }
// the aggregates of a partition, of whichever dimension the data has
struct Aggs {
  std::shared_ptr<OAggregationN1> o1; std::shared_ptr<OAggregationN2> o2; std::shared_ptr<OAggregationN3> o3; std::shared_ptr<OAggregationN4> o4;
  std::shared_ptr<HAggregationN1> h1; std::shared_ptr<HAggregationN2> h2; std::shared_ptr<HAggregationN3> h3; std::shared_ptr<HAggregationN4> h4;
  std::shared_ptr<DAggregationN2> d2; std::shared_ptr<DAggregationN3> d3; std::shared_ptr<DAggregationN4> d4;
  void make(const Any &a, Data &D) {
    if (D.o1) o1.reset(new OAggregationN1(a.o, D.o1)); if (D.o2) o2.reset(new OAggregationN2(a.o, D.o2)); if (D.o3) o3.reset(new OAggregationN3(a.o, D.o3)); if (D.o4) o4.reset(new OAggregationN4(a.o, D.o4));
    if (D.h1) h1.reset(new HAggregationN1(a.h, D.h1)); if (D.h2) h2.reset(new HAggregationN2(a.h, D.h2)); if (D.h3) h3.reset(new HAggregationN3(a.h, D.h3)); if (D.h4) h4.reset(new HAggregationN4(a.h, D.h4));
    if (D.d2) d2.reset(new DAggregationN2(a.d, D.d2)); if (D.d3) d3.reset(new DAggregationN3(a.d, D.d3)); if (D.d4) d4.reset(new DAggregationN4(a.d, D.d4));
  }
  template <class G> static void one(Rec &r, G &g) { auto as = g.getAggregates(); for (auto &x : as) { put(r, x.getSum()); put(r, x.getMean()); r.push_back(x.getPart().getSize()); r.push_back(x.getPart().getQuality()->getGain()); } }
  void read(Rec &r) const {
    if (o1) one(r, *o1); if (o2) one(r, *o2); if (o3) one(r, *o3); if (o4) one(r, *o4);
    if (h1) one(r, *h1); if (h2) one(r, *h2); if (h3) one(r, *h3); if (h4) one(r, *h4);
    if (d2) one(r, *d2); if (d3) one(r, *d3); if (d4) one(r, *d4);
  }
  void drop() { *this = Aggs(); }
  size_t size() const { return (o1 || o2 || o3 || o4 || h1 || h2 || h3 || h4 || d2 || d3 || d4) ? 1 : 0; }
};
inline void cells(Rec &v, Data &D) { for (int l = 0; l < D.L; l++) for (int k = 0; k < D.V; k++) for (int s = 0; s < D.T; s++) v.push_back(D.get(l, k, s)); }
inline void quals(Rec &v, const Data &D, Quals &Q) { for (int h = 0; h < D.H; h++) for (int i = 0; i < D.T; i++) for (int j = i; j < D.T; j++) { v.push_back(Q.gain(h, i, j)); v.push_back(Q.loss(h, i, j)); } }
inline void metas(Rec &r, Data &D) { if (D.hv) put(r, D.hv->getMetaData()); if (D.dv) put(r, D.dv->getMetaData()); }
inline void metas(Rec &r, Quals &Q) { if (Q.h) put(r, Q.h->getMetaData()); if (Q.d) put(r, Q.d->getMetaData()); }
inline void answers(Rec &v, Prob &P) { for (auto &x : P.partitions()) { v.push_back(x.first); put(v, x.second); } for (auto &x : P.base().getQualityList()) { v.push_back(x.first); v.push_back(x.second->getGain()); v.push_back(x.second->getLoss()); } for (float p : P.base().getPList()) v.push_back(p); for (Prob::Tup &x : P.tuples()) { v.push_back(x.p); v.push_back(x.r.h); v.push_back(x.r.s); v.push_back(x.r.e); } }
// a fresh partitioner on the qualities of a data set
inline void partitionerOf(Prob &P, const Data &D, Quals &Q) { P.kind = D.kind; P.n = D.T; P.t = D.t; P.H = D.H; if (Q.o) P.op.reset(new OPartitioner(*Q.o)); if (Q.h) P.hp.reset(new HPartitioner(*Q.h)); if (Q.d) P.dp.reset(new DPartitioner(*Q.d)); }
struct Session {
  int id; bool raw; Data D; std::shared_ptr<Quals> Q; Prob P; Any a, b; Aggs g; Rec r; int at = 0; float p, q, th;
  static int par(int id, const char *n, const char *n2, int def) { int v = sym_param(n, def); return id ? sym_param(n2, v) : v; }
  // the same session again: same data, fresh objects
  Session(int i, const Session *like = nullptr) : id(i) {
    raw = sym_param("raw", 0); int kind = par(id, "kind", "kind2", 0), n = par(id, "n", "n2", 3); Tree t = sym_param("gen", -1) >= 0 ? paramTree() : Tree(treePar(par(id, "tree", "tree2", 1)));
    p = par(id, "p", "pb", 6) / 16.0f; q = par(id, "q", "qb", 11) / 16.0f; th = sym_param("th", 256) / 1024.0f;
    if (raw) {
      P.kind = kind; P.n = kind == HIE ? 1 : n; P.H = 1; if (kind != ORD) { P.t = t; P.H = t.n; }
      if (like) { P.G = like->P.G; P.L = like->P.L; return; }
      P.G.assign(P.H, std::vector<LD>(P.n * P.n)); P.L = P.G; Cells c; if (sym_param("shape", 0)) { P.fill(); return; }
      for (int h = 0; h < P.H; h++) for (int x = 0; x < P.n; x++) for (int y = x; y < P.n; y++) { int k = h * P.n * P.n + P.at(x, y); P.G[h][P.at(x, y)] = c.ld(id ? "gb" : "ga", 1 + 5 * id, k, -8, 8); P.L[h][P.at(x, y)] = c.ld(id ? "lb" : "la", 2 + 5 * id, k, -8, 8); }
      return;
    }
    D.shape(kind, par(id, "nd", "nd2", kind == SPT ? 3 : 2), par(id, "a", "a2", 2), par(id, "b", "b2", 2), par(id, "c", "c2", 2), n, kind == ORD ? Tree() : t);
    if (like) { D.x = like->D.x; return; }
    Cells c; double lo = sym_param("lo", 1) / 1024.0;
    for (int l = 0; l < D.L; l++) for (int k = 0; k < D.V; k++) for (int s = 0; s < D.T; s++) D.x[l][k][s] = c.d(id ? "y" : "x", 3 + 5 * id, D.idx(l, k, s), lo, 100);
  }
  bool done() const { return at >= (raw ? 5 : 8); }
  void step() {
    int k = at++; if (raw && k > 0) k += 3;
    if (k == 0) { if (raw) P.build(); else D.build(sym_param("set", 0)); }
    if (k == 1) Q.reset(new Quals(D));
    if (k == 2) { Q->compute(); quals(r, D, *Q); if (sym_param("norm", 0)) { Q->normalize(); quals(r, D, *Q); } }
    if (k == 3) partitionerOf(P, D, *Q);
    if (k == 4) { a = solveAny(P, p); put(r, a.sol()); }
    if (k == 5) { P.base().computeBestPartitions(th); answers(r, P); r.push_back(P.base().getP(P_OPT)); r.push_back(P.base().computeAUC()); }
    if (k == 6) { b = solveAny(P, q); put(r, b.sol()); }
    if (k == 7) { if (!raw) g.make(a, D); g.read(r); }
  }
  // the second user works on the first one's data or qualities (how=1), or on a copy of its partitioner (how=2)
  void share(Session &o, int how) {
    p = par(1, "p", "pb", 6) / 16.0f; q = par(1, "q", "qb", 11) / 16.0f;
    if (raw) { P.kind = o.P.kind; P.n = o.P.n; P.H = o.P.H; P.t = o.P.t; P.G = o.P.G; P.L = o.P.L; P.md = o.P.md; P.oq = o.P.oq; P.hq = o.P.hq; P.dq = o.P.dq; if (how == 1) P.partitioner(); at = 1; }
    else { D.adopt(o.D); at = 1; if (how == 2) { Q = o.Q; P.kind = o.P.kind; P.n = o.P.n; P.H = o.P.H; P.t = o.P.t; at = 4; } }
    if (how == 2) { if (o.P.op) P.op.reset(new OPartitioner(*o.P.op)); if (o.P.hp) P.hp.reset(new HPartitioner(*o.P.hp)); if (o.P.dp) P.dp.reset(new DPartitioner(*o.P.dp)); }
  }
  // its answers judged on their own: the best criterion for the qualities it holds, every element in exactly one part
  void judge() {
    if (!raw) { P.G.assign(P.H, std::vector<LD>(P.n * P.n)); P.L = P.G; for (int h = 0; h < P.H; h++) for (int i = 0; i < P.n; i++) for (int j = i; j < P.n; j++) { P.G[h][P.at(i, j)] = Q->gain(h, i, j); P.L[h][P.at(i, j)] = Q->loss(h, i, j); } }
    if (!raw) { // the qualities are those of the user's own data, by definition
      LD wg = 1, wl = 1; int root = P.kind == ORD ? 0 : P.t.root; bool ok = true;
      if (sym_param("norm", 0)) { D.reference(root, 0, P.n - 1, wg, wl); if (wg == 0) wg = 1; if (wl == 0) wl = 1; }
      for (int h = 0; h < P.H; h++) for (int i = 0; i < P.n; i++) for (int j = i; j < P.n; j++) { LD g, l; D.reference(h, i, j, g, l); ok &= sym_close(P.G[h][P.at(i, j)] * wg, g) & sym_close(P.L[h][P.at(i, j)] * wl, l); }
      sym_assert(ok, "each user's qualities are those of its data");
    }
    // every partition of its sweep is the best for its parameter, and the presets and the area are those of its list
    if (!sym_param("stride", 1)) { std::map<float, Sol> parts = P.partitions(); bool ok = true; LD area = 1, d = 0, od = 0, pg = 0, pl = 0; bool first = true; float op = P.base().getP(P_OPT);
      for (auto &x : parts) {
        ok &= sym_close(P.critSol(x.second, x.first), P.best(x.first));
        LD g = 0, l = 0; for (const PartR &y : x.second.parts) { g += P.G[y.h][P.at(y.s, y.e)]; l += P.L[y.h][P.at(y.s, y.e)]; }
        LD e = (g - 1) * (g - 1) + l * l; if (first || e < d) d = e; if (x.first == op) od = e;
        if (!first) area -= (g - pg) * (l + pl) / 2; pg = g; pl = l; first = false;
      }
      sym_assert(ok, "each user's listed partitions are best for its qualities");
      if (sym_param("norm", 0)) { sym_assert(sym_ge(d, od), "each user's best compromise is that of its list"); sym_assert(sym_closet(P.base().computeAUC(), area, 1e-3L), "each user's area is that of its list"); }
    }
    if (!raw && g.size()) { // sums over its own values
      Rec v; g.read(v); Sol s = a.sol(); size_t k = 0; bool ok = true;
      for (const PartR &y : s.parts) { int sz = D.size(y.h, y.s, y.e); for (int m = 0; m < 2; m++) for (int u = 0; u < D.V; u++) { if (k >= v.size()) { ok = false; break; } LD w = D.sum(y.h, y.s, y.e, u); if (m) w /= sz; ok &= sym_close(v[k++], w); } k += 2; }
      sym_assert(ok, "each user's aggregates are those of its data");
    }
    for (int k = 0; k < 2; k++) {
      Sol s = (k ? b : a).sol(); float x = k ? q : p; std::vector<int> seen(P.H * P.n, 0); bool ok = true;
      for (const PartR &y : s.parts) { if (!P.inside(y)) { sym_assert(false, "parts lie within the user's data"); return; } for (int i = y.s; i <= y.e; i++) if (P.kind == ORD) seen[i]++; else for (int l : P.t.leaves[y.h]) seen[l * P.n + i]++; }
      for (int l = 0; l < (P.kind == ORD ? 1 : P.t.l); l++) for (int i = 0; i < P.n; i++) ok &= seen[l * P.n + i] == 1;
      sym_assert(ok, "each user's partition covers its data once"); sym_assert(sym_close(P.critSol(s, x), P.best(x)), "each user's partition is best for its qualities");
    }
  }
  // the same kind of session with other data and parameters
  void vary() {
    p = par(id, "p", "pb", 6) / 16.0f - 0.21875f; q = par(id, "q", "qb", 11) / 16.0f + 0.15625f; th = sym_param("th", 256) / 2048.0f;
    if (raw) { for (auto &g : P.G) for (LD &x : g) x = -x / 2; for (auto &l : P.L) std::reverse(l.begin(), l.end()); }
    else for (auto &u : D.x) for (auto &v : u) { std::reverse(v.begin(), v.end()); for (double &y : v) y /= 2; }
  }
  // the same session on the mirror image: slices (and leaves or inner nodes) in the opposite order, so that the whole stays what it was
  void mirror() {
    if (raw) { for (auto *u : {&P.G, &P.L}) { for (auto &m : *u) { std::vector<LD> o = m; for (int i = 0; i < P.n; i++) for (int j = i; j < P.n; j++) m[P.at(i, j)] = o[P.at(P.n - 1 - j, P.n - 1 - i)]; } if (P.kind != ORD) { std::vector<int> at; for (int h = 0; h < P.H; h++) if (h != P.t.root) at.push_back(h); for (size_t x = 0, y = at.size(); x + 1 < y; x++) std::swap((*u)[at[x]], (*u)[at[--y]]); } } }
    else { std::reverse(D.x.begin(), D.x.end()); for (auto &u : D.x) for (auto &v : u) std::reverse(v.begin(), v.end()); }
  }
  // everything it holds, read again
  void last() { put(r, a.sol()); put(r, b.sol()); answers(r, P); if (!raw) { quals(r, D, *Q); cells(r, D); } g.read(r); }
  int events() const { return raw ? 5 : 8; }
};
inline bool sameRec(const Rec &a, const Rec &b) { bool ok = a.size() == b.size(); for (size_t k = 0; ok && k < a.size(); k++) ok &= a[k] == b[k]; return ok; }
