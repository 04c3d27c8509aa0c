// C06-C10: computed gain and loss, their laws, normalization.
#include "data.h"
static void define(Data &D, Quals &Q) {
  // v*log2(v) of every cell, then running sums per region
  std::vector<std::vector<std::vector<LD>>> xl(D.L, std::vector<std::vector<LD>>(D.V, std::vector<LD>(D.T)));
  for (int l = 0; l < D.L; l++) for (int k = 0; k < D.V; k++) for (int u = 0; u < D.T; u++) xl[l][k][u] = Data::xlog(D.x[l][k][u]);
  const LD ln2 = std::log(2.0);
  for (int h = 0; h < D.H; h++) for (int i = 0; i < D.T; i++) {
    std::vector<LD> s(D.V, 0), x(D.V, 0);
    for (int j = i; j < D.T; j++) {
      LD g = 0, l = 0; int m = D.size(h, i, j);
      for (int k = 0; k < D.V; k++) {
        for (int f : D.leaves(h)) { s[k] += D.x[f][k][j]; x[k] += xl[f][k][j]; }
        if (m == 1) continue;
        LD a = Data::xlog(s[k]) - x[k]; g += a; l += s[k] * (LD)std::log(m) / ln2 - a;
      }
      sym_assert(sym_close(Q.gain(h, i, j) * D.inv, g * D.inv), "gain"); sym_assert(sym_close(Q.loss(h, i, j) * D.inv, l * D.inv), "loss");
      if (m == 1) sym_assert(Q.gain(h, i, j) == 0 && Q.loss(h, i, j) == 0, "a single element has gain and loss 0");
      if (i == 0 && j == D.T - 1) { sym_outf("g", h, Q.gain(h, i, j) * D.inv); sym_outf("l", h, Q.loss(h, i, j) * D.inv); }
    }
  }
}
static void laws(Data &D, Quals &Q) {
  for (int h = 0; h < D.H; h++) for (int i = 0; i < D.T; i++) for (int j = i; j < D.T; j++) {
    LD u = D.inv, g = Q.gain(h, i, j) * u, l = Q.loss(h, i, j) * u;
    sym_assert(sym_ge(g, 0), "gain is not negative"); sym_assert(sym_ge(l, 0), "loss is not negative");
    for (int k = i; k < j; k++) {
      sym_assert(sym_ge(g, Q.gain(h, i, k) * u + Q.gain(h, k + 1, j) * u), "merging intervals never lowers the gain");
      sym_assert(sym_ge(l, Q.loss(h, i, k) * u + Q.loss(h, k + 1, j) * u), "merging intervals never lowers the loss");
    }
    if (D.kind != ORD && !D.t.kids[h].empty()) {
      LD a = 0, b = 0; for (int c : D.t.kids[h]) { a += Q.gain(c, i, j) * u; b += Q.loss(c, i, j) * u; }
      sym_assert(sym_ge(g, a), "merging children never lowers the gain"); sym_assert(sym_ge(l, b), "merging children never lowers the loss");
    }
  }
}
static void flatData(Data &D, Quals &Q) { // all values of an attribute equal
  for (int h = 0; h < D.H; h++) for (int i = 0; i < D.T; i++) for (int j = i; j < D.T; j++) sym_assert(sym_close(Q.loss(h, i, j) * D.inv, 0), "equal values: no loss");
}
static void normal(int kind, int H, int T, int root, Quals &Q) {
  std::vector<LD> g, l; std::vector<Quality *> ptr;
  for (int h = 0; h < H; h++) for (int i = 0; i < T; i++) for (int j = i; j < T; j++) { g.push_back(Q.gain(h, i, j)); l.push_back(Q.loss(h, i, j)); }
  LD mg = Q.gain(root, 0, T - 1), ml = Q.loss(root, 0, T - 1);
  if (sym_param("whole", 0)) { LD e = 0.01L * pow2(); sym_assume(mg >= e); sym_assume(ml >= e); }
  int again = sym_param("again", 0);
  Q.normalize();
  if (again) Q.normalize(); // idempotent: the whole has quality 1
  size_t k = 0;
  for (int h = 0; h < H; h++) for (int i = 0; i < T; i++) for (int j = i; j < T; j++, k++) {
    LD a = Q.gain(h, i, j), b = Q.loss(h, i, j);
    if (mg != 0) sym_assert(sym_close(a, g[k] / mg), "gains are divided by the gain of the whole");
    else { sym_assert(std::isfinite(a), "gains stay finite"); sym_assert((g[k] != 0) | (a == 0), "a gain of 0 stays 0"); }
    if (ml != 0) sym_assert(sym_close(b, l[k] / ml), "losses are divided by the loss of the whole");
    else { sym_assert(std::isfinite(b), "losses stay finite"); sym_assert((l[k] != 0) | (b == 0), "a loss of 0 stays 0"); }
  }
  if (mg != 0) sym_assert(sym_close(Q.gain(root, 0, T - 1), 1), "the whole has gain 1");
  if (ml != 0) sym_assert(sym_close(Q.loss(root, 0, T - 1), 1), "the whole has loss 1");
}
static void dims(Data &D, Quals &Q) {
  sym_assert(Q.size() == (unsigned)(D.kind == ORD ? D.T : D.H), "as many slices or nodes as the data");
  if (D.kind == ORD) { sym_assert(Q.o->getQualities()->getSize() == D.T, "one quality per interval"); return; }
  if (Q.h) sym_assert((int)Q.h->getQualities()->size() == D.H, "one quality per node");
  if (Q.d) sym_assert((int)Q.d->getQualities()->size() == D.H && (*Q.d->getQualities())[0]->getSize() == D.T && (*Q.d->getQualities())[D.H - 1]->getSize() == D.T, "one quality per node and interval");
  HValuesMetaData m = Q.h ? Q.h->getMetaData() : Q.d->getMetaData();
  sym_assert(m.getParents() == D.t.par && m.getRoot() == D.t.root && (int)m.getHsize() == D.H && (int)m.getLeaveSize() == D.L, "the hierarchy is the data's");
}
extern "C" void harness_main() {
  int mode = sym_param("mode", 0);
  if (mode == 3) { // supplied by the caller
    Prob P; P.setup(); P.fill();
    LD &gr = P.G[P.root()][P.at(0, P.n - 1)], &lr = P.L[P.root()][P.at(0, P.n - 1)];
    gr = sym_ld("gw", 0, -8, 8); lr = sym_ld("lw", 0, -8, 8);
    int z = sym_param("root", 0); // bit 0/1: gain/loss of the whole is 0, otherwise at least 1/8
    if (z & 1) gr = 0; else sym_assume(gr >= 0.125L || gr <= -0.125L);
    if (z & 2) lr = 0; else sym_assume(lr >= 0.125L || lr <= -0.125L);
    P.build(); Quals Q(P); normal(P.kind, P.H, P.n, P.root(), Q); return;
  }
  Data D; D.shapeParams(); D.fill();
  if (mode == 4) for (int l = 0; l < D.L; l++) for (int k = 0; k < D.V; k++) for (int s = 0; s < D.T; s++) D.x[l][k][s] = D.x[0][k][0];
  D.build(sym_param("set", 0));
  Quals Q(D); Q.compute();
  if (mode == 0) { dims(D, Q); define(D, Q); } else if (mode == 1) laws(D, Q); else if (mode == 2) normal(D.kind, D.H, D.T, D.kind == ORD ? 0 : D.t.root, Q); else flatData(D, Q);
}
