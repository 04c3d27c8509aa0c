// C24: the models agree where they overlap.
//   modes 0-4: qualities of two views of the same data;  modes 5-7: best criteria from the same qualities;  10+m: best criteria end to end
#include "data.h"
static void copyCells(const Data &F, Data &D) { for (int l = 0; l < F.L; l++) for (int k = 0; k < F.V; k++) for (int s = 0; s < F.T; s++) D.x[l][k][s] = F.x[l][k][s]; }
struct Pair { Data A, B; std::vector<int> cells; }; // cells: ha, ia, ja, hb, ib, jb ...
static void cell(Pair &p, int ha, int ia, int ja, int hb, int ib, int jb) { int v[] = {ha, ia, ja, hb, ib, jb}; p.cells.insert(p.cells.end(), v, v + 6); }
static void views(Pair &W, int m) {
  int nd = sym_param("nd", 2), a = sym_param("a", 2), b = sym_param("b", 2), c = sym_param("c", 2), n = sym_param("n", 3); Data &A = W.A, &B = W.B;
  if (m == 0) { // one slice: spatiotemporal nd+1 dimensions, hierarchical nd
    Tree t = paramTree(); A.shape(SPT, nd + 1, a, b, 1, 1, t); A.fill(); B.shape(HIE, nd, a, b, 1, 1, t); copyCells(A, B);
    for (int h = 0; h < A.H; h++) cell(W, h, 0, 0, h, 0, 0);
  } else if (m == 1) { // one leaf below a root
    Tree t(treePar(0)); A.shape(SPT, nd + 1, a, b, 1, n, t); A.fill(); B.shape(ORD, nd, a, b, 1, n, Tree()); copyCells(A, B);
    for (int h = 0; h < A.H; h++) for (int i = 0; i < n; i++) for (int j = i; j < n; j++) cell(W, h, i, j, 0, i, j);
  } else if (m == 2) { // two leaves, two slices
    Tree t(treePar(1)); A.shape(HIE, nd, a, b, c, 1, t); A.fill(); B.shape(ORD, nd, a, b, c, 2, Tree());
    for (int l = 0; l < 2; l++) for (int k = 0; k < A.V; k++) B.x[0][k][l] = A.x[l][k][0];
    cell(W, 2, 0, 0, 0, 0, 1); cell(W, 0, 0, 0, 0, 0, 0); cell(W, 1, 0, 0, 0, 1, 1);
  } else { // a further dimension of extent 1 (3) or the attributes reordered (4)
    int kind = sym_param("kind", 0); Tree t = kind == ORD ? Tree() : paramTree(); A.shape(kind, nd, a, b, c, n, t); A.fill();
    if (m == 3) {
      int at = sym_param("where", 0), d[3] = {a, b, c}, e[3], ad = kind == SPT ? nd - 2 : nd - 1;
      for (int k = 0, u = 0; k < 3; k++) e[k] = k == at ? 1 : u < ad ? d[u++] : 1;
      B.shape(kind, nd + 1, e[0], e[1], e[2], n, t); copyCells(A, B); // the flat order is the same
    } else {
      B.shape(kind, nd, sym_param("swap", 0) ? b : a, sym_param("swap", 0) ? a : b, c, n, t);
      for (int l = 0; l < A.L; l++) for (int k = 0; k < A.V; k++) for (int s = 0; s < A.T; s++) {
        int cc = k % A.C, bb = k / A.C % A.B, aa = k / A.C / A.B;
        int to = sym_param("swap", 0) ? (bb * A.A + aa) * A.C + cc : (k + 1 + sym_param("turn", 0)) % A.V;
        B.x[l][to][s] = A.x[l][k][s];
      }
    }
    for (int h = 0; h < A.H; h++) for (int i = 0; i < A.T; i++) for (int j = i; j < A.T; j++) cell(W, h, i, j, h, i, j);
  }
  A.build(0); B.build(sym_param("set", 0));
}
static void load(Prob &P, Data &D, Quals &Q) {
  P.kind = D.kind; P.n = D.T; P.t = D.t; P.H = D.H; P.G.assign(P.H, std::vector<LD>(P.n * P.n)); P.L = P.G;
  for (int h = 0; h < P.H; h++) for (int i = 0; i < P.n; i++) for (int j = i; j < P.n; j++) { P.G[h][P.at(i, j)] = Q.gain(h, i, j); P.L[h][P.at(i, j)] = Q.loss(h, i, j); }
  if (Q.o) P.op.reset(new OPartitioner(*Q.o)); if (Q.h) P.hp.reset(new HPartitioner(*Q.h)); if (Q.d) P.dp.reset(new DPartitioner(*Q.d));
}
static void agree(Prob &A, Prob &B, float p) {
  Sol a = A.solve(p), b = B.solve(p); A.outs(a, 0); B.outs(b, 1);
  sym_assert(sym_close(A.critSol(a, p), B.critSol(b, p)), "the same best criterion");
  sym_assert(sym_close(critOf(a.g, a.l, p), critOf(b.g, b.l, p)), "the same reported criterion");
}
extern "C" void harness_main() {
  int m = sym_param("mode", 0), pn = sym_param("pn", -1); float p = 0;
  if (m >= 5) p = pn >= 0 ? (float)pn / 16 : sym_float("p", 0, 0, 1);
  if (m < 5 || m >= 10) {
    Pair W; views(W, m % 10); Quals a(W.A), b(W.B); a.compute(); b.compute();
    if (sym_param("norm", 0)) { a.normalize(); b.normalize(); }
    if (m >= 10) { Prob A, B; load(A, W.A, a); load(B, W.B, b); agree(A, B, p); return; }
    for (size_t k = 0; k < W.cells.size(); k += 6) {
      int *c = &W.cells[k];
      sym_assert(sym_close(a.gain(c[0], c[1], c[2]), b.gain(c[3], c[4], c[5])), "the same gain"); sym_assert(sym_close(a.loss(c[0], c[1], c[2]), b.loss(c[3], c[4], c[5])), "the same loss");
    }
    sym_outf("g", 0, a.gain(W.cells[0], W.cells[1], W.cells[2])); return;
  }
  Prob A, B; Cells ce; LD hi = sym_param("hi", 8), lo = sym_param("lo", -8);
  auto g = [&](int x) { return ce.ld("g", 1, x, lo, hi); }; auto l = [&](int x) { return ce.ld("l", 2, x, lo, hi); };
  if (m == 5) {
    A.kind = SPT; B.kind = HIE; A.n = B.n = 1; A.t = B.t = paramTree(); A.H = B.H = A.t.n;
    for (int h = 0; h < A.H; h++) { A.G.push_back(std::vector<LD>(1, g(h))); A.L.push_back(std::vector<LD>(1, l(h))); }
    B.G = A.G; B.L = A.L;
  } else if (m == 6) {
    int n = sym_param("n", 3); A.kind = SPT; A.t = Tree(treePar(0)); A.H = 2; B.kind = ORD; B.H = 1; A.n = B.n = n;
    B.G.assign(1, std::vector<LD>(n * n)); B.L = B.G; for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { B.G[0][B.at(i, j)] = g(B.at(i, j)); B.L[0][B.at(i, j)] = l(B.at(i, j)); }
    A.G.assign(2, B.G[0]); A.L.assign(2, B.L[0]);
  } else {
    A.kind = HIE; A.t = Tree(treePar(1)); A.H = 3; A.n = 1; B.kind = ORD; B.n = 2; B.H = 1;
    for (int h = 0; h < 3; h++) { A.G.push_back(std::vector<LD>(1, g(h))); A.L.push_back(std::vector<LD>(1, l(h))); }
    B.G.assign(1, std::vector<LD>(4)); B.L = B.G;
    B.G[0][0] = A.G[0][0]; B.G[0][3] = A.G[1][0]; B.G[0][1] = A.G[2][0]; B.L[0][0] = A.L[0][0]; B.L[0][3] = A.L[1][0]; B.L[0][1] = A.L[2][0];
  }
  A.build(); B.build(); agree(A, B, p);
}
