// C20: data containers; C21 (mode 1): the triangular matrix.
#include "data.h"
static void containers() {
  Data D; D.shapeParams(); int how = sym_param("set", 0);
  Cells ce;
  for (int l = 0; l < D.L; l++) for (int k = 0; k < D.V; k++) for (int s = 0; s < D.T; s++) D.x[l][k][s] = how == 2 ? 0 : ce.d("x", 3, D.idx(l, k, s), -100, 100);
  D.build(how == 2 ? 0 : how);
  // how 2: freshly sized, everything reads 0
  if (how == 2) { Data E; E.shapeParams(); E.buildEmpty(); for (int l = 0; l < D.L; l++) for (int k = 0; k < D.V; k++) for (int s = 0; s < D.T; s++) sym_assert(E.get(l, k, s) == 0 && E.flat(l, k, s) == 0, "unset values read 0"); D.adopt(E); }
  if (D.kind == ORD) sym_assert((int)D.ov->getOsize() == D.T && (int)D.ov->getVsize() == D.V, "dimensions");
  if (D.kind == HIE) sym_assert((int)D.hv->getVsize() == D.V && (int)D.hv->getMetaData().getHsize() == D.t.n && (int)D.hv->getMetaData().getLeaveSize() == D.L, "dimensions");
  if (D.kind == SPT) sym_assert((int)D.dv->getOsize() == D.T && (int)D.dv->getVsize() == D.V && (int)D.dv->getMetaData().getHsize() == D.t.n && (int)D.dv->getMetaData().getLeaveSize() == D.L, "dimensions");
  if (D.o3) sym_assert((int)D.o3->getI() == D.A && (int)D.o3->getJ() == D.B, "attribute dimensions");
  if (D.o4) sym_assert((int)D.o4->getI() == D.A && (int)D.o4->getJ() == D.B && (int)D.o4->getK() == D.C, "attribute dimensions");
  if (D.h3) sym_assert((int)D.h3->getI() == D.A && (int)D.h3->getJ() == D.B, "attribute dimensions");
  if (D.h4) sym_assert((int)D.h4->getI() == D.A && (int)D.h4->getJ() == D.B && (int)D.h4->getK() == D.C, "attribute dimensions");
  if (D.d4) sym_assert((int)D.d4->getI() == D.A && (int)D.d4->getJ() == D.B, "attribute dimensions");
  for (int round = sym_param("writes", 1); round >= 0; round--) {
    bool get = true, fl = true;
    for (int l = 0; l < D.L; l++) for (int k = 0; k < D.V; k++) for (int s = 0; s < D.T; s++) { get &= D.get(l, k, s) == D.x[l][k][s]; fl &= D.flat(l, k, s) == D.x[l][k][s]; }
    sym_assert(get, "each coordinate reads the value last written there"); sym_assert(fl, "the flat index varies the last attribute fastest");
    if (!round) break;
    int l = sym_fix(sym_int("l", round, 0, D.L - 1)), k = sym_fix(sym_int("k", round, 0, D.V - 1)), s = sym_fix(sym_int("s", round, 0, D.T - 1));
    D.x[l][k][s] = sym_real("w", round, -1000, 1000); D.set(l, k, s, D.x[l][k][s]);
  }
}
// a symbolic cell; near=k: in the first or last k rows and columns
static void pickCell(int n, int &i, int &j) {
  int near = sym_param("near", 0);
  if (!near) { i = sym_int("i", 0, 0, n - 1); j = sym_int("j", 0, 0, n - 1); sym_assume(i <= j); i = sym_fix(i); j = sym_fix(j); return; }
  i = sym_fix(sym_int("i", 0, 0, 2 * near - 1)); j = sym_fix(sym_int("j", 0, 0, 2 * near - 1)); if (i >= near) i = n - 1 - (i - near); if (j >= near) j = n - 1 - (j - near); sym_assume(i <= j);
}
template <class T> static void matrixOf(int n, T fill, bool filled, T w) {
  UpperTriangularMatrix<T> m = filled ? UpperTriangularMatrix<T>(n, fill) : UpperTriangularMatrix<T>(n);
  if (!filled) fill = T(0);
  sym_assert(m.getElements() == n * (n + 1) / 2 && m.getSize() == n, "number of elements");
  bool z = true; for (int i = 0; i < n; i++) for (int j = i; j < n; j++) z &= m(i, j) == fill;
  for (int e = 0; e < m.getElements(); e++) z &= m[e] == fill;
  sym_assert(z, "new cells hold zero or the fill value");
  int i, j; pickCell(n, i, j);
  m(i, j, w);
  bool own = true; int hits = 0;
  for (int a = 0; a < n; a++) for (int b = a; b < n; b++) if (a == i && b == j) own &= m(a, b) == w; else own &= m(a, b) == fill;
  sym_assert(own, "a cell has its own storage");
  // every cell is one of the elements
  UpperTriangularMatrix<int> t(n); int c = 0; for (int a = 0; a < n; a++) for (int b = a; b < n; b++) t(a, b, ++c);
  std::vector<int> seen(c + 1, 0); for (int e = 0; e < t.getElements(); e++) { int v = t[e]; if (v >= 0 && v <= c) seen[v]++; }
  for (int v = 1; v <= c; v++) hits += seen[v] == 1; sym_assert(hits == c, "the elements are the cells");
  bool all = true; c = 0; for (int a = 0; a < n; a++) for (int b = a; b < n; b++) if (t(a, b) != ++c) all = false; sym_assert(all, "all cells together");
}
static void objects(int n) {
  oqualities q(new UpperTriangularMatrix<std::shared_ptr<Quality>>(n)); UpperTriangularMatrix<std::shared_ptr<Tradeoff>> t(n);
  sym_assert(q->getElements() == n * (n + 1) / 2 && t.getElements() == n * (n + 1) / 2, "number of elements");
  std::set<void *> a, b; bool z = true;
  for (int i = 0; i < n; i++) for (int j = i; j < n; j++) {
    if (!(*q)(i, j) || !t(i, j)) { sym_assert(false, "cells hold objects"); return; }
    a.insert((*q)(i, j).get()); b.insert(t(i, j).get()); z &= (*q)(i, j)->getGain() == 0 && (*q)(i, j)->getLoss() == 0 && t(i, j)->getValue() == 0;
  }
  sym_assert((int)a.size() == q->getElements() && (int)b.size() == t.getElements(), "distinct objects"); sym_assert(z, "new objects are zero");
  int i, j; pickCell(n, i, j);
  LD g = sym_ld("g", 0, 1, 9); (*q)(i, j)->setGain(g); bool own = true;
  for (int x = 0; x < n; x++) for (int y = x; y < n; y++) { LD v = (*q)(x, y)->getGain(); if (x == i && y == j) own &= v == g; else own &= v == 0; }
  sym_assert(own, "a cell's object is its own");
}
extern "C" void harness_main() {
  if (!sym_param("mode", 0)) { containers(); return; }
  int n = sym_param("n", 4), ty = sym_param("type", 0); bool f = sym_param("filled", 0);
  if (ty == 0) matrixOf<double>(n, f ? sym_real("f", 0, -9, 9) : 0, f, sym_real("w", 0, 10, 20));
  if (ty == 1) matrixOf<int>(n, f ? -5 : 0, f, 77);
  if (ty == 2) matrixOf<LD>(n, f ? sym_ld("f", 0, -9, 9) : 0, f, sym_ld("w", 0, 10, 20));
  if (ty == 3) objects(n);
}
