// A data set of any kind and dimension, in the harness's own storage and as the library's object.
#pragma once
#include "common.h"
struct Data {
  LD inv = 1;
  int kind, nd, A, B, C, V, L, T, H; Tree t; // A,B,C attribute dimensions, V = A*B*C, L leaves, T slices, H nodes
  std::vector<std::vector<std::vector<double>>> x; // [leaf][flat attribute][slice]
  std::shared_ptr<OValues> ov; std::shared_ptr<HValues> hv; std::shared_ptr<DValues> dv;
  std::shared_ptr<OValuesN1> o1; std::shared_ptr<OValuesN2> o2; std::shared_ptr<OValuesN3> o3; std::shared_ptr<OValuesN4> o4;
  std::shared_ptr<HValuesN1> h1; std::shared_ptr<HValuesN2> h2; std::shared_ptr<HValuesN3> h3; std::shared_ptr<HValuesN4> h4;
  std::shared_ptr<DValuesN2> d2; std::shared_ptr<DValuesN3> d3; std::shared_ptr<DValuesN4> d4;
  void shape(int k, int dims, int a, int b, int c, int slices, const Tree &tr) {
    kind = k; nd = dims; t = tr; T = k == HIE ? 1 : slices; L = k == ORD ? 1 : t.l; H = k == ORD ? 1 : t.n;
    int ad = k == SPT ? nd - 2 : nd - 1; A = ad > 0 ? a : 1; B = ad > 1 ? b : 1; C = ad > 2 ? c : 1; V = A * B * C;
    x.assign(L, std::vector<std::vector<double>>(V, std::vector<double>(T)));
  }
  void shapeParams() { int k = sym_param("kind", 0); shape(k, sym_param("nd", k == SPT ? 3 : 2), sym_param("a", 2), sym_param("b", 2), sym_param("c", 2), sym_param("n", 3), k == ORD ? Tree() : paramTree()); }
  int at(int a, int b, int c) const { return (a * B + b) * C + c; }
  int idx(int l, int k, int s) const { return (l * V + k) * T + s; }
  // every cell in [lo,hi]/1000
  void fill() { LD u = pow2(); inv = 1 / u; int h = sym_param("hi", 100000); if (h > 100000) inv /= h / 100000; fill0(); if (u != 1) for (auto &a : x) for (auto &b : a) for (double &v : b) v *= (double)u; } // judged in units of the largest value
  void fill0() {
    Cells ce; double lo = sym_param("lo", 0) / 1024.0, hi = sym_param("hi", 100000) / 1000.0;
    for (int l = 0; l < L; l++) for (int k = 0; k < V; k++) for (int s = 0; s < T; s++) x[l][k][s] = ce.d("x", 3, idx(l, k, s), lo, hi);
  }
  typedef std::vector<double> v1; typedef std::vector<v1> v2; typedef std::vector<v2> v3; typedef std::vector<v3> v4;
  // build: how=0 from nested vectors, 1 through the sized constructor and the setters
  void build(int how) {
    const std::vector<int> &par = t.par;
    if (kind == ORD) {
      if (nd == 1) { if (!how) o1.reset(new OValuesN1(x[0][0])); else { o1.reset(new OValuesN1((unsigned)T)); } ov = o1; }
      if (nd == 2) { if (!how) o2.reset(new OValuesN2(x[0])); else o2.reset(new OValuesN2(A, T)); ov = o2; }
      if (nd == 3) { if (!how) { v3 v(A, v2(B)); for (int a = 0; a < A; a++) for (int b = 0; b < B; b++) v[a][b] = x[0][at(a, b, 0)]; o3.reset(new OValuesN3(v)); } else o3.reset(new OValuesN3(A, B, T)); ov = o3; }
      if (nd == 4) { if (!how) { v4 v(A, v3(B, v2(C))); for (int a = 0; a < A; a++) for (int b = 0; b < B; b++) for (int c = 0; c < C; c++) v[a][b][c] = x[0][at(a, b, c)]; o4.reset(new OValuesN4(v)); } else o4.reset(new OValuesN4(A, B, C, T)); ov = o4; }
    } else if (kind == HIE) {
      if (nd == 1) { v1 v(L); for (int l = 0; l < L; l++) v[l] = x[l][0][0]; if (!how) h1.reset(new HValuesN1(v, par)); else h1.reset(new HValuesN1((unsigned)L, par)); hv = h1; }
      if (nd == 2) { v2 v(L, v1(A)); for (int l = 0; l < L; l++) for (int a = 0; a < A; a++) v[l][a] = x[l][a][0]; if (!how) h2.reset(new HValuesN2(v, par)); else h2.reset(new HValuesN2(L, A, par)); hv = h2; }
      if (nd == 3) { v3 v(L, v2(A, v1(B))); for (int l = 0; l < L; l++) for (int a = 0; a < A; a++) for (int b = 0; b < B; b++) v[l][a][b] = x[l][at(a, b, 0)][0]; if (!how) h3.reset(new HValuesN3(v, par)); else h3.reset(new HValuesN3(L, A, B, par)); hv = h3; }
      if (nd == 4) { v4 v(L, v3(A, v2(B, v1(C)))); for (int l = 0; l < L; l++) for (int a = 0; a < A; a++) for (int b = 0; b < B; b++) for (int c = 0; c < C; c++) v[l][a][b][c] = x[l][at(a, b, c)][0]; if (!how) h4.reset(new HValuesN4(v, par)); else h4.reset(new HValuesN4(L, A, B, C, par)); hv = h4; }
    } else {
      if (nd == 2) { v2 v(L); for (int l = 0; l < L; l++) v[l] = x[l][0]; if (!how) d2.reset(new DValuesN2(v, par)); else d2.reset(new DValuesN2(L, T, par)); dv = d2; }
      if (nd == 3) { v3 v(L); for (int l = 0; l < L; l++) v[l] = x[l]; if (!how) d3.reset(new DValuesN3(v, par)); else d3.reset(new DValuesN3(L, A, T, par)); dv = d3; }
      if (nd == 4) { v4 v(L, v3(A, v2(B))); for (int l = 0; l < L; l++) for (int a = 0; a < A; a++) for (int b = 0; b < B; b++) v[l][a][b] = x[l][at(a, b, 0)]; if (!how) d4.reset(new DValuesN4(v, par)); else d4.reset(new DValuesN4(L, A, B, T, par)); dv = d4; }
    }
    if (how == 1) for (int l = 0; l < L; l++) for (int k = 0; k < V; k++) for (int s = 0; s < T; s++) set(l, k, s, x[l][k][s]);
  }
  void buildEmpty() { build(3); }
  void adopt(const Data &E) { ov = E.ov; hv = E.hv; dv = E.dv; o1 = E.o1; o2 = E.o2; o3 = E.o3; o4 = E.o4; h1 = E.h1; h2 = E.h2; h3 = E.h3; h4 = E.h4; d2 = E.d2; d3 = E.d3; d4 = E.d4; }
  void set(int l, int k, int s, double v) {
    int c = k % C, b = k / C % B, a = k / C / B;
    if (o1) (*o1)(s, v); if (o2) (*o2)(a, s, v); if (o3) (*o3)(a, b, s, v); if (o4) (*o4)(a, b, c, s, v);
    if (h1) (*h1)(l, v); if (h2) (*h2)(l, a, v); if (h3) (*h3)(l, a, b, v); if (h4) (*h4)(l, a, b, c, v);
    if (d2) (*d2)(l, s, v); if (d3) (*d3)(l, a, s, v); if (d4) (*d4)(l, a, b, s, v);
  }
  double get(int l, int k, int s) {
    int c = k % C, b = k / C % B, a = k / C / B;
    if (o1) return (*o1)(s); if (o2) return (*o2)(a, s); if (o3) return (*o3)(a, b, s); if (o4) return (*o4)(a, b, c, s);
    if (h1) return (*h1)(l); if (h2) return (*h2)(l, a); if (h3) return (*h3)(l, a, b); if (h4) return (*h4)(l, a, b, c);
    if (d2) return (*d2)(l, s); if (d3) return (*d3)(l, a, s); return (*d4)(l, a, b, s);
  }
  // value through the flat attribute index
  double flat(int l, int k, int s) {
    if (kind == ORD) return (*ov)[k][s];
    if (kind == HIE) return (*hv)[l][k];
    return (*dv)[l][k][s];
  }
  const std::vector<int> &leaves(int h) const { static const std::vector<int> one(1, 0); return kind == ORD ? one : t.leaves[h]; }
  int size(int h, int i, int j) const { return (int)leaves(h).size() * (j - i + 1); }
  LD sum(int h, int i, int j, int k) const { LD s = 0; for (int l : leaves(h)) for (int u = i; u <= j; u++) s += x[l][k][u]; return s; }
  static LD xlog(LD v) { return v > 0 ? v * std::log(v) / (LD)std::log(2.0) : 0; }
  void reference(int h, int i, int j, LD &g, LD &lo) const {
    g = lo = 0; int m = size(h, i, j); if (m == 1) return;
    for (int k = 0; k < V; k++) {
      LD s = sum(h, i, j, k), a = xlog(s);
      if (s > 0) { for (int l : leaves(h)) for (int u = i; u <= j; u++) a -= xlog(x[l][k][u]); }
      g += a; lo += s * (LD)std::log(m) / (LD)std::log(2.0) - a;
    }
  }
};
// the library's qualities of a data set
struct Quals {
  int kind; std::shared_ptr<OQualities> o; std::shared_ptr<HQualities> h; std::shared_ptr<DQualities> d;
  explicit Quals(Data &D) : kind(D.kind) {
    if (kind == ORD) o.reset(new OQualities(D.ov)); else if (kind == HIE) h.reset(new HQualities(D.hv)); else d.reset(new DQualities(D.dv));
  }
  Quals(Prob &P) : kind(P.kind) {
    if (kind == ORD) o.reset(new OQualities(P.oq)); else if (kind == HIE) h.reset(new HQualities(P.hq, *P.md)); else d.reset(new DQualities(P.dq, *P.md));
  }
  void compute() { if (o) o->computeQualities(); if (h) h->computeQualities(); if (d) d->computeQualities(); }
  void normalize() { if (o) o->normalize(); if (h) h->normalize(); if (d) d->normalize(); }
  std::shared_ptr<Quality> at(int hh, int i, int j) { if (o) return (*o->getQualities())(i, j); if (h) return (*h->getQualities())[hh]; return (*(*d->getQualities())[hh])(i, j); }
  LD gain(int hh, int i, int j) { return at(hh, i, j)->getGain(); }
  LD loss(int hh, int i, int j) { return at(hh, i, j)->getLoss(); }
  unsigned size() { return o ? o->size() : h ? h->size() : d->size(); }
};
