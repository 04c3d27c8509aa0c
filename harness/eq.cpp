// C26: equality of parts (mode 0) and of partitions built from symbolic choices (mode 1), whatever qualities and parameters.
#include "data.h"
static std::shared_ptr<Quality> qual(int k) { return std::shared_ptr<Quality>(new Quality(sym_ld("g", k, -9, 9), sym_ld("l", k, -9, 9))); }
template <class T> static void laws(T &a, T &b, bool same) {
  bool ab = a == b, ba = b == a, aa = a == a, ne = a != b, en = b != a, na = a != a;
  sym_assert(ab == same, "equal exactly when they coincide"); sym_assert(ba == same, "symmetric"); sym_assert(ne == !same && en == !same, "inequality is the negation"); sym_assert(aa && !na, "reflexive");
}
static void parts(int kind) {
  int hi = sym_param("hi", 1000), szm = sym_param("sizes", 0);
  int h1 = 0, h2 = 0, s1 = 0, s2 = 0, e1 = 0, e2 = 0;
  if (kind != HIE) { s1 = sym_int("s", 1, 0, hi); s2 = sym_int("s", 2, 0, hi); e1 = sym_int("e", 1, 0, hi); e2 = sym_int("e", 2, 0, hi); sym_assume(s1 <= e1); sym_assume(s2 <= e2); }
  if (kind != ORD) { h1 = sym_int("h", 1, 0, hi); h2 = sym_int("h", 2, 0, hi); }
  // the number of leaves below a node is a function of the node: constant, or growing with it
  int z1 = szm ? h1 + 1 : 4, z2 = szm ? h2 + 1 : 4;
  std::shared_ptr<Quality> q1 = qual(1), q2 = sym_param("sameq", 0) ? q1 : qual(2);
  if (kind == ORD) { OPart a(s1, e1, q1), b(s2, e2, q2); laws(a, b, (s1 == s2) & (e1 == e2)); sym_assert(a.getStart() == s1 && a.getEnd() == e1 && a.getSize() == e1 - s1 + 1 && a.getQuality() == q1, "a part holds its extent"); OPart c(a); laws(a, c, true); }
  if (kind == HIE) { HPart a(h1, z1, q1), b(h2, z2, q2); laws(a, b, h1 == h2); sym_assert(a.getH() == h1 && a.getSize() == z1 && a.getQuality() == q1, "a part holds its extent"); HPart c(a); laws(a, c, true); }
  if (kind == SPT) {
    DPart a(h1, szm ? 3 : 4, s1, e1, q1), b(h2, szm ? 3 : 4, s2, e2, q2); laws(a, b, (h1 == h2) & (s1 == s2) & (e1 == e2));
    sym_assert(a.getH() == h1 && a.getStart() == s1 && a.getEnd() == e1 && a.getOSize() == e1 - s1 + 1 && a.getHSize() == (szm ? 3 : 4) && a.getSize() == a.getHSize() * (e1 - s1 + 1) && a.getQuality() == q1, "a part holds its extent");
    DPart c(a); laws(a, c, true);
  }
}
struct Built { Sol s; std::shared_ptr<OPartition> o; std::shared_ptr<HPartition> h; std::shared_ptr<DPartition> d; };
static int nc = 0, salt = 0;
static int choose(int hi) { int m = sym_param("random", 0), k = nc++; return m ? (int)(mix(m + salt, k, 5) % (unsigned)(hi + 1)) : hi ? sym_fix(sym_int("choice", salt * 4096 + k * 32 + hi, 0, hi)) : 0; }
static void add(Built &b, int h, int i, int j) { b.s.parts.push_back(PartR{h, i, j, 0, 0, 0}); }
static void hie(Prob &P, int h, std::vector<bool> &agg, Built &b) {
  if (P.t.kids[h].empty() || choose(1) == 0) { agg[h] = true; add(b, h, 0, 0); return; }
  agg[h] = false; for (int c : P.t.kids[h]) hie(P, c, agg, b);
}
typedef std::vector<std::shared_ptr<UpperTriangularMatrix<int>>> cutv;
static void spt(Prob &P, int h, int i, int j, cutv &cuts, Built &b) {
  bool inner = !P.t.kids[h].empty(); int c = choose(j - i + (inner ? 1 : 0));
  if (c == 0) { (*cuts[h])(i, j, j); add(b, h, i, j); return; }
  if (inner && c == 1) { (*cuts[h])(i, j, -1); for (int k : P.t.kids[h]) spt(P, k, i, j, cuts, b); return; }
  int at = i + c - 1 - (inner ? 1 : 0);
  (*cuts[h])(i, j, at); spt(P, h, i, at, cuts, b); spt(P, h, at + 1, j, cuts, b);
}
static Built build(Prob &P, float p) {
  Built b; salt++; nc = 0;
  if (P.kind == ORD) {
    std::vector<int> cuts(P.n, P.n - 1); for (int i = 0; i < P.n; i = cuts[i] + 1) { cuts[i] = i + choose(P.n - 1 - i); add(b, 0, i, cuts[i]); }
    b.o.reset(new OPartition(cuts, P.oq, p));
  } else if (P.kind == HIE) { std::vector<bool> agg(P.H, true); hie(P, P.root(), agg, b); b.h.reset(new HPartition(agg, P.hq, p, *P.md)); }
  else {
    cutv cuts; for (int h = 0; h < P.H; h++) { cuts.push_back(std::shared_ptr<UpperTriangularMatrix<int>>(new UpperTriangularMatrix<int>(P.n))); for (int i = 0; i < P.n; i++) for (int j = i; j < P.n; j++) (*cuts[h])(i, j, j); }
    spt(P, P.root(), 0, P.n - 1, cuts, b); b.d.reset(new DPartition(cuts, P.dq, p, *P.md));
  }
  return b;
}
static void partitions() {
  Prob P, R; P.setup(); R.setup(); R.n = P.kind == HIE ? 1 : sym_param("n2", P.n); R.G.assign(R.H, std::vector<LD>(R.n * R.n)); R.L = R.G;
  int q = sym_param("q", 0); // 0: all qualities 0, 1: fixed ones (same for both), 2: different fixed ones
  for (Prob *x : {&P, &R}) for (int h = 0; h < x->H; h++) for (int i = 0; i < x->n; i++) for (int j = i; j < x->n; j++) if (q) { int m = mix(q == 2 && x == &R ? 9 : 3, h, i * 64 + j); x->G[h][x->at(i, j)] = m % 7; x->L[h][x->at(i, j)] = m / 7 % 5; }
  P.build(); R.build();
  float p1 = sym_param("p1", 4) / 16.0f, p2 = sym_param("p2", 4) / 16.0f;
  Built a = build(P, p1), b = build(R, p2);
  bool same = sameParts(a.s, b.s);
  if (a.o) { laws(*a.o, *b.o, same); sym_assert(sameParts(Prob::sol(*a.o), a.s), "a partition consists of the parts it was built from"); OPartition c(*a.o); laws(*a.o, c, true); }
  if (a.h) { laws(*a.h, *b.h, same); sym_assert(sameParts(Prob::sol(*a.h), a.s), "a partition consists of the parts it was built from"); HPartition c(*a.h); laws(*a.h, c, true); }
  if (a.d) { laws(*a.d, *b.d, same); sym_assert(sameParts(Prob::sol(*a.d), a.s), "a partition consists of the parts it was built from"); DPartition c(*a.d); laws(*a.d, c, true); }
  sym_out("same", 0, same);
}
// mode 2: two partitions of many parts that are equal except where each joins one pair of slices, leaves or slices of a leaf (symbolic places)
static void joined() {
  Prob P; P.setup(); for (int h = 0; h < P.H; h++) for (size_t k = 0; k < P.G[h].size(); k++) P.G[h][k] = P.L[h][k] = 1; P.build(); Built b[2];
  int places = P.kind == ORD ? P.n / 2 : P.kind == HIE ? P.t.l / 2 : P.t.l, at[2], list[] = {0, 1, places / 2, places - 2, places - 1};
  for (int k = 0; k < 2; k++) {
    at[k] = list[sym_fix(sym_int("at", k, 0, 4))];
    if (P.kind == ORD) { std::vector<int> cuts(P.n, P.n - 1); for (int i = 0; i < P.n; i++) { int e = i / 2 == at[k] && i % 2 == 0 && i + 1 < P.n ? i + 1 : i; cuts[i] = e; } for (int i = 0; i < P.n; i = cuts[i] + 1) add(b[k], 0, i, cuts[i]); b[k].o.reset(new OPartition(cuts, P.oq, 0.5f)); }
    else if (P.kind == HIE) { std::vector<bool> agg(P.H, false); for (int h = 0; h < P.t.l + at[k] + 1; h++) agg[h] = h < P.t.l || h == P.t.l + at[k]; for (int p = 0; p < (P.t.l + 1) / 2; p++) { if (p == at[k]) { add(b[k], P.t.l + p, 0, 0); continue; } for (int c : P.t.kids[P.t.l + p]) add(b[k], c, 0, 0); } b[k].h.reset(new HPartition(agg, P.hq, 0.5f, *P.md)); }
    else { cutv cuts; for (int h = 0; h < P.H; h++) { cuts.push_back(std::shared_ptr<UpperTriangularMatrix<int>>(new UpperTriangularMatrix<int>(2))); for (int i = 0; i < 2; i++) for (int j = i; j < 2; j++) (*cuts[h])(i, j, !P.t.kids[h].empty() ? -1 : h == at[k] ? j : i); } for (int h = 0; h < P.t.l; h++) { if (h == at[k]) add(b[k], h, 0, 1); else { add(b[k], h, 0, 0); add(b[k], h, 1, 1); } } b[k].d.reset(new DPartition(cuts, P.dq, 0.5f, *P.md)); }
  }
  bool same = at[0] == at[1]; sym_assert(sameParts(b[0].s, b[1].s) == same, "the places tell them apart");
  if (b[0].o) { laws(*b[0].o, *b[1].o, same); sym_assert(sameParts(Prob::sol(*b[0].o), b[0].s), "a partition consists of the parts it was built from"); }
  if (b[0].h) { laws(*b[0].h, *b[1].h, same); sym_assert(sameParts(Prob::sol(*b[0].h), b[0].s), "a partition consists of the parts it was built from"); }
  if (b[0].d) { laws(*b[0].d, *b[1].d, same); sym_assert(sameParts(Prob::sol(*b[0].d), b[0].s), "a partition consists of the parts it was built from"); }
  sym_out("same", 0, same);
}
extern "C" void harness_main() { if (sym_param("mode", 0) == 2) joined(); else if (sym_param("mode", 0)) partitions(); else parts(sym_param("kind", 0)); }
