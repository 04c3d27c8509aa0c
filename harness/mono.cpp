// C27: raising p never yields less gain or less loss.   C28 (mode 1): ties go to more gain, then less loss.
#include "common.h"
struct Tri { LD c, g, l; };
static Tri operator+(const Tri &a, const Tri &b) { return Tri{a.c + b.c, a.g + b.g, a.l + b.l}; }
static Tri tri(const Prob &P, int h, int i, int j, LD p) { LD g = P.G[h][P.at(i, j)], l = P.L[h][P.at(i, j)]; return Tri{critOf(g, l, p), g, l}; }
static bool ge(const Tri &a, const Tri &b) { return (a.c > b.c) | ((a.c == b.c) & ((a.g > b.g) | ((a.g == b.g) & (a.l <= b.l)))); }
static bool gt(const Tri &a, const Tri &b) { return (a.c > b.c) | ((a.c == b.c) & ((a.g > b.g) | ((a.g == b.g) & (a.l < b.l)))); }
static void alts(const Prob &P, int h, int i, int j, LD p, bool cut, std::vector<Tri> &out) {
  out.push_back(tri(P, h, i, j, p));
  if (P.kind != ORD && !P.t.kids[h].empty()) {
    std::vector<Tri> acc(1, Tri{0, 0, 0});
    for (int c : P.t.kids[h]) { std::vector<Tri> a, nx; alts(P, c, i, j, p, true, a); for (const Tri &x : acc) for (const Tri &y : a) nx.push_back(x + y); acc = nx; }
    out.insert(out.end(), acc.begin(), acc.end());
  }
  if (cut) for (int k = i; k < j; k++) { std::vector<Tri> a, b; alts(P, h, i, k, p, false, a); alts(P, h, k + 1, j, p, true, b); for (const Tri &x : a) for (const Tri &y : b) out.push_back(x + y); }
}
// best triple by an independent dynamic program
static Tri best(const Prob &P, LD p) {
  std::vector<std::vector<Tri>> b(P.H, std::vector<Tri>(P.n * P.n)); std::vector<int> order; P.post(P.root(), order);
  for (int h : order) for (int len = 1; len <= P.n; len++) for (int i = 0; i + len <= P.n; i++) {
    int j = i + len - 1; Tri v = tri(P, h, i, j, p);
    if (P.kind != ORD && !P.t.kids[h].empty()) { Tri s{0, 0, 0}; for (int c : P.t.kids[h]) s = s + b[c][P.at(i, j)]; if (gt(s, v)) v = s; }
    for (int k = i; k < j; k++) { Tri s = b[h][P.at(i, k)] + b[h][P.at(k + 1, j)]; if (gt(s, v)) v = s; }
    b[h][P.at(i, j)] = v;
  }
  return b[P.root()][P.at(0, P.n - 1)];
}
static Tri sum(const Prob &P, const Sol &s, LD p, int below) { Tri t{0, 0, 0}; for (const PartR &x : s.parts) if (P.kind == ORD || P.t.under(x.h, below)) t = t + tri(P, x.h, x.s, x.e, p); return t; }
static void ties() {
  Prob P; P.setup(); int lo = sym_param("lo", -4), hi = sym_param("hi", 4), unit = sym_param("unit", 4); Cells c;
  // reals in the encoding, i.e. no rounding: counterexamples are confirmed on representable values only
  for (int h = 0; h < P.H; h++) for (int i = 0; i < P.n; i++) for (int j = i; j < P.n; j++) {
    int x = h * P.n * P.n + P.at(i, j);
    P.G[h][P.at(i, j)] = c.sym(1, x) ? sym_ld("g", x, lo, hi) : (LD)((int)(mix(c.seed, 1, x) % (unsigned)(hi - lo + 1)) + lo) / unit;
    P.L[h][P.at(i, j)] = c.sym(2, x) ? sym_ld("l", x, lo, hi) : (LD)((int)(mix(c.seed, 2, x) % (unsigned)(hi - lo + 1)) + lo) / unit;
    if (sym_param("same", 0)) P.L[h][P.at(i, j)] = P.G[h][P.at(i, j)]; // at p=1/2 everything ties
    if (sym_param("plain", 0)) { P.G[h][P.at(i, j)] = (LD)P.sizeOf(h, i, j) * sym_param("plain", 0) / 4; P.L[h][P.at(i, j)] = P.G[h][P.at(i, j)] * sym_param("ratio", 1); } // no split improves anything
  }
  { LD u = pow2(); for (int h = 0; h < P.H; h++) for (size_t k = 0; k < P.G[h].size(); k++) { P.G[h][k] *= u; P.L[h][k] *= u; } }
  P.build();
  int den = sym_param("den", 4); float p = (float)sym_fix(sym_int("p", 0, 0, den)) / den;
  Sol s = P.solve(p); P.outs(s);
  Tri v = sum(P, s, p, P.root());
  if (sym_param("dp", 0)) { Tri b = best(P, p); sym_assert((v.c == b.c) & (v.g == b.g) & (v.l == b.l), "best criterion, then most gain, then least loss"); }
  else { std::vector<Tri> a; alts(P, P.root(), 0, P.n - 1, p, true, a); bool ok = true; for (const Tri &x : a) ok &= ge(v, x); sym_assert(ok, "best criterion, then most gain, then least loss"); }
  if (s.parts.size() > 1) sym_assert(gt(v, tri(P, P.root(), 0, P.n - 1, p)), "split only when that improves on keeping the whole");
  if (P.kind == HIE) for (int h = 0; h < P.H; h++) {
    bool split = false; for (const PartR &x : s.parts) if (x.h != h && P.t.under(x.h, h)) split = true;
    if (split) sym_assert(gt(sum(P, s, p, h), tri(P, h, 0, 0, p)), "a node is split only when that improves on keeping it");
  }
}
static void monotone() {
  Prob P; P.setup(); P.fill(); P.build();
  int den = sym_param("den", 16), a = sym_param("pa", -1), b = sym_param("pb", -1);
  if (a < 0) a = sym_fix(sym_int("pa", 0, 0, den - 1)); if (b < 0) { b = sym_int("pb", 0, 1, den); sym_assume(b > a); b = sym_fix(b); }
  float p = (float)a / den, q = (float)b / den;
  if (sym_param("third", 0)) { p = p / 3; q = q / 3; } // not exact binary fractions
  Sol s, t; if (sym_param("reverse", 0)) { t = P.solve(q); s = P.solve(p); } else { s = P.solve(p); t = P.solve(q); }
  P.outs(s, 0); P.outs(t, 1);
  sym_assert(sym_get(t.g * P.inv, s.g * P.inv, PTOL), "no less gain for a higher p"); sym_assert(sym_get(t.l * P.inv, s.l * P.inv, PTOL), "no less loss for a higher p");
}
extern "C" void harness_main() { if (sym_param("mode", 0)) ties(); else monotone(); }
