// C01/C02/C03 (optimality), C04 (coverage), C05 (reported qualities): one or more values of p on one partitioner.
//   mode 0: the criterion of the answer is at least that of every partition, all in one assertion
//   mode 1: it equals the best criterion found by an independent dynamic program (for larger problems)
//   mode 2: coverage   mode 3: reported qualities
#include "common.h"
static float pick(int k) {
  int m = sym_param("grid", 0); if (m && k + 1 < sym_param("asks", 1)) return (float)(k * 37 % m) / m; // many requests before the last one
  int pn = sym_param("pn", -1); // fixed p in 1/16, -1: symbolic
  if (sym_param("pk", 0) == k + 1) return (float)sym_param("pv", 8) / 16;
  return pn >= 0 ? (float)pn / 16 : sym_float("p", k, 0, 1);
}
static void optimal(const Prob &P, const Sol &s, float p) {
  if (sym_param("mode", 0) == 1) { sym_assert(sym_close(P.critSol(s, p) * P.inv, P.best(p) * P.inv), "optimal"); return; }
  LD c = P.critSol(s, p); std::vector<LD> a; P.alts(P.root(), 0, P.n - 1, p, a);
  bool ok = true; for (LD x : a) ok &= sym_ge(c * P.inv, x * P.inv);
  sym_assert(ok, "optimal");
}
static void coverage(const Prob &P, const Sol &s, bool exactSizes) {
  std::vector<int> seen(P.H * P.n, 0); bool in = true, sz = true, order = true; int last = -1;
  for (const PartR &x : s.parts) {
    if (!P.inside(x)) { in = false; break; }
    if (x.size != P.sizeOf(x.h, x.s, x.e)) sz = false;
    if (P.kind == ORD) { if (x.s != last + 1) order = false; last = x.e; }
    for (int k = x.s; k <= x.e; k++) if (P.kind == ORD) seen[k]++; else for (int l : P.t.leaves[x.h]) seen[l * P.n + k]++;
  }
  sym_assert(in, "parts lie within the data");
  bool once = true; int L = P.kind == ORD ? 1 : P.t.l;
  for (int l = 0; l < L; l++) for (int k = 0; k < P.n; k++) if (seen[l * P.n + k] != 1) once = false;
  sym_assert(once, "every element covered exactly once");
  sym_assert(order, "consecutive intervals");
  if (exactSizes) sym_assert(sz, "reported sizes");
}
static void reported(const Prob &P, const Sol &s, float p) {
  bool ok = true; LD g = 0, l = 0;
  for (const PartR &x : s.parts) { ok &= x.g == P.G[x.h][P.at(x.s, x.e)] && x.l == P.L[x.h][P.at(x.s, x.e)]; g += P.G[x.h][P.at(x.s, x.e)]; l += P.L[x.h][P.at(x.s, x.e)]; }
  sym_assert(ok, "each part carries the quality of its extent");
  sym_assert(sym_close(s.g * P.inv, g * P.inv) && sym_close(s.l * P.inv, l * P.inv), "the partition's quality is the sum of its parts'");
  sym_assert(s.p == p, "the partition reports its parameter");
}
extern "C" void harness_main() {
  Prob P; P.setup(); P.fill(); P.special(); P.build();
  int mode = sym_param("mode", 0), asks = sym_param("asks", 1);
  for (int k = 0; k < asks; k++) {
    float p = pick(k);
    Sol s = P.solve(p);
    P.outs(s, k);
    if (mode < 2) { if (k == asks - 1 || sym_param("each", 0)) optimal(P, s, p); }
    else if (mode == 2) coverage(P, s, true);
    else if (k == asks - 1 || sym_param("each", 0)) reported(P, s, p);
  }
}
