// C22 (mode 0 arithmetic, 1 equality laws, 2 precision): qualities;  C23 (mode 3 arithmetic and values, 4 ordering): trade-offs.
#include "common.h"
static LD num(const char *n, int k, int from, LD lo, LD hi) { return k >= sym_param("symfrom", 0) ? sym_ld(n, k, lo, hi) : (LD)from; }
static bool is(const Quality &q, LD g, LD l) { return sym_close(q.getGain(), g) & sym_close(q.getLoss(), l); }
static bool same(const Quality &q, LD g, LD l) { return (q.getGain() == g) & (q.getLoss() == l); }
static void arithmetic() {
  LD g1 = sym_ld("g", 1, -50, 50), l1 = sym_ld("l", 1, -50, 50), g2 = sym_ld("g", 2, 0.5, 40), l2 = sym_ld("l", 2, 0.5, 40);
  if (sym_param("neg", 0)) { g2 = -g2; l2 = -l2; }
  Quality a(g1, l1), b(g2, l2), z;
  sym_assert(same(z, 0, 0) && same(a, g1, l1), "a new quality holds what it was given, 0 by default");
  sym_assert(is(a + b, g1 + g2, l1 + l2), "sum"); sym_assert(is(a - b, g1 - g2, l1 - l2), "difference");
  sym_assert(is(a * b, g1 * g2, l1 * l2), "product"); sym_assert(is(a / b, g1 / g2, l1 / l2), "quotient");
  sym_assert(same(a, g1, l1) && same(b, g2, l2), "the operands keep their values");
  Quality c(a); c += b; sym_assert(is(c, g1 + g2, l1 + l2), "sum in place"); c = a; c -= b; sym_assert(is(c, g1 - g2, l1 - l2), "difference in place");
  c = a; c *= b; sym_assert(is(c, g1 * g2, l1 * l2), "product in place"); c = a; c /= b; sym_assert(is(c, g1 / g2, l1 / l2), "quotient in place");
  sym_assert(same(a, g1, l1) && same(b, g2, l2), "the other operand keeps its values");
  c = b; c += c; sym_assert(is(c, 2 * g2, 2 * l2), "sum with itself"); c = b; c -= c; sym_assert(is(c, 0, 0), "difference with itself");
  c = b; c *= c; sym_assert(is(c, g2 * g2, l2 * l2), "product with itself"); c = b; c /= c; sym_assert(is(c, 1, 1), "quotient with itself");
  c = a; c.addToGain(g2); sym_assert(is(c, g1 + g2, l1), "add to gain"); c.addToLoss(l2); sym_assert(is(c, g1 + g2, l1 + l2), "add to loss");
  c.setGain(g1); sym_assert(is(c, g1, l1 + l2), "set gain"); c.setLoss(l1); sym_assert(same(c, g1, l1), "set loss");
  // a longer sum, as over the parts of a partition
  Quality t; LD tg = 0, tl = 0; for (int k = 0; k < 6; k++) { LD g = sym_ld("p", 2 * k, -9, 9), l = sym_ld("p", 2 * k + 1, -9, 9); Quality x(g, l); t += x; tg += g; tl += l; }
  sym_assert(is(t, tg, tl), "sums of several qualities"); sym_outf("tg", 0, t.getGain());
}
static void equality() {
  LD hi = sym_param("hi", 8), lo = sym_param("lo", -8);
  LD g1 = sym_ld("g", 1, lo, hi), l1 = sym_ld("l", 1, lo, hi), g2 = sym_ld("g", 2, lo, hi), l2 = sym_ld("l", 2, lo, hi);
  Quality a(g1, l1), b(g2, l2), c(g1, l1);
  sym_assert(a == a, "equal to itself"); sym_assert(a == c, "identical qualities are equal"); sym_assert(!(a != a) && !(a != c), "identical qualities do not differ");
  bool ab = a == b, ba = b == a; sym_assert(ab == ba, "symmetric"); sym_assert((a != b) == !ab && (b != a) == !ba, "inequality is the negation");
  LD m = 0; for (LD x : {g1, l1, g2, l2}) { LD y = std::fabs(x); if (y > m) m = y; }
  LD dg = std::fabs(g1 - g2), dl = std::fabs(l1 - l2);
  if (ab) sym_assert((dg <= 1e-12L * m) & (dl <= 1e-12L * m), "equal only when gain and loss agree");
  sym_assert(same(a, g1, l1) && same(b, g2, l2), "comparing changes nothing");
}
// values that agree to within `scale`^-1 of 1e-14 relative, or differ in one component by more than 1e-12 of the largest
static void precision() {
  LD u = 1; for (int k = sym_param("up", 0); k > 0; k--) u *= 10; for (int k = sym_param("downs", 0); k > 0; k--) u /= 10;
  LD sg = sym_param("neg", 0) & 1 ? -1 : 1, sl = sym_param("neg", 0) & 2 ? -1 : 1;
  LD ug = u, ul = u; if (sym_param("gbig", 0)) ug *= 1000; if (sym_param("lbig", 0)) ul *= 1000;
  LD g = sym_ld("g", 1, ug, 2 * ug) * sg, l = sym_ld("l", 1, ul, 2 * ul) * sl;
  LD dg = sym_ld("dg", 1, -ug, ug) * 1e-14L, dl = sym_ld("dl", 1, -ul, ul) * 1e-14L;
  Quality a(g, l), b(g + dg, l + dl);
  sym_assert(a == b && b == a, "equal when gain and loss agree"); sym_assert(!(a != b), "not different when gain and loss agree");
  LD m = 2 * (ug > ul ? ug : ul) * 1.1L, big = sym_ld("big", 1, m, 100 * m) * 1e-12L * (sym_param("minus", 0) ? -1 : 1);
  Quality c(g + big, l), d(g, l + big), e(g + big, l + dl), f(g + big, l - big);
  sym_assert(!(a == c) && !(c == a) && a != c, "different when the gains differ"); sym_assert(!(a == d) && !(d == a) && a != d, "different when the losses differ");
  sym_assert(!(a == e) && !(a == f), "different when the gains differ, whatever the losses");
}
static bool tis(Tradeoff &t, LD v, LD g, LD l) { return sym_close(t.getValue(), v) & sym_close(t.getQuality()->getGain(), g) & sym_close(t.getQuality()->getLoss(), l); }
static std::shared_ptr<Quality> mk(LD g, LD l) { return std::shared_ptr<Quality>(new Quality(g, l)); }
static void tradeoffs() {
  LD g1 = sym_ld("g", 1, -50, 50), l1 = sym_ld("l", 1, -50, 50), g2 = sym_ld("g", 2, 0.5, 40), l2 = sym_ld("l", 2, 0.5, 40);
  int pn = sym_param("pn", -1); float p = pn >= 0 ? (float)pn / 16 : sym_float("p", 0, 0, 1);
  LD P = p, v1 = P * g1 - (1 - P) * l1;
  std::shared_ptr<Quality> q1 = mk(g1, l1), q2 = mk(g2, l2);
  Tradeoff a(q1, p), b(sym_ld("v", 2, 0.5, 40), q2), z, y(q1), w; LD v2 = b.getValue();
  sym_assert(tis(a, v1, g1, l1), "value for p"); sym_assert(tis(z, 0, 0, 0) && tis(y, 0, g1, l1), "value 0 without a p");
  w.set(q1, p); sym_assert(tis(w, v1, g1, l1), "set gives the value for p"); y.computePIC(p); sym_assert(tis(y, v1, g1, l1), "recomputed value for p");
  a.computePIC(1); sym_assert(tis(a, g1, g1, l1), "value for 1"); a.computePIC(0); sym_assert(tis(a, -l1, g1, l1), "value for 0"); a.computePIC(p);
  Tradeoff s = a + b, d = a - b, m = a * b, r = a / b;
  sym_assert(tis(s, v1 + v2, g1 + g2, l1 + l2), "sum"); sym_assert(tis(d, v1 - v2, g1 - g2, l1 - l2), "difference");
  sym_assert(tis(m, v1 * v2, g1 * g2, l1 * l2), "product"); sym_assert(tis(r, v1 / v2, g1 / g2, l1 / l2), "quotient");
  sym_assert(tis(a, v1, g1, l1) && tis(b, v2, g2, l2), "the operands keep their values");
  Tradeoff c(q1, p); c += b; sym_assert(tis(c, v1 + v2, g1 + g2, l1 + l2), "sum in place");
  Tradeoff e(q1, p); e -= b; sym_assert(tis(e, v1 - v2, g1 - g2, l1 - l2), "difference in place");
  Tradeoff f(q1, p); f *= b; sym_assert(tis(f, v1 * v2, g1 * g2, l1 * l2), "product in place");
  Tradeoff h(q1, p); h /= b; sym_assert(tis(h, v1 / v2, g1 / g2, l1 / l2), "quotient in place");
  sym_assert(tis(b, v2, g2, l2), "the other operand keeps its values");
  sym_assert(same(*q1, g1, l1) && same(*q2, g2, l2), "the qualities given are not changed");
  q1->setGain(7); q1->setLoss(3); sym_assert(tis(a, v1, g1, l1) && tis(w, v1, g1, l1) && tis(y, v1, g1, l1), "a trade-off keeps its own copy of the quality");
  // copies are independent
  Tradeoff k(a), n; n = b; k += b; n -= a;
  sym_assert(tis(a, v1, g1, l1) && tis(b, v2, g2, l2), "changing a copy leaves the original"); sym_assert(tis(k, v1 + v2, g1 + g2, l1 + l2) && tis(n, v2 - v1, g2 - g1, l2 - l1), "arithmetic on copies");
  // a chain, as in the optimizers
  Tradeoff t, u; LD tv = 0, tg = 0, tl = 0;
  for (int i = 0; i < 4; i++) { LD g = sym_ld("x", 2 * i, -9, 9), l = sym_ld("x", 2 * i + 1, -9, 9); u.set(mk(g, l), p); t += u; tv += P * g - (1 - P) * l; tg += g; tl += l; }
  sym_assert(tis(t, tv, tg, tl), "sums of several trade-offs"); sym_outf("tv", 0, t.getValue());
}
static int ref(LD v1, LD g1, LD l1, LD v2, LD g2, LD l2) { // 1: first is greater, -1: smaller, 0: neither
  if (v1 != v2) return v1 > v2 ? 1 : -1;
  if (g1 != g2) return g1 > g2 ? 1 : -1;
  if (l1 != l2) return l1 < l2 ? 1 : -1;
  return 0;
}
static void ordering() {
  int n = sym_param("count", 3); std::vector<Tradeoff> t; std::vector<LD> v, g, l; int ch = sym_param("grid", 0);
  for (int k = 0; k < n; k++) {
    if (ch) { v.push_back(sym_fix(sym_int("v", k, -1, 1))); g.push_back(sym_fix(sym_int("g", k, -1, 1))); l.push_back(sym_fix(sym_int("l", k, -1, 1))); }
    else { LD hi = sym_param("hi", 9), lo = sym_param("lo", -9); v.push_back(sym_ld("v", k, lo, hi)); g.push_back(sym_ld("g", k, lo, hi)); l.push_back(sym_ld("l", k, lo, hi)); }
    t.push_back(Tradeoff(v[k], mk(g[k], l[k])));
  }
  std::vector<std::vector<int>> lt(n, std::vector<int>(n));
  for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) {
    if (n > 2 && a == b) continue;
    bool L = t[a] < t[b], G = t[a] > t[b], Gr = t[b] > t[a], eq = t[a] == t[b], ne = t[a] != t[b], le = t[a] <= t[b], ge = t[a] >= t[b];
    sym_assert(L == Gr, "a<b exactly when b>a"); sym_assert(!(L && G), "never both"); sym_assert(le == !G && ge == !L && ne == !eq, "<=, >= and != are negations");
    sym_assert(eq == (v[a] == v[b]), "== compares the values");
    if (n == 2) { int r = ref(v[a], g[a], l[a], v[b], g[b], l[b]); sym_assert(G == (r > 0) && L == (r < 0), "value, then higher gain, then lower loss"); }
    lt[a][b] = L;
  }
  if (n > 2) for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (int c = 0; c < n; c++) if (a != b && b != c && a != c && lt[a][b] && lt[b][c]) sym_assert(lt[a][c], "transitive");
}
extern "C" void harness_main() {
  int m = sym_param("mode", 0);
  if (m == 0) arithmetic(); if (m == 1) equality(); if (m == 2) precision(); if (m == 3) tradeoffs(); if (m == 4) ordering();
}
