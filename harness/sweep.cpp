// C11-C15, C27: the sweep over p.   mode 11..15 selects the property.
#include "common.h"
static float unit(const char *n, int def) { return (float)sym_param(n, def) / 1024; }
struct Lists { std::vector<float> p; std::map<float, Sol> part; std::map<float, std::pair<LD, LD>> q; std::vector<Prob::Tup> t; };
static Lists lists(Prob &P) {
  Lists L; L.p = P.base().getPList(); L.part = P.partitions();
  auto ql = P.base().getQualityList(); for (auto &x : ql) L.q[x.first] = std::make_pair((LD)x.second->getGain(), (LD)x.second->getLoss());
  L.t = P.tuples(); return L;
}
static void missesNone(Prob &P, float th, float mx) {
  LD tol = PTOL; if (sym_param("tolexp", 0)) { tol = 1; for (int k = sym_param("tolexp", 0); k > 0; k--) tol /= 2; } // small losses: the single-precision 1-p matters less
  std::vector<float> p = P.base().getPList(); std::map<float, Sol> part = P.partitions();
  for (size_t k = 0; k < p.size(); k++) {
    LD lo = p[k], hi = k + 1 < p.size() ? (LD)p[k + 1] - (LD)th : (LD)mx;
    if (!part.count(p[k])) { sym_assert(false, "a partition is listed for each parameter"); return; }
    if (hi < lo) continue;
    const Sol &s = part[p[k]];
    // the criterion difference to any other partition is affine in p, so the two ends decide the whole range
    bool ok = true;
    for (LD q : {lo, hi}) {
      LD c = P.critSol(s, q);
      if (sym_param("dp", 0)) { sym_assert(sym_closet(c * P.inv, P.best(q) * P.inv, tol), "optimal up to the next parameter minus the threshold"); continue; }
      std::vector<LD> a; P.alts(P.root(), 0, P.n - 1, q, a); for (LD x : a) ok &= sym_get(c * P.inv, x * P.inv, tol);
    }
    sym_assert(ok, "optimal up to the next parameter minus the threshold");
  }
}
static void sound(Prob &P, float mn, float mx) {
  Lists L = lists(P); size_t n = L.p.size();
  sym_assert(n > 0 && L.p[0] == mn, "the list starts at min");
  bool inc = true; for (size_t k = 0; k + 1 < n; k++) if (!(L.p[k] < L.p[k + 1])) inc = false;
  sym_assert(inc, "strictly increasing"); sym_assert(n == 0 || L.p[n - 1] <= mx, "within [min,max]");
  sym_assert(L.part.size() == n && L.q.size() == n, "the maps have as many entries as the list");
  for (float p : L.p) if (!L.part.count(p) || !L.q.count(p)) { sym_assert(false, "the maps have exactly the listed parameters"); return; }
  size_t t = 0;
  for (size_t k = 0; k < n; k++) {
    Sol &s = L.part[L.p[k]]; Sol d = P.solve(L.p[k]);
    sym_assert(sameParts(s, d), "equal to the best partition for the parameter alone");
    sym_assert(s.p == L.p[k], "the listed partition reports its parameter");
    if (k) sym_assert(!sameParts(s, L.part[L.p[k - 1]]), "neighbouring entries differ");
    std::pair<LD, LD> q = L.q[L.p[k]];
    sym_assert(q.first == s.g && q.second == s.l, "the quality map matches the partition");
    LD g = 0, l = 0; for (const PartR &x : s.parts) { g += P.G[x.h][P.at(x.s, x.e)]; l += P.L[x.h][P.at(x.s, x.e)]; }
    sym_assert(sym_close(q.first * P.inv, g * P.inv) && sym_close(q.second * P.inv, l * P.inv), "the listed quality is that of the parts");
    for (size_t m = 0; m < s.parts.size(); m++, t++) {
      if (t >= L.t.size()) { sym_assert(false, "tuples for every part"); return; }
      const PartR &a = L.t[t].r, &b = s.parts[m];
      sym_assert(L.t[t].p == L.p[k] && a.h == b.h && a.s == b.s && a.e == b.e && a.size == b.size, "tuples match the parts");
      sym_assert(a.g == P.G[b.h][P.at(b.s, b.e)] && a.l == P.L[b.h][P.at(b.s, b.e)], "tuples match the qualities");
    }
  }
  sym_assert(t == L.t.size(), "no further tuples");
}
static void sameLists(const Lists &a, const Lists &b) {
  sym_assert(a.p == b.p, "a sweep does not depend on earlier ones");
  if (a.p != b.p) return;
  bool same = a.part.size() == b.part.size() && a.t.size() == b.t.size() && a.q.size() == b.q.size();
  for (auto &x : a.part) { auto it = b.part.find(x.first); if (it == b.part.end() || !sameParts(x.second, it->second)) same = false; }
  for (size_t k = 0; same && k < a.t.size(); k++) if (a.t[k].p != b.t[k].p || a.t[k].r.h != b.t[k].r.h || a.t[k].r.s != b.t[k].r.s || a.t[k].r.e != b.t[k].r.e) same = false;
  sym_assert(same, "a sweep's partitions do not depend on earlier ones");
}
static void presets(Prob &P, bool swept) {
  Partitioner &b = P.base();
  float lo = b.getP(P_MIN), hi = b.getP(P_MAX), op = b.getP(P_OPT);
  if (!swept) { sym_assert(lo == 0 && hi == 0 && op == 0, "presets are 0 before any sweep"); return; }
  std::vector<float> p = b.getPList(); std::map<float, Sol> part = P.partitions();
  sym_assert(lo == 0, "minimum preset"); sym_assert(hi == p.back(), "maximum preset is the last parameter");
  bool in = false; for (float x : p) if (x == op) in = true;
  sym_assert(in, "optimal preset is listed"); if (!in) return;
  auto dist = [&](float x) { const Sol &s = part[x]; LD g = 0, l = 0; for (const PartR &y : s.parts) { g += P.G[y.h][P.at(y.s, y.e)]; l += P.L[y.h][P.at(y.s, y.e)]; } return (g - 1) * (g - 1) + l * l; };
  LD d = dist(op); bool ok = true;
  for (float x : p) { LD e = dist(x); ok &= sym_ge(e, d); }
  sym_assert(ok, "optimal preset is closest to (1,0)");
}
static void auc(Prob &P, bool swept) {
  float a = P.base().computeAUC();
  if (!swept) { sym_assert(a == 1, "area 1 before any sweep"); return; }
  std::vector<float> p = P.base().getPList(); std::map<float, Sol> part = P.partitions();
  std::vector<LD> g, l; LD area = 1, mag = 1;
  for (float x : p) { LD sg = 0, sl = 0; for (const PartR &y : part[x].parts) { sg += P.G[y.h][P.at(y.s, y.e)]; sl += P.L[y.h][P.at(y.s, y.e)]; } g.push_back(sg); l.push_back(sl); }
  for (size_t k = 0; k + 1 < p.size(); k++) area -= (g[k + 1] - g[k]) * (l[k + 1] + l[k]) / 2;
  // single-precision rounding of the terms and of every partial sum, from the values themselves where they are fixed
  LD hi = sym_param("hi", 8), most = (LD)P.n * (P.kind == ORD ? 1 : P.t.l), tol;
  if (sym_param("shape", 0) == 3) tol = 1e-4L;
  else if (sym_param("stride", 1) == 0 && !sym_param("shape", 0)) { for (size_t k = 0; k + 1 < p.size(); k++) { LD d = (g[k + 1] - g[k]) * (l[k + 1] + l[k]) / 2; mag += d < 0 ? -d : d; } tol = 1e-6L * (LD)(p.size() + 2) * mag; }
  else tol = 1e-6L * (LD)(p.size() + 2) * (1 + hi * hi * most * most);
  sym_assert(sym_closet(a, area, tol), "one minus the trapezoidal area");
  sym_outf("auc", 0, a);
}
static void usable(Prob &P, float mn, float mx) {
  std::vector<float> p = P.base().getPList(); sym_assert(!p.empty(), "at least one parameter"); if (p.empty()) return;
  std::map<float, Sol> part = P.partitions(); auto q = P.base().getQualityList();
  bool all = true; for (float x : p) if (!part.count(x) || !q.count(x) || part[x].parts.empty()) all = false;
  sym_assert(all, "each parameter has its partition and quality");
}
extern "C" void harness_main() {
  Prob P; P.setup(); P.fill();
  int mode = sym_param("mode", 11), runs = sym_param("runs", 1), scaleDown = sym_param("down", 0);
  if (scaleDown) for (int h = 0; h < P.H; h++) for (size_t k = 0; k < P.G[h].size(); k++) { P.G[h][k] /= scaleDown; P.L[h][k] /= scaleDown; }
  P.special(); P.build();
  float mn = unit("min", 0), mx = unit("max", 1024), th = sym_param("symth", 0) ? sym_float("th", 0, 0.125f, 1.0f) : unit("th", 128);
  if (sym_param("symrange", 0)) { mn = sym_float("min", 0, 0, 0.5f); mx = sym_float("max", 0, 0.5f, 1); }
  if (sym_param("third", 0)) { mn = mn / 3; mx = mx / 3; th = th / 3; } // bounds that are not exact binary fractions
  if (sym_param("exp", 0)) { th = 1; for (int k = sym_param("exp", 0); k > 0; k--) th /= 2; }
  if (sym_param("narrow", 0)) { mn = 0.5f + (float)sym_param("off", 0) / 1024; mx = mn; for (int k = sym_param("narrow", 0); k > 0; k--) mx = std::nextafterf(mx, 1.0f); }
  if (sym_param("before", 0)) { if (mode == 14) presets(P, false); if (mode == 15) auc(P, false); if (mode == 12) { Lists e = lists(P); sym_assert(e.p.empty() && e.part.empty() && e.t.empty() && e.q.empty(), "nothing is listed before any sweep"); } }
  for (int r = 1; r < runs; r++) { // earlier sweeps with other bounds
    P.sweep(unit("th0", 256), unit("min0", 256), unit("max0", 768));
    if (sym_param("use", 0)) { if (mode == 14) presets(P, true); if (mode == 15) auc(P, true); }
  }
  P.sweep(th, mn, mx);
  for (int r = 0; r < sym_param("rescale", 0); r++) { // the same sweep again after every quality was divided by 8 in place
    if (mode == 14) presets(P, true); if (mode == 15) auc(P, true);
    std::set<Quality *> done; LD f = r % 2 ? 8 : 0.125L;
    for (int h = 0; h < P.H; h++) for (int i = 0; i < P.n; i++) for (int j = i; j < P.n; j++) { auto c = P.cell(h, i, j); P.G[h][P.at(i, j)] *= f; P.L[h][P.at(i, j)] *= f; if (!done.insert(c.get()).second) continue; c->setGain(c->getGain() * f); c->setLoss(c->getLoss() * f); }
    P.sweep(th, mn, mx);
  }
  if (mode == 11) missesNone(P, th, mx);
  if (mode == 12) { sound(P, mn, mx); if (runs > 1) { Lists a = lists(P); P.partitioner(); P.sweep(th, mn, mx); sameLists(a, lists(P)); } }
  if (sym_param("def", 0)) { // bounds left out are 0 and 1
    Lists a = lists(P); P.partitioner(); P.base().computeBestPartitions(th, mn, mx); Lists b = lists(P);
    bool same = a.p == b.p; for (size_t k = 0; same && k < a.p.size(); k++) same = sameParts(a.part[a.p[k]], b.part[a.p[k]]);
    sym_assert(same, "a bound left out is 0 or 1");
  }
  if (mode == 13) usable(P, mn, mx);
  if (mode == 14) presets(P, true);
  if (mode == 15) auc(P, true);
  if (mode == 27) { // gains and losses along the list never decrease
    std::vector<float> p = P.base().getPList(); std::map<float, Sol> part = P.partitions();
    for (size_t k = 0; k + 1 < p.size(); k++) sym_assert(sym_get(part[p[k + 1]].g * P.inv, part[p[k]].g * P.inv, PTOL) & sym_get(part[p[k + 1]].l * P.inv, part[p[k]].l * P.inv, PTOL), "gains and losses along the list never decrease");
  }
  std::vector<float> p = P.base().getPList(); for (size_t k = 0; k < p.size(); k++) sym_outf("p", (int)k, p[k]);
}
