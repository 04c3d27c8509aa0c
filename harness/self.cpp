// C29: a partition can be rebuilt from its own description (cuts or flags, qualities, parameter, metadata).
//   mode 0: partitions computed for p   mode 1: partitions built by the caller from symbolic choices
#include "data.h"
static int nc = 0;
static int choose(int hi) { int m = sym_param("random", 0), k = nc++; return m ? (int)(mix(m, k, 5) % (unsigned)(hi + 1)) : hi ? sym_fix(sym_int("choice", k * 32 + hi, 0, hi)) : 0; }
typedef std::vector<std::shared_ptr<UpperTriangularMatrix<int>>> cutv;
struct Any { std::shared_ptr<OPartition> o; std::shared_ptr<HPartition> h; std::shared_ptr<DPartition> d; Sol sol() const { return o ? Prob::sol(*o) : h ? Prob::sol(*h) : Prob::sol(*d); } };
static Sol want; // extents the caller asked for
static void add(int h, int i, int j) { want.parts.push_back(PartR{h, i, j, 0, 0, 0}); }
static void hie(Prob &P, int h, std::vector<bool> &agg) {
  if (P.t.kids[h].empty() || choose(1) == 0) { agg[h] = true; add(h, 0, 0); return; }
  agg[h] = false; for (int c : P.t.kids[h]) hie(P, c, agg);
}
static void spt(Prob &P, int h, int i, int j, cutv &cuts) {
  bool inner = !P.t.kids[h].empty(); int c = choose(j - i + (inner ? 1 : 0));
  if (c == 0) { (*cuts[h])(i, j, j); add(h, i, j); return; }
  if (inner && c == 1) { (*cuts[h])(i, j, -1); for (int k : P.t.kids[h]) spt(P, k, i, j, cuts); return; }
  int at = i + c - 1 - (inner ? 1 : 0);
  (*cuts[h])(i, j, at); spt(P, h, i, at, cuts); spt(P, h, at + 1, j, cuts);
}
static bool sameSol(const Sol &a, const Sol &b) {
  bool ok = a.parts.size() == b.parts.size(); if (!ok) return false;
  for (size_t k = 0; k < a.parts.size(); k++) ok &= a.parts[k].h == b.parts[k].h && a.parts[k].s == b.parts[k].s && a.parts[k].e == b.parts[k].e && a.parts[k].size == b.parts[k].size;
  return ok;
}
static bool sameMeta(const HValuesMetaData &m0, const HValuesMetaData &n0) {
  HValuesMetaData m = m0, n = n0;
  if (m.getHsize() != n.getHsize() || m.getRoot() != n.getRoot() || m.getSize() != n.getSize() || m.getPath() != n.getPath() || m.getParents() != n.getParents()) return false;
  for (int h = 0; h < (int)m.getHsize(); h++) if (m.getChildren()[h] != n.getChildren()[h]) return false;
  return true;
}
static Any again(const Any &a) {
  Any b;
  if (a.o) b.o.reset(new OPartition(a.o->getCuts(), a.o->getQualities(), a.o->getParameter()));
  if (a.h) b.h.reset(new HPartition(a.h->getAggregated(), a.h->getQualities(), a.h->getParameter(), a.h->getMetaData()));
  if (a.d) b.d.reset(new DPartition(a.d->getCuts(), a.d->getQualities(), a.d->getParameter(), a.d->getMetaData()));
  return b;
}
static Any other(const Any &a, Prob &R, float p) { // the same extents, other qualities
  Any b;
  if (a.o) b.o.reset(new OPartition(a.o->getCuts(), R.oq, p));
  if (a.h) b.h.reset(new HPartition(a.h->getAggregated(), R.hq, p, a.h->getMetaData()));
  if (a.d) b.d.reset(new DPartition(a.d->getCuts(), R.dq, p, a.d->getMetaData()));
  return b;
}
static void carries(Prob &P, const Sol &s, const char *w) {
  LD g = 0, l = 0; bool ok = true;
  for (const PartR &x : s.parts) { if (!P.inside(x)) { sym_assert(false, w); return; } LD a = P.G[x.h][P.at(x.s, x.e)], b = P.L[x.h][P.at(x.s, x.e)]; ok &= (x.g == a) & (x.l == b); g += a; l += b; }
  sym_assert(ok, w); sym_assert(sym_close(s.g * P.inv, g * P.inv) && sym_close(s.l * P.inv, l * P.inv), "the quality is the sum of its parts'");
}
static bool holds(Prob &P, const Any &a) { // the qualities it reports are those supplied
  bool ok = true;
  for (int h = 0; h < P.H; h++) for (int i = 0; i < P.n; i++) for (int j = i; j < P.n; j++) {
    std::shared_ptr<Quality> q = a.o ? (*a.o->getQualities())(i, j) : a.h ? (*a.h->getQualities())[h] : (*(*a.d->getQualities())[h])(i, j);
    ok &= (q->getGain() == P.G[h][P.at(i, j)]) & (q->getLoss() == P.L[h][P.at(i, j)]);
  }
  return ok;
}
extern "C" void harness_main() {
  Prob P, R; P.setup(); P.fill(); P.build();
  R.setup(); for (int h = 0; h < R.H; h++) for (int i = 0; i < R.n; i++) for (int j = i; j < R.n; j++) { unsigned m = mix(11, h, i * 64 + j); R.G[h][R.at(i, j)] = m % 7; R.L[h][R.at(i, j)] = m / 7 % 5; } R.build();
  Any a; float p;
  if (sym_param("mode", 0) == 0) {
    p = sym_param("pn", -1) >= 0 ? sym_param("pn", 0) / 16.0f : sym_float("p", 0, 0, 1);
    if (P.kind == ORD) a.o = P.op->computeBestPartition(p); else if (P.kind == HIE) a.h = P.hp->computeBestPartition(p); else a.d = P.dp->computeBestPartition(p);
  } else {
    p = sym_float("p", 0, 0, 1);
    if (P.kind == ORD) { std::vector<int> cuts(P.n, P.n - 1); for (int i = 0; i < P.n; i = cuts[i] + 1) { cuts[i] = i + choose(P.n - 1 - i); add(0, i, cuts[i]); } a.o.reset(new OPartition(cuts, P.oq, p)); sym_assert(a.o->getCuts() == cuts, "the cuts are as given"); }
    else if (P.kind == HIE) { std::vector<bool> agg(P.H, true); hie(P, P.root(), agg); a.h.reset(new HPartition(agg, P.hq, p, *P.md)); sym_assert(a.h->getAggregated() == agg, "the flags are as given"); }
    else {
      cutv cuts; for (int h = 0; h < P.H; h++) { cuts.push_back(std::shared_ptr<UpperTriangularMatrix<int>>(new UpperTriangularMatrix<int>(P.n))); for (int i = 0; i < P.n; i++) for (int j = i; j < P.n; j++) (*cuts[h])(i, j, j); }
      spt(P, P.root(), 0, P.n - 1, cuts); a.d.reset(new DPartition(cuts, P.dq, p, *P.md));
      cutv c = a.d->getCuts(); bool ok = c.size() == cuts.size(); for (int h = 0; ok && h < P.H; h++) for (int i = 0; i < P.n; i++) for (int j = i; j < P.n; j++) if ((*c[h])(i, j) != (*cuts[h])(i, j)) ok = false;
      sym_assert(ok, "the cuts are as given");
    }
    Sol s = a.sol(); bool ok = sameParts(s, want); for (size_t k = 0; ok && k < s.parts.size(); k++) ok = s.parts[k].size == P.sizeOf(s.parts[k].h, s.parts[k].s, s.parts[k].e);
    sym_assert(ok, "the parts are those described");
  }
  Sol s = a.sol(); P.outs(s);
  sym_assert(s.p == p, "the parameter is as given"); sym_assert(holds(P, a), "the qualities are as given");
  if (a.h) sym_assert(sameMeta(a.h->getMetaData(), *P.md), "the metadata is as given"); if (a.d) sym_assert(sameMeta(a.d->getMetaData(), *P.md), "the metadata is as given");
  carries(P, s, "parts carry the qualities given");
  Any b = again(a); Sol t = b.sol();
  sym_assert(sameSol(s, t), "rebuilt from its description: the same parts"); sym_assert((t.g == s.g) & (t.l == s.l) & (t.p == s.p), "rebuilt from its description: the same quality and parameter");
  carries(P, t, "rebuilt parts carry the qualities given");
  Any c = other(a, R, 0.25f); Sol u = c.sol();
  sym_assert(sameSol(s, u) && u.p == 0.25f, "with other qualities: the same parts"); carries(R, u, "with other qualities: parts carry those");
  Any d = again(b); sym_assert(sameSol(s, d.sol()), "rebuilt twice: the same parts"); sym_assert(sameSol(s, a.sol()), "the original stays"); carries(P, a.sol(), "the original keeps its qualities");
}
