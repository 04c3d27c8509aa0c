// Shared pieces of the harnesses: symbolic data, trees, reference models.
#pragma once
#include "sym.h"
static const long double PTOL = 1e-6L; // where the single-precision 1-p of the library enters
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <tuple>
#include <vector>
#include "daggregationn.h"
#include "dpartitioner.h"
#include "haggregationn.h"
#include "hpartitioner.h"
#include "oaggregationn.h"
#include "opartitioner.h"
#include "tradeoff.h"
using namespace lpaggreg;
typedef long double LD;

// deterministic pseudo-random data for the concrete cells of partly symbolic configurations
inline unsigned mix(unsigned a, unsigned b, unsigned c) {
  unsigned h = a * 2654435761u ^ b * 2246822519u ^ c * 3266489917u;
  h ^= h >> 15; h *= 2246822519u; h ^= h >> 13; h *= 3266489917u; h ^= h >> 16;
  return h;
}
// A cell of input data.  With parameter stride=1 every cell is symbolic; with stride=k about one
// cell in k is symbolic and the others hold seeded multiples of 1/8 (stride=0: none symbolic).
struct Cells {
  int stride, seed, zero;
  Cells() : stride(sym_param("stride", 1)), seed(sym_param("seed", 1)), zero(sym_param("zero", 0)) {}
  bool sym(int salt, int idx) const { return stride == 1 || (stride > 1 && mix(seed, salt, idx) % (unsigned)stride == 0); }
  LD conc(int salt, int idx, LD lo, LD hi) const {
    unsigned r = mix(seed * 31 + 7, salt, idx);
    if (zero && lo <= 0 && r % 5 == 0) return 0;
    LD step = (hi - lo) / 64; return lo + step * (LD)(r / 7 % 65);
  }
  LD ld(const char *n, int salt, int idx, LD lo, LD hi) const { return sym(salt, idx) ? sym_ld(n, idx, lo, hi) : conc(salt, idx, lo, hi); }
  double d(const char *n, int salt, int idx, double lo, double hi) const { return sym(salt, idx) ? sym_real(n, idx, lo, hi) : (double)conc(salt, idx, lo, hi); }
};

inline LD pow2() { LD u = 1; for (int k = sym_param("pow2", 0); k > 0; k--) u *= 2; for (int k = sym_param("pow2", 0); k < 0; k++) u /= 2; return u; }

// ------------------------------------------------------------------ trees (leaves first, '-' marks the root)
struct Tree {
  std::vector<int> par; int n, l, root;
  std::vector<std::vector<int>> kids, leaves;
  Tree() : n(0), l(0), root(-1) {}
  explicit Tree(const std::vector<int> &p) : par(p), n((int)p.size()), l(0), root(-1), kids(p.size()), leaves(p.size()) {
    for (int i = 0; i < n; i++) if (par[i] >= 0) kids[par[i]].push_back(i); else root = i;
    for (int i = 0; i < n; i++) if (kids[i].empty()) l++;
    for (int i = 0; i < l; i++) { int x = i; while (x != -1) { leaves[x].push_back(i); x = par[x]; } }
  }
  bool under(int x, int h) const { while (x != -1) { if (x == h) return true; x = par[x]; } return false; }
};
static const char *const TREES[] = {
  "1-",           // 0 one leaf below a root
  "22-",          // 1 two leaves
  "333-",         // 2 three leaves
  "3344-",        // 3 a leaf next to an inner node
  "443-3",        // 4 the same, root numbered before the other inner node
  "445566-",      // 5 balanced binary
  "5566-44",      // 6 balanced binary, root first
  "445656-",      // 7 comb
  "6654-45",      // 8 comb numbered from the root down
  "2234-",        // 9 nodes with a single child
  "454566-",      // 10 interleaved siblings
  "5566777-",     // 11 five leaves, two levels, one leaf below the root
  "55555-",       // 12 five leaves below the root
  "66778899aa-",  // 13 six leaves, three levels, unbalanced
  "66775-55",     // 14 root before both inner nodes, a leaf below the root
  "4354-3",       // 15 comb, middle numbering
  "88899aacbbcc-" // 16 eight leaves, four levels
};
inline std::vector<int> treePar(int k) {
  std::vector<int> r;
  for (const char *c = TREES[k]; *c; c++) r.push_back(*c == '-' ? -1 : *c <= '9' ? *c - '0' : *c - 'a' + 10);
  return r;
}
// bigger trees by construction: kind 0 a comb of `l` leaves, 1 balanced binary, 2 seeded random, 3 all leaves below the root,
// 6 pairs of leaves below the root, 4 wide: leaves in groups of uneven size below the root, 5 deep: chains of single children above a few leaves
inline std::vector<int> treeGen(int kind, int l, int seed) {
  std::vector<int> par(l, -1), open;
  unsigned k = 0;
  if (kind == 3) { for (int i = 0; i < l; i++) par[i] = l; par.push_back(-1); }
  else if (kind == 4) {
    int groups = 2 + (int)(mix(seed, 0, 9) % 4u), root = l + groups; par.resize(root + 1, -1);
    for (int i = 0; i < l; i++) { int g = (int)(mix(seed, i, 8) % (unsigned)(groups + 1)); if (i < groups) g = i; par[i] = g == groups ? root : l + (g * g) % groups == l + g ? l + g : l; }
    for (int g = 0; g < groups; g++) par[l + g] = root;
    std::vector<int> has(root + 1, 0); for (int i = 0; i < l; i++) has[par[i]]++; for (int g = 0; g < groups; g++) if (!has[l + g]) par[g] = l + g;
  } else if (kind == 6) {
    int g = (l + 1) / 2; par.resize(l + g + 1, -1); for (int i = 0; i < l; i++) par[i] = l + i / 2; for (int k = 0; k < g; k++) par[l + k] = l + g;
  } else if (kind == 5) {
    int depth = sym_param("depth", 20), at = l; par.resize(l + depth, -1);
    for (int i = 0; i < l; i++) par[i] = l + (int)(mix(seed, i, 7) % (unsigned)depth); par[0] = l;
    for (int d = 0; d + 1 < depth; d++) par[at + d] = at + d + 1;
  }
  else for (int i = 0; i < l; i++) open.push_back(i);
  while (open.size() > 1) {
    int take = kind == 0 ? 2 : kind == 1 ? 2 : 1 + (int)(mix(seed, k, 1) % 3u); if (take > (int)open.size()) take = (int)open.size();
    if (kind == 2 && open.size() == 2) take = 2;
    int at = kind == 0 ? (int)open.size() - take : kind == 1 ? 0 : (int)(mix(seed, k, 2) % (open.size() - take + 1)); k++;
    int id = (int)par.size(); par.push_back(-1);
    for (int i = 0; i < take; i++) par[open[at + i]] = id;
    open.erase(open.begin() + at, open.begin() + at + take);
    if (kind == 1) open.push_back(id); else open.insert(open.begin() + at, id);
  }
  if (l == 1) { par[0] = 1; par.push_back(-1); }
  // renumber the inner nodes
  int n = (int)par.size(), rot = sym_param("rot", 0); if (!rot) return par;
  std::vector<int> q(n);
  std::vector<int> pos(n); for (int i = 0; i < n; i++) pos[i] = i < l ? i : l + ((i - l) + rot) % (n - l);
  for (int i = 0; i < n; i++) q[pos[i]] = par[i] < 0 ? -1 : pos[par[i]];
  return q;
}
inline Tree paramTree() {
  int g = sym_param("gen", -1);
  if (g >= 0) return Tree(treeGen(g, sym_param("leaves", 8), sym_param("tseed", 1)));
  return Tree(treePar(sym_param("tree", 1)));
}

// ------------------------------------------------------------------ one aggregation problem, any of the three kinds
struct PartR { int h, s, e, size; LD g, l; };
struct Sol { std::vector<PartR> parts; LD g, l; float p; };
inline LD critOf(LD g, LD l, LD p) { return p * g - (1 - p) * l; }
enum { ORD = 0, HIE = 1, SPT = 2 };
struct Prob {
  LD inv = 1; // comparisons are made in units of 2^pow2, the scale of the data
  int kind, n, H; Tree t; // n slices, H nodes
  std::vector<std::vector<LD>> G, L;
  oqualities oq; hqualities hq; dqualities dq;
  std::shared_ptr<OPartitioner> op; std::shared_ptr<HPartitioner> hp; std::shared_ptr<DPartitioner> dp;
  std::shared_ptr<HValuesMetaData> md;
  int root() const { return kind == ORD ? 0 : t.root; }
  int at(int i, int j) const { return i * n + j; }
  int sizeOf(int h, int s, int e) const { return (kind == ORD ? 1 : (int)t.leaves[h].size()) * (e - s + 1); }
  void setup() {
    kind = sym_param("kind", 0); n = kind == HIE ? 1 : sym_param("n", 2); H = 1;
    if (kind != ORD) { t = paramTree(); H = t.n; }
    G.assign(H, std::vector<LD>(n * n)); L = G;
  }
  // qualities in [lo,hi]; mono=1: shaped like real ones (>= 0)
  // gpow: gains in units of 2^gpow, so that the parameters that matter are near 0
  void fill() { fill0(); for (int k = sym_param("gpow", 0); k > 0; k--) for (auto &a : G) for (LD &x : a) x *= 2; LD u = pow2(); inv = 1 / u; if (u != 1) for (int h = 0; h < H; h++) for (size_t k = 0; k < G[h].size(); k++) { G[h][k] *= u; L[h][k] *= u; } }
  void fill0() {
    Cells c; LD hi = sym_param("hi", 8), lo = sym_param("lo", -8);
    if (sym_param("scale", 0)) { LD s = 1; for (int i = sym_param("scale", 0); i > 0; i--) s *= 10; hi *= s; lo *= s; }
    if (sym_param("shape", 0) == 2) { narrow(); return; }
    if (sym_param("shape", 0) == 3) { ladder(); return; }
    if (sym_param("shape", 0) == 4) { edges(); return; }
    if (sym_param("shape", 0)) { shaped(); return; }
    for (int h = 0; h < H; h++) for (int i = 0; i < n; i++) for (int j = i; j < n; j++) {
      int x = h * n * n + at(i, j);
      G[h][at(i, j)] = c.ld("g", 1, x, lo, hi); L[h][at(i, j)] = c.ld("l", 2, x, lo, hi);
    }
  }
  // shape=1: large problems whose best partitions are two planted ones, A below p=1/2 and B above (total criteria near
  // 8(1-p) and 8p), every other cell a constant loss of the criterion; the first `symplan` planted cells symbolic
  struct Box { int h, s, e; };
  void plan(int h, int i, int j, unsigned salt, int depth, std::vector<Box> &out) const {
    unsigned r = mix(sym_param("seed", 1) * 77 + salt, h * 131 + i, j);
    bool inner = kind != ORD && !t.kids[h].empty(); int maxPart = sym_param("maxpart", n), minCut = sym_param("mincut", 1);
    if (inner && (depth < sym_param("force", 1) || r % 3 == 0)) { for (int c : t.kids[h]) plan(c, i, j, salt, depth + 1, out); return; }
    if (j - i + 1 > maxPart || (j > i && j - i + 1 > minCut && r % 2 == 0)) { int k = i + (int)(r / 8 % (unsigned)(j - i)); if (sym_param("early", 0) && k > i + 1) k = i + 1; plan(h, i, k, salt + 1, depth, out); plan(h, k + 1, j, salt + 2, depth, out); return; }
    out.push_back(Box{h, i, j});
  }
  void shaped() {
    Cells c;
    for (int h = 0; h < H; h++) for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { LD a = 1 + (LD)(mix(c.seed, h, at(i, j)) % 8u) / 8; G[h][at(i, j)] = -a; L[h][at(i, j)] = a; }
    std::vector<Box> A, B; plan(root(), 0, n - 1, 1, 0, A); if (!sym_param("one", 0)) plan(root(), 0, n - 1, 501, 0, B); else B = A;
    int sp = sym_param("symplan", 1);
    for (Box &b : A) { G[b.h][at(b.s, b.e)] = 0; L[b.h][at(b.s, b.e)] = 0; } for (Box &b : B) { G[b.h][at(b.s, b.e)] = 0; L[b.h][at(b.s, b.e)] = 0; }
    int ia = 1, ib = 1; while (ia < (int)A.size()) ia *= 2; while (ib < (int)B.size()) ib *= 2; // exact in any precision
    for (Box &b : A) L[b.h][at(b.s, b.e)] -= sp-- > 0 ? sym_ld("a", sp, 4.0L / ia, 12.0L / ia) : 8.0L / ia; sp = sym_param("symplan", 1);
    for (Box &b : B) G[b.h][at(b.s, b.e)] += sp-- > 0 ? sym_ld("b", sp, 4.0L / ib, 12.0L / ib) : 8.0L / ib;
  }
  // shape=2: three nested partitions, the middle one best only within 2*delta of p0 (both symbolic): the whole has criterion 0,
  // the finest p-p0, the middle one (p-p0)/2+delta; every other cell is a constant loss
  void narrow() {
    for (int h = 0; h < H; h++) for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { G[h][at(i, j)] = -4; L[h][at(i, j)] = 4; }
    LD w = 1; for (int k = sym_param("wexp", 12); k > 0; k--) w /= 2;
    LD p0 = sym_param("p0", 341) / 1024.0L, d = sym_ld("delta", 0, w / 2, w); if (sym_param("sym0", 1)) p0 += sym_ld("p0", 0, 0, w);
    int r = root(); auto put = [&](int h, int i, int j, LD g, LD l) { G[h][at(i, j)] = g; L[h][at(i, j)] = l; };
    put(r, 0, n - 1, 0, 0);
    if (kind == ORD) { put(0, 0, n - 2, (1 - p0) / 2 + d, p0 / 2 - d); put(0, n - 1, n - 1, 0, 0); for (int i = 0; i < n - 1; i++) put(0, i, i, 0, 0); put(0, 0, 0, 1 - p0, p0); return; }
    // kinds with a tree: the middle one splits the root once
    int c0 = t.kids[r][0]; for (int c : t.kids[r]) { put(c, 0, n - 1, 0, 0); if (!t.kids[c].empty()) c0 = c; }
    put(c0, 0, n - 1, (1 - p0) / 2 + d, p0 / 2 - d);
    if (kind == HIE) { bool first = true; for (int l : t.leaves[c0]) { put(l, 0, 0, first ? 1 - p0 : 0, first ? p0 : 0); first = false; } return; }
    put(c0, 0, 0, 1 - p0, p0); for (int i = 1; i < n; i++) put(c0, i, i, 0, 0); if (n > 2) put(c0, 1, n - 1, 0, 0);
  }
  // shape=3: many partitions in one sweep.  Step m pays as soon as p/(1-p) >= m/4 (up to a small shift, the first `symplan`
  // of them symbolic); the steps are independent groups of leaves, pairs of slices (pairs=1) or growing prefixes
  void ladder() {
    LD off = sym_param("off", 4);
    for (int h = 0; h < H; h++) for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { G[h][at(i, j)] = -off; L[h][at(i, j)] = off; }
    int sp = sym_param("symplan", 0), pairs = sym_param("pairs", 0); std::vector<int> grp;
    if (kind == ORD) { for (int i = 0; i < n; i++) G[0][at(i, i)] = L[0][at(i, i)] = 0; for (int k = 1; k < n; k += pairs ? 2 : 1) grp.push_back(k); }
    else for (int h = 0; h < H; h++) if (t.kids[h].empty()) for (int i = 0; i < n; i++) for (int j = i; j < n; j++) G[h][at(i, j)] = L[h][at(i, j)] = 0; else if (h != root()) grp.push_back(h);
    int N = (int)grp.size(), u = 1; while (u < N) u *= 2; LD cg = 0, cl = 0;
    for (int k = 0; k < N; k++) {
      int m = 1 + (kind == ORD && !pairs ? k : (int)((k * (N % 7 ? 7u : 11u) + mix(sym_param("seed", 1), 3, 5) % 16u) % (unsigned)N));
      LD shift = m <= sp ? sym_ld("shift", m, 0, 1.0L / 16) : (LD)(mix(sym_param("seed", 1), m, 77) % 5u) / 64, g = 1.0L / u, l = (m / 4.0L + shift) / u;
      if (kind == ORD && !pairs) { cg += g; cl += l; G[0][at(0, grp[k])] = cg; L[0][at(0, grp[k])] = cl; }
      else if (kind == ORD) { G[0][at(grp[k] - 1, grp[k])] = g; L[0][at(grp[k] - 1, grp[k])] = l; }
      else { G[grp[k]][at(0, n - 1)] = g; L[grp[k]][at(0, n - 1)] = l; }
    }
  }
  // shape=4: long time ranges whose best partition cuts each planted node once, at a symbolic place near an end or in the middle,
  // whatever p is: the planted cells gain 1 (two of them symbolic), every other cell loses; low=1: planted below the root
  void edges() {
    for (int h = 0; h < H; h++) for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { LD a = 1 + (LD)(mix(sym_param("seed", 1), h, at(i, j)) % 8u) / 8; G[h][at(i, j)] = -a; L[h][at(i, j)] = a; }
    const int at0[] = {n - 2, 0, n > 65 ? 64 : n / 3, n / 2, n - 3, 1}; std::vector<int> on;
    if (kind != ORD && sym_param("low", 0)) for (int c : t.kids[t.root]) on.push_back(c); else on.push_back(root());
    for (size_t m = 0; m < on.size(); m++) {
      int k = at0[m ? 0 : sym_fix(sym_int("where", 0, 0, sym_param("places", 6) - 1))], h = on[m]; LD a = m ? 1 : sym_ld("a", 0, 1.25L, 2);
      G[h][at(0, k)] = a; L[h][at(0, k)] = -a; G[h][at(k + 1, n - 1)] = 1; L[h][at(k + 1, n - 1)] = -1;
    }
  }
  // alias=k: the cells share k quality objects
  int cls(int h, int i, int j) const { return (int)(mix(sym_param("seed", 1), h, at(i, j)) % (unsigned)sym_param("alias", 1)); }
  std::map<int, std::shared_ptr<Quality>> shared;
  std::shared_ptr<Quality> made(int h, int i, int j) {
    LD &g = G[h][at(i, j)], &l = L[h][at(i, j)];
    if (!sym_param("alias", 0)) return std::shared_ptr<Quality>(new Quality(g, l));
    std::shared_ptr<Quality> &x = shared[cls(h, i, j)]; if (!x) x.reset(new Quality(g, l));
    g = x->getGain(); l = x->getLoss(); return x;
  }
  // a NaN or infinity at a symbolic place
  void special() {
    int kind = sym_param("special", 0); if (!kind) return;
    LD inf = std::numeric_limits<LD>::infinity(), nan = std::numeric_limits<LD>::quiet_NaN();
    LD v = kind % 3 == 1 ? nan : kind % 3 == 2 ? inf : -inf;
    int total = H * n * n, all = sym_param("specials", 1);
    for (int k = 0; k < all; k++) {
      int c = sym_fix(sym_int("cell", k, 0, total - 1)), h = c / (n * n), i = c / n % n, j = c % n;
      if (j < i) continue;
      if (kind < 4 || kind > 6) G[h][at(i, j)] = v;
      if (kind >= 4) L[h][at(i, j)] = v;
    }
    if (sym_param("everywhere", 0)) for (int h = 0; h < H; h++) for (LD &x : G[h]) x = v;
  }
  oqualities mat(int h) {
    oqualities q(new UpperTriangularMatrix<std::shared_ptr<Quality>>(n));
    for (int i = 0; i < n; i++) for (int j = i; j < n; j++) { std::shared_ptr<Quality> x = made(h, i, j); (*q)(i, j, x); }
    return q;
  }
  void build() {
    if (kind != ORD) md.reset(new HValuesMetaData(t.l, t.par));
    if (kind == ORD) oq = mat(0);
    else if (kind == HIE) { hq.reset(new std::vector<std::shared_ptr<Quality>>()); for (int h = 0; h < H; h++) hq->push_back(made(h, 0, 0)); }
    else { dq.reset(new std::vector<oqualities>()); for (int h = 0; h < H; h++) dq->push_back(mat(h)); }
    partitioner();
  }
  void partitioner() {
    bool viaQ = sym_param("via", 0) != 0; // through the qualities object instead of the raw container
    if (kind == ORD) op.reset(viaQ ? new OPartitioner(OQualities(oq)) : new OPartitioner(oq));
    else if (kind == HIE) hp.reset(viaQ ? new HPartitioner(HQualities(hq, *md)) : new HPartitioner(hq, *md));
    else dp.reset(viaQ ? new DPartitioner(DQualities(dq, *md)) : new DPartitioner(dq, *md));
  }
  std::shared_ptr<Quality> cell(int h, int i, int j) { return kind == ORD ? (*oq)(i, j) : kind == HIE ? (*hq)[h] : (*(*dq)[h])(i, j); }
  static Sol sol(OPartition &r) { Sol s; for (OPart x : r.getParts()) s.parts.push_back(PartR{0, x.getStart(), x.getEnd(), x.getSize(), x.getQuality()->getGain(), x.getQuality()->getLoss()}); fin(s, r); return s; }
  static Sol sol(HPartition &r) { Sol s; for (HPart x : r.getParts()) s.parts.push_back(PartR{x.getH(), 0, 0, x.getSize(), x.getQuality()->getGain(), x.getQuality()->getLoss()}); fin(s, r); return s; }
  static Sol sol(DPartition &r) { Sol s; for (DPart x : r.getParts()) s.parts.push_back(PartR{x.getH(), x.getStart(), x.getEnd(), x.getSize(), x.getQuality()->getGain(), x.getQuality()->getLoss()}); fin(s, r); return s; }
  static void fin(Sol &s, Partition &r) { s.g = r.getQuality()->getGain(); s.l = r.getQuality()->getLoss(); s.p = r.getParameter(); }
  Sol solve(float p) {
    if (kind == ORD) return sol(*op->computeBestPartition(p));
    if (kind == HIE) return sol(*hp->computeBestPartition(p));
    return sol(*dp->computeBestPartition(p));
  }
  Partitioner &base() { if (kind == ORD) return *op; if (kind == HIE) return *hp; return *dp; }
  // def=1..4: leave out the upper bound (odd) or both (even), through each of the two types
  void sweep(float th, float mn, float mx) {
    int d = sym_param("def", 0); if (d && (mx != 1 || (d % 2 == 0 && mn != 0))) d = 0;
    if (!d) base().computeBestPartitions(th, mn, mx);
    else if (d == 1) base().computeBestPartitions(th, mn);
    else if (d == 2) base().computeBestPartitions(th);
    else if (kind == ORD) { if (d == 3) op->computeBestPartitions(th, mn); else op->computeBestPartitions(th); }
    else if (kind == HIE) { if (d == 3) hp->computeBestPartitions(th, mn); else hp->computeBestPartitions(th); }
    else { if (d == 3) dp->computeBestPartitions(th, mn); else dp->computeBestPartitions(th); }
  }
  std::map<float, Sol> partitions() {
    std::map<float, Sol> m;
    if (kind == ORD) for (auto &x : op->getPartitions()) m[x.first] = sol(*x.second);
    if (kind == HIE) for (auto &x : hp->getPartitions()) m[x.first] = sol(*x.second);
    if (kind == SPT) for (auto &x : dp->getPartitions()) m[x.first] = sol(*x.second);
    return m;
  }
  struct Tup { float p; PartR r; };
  std::vector<Tup> tuples() {
    std::vector<Tup> v;
    if (kind == ORD) for (auto &x : op->getPartitionsTuples()) v.push_back(Tup{std::get<0>(x), PartR{0, std::get<1>(x), std::get<2>(x), std::get<2>(x) - std::get<1>(x) + 1, std::get<3>(x), std::get<4>(x)}});
    if (kind == HIE) for (auto &x : hp->getPartitionsTuples()) v.push_back(Tup{std::get<0>(x), PartR{std::get<1>(x), 0, 0, std::get<2>(x), std::get<3>(x), std::get<4>(x)}});
    if (kind == SPT) for (auto &x : dp->getPartitionsTuples()) v.push_back(Tup{std::get<0>(x), PartR{std::get<1>(x), std::get<3>(x), std::get<4>(x), std::get<2>(x), std::get<5>(x), std::get<6>(x)}});
    return v;
  }
  LD crit(int h, int i, int j, LD p) const { return critOf(G[h][at(i, j)], L[h][at(i, j)], p); }
  LD critSol(const Sol &s, LD p) const { LD c = 0; for (const PartR &x : s.parts) c += crit(x.h, x.s, x.e, p); return c; }
  bool inside(const PartR &x) const { return x.h >= 0 && x.h < H && x.s >= 0 && x.s <= x.e && x.e < n; }
  // criterion of every partition of (h,i..j) reachable by recursive splits
  void alts(int h, int i, int j, LD p, std::vector<LD> &out) const {
    out.push_back(crit(h, i, j, p));
    if (kind != ORD && !t.kids[h].empty()) {
      std::vector<LD> acc(1, 0.0L);
      for (int c : t.kids[h]) { std::vector<LD> a, nx; alts(c, i, j, p, a); for (LD x : acc) for (LD y : a) nx.push_back(x + y); acc = nx; }
      out.insert(out.end(), acc.begin(), acc.end());
    }
    for (int k = i; k < j; k++) { // leftmost piece not cut at its right end would repeat partitions: cut off a first part
      std::vector<LD> a, b; altsNoCut(h, i, k, p, a); alts(h, k + 1, j, p, b);
      for (LD x : a) for (LD y : b) out.push_back(x + y);
    }
  }
  void altsNoCut(int h, int i, int j, LD p, std::vector<LD> &out) const {
    out.push_back(crit(h, i, j, p));
    if (kind != ORD && !t.kids[h].empty()) {
      std::vector<LD> acc(1, 0.0L);
      for (int c : t.kids[h]) { std::vector<LD> a, nx; alts(c, i, j, p, a); for (LD x : acc) for (LD y : a) nx.push_back(x + y); acc = nx; }
      out.insert(out.end(), acc.begin(), acc.end());
    }
  }
  // the best criterion by an independent dynamic program (comparisons fork)
  LD best(LD p) const {
    if (kind == ORD) { std::vector<LD> f(n + 1, 0); for (int i = n - 1; i >= 0; i--) { f[i] = crit(0, i, n - 1, p); for (int k = i; k + 1 < n; k++) { LD s = crit(0, i, k, p) + f[k + 1]; if (s > f[i]) f[i] = s; } } return f[0]; }
    std::vector<std::vector<LD>> b(H, std::vector<LD>(n * n));
    std::vector<int> order; post(root(), order);
    for (int h : order) for (int len = 1; len <= n; len++) for (int i = 0; i + len <= n; i++) {
      int j = i + len - 1; LD v = crit(h, i, j, p);
      if (kind != ORD && !t.kids[h].empty()) { LD s = 0; for (int c : t.kids[h]) s += b[c][at(i, j)]; if (s > v) v = s; }
      for (int k = i; k < j; k++) { LD s = b[h][at(i, k)] + b[h][at(k + 1, j)]; if (s > v) v = s; }
      b[h][at(i, j)] = v;
    }
    return b[root()][at(0, n - 1)];
  }
  void post(int h, std::vector<int> &o) const { if (kind != ORD) for (int c : t.kids[h]) post(c, o); o.push_back(h); }
  void outs(const Sol &s, int salt = 0) const { for (size_t k = 0; k < s.parts.size(); k++) { sym_out("h", salt * 10007 + (int)k, s.parts[k].h); sym_out("s", salt * 10007 + (int)k, s.parts[k].s); sym_out("e", salt * 10007 + (int)k, s.parts[k].e); } }
};
inline bool sameParts(const Sol &a, const Sol &b) {
  if (a.parts.size() != b.parts.size()) return false;
  std::vector<bool> used(b.parts.size(), false);
  for (const PartR &x : a.parts) {
    bool f = false;
    for (size_t k = 0; k < b.parts.size() && !f; k++) if (!used[k] && b.parts[k].h == x.h && b.parts[k].s == x.s && b.parts[k].e == x.e) { used[k] = true; f = true; }
    if (!f) return false;
  }
  return true;
}
