// C16: metadata of every tree with `leaves` leaves and `nodes` nodes (parents symbolic).
#include "common.h"
extern "C" void harness_main() {
  std::vector<int> par; int n, l;
  if (sym_param("gen", -1) >= 0 || sym_param("tree", -1) >= 0) { Tree t = paramTree(); par = t.par; n = t.n; l = t.l; }
  else {
    n = sym_param("nodes", 5); l = sym_param("leaves", 3); par.resize(n);
    for (int i = 0; i < n; i++) par[i] = sym_int("par", i, i < l ? l : -1, n - 1);
    // a tree: inner nodes name inner nodes or nothing, one root, every inner node has a child, no cycle
    int roots = 0;
    for (int i = l; i < n; i++) { sym_assume((par[i] == -1) | (par[i] >= l)); sym_assume(par[i] != i); roots += par[i] == -1; }
    sym_assume(roots == 1);
    for (int i = l; i < n; i++) { int kids = 0; for (int j = 0; j < n; j++) kids += par[j] == i; sym_assume(kids > 0); }
    for (int i = 0; i < n; i++) par[i] = sym_fix(par[i]);
    for (int i = l; i < n; i++) { int x = i, steps = 0; while (x != -1 && steps <= n) { x = par[x]; steps++; } sym_assume(steps <= n); }
  }
  Tree t(par);
  HValuesMetaData m(l, par);
  sym_assert((int)m.getHsize() == n && m.getLeaveSize() == l && m.getParents() == par, "dimensions and parents");
  sym_assert(m.getRoot() == t.root, "root");
  std::map<int, int> sz = m.getSize(); bool ok = (int)sz.size() == n;
  for (int h = 0; h < n && ok; h++) if (!sz.count(h) || sz[h] != (int)t.leaves[h].size()) ok = false;
  sym_assert(ok, "size is the number of leaves below");
  std::vector<std::vector<int>> ch = m.getChildren(); ok = (int)ch.size() == n;
  for (int h = 0; h < n && ok; h++) { std::multiset<int> a(ch[h].begin(), ch[h].end()), b(t.kids[h].begin(), t.kids[h].end()); if (a != b) ok = false; }
  sym_assert(ok, "children are the nodes naming it as parent");
  std::vector<int> path = m.getPath(); ok = (int)path.size() == n; std::vector<int> pos(n, -1);
  for (int k = 0; k < (int)path.size() && ok; k++) { if (path[k] < 0 || path[k] >= n || pos[path[k]] != -1) { ok = false; break; } pos[path[k]] = k; }
  sym_assert(ok, "the processing order lists every node once");
  if (!ok) return;
  for (int k = 0; k < l; k++) if (path[k] != k) ok = false;
  sym_assert(ok, "leaves first in order");
  for (int h = 0; h < n; h++) if (par[h] >= 0 && pos[h] >= pos[par[h]]) ok = false;
  sym_assert(ok, "each node before its parent");
  HValuesMetaData c(m); sym_assert(c.getRoot() == t.root && c.getPath() == path, "copies keep the metadata");
  for (int h = 0; h < n; h++) sym_out("pos", h, pos[h]);
}
