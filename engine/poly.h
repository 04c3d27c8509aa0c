// Exact rational polynomials over symbolic atoms, hash-consed; lowering to Z3 linear arithmetic.
#pragma once
#include <gmpxx.h>
#include <z3++.h>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <memory>
#include <cmath>
#include <cstring>
#include <algorithm>
#include <functional>

typedef mpq_class Rat;

struct Poly;
struct SymBV;

enum AtomKind { A_INPUT, A_UNDEF, A_LOG, A_POLY, A_SQRT, A_RND32, A_RND64, A_INT, A_EXP };

struct Atom {
  int id;
  AtomKind kind;
  std::string name;
  const Poly *arg = nullptr;  // LOG/POLY/SQRT/RND32
  const SymBV *bv = nullptr;  // INT
  bool isSigned = true;
  bool hasLo = false, hasHi = false, isFloat = false; // isFloat: declared as a float (parameters p)
  Rat lo, hi;
};

struct Mono {
  int id;
  std::vector<std::pair<int, int>> f;  // (atom, exponent) sorted
  bool isAtom() const { return f.size() == 1 && f[0].second == 1; }
};

struct Poly {
  int id;
  size_t h;
  std::vector<std::pair<int, Rat>> t;  // (mono id, coeff) sorted by mono id, coeff != 0
  bool isConst() const { return t.empty() || (t.size() == 1 && t[0].first == 0); }
  Rat cval() const { return t.empty() ? Rat(0) : t[0].second; }
};

struct PolyCtx {
  z3::context &z;
  std::vector<Atom *> atoms;
  std::vector<Mono *> monos;
  std::map<std::vector<std::pair<int, int>>, int> monoIdx;
  std::unordered_multimap<size_t, Poly *> polys;
  int npoly = 0;
  std::unordered_map<uint64_t, const Poly *> addC, mulC;
  std::vector<z3::expr *> monoVar;
  std::map<std::pair<int, const Poly *>, int> funAtom;
  std::unordered_map<int, z3::expr *> lowered;

  PolyCtx(z3::context &zz) : z(zz) { getMono({}); }

  int getMono(const std::vector<std::pair<int, int>> &f) {
    auto it = monoIdx.find(f);
    if (it != monoIdx.end()) return it->second;
    Mono *m = new Mono{(int)monos.size(), f};
    monos.push_back(m);
    monoVar.push_back(nullptr);
    monoIdx[f] = m->id;
    return m->id;
  }
  const Poly *intern(std::vector<std::pair<int, Rat>> &&t) {
    size_t h = 1469598103934665603ull;
    for (auto &x : t) {
      h = (h ^ x.first) * 1099511628211ull;
      h = (h ^ mpz_get_ui(x.second.get_num_mpz_t())) * 1099511628211ull;
      h = (h ^ mpz_get_ui(x.second.get_den_mpz_t())) * 1099511628211ull;
      h = (h ^ (size_t)(sgn(x.second) + 1)) * 1099511628211ull;
    }
    auto r = polys.equal_range(h);
    for (auto it = r.first; it != r.second; ++it)
      if (it->second->t == t) return it->second;
    Poly *p = new Poly{npoly++, h, std::move(t)};
    polys.emplace(h, p);
    return p;
  }
  const Poly *constant(const Rat &r) {
    std::vector<std::pair<int, Rat>> t;
    if (r != 0) t.push_back({0, r});
    return intern(std::move(t));
  }
  Atom *newAtom(AtomKind k, const std::string &name) {
    Atom *a = new Atom;
    a->id = atoms.size();
    a->kind = k;
    a->name = name;
    atoms.push_back(a);
    return a;
  }
  const Poly *atomPoly(int a, int e = 1) {
    std::vector<std::pair<int, Rat>> t;
    t.push_back({getMono({{a, e}}), Rat(1)});
    return intern(std::move(t));
  }
  // atom standing for a function of a polynomial, one per (kind, argument)
  const Poly *fun(AtomKind k, const Poly *arg) {
    auto key = std::make_pair((int)k, arg);
    auto it = funAtom.find(key);
    if (it != funAtom.end()) return atomPoly(it->second);
    Atom *a = newAtom(k, (k == A_LOG ? "log" : k == A_SQRT ? "sqrt" : k == A_RND32 ? "rnd32_" : k == A_RND64 ? "rnd64_" : k == A_EXP ? "exp" : "poly") + std::to_string(atoms.size()));
    a->arg = arg;
    funAtom[key] = a->id;
    return atomPoly(a->id);
  }
  const Poly *scale(const Poly *a, const Rat &c) {
    if (c == 0) return constant(0);
    std::vector<std::pair<int, Rat>> t = a->t;
    for (auto &x : t) x.second *= c;
    return intern(std::move(t));
  }
  const Poly *addScaled(const Poly *a, const Poly *b, int s) {
    uint64_t key = ((uint64_t)a->id << 33) | ((uint64_t)b->id << 1) | (s < 0);
    auto it = addC.find(key);
    if (it != addC.end()) return it->second;
    std::vector<std::pair<int, Rat>> t;
    size_t i = 0, j = 0;
    while (i < a->t.size() || j < b->t.size()) {
      if (j >= b->t.size() || (i < a->t.size() && a->t[i].first < b->t[j].first)) t.push_back(a->t[i++]);
      else if (i >= a->t.size() || b->t[j].first < a->t[i].first) {
        t.push_back({b->t[j].first, s < 0 ? Rat(-b->t[j].second) : b->t[j].second});
        j++;
      } else {
        Rat c = s < 0 ? Rat(a->t[i].second - b->t[j].second) : Rat(a->t[i].second + b->t[j].second);
        if (c != 0) t.push_back({a->t[i].first, c});
        i++, j++;
      }
    }
    const Poly *r = intern(std::move(t));
    addC[key] = r;
    return r;
  }
  const Poly *add(const Poly *a, const Poly *b) { return addScaled(a, b, 1); }
  const Poly *sub(const Poly *a, const Poly *b) { return addScaled(a, b, -1); }
  int mulMono(int x, int y) {
    if (x == 0) return y;
    if (y == 0) return x;
    auto &f = monos[x]->f, &g = monos[y]->f;
    std::vector<std::pair<int, int>> r;
    size_t i = 0, j = 0;
    while (i < f.size() || j < g.size()) {
      if (j >= g.size() || (i < f.size() && f[i].first < g[j].first)) r.push_back(f[i++]);
      else if (i >= f.size() || g[j].first < f[i].first) r.push_back(g[j++]);
      else {
        int e = f[i].second + g[j].second;
        if (e) r.push_back({f[i].first, e});
        i++, j++;
      }
    }
    return getMono(r);
  }
  const Poly *mul(const Poly *a, const Poly *b) {
    if (a->isConst()) return scale(b, a->cval());
    if (b->isConst()) return scale(a, b->cval());
    if (a->id > b->id) std::swap(a, b);
    uint64_t key = ((uint64_t)a->id << 32) | (uint64_t)b->id;
    auto it = mulC.find(key);
    if (it != mulC.end()) return it->second;
    std::map<int, Rat> m;
    for (auto &x : a->t)
      for (auto &y : b->t) m[mulMono(x.first, y.first)] += x.second * y.second;
    std::vector<std::pair<int, Rat>> t;
    for (auto &x : m)
      if (x.second != 0) t.push_back(x);
    const Poly *r = intern(std::move(t));
    mulC[key] = r;
    return r;
  }
  // 1/a for a known to be non-zero on the path
  const Poly *inv(const Poly *a) {
    if (a->t.size() == 1) {
      auto f = monos[a->t[0].first]->f;
      for (auto &x : f) x.second = -x.second;
      std::vector<std::pair<int, Rat>> t;
      t.push_back({getMono(f), Rat(1) / a->t[0].second});
      return intern(std::move(t));
    }
    Rat lc = a->t[0].second;
    const Poly *n = scale(a, Rat(1) / lc);
    const Poly *at = fun(A_POLY, n);
    int aid = monos[at->t[0].first]->f[0].first;
    return scale(atomPoly(aid, -1), Rat(1) / lc);
  }
  const Poly *divide(const Poly *a, const Poly *b) {
    if (b->isConst()) return scale(a, Rat(1) / b->cval());
    if (a == b) return constant(1);
    // a == c*b ?
    if (!a->t.empty() && a->t.size() == b->t.size() && a->t[0].first == b->t[0].first) {
      Rat c = a->t[0].second / b->t[0].second;
      if (scale(b, c) == a) return constant(c);
    }
    return mul(a, inv(b));
  }

  // ---- ranges -------------------------------------------------------
  struct Range { bool hasLo = false, hasHi = false; Rat lo, hi; };
  Range monoRange(int m) {
    Range r; r.hasLo = r.hasHi = true; r.lo = r.hi = 1;
    for (auto &fe : monos[m]->f) {
      Atom *a = atoms[fe.first];
      Range x; x.hasLo = a->hasLo; x.hasHi = a->hasHi; x.lo = a->lo; x.hi = a->hi;
      int e = fe.second;
      if (e < 0) {
        if (x.hasLo && x.lo >= 0) {
          Range y; y.hasLo = true; y.lo = x.hasHi && x.hi > 0 ? Rat(1) / x.hi : Rat(0);
          if (x.lo > 0) { y.hasHi = true; y.hi = Rat(1) / x.lo; }
          x = y; e = -e;
        } else return Range();
      }
      for (int k = 0; k < e; k++) r = mulRange(r, x);
    }
    if (monos[m]->f.size() == 1 && monos[m]->f[0].second % 2 == 0 && (!r.hasLo || r.lo < 0)) { r.hasLo = true; r.lo = 0; }
    return r;
  }
  static Range mulRange(const Range &a, const Range &b) {
    Range r;
    if (a.hasLo && a.lo >= 0 && b.hasLo && b.lo >= 0) {
      r.hasLo = true; r.lo = a.lo * b.lo;
      if (a.hasHi && b.hasHi) { r.hasHi = true; r.hi = a.hi * b.hi; }
      return r;
    }
    if (a.hasLo && a.hasHi && b.hasLo && b.hasHi) {
      Rat c[4] = {a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi};
      r.hasLo = r.hasHi = true;
      r.lo = *std::min_element(c, c + 4);
      r.hi = *std::max_element(c, c + 4);
    }
    return r;
  }

  // ---- lowering -----------------------------------------------------
  z3::expr num(const Rat &r) { return z.real_val(r.get_str().c_str()); }
  z3::expr var(int m) {
    if (!monoVar[m]) {
      std::string n;
      if (monos[m]->isAtom()) n = "a_" + atoms[monos[m]->f[0].first]->name + "_" + std::to_string(monos[m]->f[0].first);
      else n = "m_" + std::to_string(m);
      monoVar[m] = new z3::expr(z.real_const(n.c_str()));
    }
    return *monoVar[m];
  }
  z3::expr lower(const Poly *p) {
    auto it = lowered.find(p->id);
    if (it != lowered.end()) return *it->second;
    z3::expr_vector v(z);
    for (auto &x : p->t) {
      if (x.first == 0) v.push_back(num(x.second));
      else if (x.second == 1) v.push_back(var(x.first));
      else v.push_back(num(x.second) * var(x.first));
    }
    z3::expr e = v.empty() ? num(0) : v.size() == 1 ? v[0] : z3::sum(v);
    lowered[p->id] = new z3::expr(e);
    return e;
  }
};

static inline Rat ratOf(long double v) {
  // exact conversion of a finite long double
  int e;
  long double m = frexpl(v, &e);  // v = m * 2^e, |m| in [0.5,1)
  bool neg = m < 0;
  if (neg) m = -m;
  m = ldexpl(m, 64);
  unsigned long long u = (unsigned long long)m;
  mpz_class zc;
  mpz_import(zc.get_mpz_t(), 1, -1, sizeof(u), 0, 0, &u);
  e -= 64;
  Rat r(zc);
  if (e > 0) { mpz_class t; mpz_ui_pow_ui(t.get_mpz_t(), 2, e); r *= Rat(t); }
  if (e < 0) { mpz_class t; mpz_ui_pow_ui(t.get_mpz_t(), 2, -e); r /= Rat(t); }
  r.canonicalize();
  if (neg) r = -r;
  return r;
}
static inline long double ldOf(const Rat &r) {
  // nearest-ish long double of a rational
  if (r == 0) return 0;
  mpz_class n = abs(r.get_num()), d = r.get_den();
  long ln = mpz_sizeinbase(n.get_mpz_t(), 2), ldn = mpz_sizeinbase(d.get_mpz_t(), 2);
  long sh = 66 - (ln - ldn);
  mpz_class q;
  if (sh >= 0) { mpz_class t = n << sh; q = t / d; } else { mpz_class t = d << (-sh); q = n / t; }
  long double v = 0;
  // q has ~66 bits
  mpz_class hi = q >> 32, lo = q & 0xffffffffu;
  v = (long double)hi.get_d() * 4294967296.0L + (long double)lo.get_ui();
  if (hi > mpz_class("9007199254740992")) {
    mpz_class h2 = hi >> 20, l2 = hi & 0xfffff;
    v = ((long double)h2.get_d() * 1048576.0L + (long double)l2.get_ui()) * 4294967296.0L + (long double)lo.get_ui();
  }
  v = ldexpl(v, -sh);
  return r < 0 ? -v : v;
}
