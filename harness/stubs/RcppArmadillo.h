// Minimal stand-ins for the parts of Rcpp and Armadillo that R/lpaggreg.R uses or may come to use.  As in R, vectors are
// handles to shared storage, arrays are stored column-major and carry a "dim" attribute, data frames and lists are named columns.
#pragma once
#include <cstddef>
#include <cstring>
#include <cstdlib>
#include <algorithm>
#include <list>
#include <map>
#include <memory>
#include <string>
#include <type_traits>
#include <vector>
inline bool sameName(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return *a == *b; }
namespace Rcpp {
struct Store { std::vector<double> v; std::vector<int> dim; };
struct SEXPREC { double v; };
}
typedef Rcpp::SEXPREC *SEXP;
typedef std::ptrdiff_t R_xlen_t;
namespace Rcpp {
struct Attr { std::shared_ptr<Store> s; };
struct Dimension { int d[3]; int k; Dimension(int a) : d{a, 1, 1}, k(1) {} Dimension(int a, int b) : d{a, b, 1}, k(2) {} Dimension(int a, int b, int c) : d{a, b, c}, k(3) {} };
// a vector of doubles or of integers: what is written to integers is truncated to an int
template <bool INT> class VectorT {
  template <class N> static double conv(N x) { return INT ? (double)(int)x : (double)x; }
public:
  typedef typename std::conditional<INT, int, double>::type value_type; typedef value_type stored_type;
  std::shared_ptr<Store> s;
  struct Ref {
    double *r; operator value_type() const { return (value_type)*r; }
    Ref &operator=(const Ref &o) { *r = conv(*o.r); return *this; } template <class N> Ref &operator=(const N &x) { *r = conv(x); return *this; }
    template <class N> Ref &operator+=(N x) { *r = conv(*r + x); return *this; } template <class N> Ref &operator-=(N x) { *r = conv(*r - x); return *this; }
    template <class N> Ref &operator*=(N x) { *r = conv(*r * x); return *this; } template <class N> Ref &operator/=(N x) { *r = conv(*r / x); return *this; }
    Ref &operator++() { *r += 1; return *this; } value_type operator++(int) { value_type o = *this; *r += 1; return o; }
  };
  typedef typename std::conditional<INT, Ref, double &>::type ref;
  struct iterator {
    typedef std::random_access_iterator_tag iterator_category; typedef typename VectorT::value_type value_type; typedef std::ptrdiff_t difference_type; typedef double *pointer; typedef ref reference;
    double *p; explicit iterator(double *q = nullptr) : p(q) {} operator double *() const { return p; }
    ref operator*() const { return at(*p); } iterator &operator++() { ++p; return *this; } iterator operator++(int) { iterator o = *this; ++p; return o; } iterator &operator--() { --p; return *this; }
    iterator operator+(difference_type k) const { return iterator(p + k); } iterator operator-(difference_type k) const { return iterator(p - k); } difference_type operator-(const iterator &o) const { return p - o.p; } iterator &operator+=(difference_type k) { p += k; return *this; }
    bool operator==(const iterator &o) const { return p == o.p; } bool operator!=(const iterator &o) const { return p != o.p; } bool operator<(const iterator &o) const { return p < o.p; }
    ref operator[](difference_type k) const { return at(p[k]); }
  };
  typedef iterator const_iterator;
  static double &at(double &x, std::false_type) { return x; }
  static Ref at(double &x, std::true_type) { return Ref{&x}; }
  static ref at(double &x) { return at(x, std::integral_constant<bool, INT>()); }
  VectorT() : s(new Store()) {}
  VectorT(const std::shared_ptr<Store> &st) : s(st) {}
  VectorT(const Attr &a) : s(a.s) {}
  template <class N, class = typename std::enable_if<std::is_integral<N>::value>::type> explicit VectorT(N n) : s(new Store()) { s->v.assign((size_t)n, 0); }
  template <class N, class M, class = typename std::enable_if<std::is_integral<N>::value && std::is_arithmetic<M>::value>::type> VectorT(N n, M x) : s(new Store()) { s->v.assign((size_t)n, conv(x)); }
  template <class It, class = typename std::iterator_traits<It>::value_type> VectorT(It a, It b) : s(new Store()) { for (; a != b; ++a) s->v.push_back(conv(*a)); }
  template <class N> VectorT(const std::vector<N> &x) : s(new Store()) { for (const N &y : x) s->v.push_back(conv(y)); }
  template <class N> VectorT(const std::list<N> &x) : s(new Store()) { for (const N &y : x) s->v.push_back(conv(y)); }
  VectorT(const Dimension &d) : s(new Store()) { size_t n = 1; for (int k = 0; k < d.k; k++) { n *= (size_t)d.d[k]; s->dim.push_back(d.d[k]); } s->v.assign(n, 0); }
  VectorT(const VectorT<!INT> &x) : s(new Store()) { for (double y : x.s->v) s->v.push_back(conv(y)); s->dim = x.s->dim; } // another R type: coerced, hence copied
  iterator begin() const { return iterator(s->v.data()); } iterator end() const { return iterator(s->v.data() + s->v.size()); } iterator cbegin() const { return begin(); } iterator cend() const { return end(); }
  int size() const { return (int)s->v.size(); } int length() const { return (int)s->v.size(); } bool empty() const { return s->v.empty(); }
  ref operator[](int i) const { return at(s->v.at(i)); } ref operator()(int i) const { return at(s->v.at(i)); } ref at(int i) const { return at(s->v.at(i)); }
  template <class N> void push_back(N x) { s->v.push_back(conv(x)); } template <class N> void push_front(N x) { s->v.insert(s->v.begin(), conv(x)); }
  template <class N> void fill(N x) { for (double &y : s->v) y = conv(x); }
  bool hasAttribute(const char *n) const { return sameName(n, "dim") && !s->dim.empty(); }
  Attr attr(const char *) const { Attr a; a.s.reset(new Store()); for (int d : s->dim) a.s->v.push_back(d); return a; }
  template <class N> friend VectorT operator+(const VectorT &a, N x) { VectorT r; for (double y : a.s->v) r.s->v.push_back(conv(y + x)); return r; }
  template <class N> friend VectorT operator-(const VectorT &a, N x) { VectorT r; for (double y : a.s->v) r.s->v.push_back(conv(y - x)); return r; }
  friend VectorT clone(const VectorT &x) { VectorT r; *r.s = *x.s; return r; }
};
typedef VectorT<false> NumericVector; typedef VectorT<false> DoubleVector; typedef VectorT<true> IntegerVector;
// conversions
template <class T, class = void> struct As { static T from(SEXP x) { return (T)x->v; } };
template <class N> struct As<std::vector<N>> { template <bool I> static std::vector<N> from(const VectorT<I> &x) { std::vector<N> r; for (double y : x.s->v) r.push_back((N)y); return r; } static std::vector<N> from(const Attr &a) { return from(NumericVector(a)); } };
template <bool J> struct As<VectorT<J>> { template <class X> static VectorT<J> from(const X &x) { return VectorT<J>(x); } };
template <class T, class X> T as(const X &x) { return As<T>::from(x); }
template <class N> NumericVector wrapAs(const std::vector<N> &x, std::false_type) { return NumericVector(x); }
template <class N> IntegerVector wrapAs(const std::vector<N> &x, std::true_type) { return IntegerVector(x); }
template <class N> auto wrap(const std::vector<N> &x) -> decltype(wrapAs(x, std::is_integral<N>())) { return wrapAs(x, std::is_integral<N>()); }
template <class N, class = typename std::enable_if<std::is_arithmetic<N>::value>::type> N wrap(N x) { return x; }
template <bool I> VectorT<I> wrap(const VectorT<I> &x) { return x; }
[[noreturn]] inline void stop(const char *) { std::abort(); }
inline void checkUserInterrupt() {}
struct Stream { template <class T> Stream &operator<<(const T &) { return *this; } Stream &operator<<(std::ostream &(*)(std::ostream &)) { return *this; } };
static Stream Rcout, Rcerr;
struct DataFrame;
struct Value {
  std::shared_ptr<Store> vec; double num = 0; int kind = 0; std::shared_ptr<DataFrame> df;
  Value() {}
  template <class N, class = typename std::enable_if<std::is_arithmetic<N>::value>::type> Value(N x) : num((double)x), kind(1) {}
  template <bool I> Value(const VectorT<I> &x) : vec(x.s), kind(2) {}
  template <class N> Value(const std::vector<N> &x) : vec(wrap(x).s), kind(2) {}
  Value(const DataFrame &x);
};
struct NamedValue { const char *name; Value v; };
struct DataFrame {
  std::vector<NamedValue> cols;
  template <class... A> static DataFrame create(const A &...a) { DataFrame d; NamedValue x[] = {a...}; for (const NamedValue &y : x) d.cols.push_back(y); return d; }
  const NamedValue *find(const char *n) const { for (const NamedValue &c : cols) if (sameName(c.name, n)) return &c; return nullptr; }
  Value &operator[](const char *n) { for (NamedValue &c : cols) if (sameName(c.name, n)) return c.v; NamedValue x; x.name = n; cols.push_back(x); return cols.back().v; }
  template <class T> void push_back(const T &x, const char *n) { (*this)[n] = Value(x); }
  template <class T> void push_back(const T &x) { cols.push_back(x); }
  int size() const { return (int)cols.size(); } int length() const { return (int)cols.size(); }
  int nrows() const { return cols.empty() || cols[0].v.kind != 2 ? 0 : (int)cols[0].v.vec->v.size(); } int ncol() const { return (int)cols.size(); }
};
inline Value::Value(const DataFrame &x) : kind(3), df(new DataFrame(x)) {}
typedef DataFrame List; typedef DataFrame GenericVector;
struct NameTag { const char *name; template <class T> NamedValue operator=(const T &x) const { NamedValue n; n.name = name; n.v = Value(x); return n; } };
inline NameTag Named(const char *n) { return NameTag{n}; }
template <class T> NamedValue Named(const char *n, const T &x) { return Named(n) = x; }
struct Placeholder { NameTag operator[](const char *n) const { return NameTag{n}; } };
static const Placeholder _;
}
namespace arma {
typedef unsigned long long uword;
struct mat { double *mem; uword n_rows, n_cols; double &operator()(uword i, uword j) const { return mem[i + n_rows * j]; } double &at(uword i, uword j) const { return mem[i + n_rows * j]; } };
struct cube {
  double *mem; uword n_rows, n_cols, n_slices, n_elem; std::shared_ptr<std::vector<double>> own;
  cube(uword r, uword c, uword s) : mem(nullptr), n_rows(r), n_cols(c), n_slices(s), n_elem(r * c * s), own(new std::vector<double>(r * c * s, 0.0)) { mem = own->data(); }
  cube(double *m, uword r, uword c, uword s, bool copy = true, bool = false) : mem(m), n_rows(r), n_cols(c), n_slices(s), n_elem(r * c * s) { if (copy) { own.reset(new std::vector<double>(m, m + r * c * s)); mem = own->data(); } }
  double &operator()(uword i, uword j, uword k) const { if (i >= n_rows || j >= n_cols || k >= n_slices) std::abort(); return mem[i + n_rows * (j + n_cols * k)]; }
  double &at(uword i, uword j, uword k) const { return (*this)(i, j, k); }
  double &operator()(uword i) const { if (i >= n_elem) std::abort(); return mem[i]; } double &operator[](uword i) const { return (*this)(i); }
  mat slice(uword k) const { return mat{mem + n_rows * n_cols * k, n_rows, n_cols}; } double *memptr() const { return mem; }
};
}
