#include <complex>
#include "sym.h"
#include <vector>
#include <deque>
#include <stack>
#include <queue>
#include <algorithm>
#include <numeric>
#include <functional>
#include <memory>
#include <string>
#include <sstream>
#include <iostream>
#include <set>
#include <map>
#include <unordered_map>
#include <unordered_set>
#include <array>
#include <bitset>
#include <limits>
#include <cmath>
#include <tuple>
#include <stdexcept>
#include <mutex>
#include <thread>
#include <cstring>
#include <valarray>
#include <list>
#include <forward_list>
#include <atomic>
#include <random>
#include <iterator>
#include <cstdint>
#include <ctime>
#include <cstdlib>
struct Base { virtual ~Base() {} virtual int f(int) = 0; };
struct D1 : Base { int f(int x) override { return x + 1; } };
struct D2 : virtual Base { int f(int x) override { return x * 2; } };
typedef unsigned long long u64t;
struct FF { float a, b; }; struct FD { float a; int k; }; struct F3 { float a, b, c; };
__attribute__((noinline)) static FF swapFF(FF x) { FF r; r.a = x.b; r.b = x.a; return r; }
__attribute__((noinline)) static std::pair<float, float> pairOf(float a, float b) { return a < b ? std::make_pair(a, b) : std::make_pair(b, a); }
__attribute__((noinline)) static FD bump(FD x) { x.k++; return x; }
__attribute__((noinline)) static F3 turn(F3 x) { F3 r{x.b, x.c, x.a}; return r; }
static int fib(int n) { static std::map<int,int> memo; if (n < 2) return n; auto it = memo.find(n); if (it != memo.end()) return it->second; return memo[n] = fib(n-1)+fib(n-2); }
static thread_local int tl = 5;
static std::mutex mu;
static std::vector<int> gv = {1,2,3};
void harness_main() {
  int t = sym_param("t", 0); double a = sym_real("a", 0, -4, 4), b = sym_real("b", 0, -4, 4), c = sym_real("c", 0, -4, 4);
  int k = sym_int("k", 0, 0, 3);
  std::vector<double> v = {a, b, c};
  switch (t) {
  case 0: { std::sort(v.begin(), v.end()); sym_assert(v[0] <= v[1] && v[1] <= v[2], "x"); break; }
  case 1: { std::stable_sort(v.begin(), v.end()); sym_assert(v[0] <= v[2], "x"); break; }
  case 2: { std::deque<double> d(v.begin(), v.end()); d.push_front(1); d.pop_back(); sym_assert(d.size() == 3 && d[1] == a, "x"); std::stack<int> s; s.push(k); s.push(1); s.pop(); sym_assert(s.top() == k, "y"); break; }
  case 3: { std::priority_queue<double> q; for (double x : v) q.push(x); sym_assert(q.top() >= a, "x"); break; }
  case 4: { std::function<double(double)> f = [&](double x) { return x + a; }; std::function<int(int)> g; g = [&](int n) { return n < 1 ? 0 : 1 + g(n - 1); }; sym_assert(f(b) == a + b && g(5) == 5, "x"); break; }
  case 5: { std::string s = "hello"; s += " world and something long"; s += std::to_string(42); sym_assert(s.size() == 32 - 0 || true, "x"); sym_assert(s.find("world") == 6, "y"); break; }
  case 6: { std::ostringstream o; o << 3 << " " << 2.5; std::string s = o.str(); sym_assert(!s.empty(), "x"); break; }
  case 7: { std::set<double> s(v.begin(), v.end()); std::unordered_map<int, double> m; for (int i = 0; i < 20; i++) m[i * 7] = i; sym_assert(s.size() <= 3 && m.at(14) == 2, "x"); m.erase(14); sym_assert(m.count(14) == 0, "y"); break; }
  case 8: { try { if (a > 1) throw std::runtime_error("x"); sym_assert(a <= 1, "x"); } catch (std::exception &e) { sym_assert(a > 1, "y"); } break; }
  case 9: { try { v.at(k + 1) = 0; } catch (std::out_of_range &e) { sym_assert(k >= 2, "y"); } break; }
  case 10: { std::lock_guard<std::mutex> l(mu); sym_assert(true, "x"); std::shared_ptr<Base> p = std::make_shared<D1>(); std::weak_ptr<Base> w = p; sym_assert(w.lock()->f(k) == k + 1, "y"); std::shared_ptr<Base> p2(new D2); sym_assert(dynamic_cast<D1 *>(p2.get()) == nullptr && p2->f(k) == 2 * k, "z"); break; }
  case 11: { tl += k; sym_assert(tl == 5 + k, "x"); sym_assert(fib(10) == 55, "y"); sym_assert(gv.size() == 3, "z"); break; }
  case 12: { std::unordered_set<double> s; s.insert(a); s.insert(b); sym_assert(s.size() <= 2, "x"); break; }
  case 13: { int64_t u; std::memcpy(&u, &a, 8); sym_assert(u != 0 || a == 0, "x"); break; }
  case 14: { sym_assert(std::fabs(a) >= 0 && std::abs(b) >= 0 && std::max(a, b) >= a && std::min(a, b) <= b, "x"); sym_assert(std::floor(a) <= a && std::ceil(a) >= a, "y"); sym_assert(std::isnan(a) == false && std::isfinite(a) && !std::signbit(std::fabs(a)), "z"); break; }
  case 15: { sym_assert(std::sqrt(a * a) >= 0, "x"); sym_assert(std::exp(a) > 0, "y"); sym_assert(std::pow(a, 2) >= 0, "z"); break; }
  case 16: { sym_assert(std::accumulate(v.begin(), v.end(), 0.0) == a + b + c, "x"); auto m = std::max_element(v.begin(), v.end()); sym_assert(*m >= b, "y"); std::vector<double> w(3); std::partial_sum(v.begin(), v.end(), w.begin()); sym_assert(w[2] == a + b + c, "z"); sym_assert(std::inner_product(v.begin(), v.end(), v.begin(), 0.0) >= 0, "w"); break; }
  case 17: { std::vector<bool> f(10); f[k] = true; sym_assert(std::count(f.begin(), f.end(), true) == 1, "x"); std::bitset<70> bs; bs.set(k); sym_assert(bs.count() == 1, "y"); break; }
  case 18: { std::list<double> l(v.begin(), v.end()); l.sort(); l.unique(); l.reverse(); sym_assert(l.size() >= 1, "x"); l.remove_if([](double x) { return x > 100; }); std::list<double> l2(l); l.splice(l.end(), l2); break; }
  case 19: { std::cout << "hello " << a << std::endl; std::cerr << 3 << "\n"; printf("%d\n", 3); sym_assert(true, "x"); break; }
  case 20: { std::atomic<int> at(0); at++; at.fetch_add(3); int e = 4; at.compare_exchange_strong(e, 9); sym_assert(at == 9, "x"); break; }
  case 21: { std::tuple<int, double> tt(k, a); auto pp = std::make_pair(a, b); sym_assert(std::get<0>(tt) == k && pp < std::make_pair(a, b + 1), "x"); std::valarray<double> va(3); va[0] = a; va[1] = b; sym_assert(va.sum() == a + b, "y"); break; }
  case 22: { int *p = (int *)std::calloc(4, 4); p = (int *)std::realloc(p, 32); p[3] = k; sym_assert(p[3] == k, "x"); std::free(p); break; }
  case 23: { srand(1); int r = rand(); sym_assert(r >= 0, "x"); std::mt19937 g(1); sym_assert(g() != 0, "y"); time_t tm = time(0); sym_assert(tm > 0, "z"); break; }
  case 24: { float f = (float)a; sym_assert(f <= 4.1f, "x"); int n = (int)a; sym_assert(n <= 4, "y"); long r = std::lround(b); sym_assert(r <= 4, "z"); break; }
  case 25: { sym_assert(std::log1p(a + 5) > 0, "x"); sym_assert(std::log(a + 5) * 1.4426950408889634 <= 5, "y"); break; }
  case 26: { std::vector<std::vector<double>> m(3, std::vector<double>(3, 0)); m[k % 3][0] = a; sym_assert(m[k % 3][0] == a, "x"); std::vector<double> w; w.insert(w.begin(), v.begin(), v.end()); w.erase(w.begin()); std::rotate(w.begin(), w.begin() + 1, w.end()); std::reverse(w.begin(), w.end()); sym_assert(w.size() == 2, "y"); std::swap(w[0], w[1]); std::unique(w.begin(), w.end()); std::next_permutation(w.begin(), w.end()); break; }
  case 27: { char buf[40]; snprintf(buf, sizeof buf, "%d", 42); sym_assert(!strcmp(buf, "42"), "x"); break; }
  case 28: { double mx = -std::numeric_limits<double>::infinity(); for (double x : v) if (x > mx) mx = x; sym_assert(mx >= a, "x"); sym_assert(std::nextafter(1.0f, 2.0f) > 1, "y"); sym_assert(std::hypot(a, b) >= 0, "z"); break; }
  case 29: { std::map<double, std::vector<int>> m; m[a].push_back(1); m[b].push_back(2); auto it = m.lower_bound(c); sym_assert(it == m.end() || it->first >= c, "x"); std::multimap<double,int> mm; mm.insert({a,1}); mm.insert({a,2}); sym_assert(mm.count(a) == 2, "y"); auto r = mm.equal_range(a); mm.erase(r.first, r.second); sym_assert(mm.empty(), "z"); break; }
  case 30: { std::map<std::string, int> m; m["abc"] = 1; m["def"] = 2; sym_assert(m["abc"] == 1, "x"); break; }
  case 31: { std::unique_ptr<double[]> u(new double[5]()); u[k] = a; sym_assert(u[k] == a && (k == 4 || u[4] == 0), "x"); __int128 z = (__int128)k * 5; sym_assert((int)z == 5 * k, "y"); unsigned q = 7u / (k + 1); sym_assert(q <= 7, "z"); break; }
  case 32: { sym_assert(std::fmod(a, 1.0) < 1, "x"); double ip; std::modf(a, &ip); sym_assert(ip <= 4, "y"); int ex; std::frexp(a, &ex); sym_assert(ex < 5, "z"); break; }
  case 33: { sym_assert(std::cbrt(a) < 2, "x"); sym_assert(std::tanh(a) < 1, "y"); break; }
  case 34: { struct My { int v; }; int got = 0; try { if (a > 1) throw My{k}; if (b > 2) throw 7; got = 1; } catch (My &m) { got = 2; sym_assert(m.v == k, "v"); } catch (...) { got = 3; } sym_assert(got == (a > 1 ? 2 : b > 2 ? 3 : 1), "x"); break; }
  case 35: { struct G { int &n; G(int &n) : n(n) {} ~G() { n++; } }; int n = 0; try { G g(n); std::vector<int> q(2); q.at(k) = 1; try { if (k == 0) throw std::invalid_argument("q"); } catch (std::logic_error &) { throw; } } catch (std::exception &) { n += 10; } sym_assert(n == (k == 1 ? 1 : 11), "x"); break; }
  case 36: { int x = std::round(a * 100); sym_assert(std::fabs(x - a * 100) <= 0.5 + 1e-9, "x"); sym_assert(std::lround(b) <= 4, "y"); break; }
  case 37: { std::unordered_map<float, int> m; m[(float)a] = 1; m[0.5f] = 2; sym_assert(m.size() <= 2, "x"); std::string s("abc"); s.append(3, 'x'); s = s.substr(1, 2) + "q"; sym_assert(s == "bcq", "y"); std::hash<std::string> h; sym_assert(h(s) == h("bcq"), "z"); break; }
  case 39: { std::vector<FF> w; FF x{(float)a, 0.5f}; w.push_back(x); FF y = w[0]; y = swapFF(y); sym_assert(y.b == (float)a && y.a == 0.5f, "x"); std::swap(w[0], y); sym_assert(y.a == (float)a, "y"); break; }
  case 40: { auto p = pairOf((float)a, (float)b); sym_assert(p.first <= p.second, "x"); FD d = bump(FD{(float)b, k}); sym_assert(d.k == k + 1 && d.a == (float)b, "y"); F3 t3 = turn(F3{(float)a, (float)b, 1}); sym_assert(t3.c == (float)a && t3.b == 1, "z"); break; }
  case 41: { std::map<int, std::pair<float, float>> m; m[1] = std::make_pair((float)a, 2.0f); auto c2 = m; std::pair<float, float> q = c2[1]; sym_assert(q.first == (float)a && q.second == 2, "x"); std::vector<std::tuple<float, int, float>> tv; tv.emplace_back((float)a, k, 1.0f); auto tw = tv; sym_assert(std::get<0>(tw[0]) == (float)a && std::get<1>(tw[0]) == k, "y"); struct L2 { float o, r; bool x; } l1 = {1, (float)b, true}, l2; l2 = l1; std::vector<L2> lv(3, l2); sym_assert(lv[2].r == (float)b, "z"); break; }
  case 42: { std::complex<float> c((float)a, (float)b), d2 = std::conj(c); std::vector<std::complex<float>> cv(2, d2); sym_assert(cv[1].real() == (float)a, "x"); std::array<float, 2> ar{(float)a, 3}; auto f = [](std::array<float, 2> q) { std::swap(q[0], q[1]); return q; }; ar = f(ar); sym_assert(ar[1] == (float)a, "y"); break; }
  case 43: { struct Q { float g, l; int id; bool s; }; std::deque<Q> dq; dq.push_back(Q{(float)a, (float)b, k, true}); dq.push_front(dq.front()); Q q = dq.back(); std::stable_sort(dq.begin(), dq.end(), [](const Q &x, const Q &y) { return x.g < y.g; }); sym_assert(q.g == (float)a && q.id == k && q.s, "x"); FF ff{(float)a, (float)b}; u64t u; std::memcpy(&u, &ff, 8); unsigned lo = (unsigned)u, hi = (unsigned)(u >> 32); u = ((u64t)lo << 32) | hi; std::memcpy(&ff, &u, 8); sym_assert(ff.a == (float)b && ff.b == (float)a, "z"); break; }
  case 44: { std::map<std::pair<float, float>, int> m; m[{(float)a, 1}] = 2; m[{(float)b, 1}] = 3; auto it = m.begin(); std::pair<float, float> k0 = it->first; sym_assert(k0.first <= (float)a && k0.first <= (float)b, "x"); std::pair<float, float> bst{0, 0}; std::vector<std::pair<float, float>> pv{{(float)a, 1}, {(float)b, 2}}; for (auto p : pv) if (p.first > bst.first) bst = p; sym_assert(bst.first >= (float)a, "y"); auto mm = std::max_element(pv.begin(), pv.end()); sym_assert(mm->first >= (float)b, "z"); break; }
  case 38: { int64_t u; std::memcpy(&u, &a, 8); sym_assert((u & 1) == 0 || a != 0.5, "x"); sym_assert(!(a > 1), "bug"); break; }
  }
}
