// Native side of the harness interface: inputs come from a file, assertions are evaluated for real.
#include "sym.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <new>
static long live = 0;
// parameter reuse=2: freed blocks of a size class are handed out again lowest address first, as in the engine
struct Block { size_t cls; Block *next; };
static const size_t ARENA = (size_t)1 << 30, CLASSES = 4096;
static char *arena, *top; static Block *idle[CLASSES];
static void *take(size_t n) {
  size_t c = n + 8 < 32 ? 32 : (n + 8 + 15) / 16 * 16;
  if (!arena || c / 16 >= CLASSES || top + c + 16 > arena + ARENA) return malloc(n ? n : 1);
  Block *&f = idle[c / 16], *b = f; if (b) f = b->next; else { b = (Block *)top; top += c + 16; b->cls = c; }
  return (char *)b + 16;
}
static void give(void *p) {
  if (!arena || (char *)p < arena || (char *)p >= arena + ARENA) { free(p); return; }
  Block *b = (Block *)((char *)p - 16), **f = &idle[b->cls / 16]; while (*f && *f < b) f = &(*f)->next;
  b->next = *f; *f = b;
}
void *operator new(size_t n) { void *p = take(n); if (!p) throw std::bad_alloc(); live++; return p; }
void operator delete(void *p) noexcept { if (p) { live--; give(p); } }
void operator delete(void *p, size_t) noexcept { if (p) { live--; give(p); } }
static std::map<std::string, std::string> in, par;
static long nassert = 0;
static std::string nm(const char *n, int i) { return std::string(n) + "_" + std::to_string(i); }
static long double num(const char *n, int i, long double lo) { auto it = in.find(nm(n, i)); return it == in.end() ? lo : strtold(it->second.c_str(), 0); }
extern "C" {
double sym_real(const char *n, int i, double lo, double hi) { return lo == hi ? lo : (double)num(n, i, lo); }
float sym_float(const char *n, int i, float lo, float hi) { return lo == hi ? lo : (float)num(n, i, lo); }
long double sym_ld(const char *n, int i, long double lo, long double hi) { return lo == hi ? lo : num(n, i, lo); }
int sym_int(const char *n, int i, int lo, int hi) { if (lo == hi) return lo; auto it = in.find(nm(n, i)); return it == in.end() ? lo : atoi(it->second.c_str()); }
bool sym_bool(const char *n, int i) { return sym_int(n, i, 0, 1) != 0; }
void sym_assume(bool c) { if (!c) { printf("ASSUMPTION-NOT-MET\n"); fflush(stdout); _Exit(67); } }
void sym_assert(bool c, const char *id) { nassert++; if (!c) { printf("ASSERT-FAILED %s\n", id); fflush(stdout); _Exit(66); } }
static bool clos(long double a, long double b, long double tol, bool ge) {
  if (std::isnan(a) || std::isnan(b)) return false;
  if (std::isinf(a) || std::isinf(b)) return ge ? a >= b : a == b;
  long double t = tol * (1 + fabsl(a) + fabsl(b));
  return ge ? a >= b - t : fabsl(a - b) <= t;
}
bool sym_close(long double a, long double b) { return clos(a, b, 1e-9L, false); }
bool sym_closet(long double a, long double b, long double t) { return clos(a, b, t, false); }
bool sym_get(long double a, long double b, long double t) { return clos(a, b, t, true); }
bool sym_ge(long double a, long double b) { return clos(a, b, 1e-9L, true); }
int sym_live() { return (int)live; }
int sym_param(const char *n, int d) { auto it = par.find(n); return it == par.end() ? d : atoi(it->second.c_str()); }
double sym_paramf(const char *n, double d) { auto it = par.find(n); return it == par.end() ? d : strtod(it->second.c_str(), 0); }
void sym_out(const char *n, int i, int v) { printf("OUT %s_%d %d\n", n, i, v); }
void sym_outf(const char *n, int i, long double v) { printf("OUT %s_%d %.21Lg\n", n, i, v); }
bool sym_symbolic() { return false; }
int sym_fix(int v) { return v; }
}
int main(int argc, char **argv) {
  FILE *f = argc > 1 ? fopen(argv[1], "r") : nullptr;
  if (!f) { fprintf(stderr, "usage: replay FILE\n"); return 70; }
  char k[64], n[256], v[256], line[1024];
  while (fgets(line, sizeof line, f)) { int c = sscanf(line, "%63s %255s %255s", k, n, v); if (c == 3 && !strcmp(k, "in")) in[n] = v; if (c == 3 && !strcmp(k, "param")) par[n] = v; }
  fclose(f);
  if (par["reuse"] == "2") arena = top = (char *)malloc(ARENA);
  harness_main();
  printf("REACHED %ld\n", nassert); fflush(stdout);
  return 0;
}
