// Interface of a harness: the same source is executed symbolically by lpsym and natively for replays.
#pragma once
extern "C" {
double sym_real(const char *name, int idx, double lo, double hi);
float sym_float(const char *name, int idx, float lo, float hi);
long double sym_ld(const char *name, int idx, long double lo, long double hi);
int sym_int(const char *name, int idx, int lo, int hi);
bool sym_bool(const char *name, int idx);
void sym_assume(bool c);
void sym_assert(bool c, const char *id);
bool sym_close(long double a, long double b);                    // |a-b| <= 1e-9 (relative natively)
bool sym_closet(long double a, long double b, long double tol);
bool sym_ge(long double a, long double b);                       // a >= b - 1e-9
bool sym_get(long double a, long double b, long double tol);
int sym_live();                                                 // number of heap blocks in use
int sym_param(const char *name, int def);
double sym_paramf(const char *name, double def);
void sym_out(const char *name, int idx, int v);                  // observable outputs, compared native/engine
void sym_outf(const char *name, int idx, long double v);
bool sym_symbolic();
int sym_fix(int v);                                              // case split on an integer
void harness_main();
}
