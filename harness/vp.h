// Harness interface.  In the symbolic executor the vp_* functions are interpreted; in the native
// build (counterexample replay, executor validation) they are defined in vp/native_rt.cpp.
#pragma once
#include <cstddef>
#include <cstdio>
extern "C" {
double vp_real(const char *name, double lo, double hi); // any value in [lo,hi]
double vp_rand();                                       // any value in [0,1)
int vp_int(const char *name, int lo, int hi);           // any integer, kept symbolic
int vp_choose(const char *name, int lo, int hi);        // any integer, one path per value
void vp_assume(bool c);
void vp_check(bool c, const char *label);
void vp_close(double a, double b, double tol, const char *label); // |a-b| <= tol
void vp_le(double a, double b, double tol, const char *label);    // a <= b + tol
void vp_reach(const char *label);                                 // reachability witness
void vp_observe(const char *name, double v);                      // executor validation
void vp_stop();
// text written to files: numbers by line and column (-1e300 when not a number or missing)
FILE *vp_out_open();              // a file to write to
const char *vp_out_name();        // or a file name to write to
int vp_out_lines();               // complete lines
int vp_out_tail();                // words after the last complete line
int vp_out_cols(int line);
double vp_out(int line, int col);
void vp_capture_stdout();         // numbers printed on the standard output from here on, in order
int vp_nums();
double vp_num(int k);
// input files (current directory): text and numbers in fields of a given width (0: free format);
// the value as written is returned
void vp_file(const char *name);
void vp_file_text(const char *text);
double vp_file_num(int width, double v);
int vp_file_int(int width, int v);
bool vp_out_is(int line, int col, const char *text);
}
#ifdef VP_SYM
#define VP_HARNESS(n) extern "C" void h_##n()
#else
void vp_register(const char *, void (*)());
#define VP_HARNESS(n)                                                                              \
  extern "C" void h_##n();                                                                         \
  static int vp_reg_##n = (vp_register(#n, h_##n), 0);                                             \
  extern "C" void h_##n()
#endif
