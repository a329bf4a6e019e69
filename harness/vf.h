// Harness API.  In the symbolic build these are intercepted by the engine; in the replay build
// (vf_native.cpp) they read the values of a counterexample.
#pragma once
extern "C" {
double vf_real(const char* name);          // an arbitrary real
int vf_choice(const char* name, int n);    // an arbitrary integer in [0, n)
int vf_char(const char* name);             // an arbitrary byte
int vf_param(const char* name);            // bound of this run
void vf_assume(int c);
void vf_assume_lt(double a, double b);
void vf_assume_le(double a, double b);
void vf_assume_ne(double a, double b);
void vf_assume_eq(double a, double b);
void vf_assert(int c, const char* msg);
void vf_eq(double a, double b, const char* msg);
void vf_reach(const char* name);           // must be reached on some path (vacuity witness)
void vf_expect_abort(const char* msg);     // the following call has to be refused (failed CHECK, exception)
void vf_unexpect_abort();
void vf_unitq(const char* name, double* wxyz); // an arbitrary unit quaternion
double vf_ddt(double a, double x);         // derivative of a with respect to the input x (symbolic build only)
void vf_end();
}
static inline double vf_pos(const char* n) { double x = vf_real(n); vf_assume_lt(0.0, x); return x; }
