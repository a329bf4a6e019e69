// Replay of a counterexample against the real code, compiled by the ordinary compiler.
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <unistd.h>
extern "C" {
static std::map<std::string, double> vals;
static std::map<std::string, int> params;
static std::map<std::string, int> count;
static std::string expected;
static int failures = 0;
static std::string key(const char* n) {
  int k = count[n]++;
  if (!k) return n;
  std::ostringstream o;
  o << n << "#" << k;
  return o.str();
}
static double get(const char* n) {
  std::string k = key(n);
  for (char& c : k) if (c == ' ') c = '_';
  return vals.count(k) ? vals[k] : 0.0;
}
double vf_real(const char* n) { return get(n); }
int vf_choice(const char* n, int) { return (int)get(n); }
int vf_char(const char* n) { return (int)get(n); }
void vf_unitq(const char* n, double* q) {
  const char* c[4] = {".w", ".x", ".y", ".z"};
  double s = 0;
  for (int i = 0; i < 4; ++i) { q[i] = get((std::string(n) + c[i]).c_str()); s += q[i] * q[i]; }
  s = std::sqrt(s);
  for (int i = 0; i < 4; ++i) q[i] = s > 1e-6 ? q[i] / s : i == 0;
}
int vf_param(const char* n) { return params[n]; }
static void done(const char* why) {
  fflush(stdout);
  fprintf(stderr, "REPLAY-END %s\n", why);
  _exit(failures ? 3 : 0);
}
void vf_assume(int c) { if (!c) done("assumption not met"); }
void vf_assume_lt(double a, double b) { if (!(a < b)) done("assumption not met"); }
void vf_assume_le(double a, double b) { if (!(a <= b)) done("assumption not met"); }
void vf_assume_ne(double a, double b) { if (!(a != b)) done("assumption not met"); }
void vf_assume_eq(double a, double b) { if (!(std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a)))) done("assumption not met"); }
static void fail(const char* m, const char* d) {
  failures++;
  fprintf(stderr, "REPLAY-FAIL %s %s\n", m, d);
}
void vf_assert(int c, const char* m) { if (!c) fail(m, "(assertion)"); }
void vf_eq(double a, double b, const char* m) {
  if (std::isnan(a) && std::isnan(b)) return;
  if (a == b) return;
  double s = 1 + std::fabs(a) + std::fabs(b);
  if (!(std::fabs(a - b) <= 1e-6 * s)) {
    char buf[200];
    snprintf(buf, sizeof buf, "(%.17g instead of %.17g)", a, b);
    fail(m, buf);
  }
}
void vf_reach(const char*) {}
void vf_expect_abort(const char* m) { expected = m; }
void vf_unexpect_abort() {
  if (!expected.empty()) { fail(expected.c_str(), "(was accepted)"); done("failed"); }
}
void vf_end() { done("end"); }
static void on_abort(int) {
  if (!expected.empty()) done("refused as expected");
  fprintf(stderr, "REPLAY-FAIL abnormal termination\n");
  _exit(3);
}
void VF_ENTRY();
}
int main(int argc, char** argv) {
  std::ifstream f(argv[1]);
  std::string kind, name;
  double v;
  while (f >> kind >> name >> v) {
    if (kind == "param") params[name] = (int)v; else vals[name] = v;
  }
  signal(SIGABRT, on_abort);
  try {
    VF_ENTRY();
  } catch (...) {
    if (!expected.empty()) done("refused as expected");
    fprintf(stderr, "REPLAY-FAIL uncaught exception\n");
    _exit(3);
  }
  if (!expected.empty()) fail(expected.c_str(), "(was accepted)");
  done("end");
}
