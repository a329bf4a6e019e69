// Helpers shared by the spline harnesses.
#pragma once
#include "vf.h"
#include <array>
#include <cmath>
#include <cstdio>
#include <string>
#include <vector>

// name with an index: "p0", "p1", ...
struct Nm {
  char b[24];
  Nm(const char* s, int i) { int k = 0; while (s[k]) { b[k] = s[k]; ++k; } if (i > 9) b[k++] = '0' + i / 10; b[k++] = '0' + i % 10; b[k] = 0; }
  Nm(const char* s, int i, int j) { int k = 0; while (s[k]) { b[k] = s[k]; ++k; } b[k++] = '0' + i; b[k++] = '_'; b[k++] = '0' + j; b[k] = 0; }
  operator const char*() const { return b; }
};

// value, first and second derivative of sum c[i] t^(n-1-i) (reference semantics, written independently of the library)
template <class C>
static double ref_pos(const C& c, double t) { double r = 0.0; for (size_t i = 0; i < c.size(); ++i) r = r * t + c[i]; return r; }
template <class C>
static double ref_vel(const C& c, double t) {
  double r = 0.0;
  const int n = (int)c.size() - 1;
  for (int i = 0; i < n; ++i) r = r * t + c[i] * (n - i);
  return r;
}
template <class C>
static double ref_acc(const C& c, double t) {
  double r = 0.0;
  const int n = (int)c.size() - 1;
  for (int i = 0; i + 1 < n; ++i) r = r * t + c[i] * ((n - i) * (n - i - 1));
  return r;
}

template <class A>
static A sym_coeffs(const char* nm, int id) { A c; for (size_t k = 0; k < c.size(); ++k) c[k] = vf_real(Nm(nm, id, (int)k)); return c; }

// strictly increasing times: t0 arbitrary, positive steps
struct Knots {
  std::vector<double> t, h, p, tau;   // absolute times, durations, positions, times relative to the first
  Knots(int n, const char* tn = "t0", const char* hn = "h", const char* pn = "p", bool zero = false) {
    double x = zero ? 0.0 : vf_real(tn), r = 0.0;
    for (int i = 0; i < n; ++i) {
      t.push_back(x);
      tau.push_back(r);
      p.push_back(vf_real(Nm(pn, i)));
      if (i + 1 < n) { double d = vf_pos(Nm(hn, i)); h.push_back(d); x = x + d; r = r + d; }
    }
  }
};
#ifdef VF_ORDER
#define ORDER_SWITCH(FN) FN<VF_ORDER>();
#else
#define ORDER_SWITCH(FN)                          \
  switch (vf_param("order")) {                    \
    case 1: FN<1>(); break;                       \
    case 2: FN<2>(); break;                       \
    case 3: FN<3>(); break;                       \
    case 4: FN<4>(); break;                       \
    case 5: FN<5>(); break;                       \
    default: vf_assert(0, "order");               \
  }
#endif
