#include "common.h"
#include "curves/polynomial_splines.hpp"
using namespace curves;

template <int N>
static void check_eval(const PolynomialSpline<N>& s, const std::array<double, N + 1>& c, double d, double t) {
  // held outside [0, d]
  double u = t;
  if (t < 0.0) { u = 0.0; vf_reach("before"); } else if (t > d) { u = d; vf_reach("after"); } else vf_reach("inside");
  vf_eq(s.getPositionAtTime(t), ref_pos(c, u), "position is the polynomial");
  vf_eq(s.getVelocityAtTime(t), ref_vel(c, u), "velocity is the first derivative");
  vf_eq(s.getAccelerationAtTime(t), ref_acc(c, u), "acceleration is the second derivative");
  vf_eq(s.getSplineDuration(), d, "duration");
  for (int i = 0; i <= N; ++i) vf_eq(s.getCoefficients()[i], c[i], "coefficients");
}

template <int N>
static void run() {
  typedef PolynomialSpline<N> S;
  typedef typename S::SplineCoefficients C;
  const C c = sym_coeffs<C>("c", 0), old = sym_coeffs<C>("o", 0);
  const double d = vf_real("d"), od = vf_real("od"), t = vf_real("t");
  vf_assume_le(0.0, d);
  vf_assume_le(0.0, od);
  switch (vf_choice("mode", 10)) {
    case 0: { S s(c, d); check_eval<N>(s, c, d, t); break; }
    case 1: { C cc = c; S s(std::move(cc), d); check_eval<N>(s, c, d, t); break; }
    case 2: { S s; s.setCoefficientsAndDuration(c, d); check_eval<N>(s, c, d, t); break; }
    case 3: { S s(old, od); s.getPositionAtTime(t); s.setCoefficientsAndDuration(c, d); check_eval<N>(s, c, d, t); break; }
    case 4: { S s(old, d); *s.getCoefficientsPtr() = c; check_eval<N>(s, c, d, t); break; }
    case 5: { S s(c, d); S k(s); s.setCoefficientsAndDuration(old, od); check_eval<N>(k, c, d, t); check_eval<N>(s, old, od, t); break; }
    case 6: { S s(c, d); S k(old, od); k = s; check_eval<N>(k, c, d, t); check_eval<N>(s, c, d, t); break; }
    case 7: { S s(c, d); S k(std::move(s)); check_eval<N>(k, c, d, t); break; }
    case 8: { S s(c, d); S k(old, od); k = std::move(s); check_eval<N>(k, c, d, t); break; }
    default: { S s; C z; z.fill(0.0); check_eval<N>(s, z, 0.0, t); break; }
  }
}
extern "C" void h_c02() { ORDER_SWITCH(run) }
