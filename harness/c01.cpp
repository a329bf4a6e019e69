#include "common.h"
#include "curves/polynomial_splines.hpp"
using namespace curves;

template <int N>
static void check_bc(const PolynomialSpline<N>& s, double T, double p0, double pT, double v0, double vT, double a0, double aT) {
  vf_eq(s.getSplineDuration(), T, "reported duration");
  vf_eq(s.getPositionAtTime(0.0), p0, "start position");
  vf_eq(s.getPositionAtTime(T), pT, "end position");
  if (N >= 2) vf_eq(s.getVelocityAtTime(0.0), v0, "start velocity");
  if (N >= 3) vf_eq(s.getVelocityAtTime(T), vT, "end velocity");
  if (N >= 4) vf_eq(s.getAccelerationAtTime(0.0), a0, "start acceleration");
  if (N >= 5) vf_eq(s.getAccelerationAtTime(T), aT, "end acceleration");
}

template <int N>
static void run() {
  typedef PolynomialSpline<N> S;
  const double T = vf_pos("T"), p0 = vf_real("p0"), pT = vf_real("pT"), v0 = vf_real("v0"), vT = vf_real("vT"), a0 = vf_real("a0"),
               aT = vf_real("aT");
  const int mode = vf_choice("mode", 6);
  SplineOptions o(T, p0, pT, v0, vT, a0, aT);
  if (mode == 0) {
    S s(static_cast<const SplineOptions&>(o));
    check_bc<N>(s, T, p0, pT, v0, vT, a0, aT);
    vf_reach("from options");
  } else if (mode == 1) {
    S s(SplineOptions(T, p0, pT, v0, vT, a0, aT));
    check_bc<N>(s, T, p0, pT, v0, vT, a0, aT);
    vf_reach("from temporary options");
  } else if (mode == 2) {
    SplineOptions q;
    q.tf_ = T; q.pos0_ = p0; q.posT_ = pT; q.vel0_ = v0; q.velT_ = vT; q.acc0_ = a0; q.accT_ = aT;
    S s;
    vf_assert(s.computeCoefficients(q), "coefficients can be computed");
    check_bc<N>(s, T, p0, pT, v0, vT, a0, aT);
    vf_reach("recomputed on a default spline");
  } else if (mode == 3) {
    SplineOptions q(vf_pos("oT"), vf_real("op0"), vf_real("opT"), vf_real("ov0"), vf_real("ovT"), vf_real("oa0"), vf_real("oaT"));
    S s(q);
    const double before = s.getPositionAtTime(vf_real("u"));
    (void)before;
    vf_assert(s.computeCoefficients(static_cast<const SplineOptions&>(o)), "coefficients can be recomputed");
    check_bc<N>(s, T, p0, pT, v0, vT, a0, aT);
    vf_reach("recomputed on a used spline");
  } else if (mode == 4) {
    typename S::SplineCoefficients c = sym_coeffs<typename S::SplineCoefficients>("oc", 0);
    const double od = vf_real("od");
    vf_assume_le(0.0, od);
    S s(c, od);
    vf_assert(s.computeCoefficients(std::move(o)), "coefficients can be recomputed");
    check_bc<N>(s, T, p0, pT, v0, vT, a0, aT);
    vf_reach("recomputed on a spline with given coefficients");
  } else {
    S s(static_cast<const SplineOptions&>(o));
    S c(s);
    S m(std::move(s));
    S a;
    a = m;
    check_bc<N>(c, T, p0, pT, v0, vT, a0, aT);
    check_bc<N>(m, T, p0, pT, v0, vT, a0, aT);
    check_bc<N>(a, T, p0, pT, v0, vT, a0, aT);
    vf_reach("copied");
  }
}
extern "C" void h_c01() { ORDER_SWITCH(run) }
