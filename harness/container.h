// Helpers for container harnesses: arbitrary earlier history and comparison of two containers.
#pragma once
#include "common.h"
#include "curves/polynomial_splines_containers.hpp"

template <int N>
static bool fit(curves::PolynomialSplineContainer<N>& c, int ov, const std::vector<double>& t, const std::vector<double>& p, const double* b) {
  if (ov == 0) return c.setData(t, p, b[0], b[1], b[2], b[3]);
  if (ov == 1) return c.setData(t, p, b[0], b[2]);
  return c.setData(t, p);
}

// reads the container (results do not matter here: reading must not change what comes later)
template <int N>
static void look(const curves::PolynomialSplineContainer<N>& c, double t) {
  volatile double x;
  x = c.getPositionAtTime(t);
  x = c.getVelocityAtTime(t);
  x = c.getAccelerationAtTime(t);
  x = c.getEndPosition();
  (void)x;
}

// an arbitrary earlier history (0: none), read at time q
enum { NPRIOR = 6 };
template <int N>
static void prior(curves::PolynomialSplineContainer<N>& c, int kind, double q) {
  typedef curves::PolynomialSpline<N> S;
  typedef typename S::SplineCoefficients C;
  if (kind == 0) return;
  if (kind == 1 || kind == 2 || kind == 5) {
    for (int i = 0; i < 2; ++i) { const double d = vf_pos(Nm("pd", i)); c.addSpline(S(sym_coeffs<C>("pc", i), d)); }
    look<N>(c, q);
    if (kind == 2) { const double dt = vf_real("pdt"); vf_assume_le(0.0, dt); c.advance(dt); }
    if (kind == 5) { c.setContainerTime(vf_real("pt")); c.reset(); look<N>(c, q); }
    return;
  }
  Knots k(3, "pt0", "ph", "pp");
  const double b[4] = {vf_real("pv0"), vf_real("pa0"), vf_real("pv1"), vf_real("pa1")};
  fit<N>(c, kind == 3 ? 0 : 2, k.t, k.p, b);
  c.setContainerTime(vf_real("pt"));
  look<N>(c, q);
}

template <int N>
static void same(const curves::PolynomialSplineContainer<N>& a, const curves::PolynomialSplineContainer<N>& f, double t) {
  vf_assert(a.isEmpty() == f.isEmpty(), "emptiness");
  vf_assert(a.getSplines().size() == f.getSplines().size(), "number of segments");
  for (size_t i = 0; i < f.getSplines().size(); ++i) {
    vf_eq(a.getSplines()[i].getSplineDuration(), f.getSplines()[i].getSplineDuration(), "segment duration");
    for (int k = 0; k <= N; ++k) vf_eq(a.getSplines()[i].getCoefficients()[k], f.getSplines()[i].getCoefficients()[k], "segment coefficients");
  }
  vf_eq(a.getContainerDuration(), f.getContainerDuration(), "duration");
  vf_eq(a.getContainerTime(), f.getContainerTime(), "internal time");
  vf_eq(a.getPositionAtTime(t), f.getPositionAtTime(t), "position");
  vf_eq(a.getVelocityAtTime(t), f.getVelocityAtTime(t), "velocity");
  vf_eq(a.getAccelerationAtTime(t), f.getAccelerationAtTime(t), "acceleration");
  vf_eq(a.getPosition(), f.getPosition(), "position at the internal time");
  vf_eq(a.getVelocity(), f.getVelocity(), "velocity at the internal time");
  vf_eq(a.getAcceleration(), f.getAcceleration(), "acceleration at the internal time");
  vf_assert(a.getActiveSplineIndex() == f.getActiveSplineIndex(), "active segment");
}
