#include "container.h"
using namespace curves;

template <int N>
static void run() {
  const int n = vf_param("n");
  Knots k(n);
  const double v0 = vf_real("v0"), a0 = vf_real("a0"), v1 = vf_real("v1"), a1 = vf_real("a1");
  PolynomialSplineContainer<N> c;
  if (vf_param("used")) { static const int kinds[3] = {0, 2, 3}; prior<N>(c, kinds[vf_choice("prior", 3)], vf_real("pu")); }
  vf_assert(c.setData(k.t, k.p, v0, a0, v1, a1), "the fit succeeds");
  const auto& s = c.getSplines();
  vf_assert(s.size() == (size_t)(n - 1), "one segment per pair of consecutive knots");
  double total = k.tau[n - 1];
  vf_eq(c.getContainerDuration(), total, "total duration");
  for (int i = 0; i + 1 < n; ++i) {
    vf_eq(s[i].getSplineDuration(), k.h[i], "segment duration");
    vf_eq(s[i].getPositionAtTime(0.0), k.p[i], "segment starts at its knot");
    vf_eq(s[i].getPositionAtTime(k.h[i]), k.p[i + 1], "segment ends at its knot");
  }
  for (int i = 0; i < n; ++i) vf_eq(c.getPositionAtTime(k.tau[i]), k.p[i], "knot position");
  vf_eq(c.getVelocityAtTime(0.0), v0, "initial velocity");
  vf_eq(c.getAccelerationAtTime(0.0), a0, "initial acceleration");
  vf_eq(c.getVelocityAtTime(total), v1, "final velocity");
  vf_eq(c.getAccelerationAtTime(total), a1, "final acceleration");
  vf_eq(c.getEndPosition(), k.p[n - 1], "end position");
  vf_eq(c.getEndVelocity(), v1, "end velocity");
  vf_eq(c.getEndAcceleration(), a1, "end acceleration");
  for (int i = 0; i + 2 < n; ++i) {
    vf_eq(s[i].getVelocityAtTime(k.h[i]), s[i + 1].getVelocityAtTime(0.0), "velocity continuous at a knot");
    vf_eq(s[i].getAccelerationAtTime(k.h[i]), s[i + 1].getAccelerationAtTime(0.0), "acceleration continuous at a knot");
    vf_eq(c.getVelocityAtTime(k.tau[i + 1]), s[i].getVelocityAtTime(k.h[i]), "velocity at a knot");
    vf_eq(c.getAccelerationAtTime(k.tau[i + 1]), s[i].getAccelerationAtTime(k.h[i]), "acceleration at a knot");
  }
  vf_reach("fitted");
}
extern "C" void h_c04() { ORDER_SWITCH(run) }
