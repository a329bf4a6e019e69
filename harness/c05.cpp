#include "container.h"
using namespace curves;

// overload 6: full fit, 4: velocities only, 2: positions only
template <int N>
static void run() {
  const int n = vf_param("n"), ov = vf_param("overload");
  Knots k(n);
  const double v0 = vf_real("v0"), a0 = vf_real("a0"), v1 = vf_real("v1"), a1 = vf_real("a1");
  PolynomialSplineContainer<N> c;
  if (vf_param("used")) { static const int kinds[3] = {0, 2, 3}; prior<N>(c, kinds[vf_choice("prior", 3)], vf_real("pu")); }
  bool ok;
  if (ov == 6) ok = c.setData(k.t, k.p, v0, a0, v1, a1);
  else if (ov == 4) ok = c.setData(k.t, k.p, v0, v1);
  else ok = c.setData(k.t, k.p);
  vf_assert(ok, "the fit succeeds");
  const auto& s = c.getSplines();
  vf_assert(s.size() == (size_t)(n - 1), "one segment per pair of consecutive knots");
  const double total = k.tau[n - 1];
  vf_eq(c.getContainerDuration(), total, "total duration");
  for (int i = 0; i + 1 < n; ++i) {
    vf_eq(s[i].getSplineDuration(), k.h[i], "segment duration");
    vf_eq(s[i].getPositionAtTime(0.0), k.p[i], "segment starts at its knot");
    vf_eq(s[i].getPositionAtTime(k.h[i]), k.p[i + 1], "segment ends at its knot");
  }
  for (int i = 0; i < n; ++i) vf_eq(c.getPositionAtTime(k.tau[i]), k.p[i], "knot position");
  if (ov == 2 || N < 3) {
    // straight lines
    const int i = vf_choice("segment", n - 1);
    const double f = vf_real("f");
    vf_assume_le(0.0, f);
    vf_assume_lt(f, 1.0);
    const double t = k.tau[i] + f * k.h[i];
    vf_eq(s[i].getPositionAtTime(f * k.h[i]), k.p[i] + f * (k.p[i + 1] - k.p[i]), "straight line");
    vf_eq(c.getPositionAtTime(t), k.p[i] + f * (k.p[i + 1] - k.p[i]), "straight line");
    vf_eq(c.getVelocityAtTime(t) * k.h[i], k.p[i + 1] - k.p[i], "constant velocity");
    vf_eq(c.getAccelerationAtTime(t), 0.0, "no acceleration");
    vf_reach("straight");
  } else {
    vf_eq(c.getVelocityAtTime(0.0), v0, "initial velocity");
    vf_eq(c.getVelocityAtTime(total), v1, "final velocity");
    vf_eq(c.getEndVelocity(), v1, "end velocity");
    vf_eq(c.getEndPosition(), k.p[n - 1], "end position");
    for (int i = 0; i + 2 < n; ++i) {
      vf_eq(s[i].getVelocityAtTime(k.h[i]), s[i + 1].getVelocityAtTime(0.0), "velocity continuous at a knot");
      vf_eq(s[i].getAccelerationAtTime(k.h[i]), s[i + 1].getAccelerationAtTime(0.0), "acceleration continuous at a knot");
    }
    vf_reach("smooth");
  }
}
extern "C" void h_c05() { ORDER_SWITCH(run) }
