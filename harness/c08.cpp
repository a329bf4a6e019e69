#include "container.h"
using namespace curves;

template <int N>
static void run() {
  typedef PolynomialSpline<N> S;
  typedef typename S::SplineCoefficients C;
  const int n = vf_param("n");
  PolynomialSplineContainer<N> c;
  std::vector<double> dur;
  std::vector<C> co;
  double total = 0.0;
  const int read = n && n < 5 ? vf_choice("read", n + 1) : -1;   // read once before it is complete (n: not at all)
  for (int i = 0; i < n; ++i) {
    if (i == read) look<N>(c, vf_real("rt"));
    co.push_back(sym_coeffs<C>("c", i));
    dur.push_back(vf_pos(Nm("d", i)));
    total = total + dur[i];
    c.addSpline(S(co[i], dur[i]));
  }
  const double t = vf_real("t");
  if (vf_choice("played", 2)) c.setContainerTime(vf_real("pt"));
  const double p = c.getPositionAtTime(t), v = c.getVelocityAtTime(t), a = c.getAccelerationAtTime(t);
  const double ep = c.getEndPosition(), ev = c.getEndVelocity(), ea = c.getEndAcceleration();
  if (n == 0) {
    vf_eq(p, 0.0, "empty container position"); vf_eq(v, 0.0, "empty container velocity"); vf_eq(a, 0.0, "empty container acceleration");
    vf_eq(ep, 0.0, "empty container end position"); vf_eq(ev, 0.0, "empty container end velocity"); vf_eq(ea, 0.0, "empty container end acceleration");
    vf_eq(c.getPosition(), 0.0, "empty container position"); vf_eq(c.getVelocity(), 0.0, "empty container velocity");
    vf_eq(c.getAcceleration(), 0.0, "empty container acceleration");
    vf_reach("empty");
    return;
  }
  int i = 0;
  double u = t, start = 0.0;
  if (t < 0.0) { u = 0.0; vf_reach("before"); }
  else if (t >= total) { i = n - 1; u = dur[n - 1]; vf_reach("after"); }
  else {
    while (i + 1 < n && !(t < start + dur[i])) { start = start + dur[i]; ++i; }
    u = t - start;
    vf_reach("inside");
  }
  vf_eq(p, ref_pos(co[i], u), "position");
  vf_eq(v, ref_vel(co[i], u), "velocity");
  vf_eq(a, ref_acc(co[i], u), "acceleration");
  vf_eq(ep, ref_pos(co[n - 1], dur[n - 1]), "end position");
  vf_eq(ev, ref_vel(co[n - 1], dur[n - 1]), "end velocity");
  vf_eq(ea, ref_acc(co[n - 1], dur[n - 1]), "end acceleration");
}
extern "C" void h_c08() { ORDER_SWITCH(run) }
