#include "container.h"
#include <limits>
using namespace curves;

template <int N>
static void run() {
  typedef PolynomialSpline<N> S;
  typedef typename S::SplineCoefficients C;
  const int n = vf_param("n");
  PolynomialSplineContainer<N> c;
  bool sound = true;
  double total = 0.0;
  const int nan = vf_choice("nan", n * (N + 1) + 1);   // position of a NaN coefficient (last: none)
  for (int i = 0; i < n; ++i) {
    C k = sym_coeffs<C>("c", i);
    const double d = vf_real(Nm("d", i));
    if (d < 0.0) sound = false;
    if (nan / (N + 1) == i) k[nan % (N + 1)] = std::numeric_limits<double>::quiet_NaN();
    c.addSpline(S(k, d));
    total = total + d;
  }
  if (nan < n * (N + 1)) sound = false;
  const double t = vf_real("t");
  c.setContainerTime(t);
  const bool r = c.checkContainer();
  const bool want = sound && t >= 0.0 && t <= total;
  if (want) { vf_reach("sound"); vf_assert(r, "a sound container is accepted"); }
  else { vf_reach("unsound"); vf_assert(!r, "an unsound container is not accepted"); }
}
extern "C" void h_c14() { ORDER_SWITCH(run) }

// internal time reached by stepping
template <int N>
static void stepped() {
  typedef PolynomialSpline<N> S;
  typedef typename S::SplineCoefficients C;
  PolynomialSplineContainer<N> c;
  double total = 0.0;
  for (int i = 0; i < vf_param("n"); ++i) {
    const double d = vf_pos(Nm("d", i));
    c.addSpline(S(sym_coeffs<C>("c", i), d));
    total = total + d;
  }
  vf_assert(c.checkContainer(), "a fresh container is accepted");
  const double dt = vf_real("dt");
  vf_assume_le(0.0, dt);
  c.advance(dt);
  vf_assert(c.checkContainer() == (dt <= total), "accepted exactly while the internal time is inside");
  vf_reach("stepped");
}
extern "C" void h_c14_step() { ORDER_SWITCH(stepped) }
