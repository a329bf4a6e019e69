#include "container.h"
using namespace curves;

template <int N>
static void run() {
  typedef PolynomialSpline<N> S;
  typedef typename S::SplineCoefficients C;
  const int ops = vf_param("ops"), n = vf_param("n");
  PolynomialSplineContainer<N> c;
  double time = 0.0, total = 0.0;
  int count = 0;
  for (int i = 0; i < n; ++i) {
    const double d = vf_pos(Nm("d", i));
    c.addSpline(S(sym_coeffs<C>("c", i), d));
    total = total + d;
    ++count;
  }
  for (int o = 0; o < ops; ++o) {
    switch (vf_choice(Nm("op", o), o == 0 ? 3 : 6)) {
      case 0: {
        const double dt = vf_real(Nm("dt", o));
        vf_assume_le(0.0, dt);
        const bool moves = count > 0 && time < total;
        const bool r = c.advance(dt);
        vf_assert(r == moves, "an advance reports whether splines remain");
        if (moves) { time = time + dt; vf_reach("advanced"); } else vf_reach("not advanced");
        break;
      }
      case 1: {
        const double t = vf_real(Nm("jump", o));
        c.setContainerTime(t);
        time = t;
        break;
      }
      case 2: {
        const double d = vf_pos(Nm("ad", o));
        c.addSpline(S(sym_coeffs<C>("ac", o), d));
        total = total + d;
        ++count;
        break;
      }
      case 3:
        c.resetTime();
        time = 0.0;
        break;
      case 4: {
        Knots k(3, Nm("t", o), Nm("h", o), Nm("p", o));
        vf_assert(c.setData(k.t, k.p), "fit succeeds");
        time = 0.0;
        total = k.tau[2];
        count = 2;
        break;
      }
      default:
        c.reset();
        time = 0.0;
        total = 0.0;
        count = 0;
        break;
    }
    vf_eq(c.getContainerTime(), time, "internal time");
    vf_eq(c.getPosition(), c.getPositionAtTime(time), "position at the internal time");
    vf_eq(c.getVelocity(), c.getVelocityAtTime(time), "velocity at the internal time");
    vf_eq(c.getAcceleration(), c.getAccelerationAtTime(time), "acceleration at the internal time");
  }
  vf_reach("end");
}
extern "C" void h_c09() { ORDER_SWITCH(run) }

// stepping through a container from its start, many steps
template <int N>
static void steps() {
  typedef PolynomialSpline<N> S;
  typedef typename S::SplineCoefficients C;
  const int n = vf_param("n"), k = vf_param("steps");
  PolynomialSplineContainer<N> c;
  double time = 0.0, total = 0.0;
  for (int i = 0; i < n; ++i) {
    const double d = vf_pos(Nm("d", i));
    c.addSpline(S(sym_coeffs<C>("c", i), d));
    total = total + d;
  }
  for (int o = 0; o < k; ++o) {
    const double dt = vf_real(Nm("dt", o));
    vf_assume_le(0.0, dt);
    const bool moves = time < total;
    vf_assert(c.advance(dt) == moves, "an advance reports whether splines remain");
    if (moves) time = time + dt;
    vf_eq(c.getContainerTime(), time, "internal time");
    vf_eq(c.getPosition(), c.getPositionAtTime(time), "position at the internal time");
    vf_eq(c.getVelocity(), c.getVelocityAtTime(time), "velocity at the internal time");
    vf_eq(c.getAcceleration(), c.getAccelerationAtTime(time), "acceleration at the internal time");
  }
  vf_reach("played");
}
extern "C" void h_c09_steps() { ORDER_SWITCH(steps) }
