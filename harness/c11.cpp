#include "common.h"
#include "curves/PolynomialSplineScalarCurve.hpp"
using namespace curves;
typedef PolynomialSplineQuinticScalarCurve SC;

static double val(const SC& c, double t) { double x = 0.0; vf_assert(c.evaluate(x, t), "evaluation succeeds"); return x; }
static double der(const SC& c, double t, unsigned d) {
  double x = 0.0;
  vf_assert(c.evaluateDerivative(x, t, d), "derivative succeeds");
  return x;
}
static void refused(const SC& c, double t) {
  const unsigned bad[3] = {0u, 3u, 4u};
  double x = 0.0;
  vf_assert(!c.evaluateDerivative(x, t, bad[vf_choice("order", 3)]), "other derivative orders are refused");
}

static void look(const SC& c, double t) { double x = 0.0; c.evaluate(x, t); c.evaluateDerivative(x, t, 1); c.evaluateDerivative(x, t, 2); }
// an arbitrary earlier use of the curve, read at time q
static void used(SC& c, double q) {
  const int kind = vf_choice("used", 4);
  if (kind == 1 || kind == 3) {
    Knots k(3, "ut", "uh", "up");
    c.fitCurve(k.t, k.p, vf_real("ub0"), vf_real("ub1"), vf_real("ub2"), vf_real("ub3"));
    look(c, q);
    if (kind == 3) c.clear();
  }
  if (kind == 2) {
    std::vector<SplineOptions> o;
    o.reserve(1);
    const double T = vf_pos("uT");
    o.push_back(SplineOptions(T, vf_real("ub0"), vf_real("ub1"), vf_real("ub2"), vf_real("ub3"), vf_real("ub4"), vf_real("ub5")));
    c.fitCurve(o);
    look(c, q);
  }
}

// knots, ends and domain
extern "C" void h_c11() {
  const int n = vf_param("n");
  Knots k(n);
  const bool plain = vf_choice("plain", 2);
  double v0 = 0.0, a0 = 0.0, v1 = 0.0, a1 = 0.0;
  SC c;
  used(c, k.t[n - 1]);
  if (plain) c.fitCurve(k.t, k.p);
  else {
    v0 = vf_real("v0"); a0 = vf_real("a0"); v1 = vf_real("v1"); a1 = vf_real("a1");
    c.fitCurve(k.t, k.p, v0, a0, v1, a1);
  }
  vf_eq(c.getMinTime(), k.t[0], "first time");
  vf_eq(c.getMaxTime(), k.t[n - 1], "last time");
  for (int i = 0; i < n; ++i) vf_eq(val(c, k.t[i]), k.p[i], "value at a knot");
  vf_eq(der(c, k.t[0], 1), v0, "initial velocity");
  vf_eq(der(c, k.t[0], 2), a0, "initial acceleration");
  vf_eq(der(c, k.t[n - 1], 1), v1, "final velocity");
  vf_eq(der(c, k.t[n - 1], 2), a1, "final acceleration");
  const double d = vf_real("d");
  vf_assume_le(0.0, d);
  vf_eq(val(c, k.t[0] - d), k.p[0], "held before the start");
  vf_eq(val(c, k.t[n - 1] + d), k.p[n - 1], "held after the end");
  vf_eq(der(c, k.t[0] - d, 1), v0, "velocity held before the start");
  vf_eq(der(c, k.t[n - 1] + d, 2), a1, "acceleration held after the end");
  refused(c, k.t[0]);
  vf_reach("knots");
}

// On each segment the curve is a polynomial of degree <= 5 and the derivatives are its derivatives: with P the quintic through
// value/first/second derivative at both ends of the segment (as reported by the curve), curve and derivatives equal P inside.
extern "C" void h_c11_inside() {
  const int n = vf_param("n");
  Knots k(n);
  SC c;
  const int i = vf_choice("segment", n - 1);
  const double s = vf_real("s"), h = k.h[i];   // s in [0, 1): fraction of the segment
  used(c, k.t[i] + s * h);
  c.fitCurve(k.t, k.p, vf_real("v0"), vf_real("a0"), vf_real("v1"), vf_real("a1"));
  vf_assume_le(0.0, s);
  vf_assume_lt(s, 1.0);
  const double A = k.t[i], B = k.t[i + 1], t = A + s * h;
  const double x0 = val(c, A), x1 = val(c, B), y0 = der(c, A, 1) * h, y1 = der(c, B, 1) * h, z0 = der(c, A, 2) * h * h, z1 = der(c, B, 2) * h * h;
  const double s2 = s * s, s3 = s2 * s, s4 = s3 * s, s5 = s4 * s;
  const double X = x0 * (1 - 10 * s3 + 15 * s4 - 6 * s5) + y0 * (s - 6 * s3 + 8 * s4 - 3 * s5) + z0 * (0.5 * s2 - 1.5 * s3 + 1.5 * s4 - 0.5 * s5)
                 + x1 * (10 * s3 - 15 * s4 + 6 * s5) + y1 * (-4 * s3 + 7 * s4 - 3 * s5) + z1 * (0.5 * s3 - s4 + 0.5 * s5);
  const double Y = x0 * (-30 * s2 + 60 * s3 - 30 * s4) + y0 * (1 - 18 * s2 + 32 * s3 - 15 * s4) + z0 * (s - 4.5 * s2 + 6 * s3 - 2.5 * s4)
                 + x1 * (30 * s2 - 60 * s3 + 30 * s4) + y1 * (-12 * s2 + 28 * s3 - 15 * s4) + z1 * (1.5 * s2 - 4 * s3 + 2.5 * s4);
  const double Z = x0 * (-60 * s + 180 * s2 - 120 * s3) + y0 * (-36 * s + 96 * s2 - 60 * s3) + z0 * (1 - 9 * s + 18 * s2 - 10 * s3)
                 + x1 * (60 * s - 180 * s2 + 120 * s3) + y1 * (-24 * s + 84 * s2 - 60 * s3) + z1 * (3 * s - 12 * s2 + 10 * s3);
  vf_eq(val(c, t), X, "value inside a segment");
  vf_eq(der(c, t, 1) * h, Y, "first derivative is the derivative of the curve");
  vf_eq(der(c, t, 2) * h * h, Z, "second derivative is the derivative of the curve");
  vf_reach("inside");
}

// list of boundary conditions: segments one after another from time 0
extern "C" void h_c11_options() {
  const int n = vf_param("n");
  std::vector<SplineOptions> o;
  o.reserve(n);
  std::vector<double> T, q;
  for (int i = 0; i < n; ++i) {
    T.push_back(vf_pos(Nm("T", i)));
    for (int j = 0; j < 6; ++j) q.push_back(vf_real(Nm("q", i, j)));
    o.push_back(SplineOptions(T[i], q[6 * i], q[6 * i + 1], q[6 * i + 2], q[6 * i + 3], q[6 * i + 4], q[6 * i + 5]));
  }
  SC c;
  used(c, T[0]);
  c.fitCurve(o);
  double total = 0.0;
  for (int i = 0; i < n; ++i) total = total + T[i];
  vf_eq(c.getMinTime(), 0.0, "starts at time 0");
  vf_eq(c.getMaxTime(), total, "ends after all segments");
  double s = 0.0;
  for (int i = 0; i < n; ++i) {
    vf_eq(val(c, s), q[6 * i], "segment start value");
    vf_eq(der(c, s, 1), q[6 * i + 2], "segment start velocity");
    vf_eq(der(c, s, 2), q[6 * i + 4], "segment start acceleration");
    const double f = vf_real(Nm("f", i));
    vf_assume_le(0.0, f);
    vf_assume_lt(f, 1.0);
    PolynomialSplineQuintic one(o[i]);
    vf_eq(val(c, s + f * T[i]), one.getPositionAtTime(f * T[i]), "segment value");
    vf_eq(der(c, s + f * T[i], 1), one.getVelocityAtTime(f * T[i]), "segment velocity");
    vf_eq(der(c, s + f * T[i], 2), one.getAccelerationAtTime(f * T[i]), "segment acceleration");
    s = s + T[i];
  }
  vf_eq(val(c, total), q[6 * (n - 1) + 1], "end value");
  vf_eq(der(c, total, 1), q[6 * (n - 1) + 3], "end velocity");
  vf_eq(der(c, total, 2), q[6 * (n - 1) + 5], "end acceleration");
  vf_reach("options");
}
