// Cubic Hermite position curve.
#include <curves/CubicHermiteE3Curve.hpp>
#include "hermite.h"
typedef curves::CubicHermiteE3Curve Curve;

static void fit(Curve& c, const Ref& r, int kind, int keys) {
  std::vector<curves::Key> k;
  std::vector<curves::Key>* kp = keys ? &k : nullptr;
  if (kind) c.fitCurveWithDerivatives(r.t, r.p, r.v0, r.v1, kp);
  else c.fitCurve(r.t, r.p, kp);
}
static void look(const Curve& c, double t) {
  V3 v;
  c.evaluate(v, t);
  c.evaluateDerivative(v, t, 1);
  c.evaluateDerivative(v, t, 2);
  c.evaluateLinearAcceleration(v, t);
}
// something the curve held before, read at time q
static void earlier(Curve& c, int kind, double q) {
  if (kind == 0) return;
  Ref o = sym_ref(kind == 1 ? 2 : 3, 1, "ot", "oh", PO, AO, BO);
  if (kind == 3) { o.p[2] = o.p[0]; c.fitPeriodicCurve(o.t, o.p); }
  else fit(c, o, 1, 0);
  look(c, q);
  if (kind == 2 && vf_choice("cleared", 2)) c.clear();
}

static void check_knots(const Curve& c, const Ref& r) {
  vf_assert(!c.isEmpty(), "the fitted curve is not empty");
  vf_assert(c.size() == r.n(), "as many coefficients as knots");
  vf_eq(c.getMinTime(), r.t.front(), "the curve starts at the first time");
  vf_eq(c.getMaxTime(), r.t.back(), "the curve ends at the last time");
  for (int i = 0; i < r.n(); ++i) {
    V3 v(7.0, 7.0, 7.0);
    vf_assert(c.evaluate(v, r.t[i]), "the curve can be evaluated at a knot");
    eq3(v, r.p[i], "position at a knot");
    V3 d(7.0, 7.0, 7.0);
    vf_assert(c.evaluateDerivative(d, r.t[i], 1), "the derivative can be evaluated at a knot");
    eq3(d, r.m[i], i == 0 ? "derivative at the first time" : i + 1 == r.n() ? "derivative at the last time" : "derivative at an inner knot");
  }
}

extern "C" void h_c23() {
  Curve c;
  const int kind = vf_choice("derivatives", 2);
  const Ref r = sym_ref(vf_param("n"), kind, "t", "h", PN, AN, BN);
  earlier(c, vf_choice("earlier", vf_param("used") ? 4 : 1), r.t[vf_choice("readat", 2)]);
  fit(c, r, kind, vf_choice("keys", 2));
  check_knots(c, r);
  vf_reach(kind ? "with derivatives" : "plain");
}

static void check_at(const Curve& c, const Ref& r, double t, int orders) {
  const int i = segment(r, t);
  const double x = t - r.t[i];
  V3 v(7.0, 7.0, 7.0), d(7.0, 7.0, 7.0), a(7.0, 7.0, 7.0), b(7.0, 7.0, 7.0);
  vf_assert(c.evaluate(v, t), "evaluation inside the curve");
  for (int k = 0; k < 3; ++k) vf_eq(v(k), r.cubic(i, k, x, 0), "position inside the curve");
  if (orders < 1) return;
  vf_assert(c.evaluateDerivative(d, t, 1), "first derivative inside the curve");
  for (int k = 0; k < 3; ++k) vf_eq(d(k), r.cubic(i, k, x, 1), "first derivative is that of the position");
  if (orders < 2) return;
  vf_assert(c.evaluateDerivative(a, t, 2), "second derivative inside the curve");
  vf_assert(c.evaluateLinearAcceleration(b, t), "acceleration inside the curve");
  for (int k = 0; k < 3; ++k) {
    vf_eq(a(k), b(k), "the acceleration is the second derivative");
    if (!is_knot(r, t)) vf_eq(a(k), r.cubic(i, k, x, 2), "second derivative is that of the position");
  }
}

extern "C" void h_c24() {
  Curve c;
  const int kind = vf_choice("derivatives", 2);
  Ref r = sym_ref(vf_param("n"), kind, "t", "h", PN, AN, BN);
  fit(c, r, kind, 0);
  const double t = vf_real("time");
  vf_assume_le(r.t.front(), t);
  vf_assume_le(t, r.t.back());
  check_at(c, r, t, 2);
  vf_reach("inside");
}

// answers exactly on the domain
static void check_domain(Curve& c, const Ref& r, double t) {
  V3 v(7.0, 7.0, 7.0), d(7.0, 7.0, 7.0), a(7.0, 7.0, 7.0);
  const bool in = r.n() > 0 && t >= r.t.front() && t <= r.t.back();
  vf_assert(c.evaluate(v, t) == in, "evaluation succeeds exactly inside the curve");
  vf_assert(c.evaluateDerivative(d, t, 1) == in, "the first derivative succeeds exactly inside the curve");
  if (r.n() != 1 || !in) {
    vf_assert(c.evaluateDerivative(a, t, 2) == in, "the second derivative succeeds exactly inside the curve");
    vf_assert(c.evaluateLinearAcceleration(a, t) == in, "the acceleration succeeds exactly inside the curve");
  }
  const unsigned bad[5] = {0u, 3u, 4u, 7u, 0xffffffffu};
  vf_assert(!c.evaluateDerivative(a, t, bad[vf_choice("order", 5)]), "other derivative orders are refused");
  if (in) {
    if (r.n() == 1) { eq3(v, r.p[0], "position of a one-knot curve"); eq3(d, r.v0, "derivative of a one-knot curve"); vf_reach("one knot"); }
    else { check_at(c, r, t, 2); vf_reach("inside"); }
  } else vf_reach("outside");
}

extern "C" void h_c25() {
  Curve c;
  const double t = vf_choice("zero", 2) ? 0.0 : vf_real("time");
  earlier(c, vf_choice("earlier", vf_param("used") ? 4 : 1), t);
  const int n = vf_param("n");
  const Ref r = n ? sym_ref(n, 1, "t", "h", PN, AN, BN) : Ref();
  if (n) fit(c, r, 1, 0);
  else c.clear();
  vf_assert(c.size() == n, "number of coefficients");
  vf_assert(c.isEmpty() == (n == 0), "empty exactly without coefficients");
  check_domain(c, r, t);
  if (vf_choice("clear", 2)) {
    c.clear();
    vf_assert(c.isEmpty() && c.size() == 0, "a cleared curve is empty");
    check_domain(c, Ref(), vf_choice("sametime", 2) ? t : vf_real("time2"));
    vf_reach("cleared");
  }
}

extern "C" void h_c26() {
  Curve c;
  const double t = vf_real("time");
  earlier(c, vf_choice("earlier", vf_param("used") ? 4 : 1), t);
  const int n = vf_param("n");
  Ref r = sym_ref(n, 0, "t", "h", PN, AN, BN);
  r.p[n - 1] = r.p[0];
  for (int k = 0; k < 3; ++k) r.v0(k) = r.v1(k) = (r.p[1](k) - r.p[n - 2](k)) / (r.h[0] + r.h[n - 2]);
  r.tangents();
  std::vector<curves::Key> keys;
  if (vf_choice("keys", 2)) c.fitPeriodicCurve(r.t, r.p, &keys);
  else c.fitPeriodicCurve(r.t, r.p);
  check_knots(c, r);
  vf_assume_le(r.t.front(), t);
  vf_assume_le(t, r.t.back());
  check_at(c, r, t, 1);
  vf_reach("periodic");
}
