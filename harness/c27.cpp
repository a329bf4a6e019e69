// Cubic Hermite pose curve.
#include <curves/CubicHermiteSE3Curve.hpp>
#include "hermite.h"
typedef curves::CubicHermiteSE3Curve Curve;
typedef Curve::ValueType Pose;
typedef Curve::DerivativeType Twist;
typedef kindr::RotationQuaternionPD Quat;
static const char* const WAN[3] = {"wax", "way", "waz"};
static const char* const WBN[3] = {"wbx", "wby", "wbz"};

static Quat sym_quat(const char* n, int i) {
  double q[4];
  vf_unitq(Nm(n, i), q);
  return Quat(q[0], q[1], q[2], q[3]);
}
static V3 sym_v3(const char* const* n) { V3 v; for (int c = 0; c < 3; ++c) v(c) = vf_real(n[c]); return v; }

struct Ref6 : Ref {
  std::vector<Quat> q;
  V3 w0, w1;
  std::vector<Pose> poses() const {
    std::vector<Pose> r;
    for (int i = 0; i < n(); ++i) r.push_back(Pose(Pose::Position(p[i]), q[i]));
    return r;
  }
  Twist first() const { return Twist(v0, w0); }
  Twist last() const { return Twist(v1, w1); }
  // angular velocity that the curve has to have at knot i
  V3 omega(int i) const {
    if (i == 0) return w0;
    if (i + 1 == n()) return w1;
    return q[i + 1].boxMinus(q[i - 1]) / (h[i - 1] + h[i]);
  }
};
// rot: 0 all rotations the identity, 1 arbitrary
static Ref6 sym_ref6(int n, int kind, int rot, int old = 0) {
  Ref6 r;
  static_cast<Ref&>(r) = old ? sym_ref(n, kind, "ot", "oh", PO, AO, BO) : sym_ref(n, kind, "t", "h", PN, AN, BN);
  for (int i = 0; i < n; ++i) r.q.push_back(rot ? sym_quat(old ? "oq" : "q", i) : Quat());
  r.w0 = r.w1 = V3(0.0, 0.0, 0.0);
  if (kind && !old) { r.w0 = sym_v3(WAN); r.w1 = sym_v3(WBN); }
  return r;
}
static void fit(Curve& c, const Ref6& r, int kind, int keys) {
  std::vector<curves::Key> k;
  std::vector<curves::Key>* kp = keys ? &k : nullptr;
  if (kind) c.fitCurveWithDerivatives(r.t, r.poses(), r.first(), r.last(), kp);
  else c.fitCurve(r.t, r.poses(), kp);
}
static void look(Curve& c, double t) {
  Pose v;
  Twist d;
  kindr::Acceleration3D a;
  c.evaluate(v, t);
  c.evaluateDerivative(d, t, 1);
  c.evaluateLinearAcceleration(a, t);
}
// something the curve held before, read at time q
static void earlier(Curve& c, int kind, double q) {
  if (kind == 0) return;
  Ref6 o = sym_ref6(kind == 1 ? 2 : 3, 1, 1, 1);
  if (kind == 3) { o.p[2] = o.p[0]; o.q[2] = o.q[0]; c.fitPeriodicCurve(o.t, o.poses()); }
  else fit(c, o, 1, 0);
  look(c, q);
  if (kind == 2 && vf_choice("cleared", 2)) c.clear();
}
// the same rotation (the two quaternions of a rotation are not told apart)
static void eq_rot(const Quat& a, const Quat& b, const char* msg) {
  const double x[4] = {a.w(), a.x(), a.y(), a.z()}, y[4] = {b.w(), b.x(), b.y(), b.z()};
  for (int i = 0; i < 4; ++i) for (int j = i; j < 4; ++j) vf_eq(x[i] * x[j], y[i] * y[j], msg);
}
static const Pose& marked() { static Pose p(Pose::Position(7.0, 7.0, 7.0), Quat(0.0, 0.0, 1.0, 0.0)); return p; }

static void check_knots(Curve& c, const Ref6& r, int rates) {
  vf_assert(!c.isEmpty(), "the fitted curve is not empty");
  vf_assert(c.size() == r.n(), "as many coefficients as knots");
  vf_eq(c.getMinTime(), r.t.front(), "the curve starts at the first time");
  vf_eq(c.getMaxTime(), r.t.back(), "the curve ends at the last time");
  for (int i = 0; i < r.n(); ++i) {
    Pose v = marked();
    vf_assert(c.evaluate(v, r.t[i]), "the curve can be evaluated at a knot");
    eq3(v.getPosition().vector(), r.p[i], "position at a knot");
    eq_rot(v.getRotation(), r.q[i], "rotation at a knot");
    Twist d;
    vf_assert(c.evaluateDerivative(d, r.t[i], 1), "the derivative can be evaluated at a knot");
    eq3(d.getTranslationalVelocity().vector(), r.m[i], "velocity at a knot");
    if (rates) eq3(d.getRotationalVelocity().vector(), r.omega(i), i == 0 ? "angular velocity at the first time" : i + 1 == r.n() ? "angular velocity at the last time" : "angular velocity at an inner knot");
  }
}

extern "C" void h_c27() {
  Curve c;
  const int kind = vf_choice("derivatives", 2);
  const Ref6 r = sym_ref6(vf_param("n"), kind, 1);
  earlier(c, vf_choice("earlier", vf_param("used") ? 4 : 1), r.t[0]);
  fit(c, r, kind, vf_choice("keys", 2));
  check_knots(c, r, 0);
  vf_reach(kind ? "with derivatives" : "plain");
}

// translation, velocity and acceleration at any time
static void check_at(Curve& c, const Ref6& r, double t) {
  const int i = segment(r, t);
  const double x = t - r.t[i];
  Pose v = marked();
  Twist d;
  kindr::Acceleration3D a(7.0, 7.0, 7.0);
  vf_assert(c.evaluate(v, t), "evaluation inside the curve");
  vf_assert(c.evaluateDerivative(d, t, 1), "first derivative inside the curve");
  vf_assert(c.evaluateLinearAcceleration(a, t), "acceleration inside the curve");
  for (int k = 0; k < 3; ++k) {
    vf_eq(v.getPosition()(k), r.cubic(i, k, x, 0), "position inside the curve");
    vf_eq(d.getTranslationalVelocity()(k), r.cubic(i, k, x, 1), "velocity inside the curve");
    if (!is_knot(r, t)) vf_eq(a(k), r.cubic(i, k, x, 2), "acceleration inside the curve");
  }
}
extern "C" void h_c27_translation() {
  Curve c;
  const int kind = vf_choice("derivatives", 2);
  const Ref6 r = sym_ref6(vf_param("n"), kind, 1);
  fit(c, r, kind, 0);
  const double t = vf_real("time");
  vf_assume_le(r.t.front(), t);
  vf_assume_le(t, r.t.back());
  check_at(c, r, t);
  vf_reach("inside");
}

// angular velocities at the knots
extern "C" void h_c28() {
  Curve c;
  const int kind = vf_choice("derivatives", 2);
  const int n = vf_param("n");
  Ref6 r = sym_ref6(n, kind, 1);
  if (n > 2 && vf_choice("periodic", 2)) {
    r.p[n - 1] = r.p[0];
    r.q[n - 1] = r.q[0];
    const double dt = r.h[0] + r.h[n - 2];
    for (int k = 0; k < 3; ++k) r.v0(k) = r.v1(k) = (r.p[1](k) - r.p[n - 2](k)) / dt;
    r.w0 = r.w1 = r.q[1].boxMinus(r.q[n - 2]) / dt;
    r.tangents();
    c.fitPeriodicCurve(r.t, r.poses());
    vf_reach("periodic");
  } else {
    fit(c, r, kind, 0);
    vf_reach("knots");
  }
  check_knots(c, r, 1);
}

// the angular velocity is the rate at which the rotation changes, at every time
static Quat rot_at(const Curve& c, double t) { Pose v = marked(); vf_assert(c.evaluate(v, t), "evaluation inside the curve"); return v.getRotation(); }
extern "C" void h_c28_rate() {
  Curve c;
  const int n = vf_param("n");
  Ref6 r = sym_ref6(n, 1, 0);
  // the angular velocities at the ends are given in the frames of the ends: any vectors there are any vectors
  const double f = vf_param("five");
  for (int k = 0; k < n; ++k) r.q[k] = vf_param("rot") >> k & 1 ? sym_quat("q", k) : k == 0 ? Quat(2 / f, 1 / f, 2 / f, 4 / f) : k == 1 ? Quat(4 / f, -2 / f, -1 / f, 2 / f) : Quat(0.5, 0.5, -0.5, 0.5);
  r.w0 = r.q[0].rotate(r.w0);
  r.w1 = r.q[n - 1].rotate(r.w1);
  fit(c, r, 1, 0);
  const int i = n > 2 ? vf_choice("segment", n - 1) : 0;
  const double s = vf_real("s");
  vf_assume_lt(0.0, s);
  vf_assume_lt(s, 1.0);
  const double t = r.t[i] + r.h[i] * s;
  Twist d;
  vf_assert(c.evaluateDerivative(d, t, 1), "first derivative inside the curve");
  const Quat q = rot_at(c, t);
#ifdef VF_SYMBOLIC
  const Quat dq(vf_ddt(q.w(), s), vf_ddt(q.x(), s), vf_ddt(q.y(), s), vf_ddt(q.z(), s));
  const double slack = 1.0;
#else
  double wm = 1.0;
  for (int k = 0; k < 3; ++k) wm += std::fabs(r.w0(k)) + std::fabs(r.w1(k));
  const double e = 1e-4 / (4.0 + wm * r.h[i]) * std::min(s, 1.0 - s);
  Quat a = rot_at(c, r.t[i] + r.h[i] * (s - e)), b = rot_at(c, r.t[i] + r.h[i] * (s + e));
  if (a.vector().dot(q.vector()) < 0) a = Quat(Eigen::Vector4d(-a.vector()));
  if (b.vector().dot(q.vector()) < 0) b = Quat(Eigen::Vector4d(-b.vector()));
  const Quat dq(Eigen::Vector4d((b.vector() - a.vector()) / (2.0 * e)));
  const double slack = 1e-3 / (4.0 + wm * r.h[i]);   // finite differences
#endif
  // 2 q' = (0, w) q
  const Quat wq = Quat(0.0, d.getRotationalVelocity().vector()) * q;
  const double l[4] = {dq.w(), dq.x(), dq.y(), dq.z()}, m[4] = {wq.w(), wq.x(), wq.y(), wq.z()};
  for (int k = 0; k < 4; ++k) {
#ifdef VF_SYMBOLIC
    vf_eq(2.0 * l[k], m[k] * r.h[i], "the angular velocity is the rate of change of the rotation");
#else
    vf_eq(std::fabs(2.0 * l[k] - m[k] * r.h[i]) * slack < 1e-6 ? m[k] * r.h[i] : 2.0 * l[k], m[k] * r.h[i], "the angular velocity is the rate of change of the rotation");
#endif
  }
  vf_reach("rate");
}

static void check_domain(Curve& c, const Ref6& r, double t) {
  Pose v = marked();
  Twist d;
  kindr::Acceleration3D a;
  const bool in = r.n() > 0 && t >= r.t.front() && t <= r.t.back();
  vf_assert(c.evaluate(v, t) == in, "evaluation succeeds exactly inside the curve");
  vf_assert(c.evaluateDerivative(d, t, 1) == in, "the first derivative succeeds exactly inside the curve");
  if (r.n() != 1 || !in) vf_assert(c.evaluateLinearAcceleration(a, t) == in, "the acceleration succeeds exactly inside the curve");
  const unsigned bad[5] = {0u, 2u, 3u, 7u, 0xffffffffu};
  vf_assert(!c.evaluateDerivative(d, t, bad[vf_choice("order", 5)]), "other derivative orders are refused");
  if (in) {
    if (r.n() == 1) {
      eq3(v.getPosition().vector(), r.p[0], "position of a one-knot curve");
      eq_rot(v.getRotation(), r.q[0], "rotation of a one-knot curve");
      vf_assert(c.evaluateDerivative(d, t, 1), "first derivative of a one-knot curve");
      eq3(d.getTranslationalVelocity().vector(), r.v0, "velocity of a one-knot curve");
      eq3(d.getRotationalVelocity().vector(), r.w0, "angular velocity of a one-knot curve");
      vf_reach("one knot");
    } else { check_at(c, r, t); vf_reach("inside"); }
  } else vf_reach("outside");
}
extern "C" void h_c29() {
  Curve c;
  const double t = vf_choice("zero", 2) ? 0.0 : vf_real("time");
  earlier(c, vf_choice("earlier", vf_param("used") ? 4 : 1), t);
  const int n = vf_param("n");
  const Ref6 r = n ? sym_ref6(n, 1, n == 1) : Ref6();
  if (n) fit(c, r, 1, 0);
  else c.clear();
  vf_assert(c.size() == n, "number of coefficients");
  vf_assert(c.isEmpty() == (n == 0), "empty exactly without coefficients");
  check_domain(c, r, t);
  if (vf_choice("clear", 2)) {
    c.clear();
    vf_assert(c.isEmpty() && c.size() == 0, "a cleared curve is empty");
    check_domain(c, Ref6(), vf_choice("sametime", 2) ? t : vf_real("time2"));
    vf_reach("cleared");
  }
}
