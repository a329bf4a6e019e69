// Growing pose curves measurement by measurement, and saving them.
#include <curves/CubicHermiteSE3Curve.hpp>
#include <curves/SlerpSE3Curve.hpp>
#include <curves/helpers.hpp>
#include "hermite.h"
typedef curves::CubicHermiteSE3Curve Curve;
typedef Curve::ValueType Pose;
typedef Curve::DerivativeType Twist;
typedef kindr::RotationQuaternionPD Quat;

static Quat sym_quat(const char* n, int i) { double q[4]; vf_unitq(Nm(n, i), q); return Quat(q[0], q[1], q[2], q[3]); }
static void eq_rot(const Quat& a, const Quat& b, const char* msg) {
  const double x[4] = {a.w(), a.x(), a.y(), a.z()}, y[4] = {b.w(), b.x(), b.y(), b.z()};
  for (int i = 0; i < 4; ++i) for (int j = i; j < 4; ++j) vf_eq(x[i] * x[j], y[i] * y[j], msg);
}
// measurements: increasing times and poses
struct Meas {
  std::vector<double> t;
  std::vector<Pose> v;
  void add(int rot) {
    const int i = (int)t.size();
    t.push_back(i ? t[i - 1] + vf_pos(Nm("h", i)) : vf_real("t"));
    V3 p;
    for (int c = 0; c < 3; ++c) p(c) = vf_real(Nm(PN[c], i));
    v.push_back(Pose(Pose::Position(p), rot ? sym_quat("q", i) : Quat()));
  }
};
// which measurements are knots: the permanent ones, and the provisional end (-1: none)
struct Kept {
  int m; double period;
  std::vector<int> perm;
  int prov, since;
  Kept(int m_, double p_) : m(m_), period(p_), prov(-1), since(0) {}
  void take(const Meas& x, int i) {
    if (perm.empty() || (since >= m && x.t[perm.back()] + period < x.t[i])) { perm.push_back(i); prov = -1; since = 0; }
    else { prov = i; ++since; }
  }
  std::vector<int> all() const { std::vector<int> r(perm); if (prov >= 0) r.push_back(prov); return r; }
};
static void check(Curve& c, const Meas& x, const Kept& k) {
  const std::vector<int> a = k.all();
  vf_assert(c.size() == (int)a.size(), "number of knots of the extended curve");
  vf_assert(c.isEmpty() == a.empty(), "empty exactly without knots");
  std::vector<double> ts;
  c.getCurveTimes(&ts);
  vf_assert(ts.size() == a.size(), "number of knot times");
  if (a.empty()) return;
  vf_eq(c.getMinTime(), x.t[a.front()], "the curve starts at the first measurement");
  vf_eq(c.getMaxTime(), x.t[a.back()], "the curve ends at the last measurement");
  for (size_t i = 0; i < a.size(); ++i) vf_eq(ts[i], x.t[a[i]], "the knots are at the kept measurements");
  for (size_t i = 0; i < a.size(); ++i) {
    Pose p(Pose::Position(7.0, 7.0, 7.0), Quat(0.0, 0.0, 1.0, 0.0));
    vf_assert(c.evaluate(p, ts[i]), "the extended curve can be evaluated at a knot");
    eq3(p.getPosition().vector(), x.v[a[i]].getPosition().vector(), "position of a kept measurement");
    eq_rot(p.getRotation(), x.v[a[i]].getRotation(), "rotation of a kept measurement");
    // tangents are settled once the next permanent knot is there
    if (i + 1 < k.perm.size()) {
      const int l = k.perm[i ? i - 1 : 0], r = k.perm[i + 1];
      Twist d;
      vf_assert(c.evaluateDerivative(d, ts[i], 1), "the extended curve has a derivative at a knot");
      const double dt = x.t[r] - x.t[l];
      eq3(d.getTranslationalVelocity().vector(), (x.v[r].getPosition().vector() - x.v[l].getPosition().vector()) / dt, "velocity at a permanent knot");
      eq3(d.getRotationalVelocity().vector(), x.v[r].getRotation().boxMinus(x.v[l].getRotation()) / dt, "angular velocity at a permanent knot");
      vf_reach("tangent");
    }
  }
}
static curves::SamplingPolicy policy(int m, double period) {
  if (vf_choice("constructed", 2)) return curves::SamplingPolicy(m, period);
  curves::SamplingPolicy p;
  p.setMinimumMeasurements(m);
  p.setMinSamplingPeriod(period);
  return p;
}
static double sym_period() {
  if (vf_choice("period", 2) == 0) return 0.0;
  const double p = vf_real("minperiod");
  vf_assume_le(0.0, p);
  return p;
}
struct Other {
  const bool on;
  int got;
  curves::SamplingPolicy pol;
  Curve c;
  explicit Other(bool b) : on(b), got(0), pol(2, 0.5) {}
  void grow() {
    if (!on) return;
    pol.extend<Curve, Pose>(std::vector<double>(1, 50.0 + got), std::vector<Pose>(1, Pose(Pose::Position(1.0 * got, 2.0, 3.0), Quat())), &c);
    ++got;
  }
  // knots: the first, then every third; and the provisional end
  void check() {
    if (!on) return;
    std::vector<double> e, ts;
    for (int i = 0; i < got; ++i) if (i % 3 == 0 || i + 1 == got) e.push_back(50.0 + i);
    c.getCurveTimes(&ts);
    vf_assert(ts.size() == e.size(), "number of knots of a curve that grows at the same time");
    for (size_t i = 0; i < e.size(); ++i) {
      vf_eq(ts[i], e[i], "knots of a curve that grows at the same time");
      Pose p;
      vf_assert(c.evaluate(p, e[i]), "evaluation of a curve that grows at the same time");
      vf_eq(p.getPosition()(0), e[i] - 50.0, "position of a curve that grows at the same time");
    }
    vf_reach("two curves");
  }
};
extern "C" void h_c32() {
  const int n = vf_param("n"), m = vf_param("m"), batch = vf_param("batch");
  const double period = sym_period();
  curves::SamplingPolicy pol = policy(m, period);
  Curve c;
  Meas x;
  Kept k(m, period);
  // another curve, with its own policy, that grows at the same time
  Other o(vf_choice("other", 2));
  for (int i = 0; i < n;) {
    o.grow();
    std::vector<double> t;
    std::vector<Pose> v;
    for (int b = 0; b < batch && i < n; ++b, ++i) {
      x.add(vf_param("rot"));
      t.push_back(x.t[i]);
      v.push_back(x.v[i]);
      k.take(x, i);
    }
    pol.extend<Curve, Pose>(t, v, &c);
  }
  o.check();
  check(c, x, k);
  vf_assert(pol.getMinimumMeasurements() == m, "the policy keeps its minimum number of measurements");
  vf_eq(pol.getMinSamplingPeriod(), period, "the policy keeps its minimum sampling period");
  vf_reach(k.prov >= 0 ? "provisional end" : "permanent end");
}
// times at or before the end of the curve are refused
extern "C" void h_c32_past() {
  const int n = vf_param("n");
  curves::SamplingPolicy pol(1, 0.0);
  Curve c;
  Meas x;
  for (int i = 0; i < n; ++i) {
    x.add(0);
    pol.extend<Curve, Pose>(std::vector<double>(1, x.t[i]), std::vector<Pose>(1, x.v[i]), &c);
  }
  const double t = vf_real("past");
  vf_assume_le(t, x.t[n - 1]);
  std::vector<double> tt;
  std::vector<Pose> vv;
  if (vf_choice("second of a batch", 2)) { x.add(0); tt.push_back(x.t[n]); vv.push_back(x.v[n]); }
  tt.push_back(t);
  vv.push_back(x.v[0]);
  vf_assert(c.size() > 0, "number of knots of the extended curve");
  vf_reach("past");
  vf_expect_abort("a measurement that is not later than the end of the curve is refused");
  pol.extend<Curve, Pose>(tt, vv, &c);
  vf_unexpect_abort();
}

// Slerp curve: knots kept when measurements come in one by one.  The class leaves the interface's evaluation open.
struct Slerp : curves::SlerpSE3Curve {
  using curves::SlerpSE3Curve::evaluate;
  using curves::SlerpSE3Curve::evaluateDerivative;
  bool evaluate(Pose&, curves::Time) const override { return false; }
  bool evaluateDerivative(Twist&, curves::Time, unsigned) const override { return false; }
};
static void check_times(const Slerp& c, const std::vector<double>& e) {
  std::vector<double> ts;
  c.getCurveTimes(&ts);
  vf_assert(c.size() == (int)e.size() && ts.size() == e.size(), "number of knots");
  vf_assert(c.isEmpty() == e.empty(), "empty exactly without knots");
  for (size_t i = 0; i < ts.size(); ++i) vf_eq(ts[i], e[i], "time of a knot");
  if (!e.empty()) {
    vf_eq(c.getMinTime(), e.front(), "the curve starts at the first knot");
    vf_eq(c.getMaxTime(), e.back(), "the curve ends at the last knot");
  }
}
static void put(std::vector<double>& e, double t) {
  size_t i = 0;
  while (i < e.size() && e[i] < t) ++i;
  if (i < e.size() && e[i] == t) return;
  e.insert(e.begin() + i, t);
}
static Pose some_pose(int i) { V3 p; for (int c = 0; c < 3; ++c) p(c) = vf_real(Nm(PN[c], i)); return Pose(Pose::Position(p), Quat()); }
// fitting, setting and extending with several measurements at once
extern "C" void h_c33_batch() {
  Slerp c;
  std::vector<double> e;
  const int ops = vf_param("ops"), n = vf_param("n");
  int id = 0;
  for (int o = 0; o < ops; ++o) {
    std::vector<double> t;
    std::vector<Pose> v;
    const int op = vf_choice(Nm("op", o), 4);
    if (op == 3) { c.clear(); e.clear(); continue; }
    for (int i = 0; i < n; ++i, ++id) {
      // any times, but each list ascending
      t.push_back(vf_real(Nm("t", id)));
      if (i) vf_assume_lt(t[i - 1], t[i]);
      v.push_back(some_pose(id));
    }
    std::vector<curves::Key> k;
    std::vector<curves::Key>* kp = vf_choice("keys", 2) ? &k : nullptr;
    if (op == 0) { c.fitCurve(t, v, kp); e.clear(); }
    if (op == 1) { c.setCurve(t, v); kp = nullptr; }
    if (op == 2) c.extend(t, v, kp);
    for (double x : t) put(e, x);
    if (kp) {
      vf_assert((int)k.size() == n, "one key per knot");
      for (int i = 0; i < n; ++i) for (int j = 0; j < i; ++j) vf_assert(k[i] != k[j], "different knots have different keys");
    }
  }
  check_times(c, e);
  vf_reach("batches");
}
extern "C" void h_c33_single() {
  Slerp c, o;
  std::vector<double> e, oe;
  const int n = vf_param("n"), ratio = vf_param("ratio");
  // another curve that grows at the same time, with the default ratio
  const int other = vf_choice("other", 2);
  if (ratio != 1 || vf_choice("set", 2)) c.setSamplingRatio(ratio);
  c.setMinSamplingPeriod(vf_real("minperiod"));
  int since = 0;
  double t = vf_real("t");
  for (int i = 0; i < n; ++i) {
    if (i) t = t + vf_pos(Nm("h", i));
    if (other) {
      oe.push_back(3.0 + i);
      o.extend(std::vector<double>(1, oe.back()), std::vector<Pose>(1, Pose(Pose::Position(1.0, 2.0, 3.0), Quat())));
    }
    c.extend(std::vector<double>(1, t), std::vector<Pose>(1, some_pose(i)));
    if (e.size() >= 2 && ratio > 1) {
      if (since > 0) e.pop_back();
      e.push_back(t);
      since = (since + 1) % ratio;
    } else e.push_back(t);
    check_times(c, e);
    check_times(o, oe);
  }
  vf_reach("one by one");
}

// saved curves
static void printed_eq(double a, double b, const char* msg) {
#ifdef VF_SYMBOLIC
  vf_eq(a, b, msg);
#else
  vf_eq(std::fabs(a - b) <= 1e-5 * std::fabs(b) + 1e-12 ? b : a, b, msg);
#endif
}
extern "C" void h_c34() {
  const int n = vf_param("n"), at = vf_param("at");
  Curve c;
  Meas x;
  for (int i = 0; i < n; ++i) x.add(vf_param("rot"));
  c.fitCurve(x.t, x.v);
  std::vector<double> times = x.t;
  std::vector<Pose> want = x.v;
  if (vf_choice("saved before", 2)) {
    // the same curve at more times, in the same file
    std::vector<double> more;
    for (int i = 0; i < 2; ++i) for (size_t j = 0; j < x.t.size(); ++j) more.push_back(x.t[j]);
    c.saveCurveAtTimes("pose.csv", more);
    std::vector<double> t;
    std::vector<Eigen::VectorXd> v;
    curves::loadTimeVectorCSV("pose.csv", &t, &v);
    vf_assert(t.size() == more.size() && v.size() == more.size(), "one row per time");
    // and another curve of the same size
    std::vector<Pose> w(x.v.size(), Pose(Pose::Position(1.0, 2.0, 3.0), Quat()));
    Curve d;
    d.fitCurve(x.t, w);
    d.saveCurveTimesAndValues("pose.csv");
    curves::loadTimeVectorCSV("pose.csv", &t, &v);
    vf_assert(t.size() == x.t.size() && v.size() == x.t.size(), "one row per time");
    vf_reach("saved before");
  }
  if (at) {
    times.clear(); want.clear();
    for (int i = 0; i < at; ++i) {
      const double t = vf_real(Nm("at", i));
      vf_assume_le(x.t.front(), t);
      vf_assume_le(t, x.t.back());
      times.push_back(t);
      Pose p;
      vf_assert(c.evaluate(p, t), "evaluation inside the curve");
      want.push_back(p);
    }
    c.saveCurveAtTimes("pose.csv", times);
  } else c.saveCurveTimesAndValues("pose.csv");
  std::vector<double> t;
  std::vector<Eigen::VectorXd> v;
  curves::loadTimeVectorCSV("pose.csv", &t, &v);
  vf_assert(t.size() == times.size() && v.size() == times.size(), "one row per time");
  for (size_t i = 0; i < t.size(); ++i) {
    printed_eq(t[i], times[i], "time of a saved row");
    vf_assert(v[i].size() == 7, "position and quaternion in a saved row");
    for (int k = 0; k < 3; ++k) printed_eq(v[i][k], want[i].getPosition()(k), "saved position");
    const Quat& q = want[i].getRotation();
    const double w[4] = {q.w(), q.x(), q.y(), q.z()};
    for (int a = 0; a < 4; ++a) for (int b = a; b < 4; ++b) printed_eq(v[i][3 + a] * v[i][3 + b], w[a] * w[b], "saved rotation");
  }
  vf_reach(at ? "at times" : "knots");
}
