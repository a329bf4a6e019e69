// Copies of Hermite curves are independent.
#include <curves/CubicHermiteE3Curve.hpp>
#include <curves/CubicHermiteSE3Curve.hpp>
#include "hermite.h"
#include <memory>
typedef curves::CubicHermiteE3Curve E3;
typedef curves::CubicHermiteSE3Curve SE3C;
typedef SE3C::ValueType Pose;
typedef SE3C::DerivativeType Twist;
typedef kindr::RotationQuaternionPD Quat;
static const char* const T[3] = {"at", "bt", "ct"};
static const char* const H[3] = {"ah", "bh", "ch"};
static const char* const PA[3] = {"apx", "apy", "apz"};
static const char* const PB[3] = {"bpx", "bpy", "bpz"};
static const char* const PC[3] = {"cpx", "cpy", "cpz"};
static const char* const* const P[3] = {PA, PB, PC};
// measurements; i: which data
struct Data {
  Ref r;
  std::vector<Pose> poses;
  Data(int n, int i) : r(sym_ref(n, 0, T[i], H[i], P[i], AN, BN)) {
    for (int k = 0; k < n; ++k) poses.push_back(Pose(Pose::Position(r.p[k]), Quat()));
  }
};
static void fit(E3& c, const Data& d) {
  std::vector<E3::ValueType> v;
  for (const V3& p : d.r.p) v.push_back(E3::ValueType(p(0), p(1), p(2)));
  c.fitCurve(d.r.t, v);
}
static void fit(SE3C& c, const Data& d) { c.fitCurve(d.r.t, d.poses); }
static void check_at(const E3& c, const Ref& r, double t) {
  const int i = segment(r, t);
  E3::ValueType v(7.0, 7.0, 7.0);
  E3::DerivativeType d;
  vf_assert(c.evaluate(v, t) && c.evaluateDerivative(d, t, 1), "a copied curve can be evaluated");
  for (int k = 0; k < 3; ++k) { vf_eq(v(k), r.cubic(i, k, t - r.t[i], 0), "position on a copied curve"); vf_eq(d(k), r.cubic(i, k, t - r.t[i], 1), "velocity on a copied curve"); }
}
static void check_at(const SE3C& c, const Ref& r, double t) {
  const int i = segment(r, t);
  Pose v(Pose::Position(7.0, 7.0, 7.0), Quat());
  Twist d;
  vf_assert(c.evaluate(v, t) && c.evaluateDerivative(d, t, 1), "a copied curve can be evaluated");
  for (int k = 0; k < 3; ++k) { vf_eq(v.getPosition()(k), r.cubic(i, k, t - r.t[i], 0), "position on a copied curve"); vf_eq(d.getTranslationalVelocity()(k), r.cubic(i, k, t - r.t[i], 1), "velocity on a copied curve"); }
}
template <class C>
static void run() {
  const int n = vf_param("n");
  std::unique_ptr<C> a(new C), b;
  const Data d(n, 0);
  fit(*a, d);
  if (vf_choice("how", 2)) b.reset(new C(*a));
  else { b.reset(new C); fit(*b, Data(2, 1)); *b = *a; }
  C& other = vf_choice("which", 2) ? *a : *b;
  C& kept = &other == a.get() ? *b : *a;
  const int op = vf_choice("op", 4);
  if (op == 0) fit(other, Data(2, 2));
  if (op == 1) other.clear();
  if (op >= 2) { if (&other != a.get()) vf_end(); a.reset(); }
  vf_assert(kept.size() == n, "number of knots of a copied curve");
  vf_eq(kept.getMinTime(), d.r.t.front(), "first time of a copied curve");
  vf_eq(kept.getMaxTime(), d.r.t.back(), "last time of a copied curve");
  if (op == 3) {   // the copy can be used as any curve
    const Data e(2, 2);
    fit(kept, e);
    vf_assert(kept.size() == 2, "number of knots after a new fit");
    check_at(kept, e.r, e.r.t[vf_choice("knot", 2)]);
  } else {
    const double t = vf_real("u");
    vf_assume_le(d.r.t.front(), t);
    vf_assume_le(t, d.r.t.back());
    check_at(kept, d.r, t);
  }
  vf_reach("copied curve");
}
extern "C" void h_c35_e3() { run<E3>(); }
extern "C" void h_c35_se3() { run<SE3C>(); }

// a copied pose curve is extended on its own
extern "C" void h_c35_extend() {
  const int n = vf_param("n");
  curves::SamplingPolicy pol(1, 0.0);
  std::unique_ptr<SE3C> a(new SE3C), b;
  const Data d(n + 1, 0);
  for (int i = 0; i < n; ++i) pol.extend<SE3C, Pose>(std::vector<double>(1, d.r.t[i]), std::vector<Pose>(1, d.poses[i]), a.get());
  if (vf_choice("how", 2)) b.reset(new SE3C(*a));
  else { b.reset(new SE3C); *b = *a; }
  // the source before it is extended, knot by knot
  std::vector<double> t;
  a->getCurveTimes(&t);
  std::vector<Twist> tw;
  for (double x : t) { Twist w; if (t.size() > 1) vf_assert(a->evaluateDerivative(w, x, 1), "derivative at a knot"); tw.push_back(w); }
  SE3C& ext = vf_choice("which", 2) ? *a : *b;
  SE3C& kept = &ext == a.get() ? *b : *a;
  pol.extend<SE3C, Pose>(std::vector<double>(1, d.r.t[n]), std::vector<Pose>(1, d.poses[n]), &ext);
  std::vector<double> s;
  kept.getCurveTimes(&s);
  vf_assert(s.size() == t.size(), "the other curve keeps its knots");
  for (size_t i = 0; i < t.size(); ++i) {
    vf_eq(s[i], t[i], "the other curve keeps its knot times");
    Twist w;
    if (t.size() > 1) {
      vf_assert(kept.evaluateDerivative(w, t[i], 1), "derivative at a knot");
      for (int k = 0; k < 3; ++k) vf_eq(w.getTranslationalVelocity()(k), tw[i].getTranslationalVelocity()(k), "the other curve keeps its tangents");
    }
  }
  vf_eq(ext.getMaxTime(), d.r.t[n], "the extended curve ends at the new measurement");
  // tangents of the extended one: once n is even, its last knot is permanent
  if (n % 2 == 0) {
    const int l = n >= 4 ? n - 4 : 0;
    Twist w;
    vf_assert(ext.evaluateDerivative(w, d.r.t[n - 2], 1), "derivative at a knot");
    const double dt = d.r.t[n] - d.r.t[l];
    for (int k = 0; k < 3; ++k) vf_eq(w.getTranslationalVelocity()(k), (d.r.p[n](k) - d.r.p[l](k)) / dt, "the extended curve gets the tangents of its knots");
    vf_reach("permanent");
  }
  vf_reach("extended copy");
}
