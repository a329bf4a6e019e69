// Copies are equal and independent.
#include "manager.h"
#include "container.h"
#include "curves/PolynomialSplineScalarCurve.hpp"
#include "curves/PolynomialSplineVectorSpaceCurve.hpp"
#include <memory>

// one small change of a manager
enum { NCHG = 6 };
static void change(M& m, Model& r, int o, int kind) {
  if (kind == 0) { const double t = vf_real(Nm("t", o)), v = vf_real(Nm("v", o)); r.inserted(t, v, m.insertCoefficient(t, v)); return; }
  if (kind == 1) { m.clear(); r.clear(); return; }
  if (r.t.empty()) vf_end();
  const int i = vf_choice(Nm("i", o), (int)r.t.size());
  if (kind == 2) { m.removeCoefficientAtTime(r.t[i]); r.erase(i); }
  if (kind == 3) { m.removeCoefficientWithKey(r.k[i]); r.erase(i); }
  if (kind == 4) { const double v = vf_real(Nm("u", o)); m.updateCoefficientByKey(r.k[i], v); r.v[i] = v; }
  if (kind == 5) { const double v = vf_real(Nm("u", o)); r.inserted(r.t[i], v, m.insertCoefficient(r.t[i], v)); }
}
static bool same_model(const Model& a, const Model& b) {
  if (a.t.size() != b.t.size()) return false;
  const std::vector<int> x = a.order(), y = b.order();
  for (size_t i = 0; i < x.size(); ++i)
    if (a.k[x[i]] != b.k[y[i]] || !(a.t[x[i]] == b.t[y[i]]) || !(a.v[x[i]] == b.v[y[i]])) return false;
  return true;
}
static void fill(M& m, Model& r, int n, const char* tn, const char* vn) {
  for (int i = 0; i < n; ++i) {
    const double t = vf_real(Nm(tn, i)), v = vf_real(Nm(vn, i));
    if (i) vf_assume_lt(r.t.back(), t);
    r.inserted(t, v, m.insertCoefficient(t, v));
  }
}
extern "C" void h_c35_manager() {
  std::unique_ptr<M> a(new M), b;
  Model ra, rb;
  fill(*a, ra, vf_param("n"), "it", "iv");
  const int how = vf_choice("how", 4);
  if (how == 0) b.reset(new M(*a));
  if (how == 1) { b.reset(new M); *b = *a; }
  if (how == 2) {   // over earlier content
    b.reset(new M);
    fill(*b, rb, 1 + vf_choice("old", 2), "ot", "ov");
    std::vector<Key> old = rb.handed;
    *b = *a;
    for (Key k : old) { bool in = false; for (Key x : ra.k) in = in || x == k; if (!in) vf_assert(!b->hasCoefficientWithKey(k), "an overwritten key is not known"); }
  }
  if (how == 3) { *a = *static_cast<const M*>(a.get()); b.reset(new M(*a)); }   // self-assignment
  rb = ra;
  check_map(*b, rb);
  check_keys(*b, rb);
  vf_assert(b->equals(*a) && a->equals(*b), "a copy equals its source");
  vf_reach("copied");
  // change one of them
  if (vf_choice("which", 2)) change(*a, ra, 0, vf_choice("op", NCHG));
  else change(*b, rb, 0, vf_choice("op", NCHG));
  check_map(*a, ra);
  check_keys(*a, ra);
  check_map(*b, rb);
  check_keys(*b, rb);
  b->checkInternalConsistency();
  const bool eq = same_model(ra, rb);
  vf_assert(a->equals(*b) == eq && b->equals(*a) == eq, "managers are equal exactly with the same times, keys and values");
  vf_reach(eq ? "equal" : "different");
  // the copy outlives its source
  if (vf_param("after")) {
    a.reset();
    change(*b, rb, 1, vf_choice("op2", NCHG));
    check_map(*b, rb);
    check_keys(*b, rb);
    vf_reach("outlived");
  }
}

// containers and curves: what was seen before the copy is seen after it
template <int N>
struct Seen {
  typedef curves::PolynomialSplineContainer<N> C;
  std::vector<double> x;
  int active;
  Seen(const C& c, double u) : active(c.getActiveSplineIndex()) {
    for (const auto& s : c.getSplines()) { x.push_back(s.getSplineDuration()); for (double k : s.getCoefficients()) x.push_back(k); }
    const double y[8] = {c.getContainerDuration(), c.getContainerTime(), c.getPositionAtTime(u), c.getVelocityAtTime(u), c.getAccelerationAtTime(u), c.getPosition(), c.getVelocity(), c.getAcceleration()};
    x.insert(x.end(), y, y + 8);
  }
  void same(const Seen& o) const {
    vf_assert(active == o.active, "active segment of a copy");
    vf_assert(x.size() == o.x.size(), "number of segments of a copy");
    for (size_t i = 0; i < x.size(); ++i) vf_eq(x[i], o.x[i], "a copy keeps what its source had");
  }
};
template <int N>
static void run() {
  typedef curves::PolynomialSplineContainer<N> C;
  typedef curves::PolynomialSpline<N> S;
  const int kind = vf_choice("prior", NPRIOR);
  std::unique_ptr<C> a(new C), b;
  const double u = vf_real("u");
  prior<N>(*a, kind, u);
  const Seen<N> before(*a, u);
  const int how = vf_choice("how", 3);
  if (how == 0) b.reset(new C(*a));
  if (how == 1) { b.reset(new C); *b = *a; }
  if (how == 2) { b.reset(new C); const double d = vf_pos("od"); b->addSpline(S(sym_coeffs<typename S::SplineCoefficients>("oc", 0), d)); b->setContainerTime(vf_real("ot")); *b = *a; }
  C& other = vf_choice("which", 2) ? *a : *b;
  C& kept = &other == a.get() ? *b : *a;
  const int op = vf_choice("op", 4);
  if (op == 0) { const double d = vf_pos("nd"); other.addSpline(S(sym_coeffs<typename S::SplineCoefficients>("nc", 0), d)); }
  if (op == 1) other.reset();
  if (op == 2) other.setContainerTime(vf_real("nt"));
  if (op == 3) { if (&other != a.get()) vf_end(); a.reset(); }
  before.same(Seen<N>(kept, u));
  vf_reach("container");
}
extern "C" void h_c35_container() { ORDER_SWITCH(run) }

static void app(std::vector<double>& x, double a) { x.push_back(a); }
template <class V> static void app(std::vector<double>& x, const V& a) { for (int i = 0; i < (int)a.size(); ++i) x.push_back(a(i)); }
template <class CV, class V>
static std::vector<double> seen(const CV& c, double u, const V& zero) {
  std::vector<double> r;
  r.push_back(c.getMinTime());
  r.push_back(c.getMaxTime());
  V v = zero;
  vf_assert(c.evaluate(v, u), "evaluate");
  app(r, v);
  for (unsigned d = 1; d <= 2; ++d) { vf_assert(c.evaluateDerivative(v, u, d), "evaluateDerivative"); app(r, v); }
  return r;
}
template <class CV, class V, class F>
static void curve_run(V zero, F fit) {
  std::unique_ptr<CV> a(new CV), b;
  fit(*a, 0);
  const double u = vf_real("u");
  vf_assume_le(a->getMinTime(), u);
  vf_assume_le(u, a->getMaxTime());
  const std::vector<double> before = seen(*a, u, zero);
  if (vf_choice("how", 2)) b.reset(new CV(*a));
  else { b.reset(new CV); fit(*b, 1); *b = *a; }
  CV& other = vf_choice("which", 2) ? *a : *b;
  CV& kept = &other == a.get() ? *b : *a;
  const int op = vf_choice("op", 3);
  if (op == 0) fit(other, 2);
  if (op == 1) other.clear();
  if (op == 2) { if (&other != a.get()) vf_end(); a.reset(); }
  const std::vector<double> after = seen(kept, u, zero);
  vf_assert(before.size() == after.size(), "size of the value");
  for (size_t i = 0; i < after.size(); ++i) vf_eq(after[i], before[i], "a copied curve keeps what its source had");
}
extern "C" void h_c35_scalar() {
  curve_run<curves::PolynomialSplineQuinticScalarCurve>(0.0, [](curves::PolynomialSplineQuinticScalarCurve& c, int i) {
    static const char* const T[3] = {"at", "bt", "ct"}; static const char* const H[3] = {"ah", "bh", "ch"}; static const char* const P[3] = {"ap", "bp", "cp"};
    Knots k(i == 2 ? 2 : 3, T[i], H[i], P[i]);
    c.fitCurve(k.t, k.p);
  });
  vf_reach("scalar");
}
typedef curves::PolynomialSplineVectorSpaceCurve<curves::PolynomialSplineQuintic, 2> VC;
typedef VC::ValueType VV;
extern "C" void h_c35_vector() {
  curve_run<VC>(VV(VV::Zero()), [](VC& c, int i) {
    static const char* const T[3] = {"at", "bt", "ct"}; static const char* const H[3] = {"ah", "bh", "ch"}; static const char* const P[3] = {"ap", "bp", "cp"}; static const char* const Q[3] = {"aq", "bq", "cq"};
    Knots k(i == 2 ? 2 : 3, T[i], H[i], P[i]);
    std::vector<VV> v;
    for (size_t j = 0; j < k.t.size(); ++j) { VV x; x << k.p[j], vf_real(Nm(Q[i], (int)j)); v.push_back(x); }
    c.fitCurve(k.t, v);
  });
  vf_reach("vector");
}
