#include "common.h"
#include "curves/PolynomialSplineScalarCurve.hpp"
#include "curves/PolynomialSplineVectorSpaceCurve.hpp"
using namespace curves;

template <int D>
static void run() {
  typedef PolynomialSplineVectorSpaceCurve<PolynomialSplineQuintic, D> VC;
  typedef typename VC::ValueType V;
  typedef typename VC::DerivativeType DV;
  const int n = vf_param("n");
  std::vector<double> t, h;
  std::vector<V> x;
  double s = vf_real("t0");
  for (int i = 0; i < n; ++i) {
    V v;
    for (int k = 0; k < D; ++k) v(k) = vf_real(Nm("x", i, k));
    t.push_back(s);
    x.push_back(v);
    h.push_back(vf_pos(Nm("h", i)));
    s = s + h[i];
  }
  auto rnd = [](const char* nm, int i) { DV v; for (int k = 0; k < D; ++k) v(k) = vf_real(Nm(nm, i, k)); return v; };
  const double u = vf_real("u");
  VC c;
  if (vf_choice("used", 2)) {
    std::vector<double> ut{vf_real("ut")};
    ut.push_back(ut[0] + vf_pos("uh"));
    const std::vector<V> ux{rnd("ux", 0), rnd("ux", 1)};
    c.fitCurve(ut, ux, rnd("ub", 0), rnd("ub", 1), rnd("ub", 2), rnd("ub", 3));
    V y;
    DV z;
    c.evaluate(y, u);
    c.evaluateDerivative(z, u, 1);
    c.evaluateDerivative(z, u, 2);
  }
  DV v0 = DV::Zero(), a0 = DV::Zero(), v1 = DV::Zero(), a1 = DV::Zero();
  const int ov = vf_choice("overload", 3);
  if (ov == 0) c.fitCurve(t, x);
  if (ov == 1) {
    v0 = rnd("b", 0); a0 = rnd("b", 1); v1 = rnd("b", 2); a1 = rnd("b", 3);
    c.fitCurve(t, x, v0, a0, v1, a1);
  }
  if (ov == 2) {
    std::vector<DV> d1, d2;
    for (int i = 0; i < n; ++i) { d1.push_back(rnd("d", i)); d2.push_back(rnd("e", i)); }
    v0 = d1.front(); v1 = d1.back(); a0 = d2.front(); a1 = d2.back();
    c.fitCurve(t, x, d1, d2);
  }
  vf_eq(c.getMinTime(), t[0], "first time");
  vf_eq(c.getMaxTime(), t[n - 1], "last time");
  V y;
  DV z;
  for (int i = 0; i < n; ++i) {
    vf_assert(c.evaluate(y, t[i]), "evaluation succeeds");
    for (int k = 0; k < D; ++k) vf_eq(y(k), x[i](k), "value at a knot");
  }
  vf_assert(c.evaluateDerivative(z, t[0], 1), "derivative succeeds");
  for (int k = 0; k < D; ++k) vf_eq(z(k), v0(k), "initial velocity");
  vf_assert(c.evaluateDerivative(z, t[0], 2), "derivative succeeds");
  for (int k = 0; k < D; ++k) vf_eq(z(k), a0(k), "initial acceleration");
  vf_assert(c.evaluateDerivative(z, t[n - 1], 1), "derivative succeeds");
  for (int k = 0; k < D; ++k) vf_eq(z(k), v1(k), "final velocity");
  vf_assert(c.evaluateDerivative(z, t[n - 1], 2), "derivative succeeds");
  for (int k = 0; k < D; ++k) vf_eq(z(k), a1(k), "final acceleration");
  const unsigned bad[3] = {0u, 3u, 4u};
  vf_assert(!c.evaluateDerivative(z, t[0], bad[vf_choice("order", 3)]), "other derivative orders are refused");
  vf_reach("knots");
  // each component is the scalar curve of that component, at any time
  V yv;
  DV z1, z2;
  vf_assert(c.evaluate(yv, u), "evaluation succeeds");
  vf_assert(c.evaluateDerivative(z1, u, 1), "derivative succeeds");
  vf_assert(c.evaluateDerivative(z2, u, 2), "derivative succeeds");
  for (int k = 0; k < D; ++k) {
    std::vector<double> p;
    for (int i = 0; i < n; ++i) p.push_back(x[i](k));
    PolynomialSplineQuinticScalarCurve f;
    f.fitCurve(t, p, v0(k), a0(k), v1(k), a1(k));
    double w = 0.0;
    f.evaluate(w, u);
    vf_eq(yv(k), w, "component value");
    f.evaluateDerivative(w, u, 1);
    vf_eq(z1(k), w, "component velocity");
    f.evaluateDerivative(w, u, 2);
    vf_eq(z2(k), w, "component acceleration");
  }
  vf_reach("components");
}
extern "C" void h_c12_1() { run<1>(); }
extern "C" void h_c12_3() { run<3>(); }
extern "C" void h_c12_2() { run<2>(); }
extern "C" void h_c12_7() { run<7>(); }
