#include "container.h"
#include "curves/PolynomialSplineScalarCurve.hpp"
#include "curves/PolynomialSplineVectorSpaceCurve.hpp"
using namespace curves;

static std::vector<double> moved(const std::vector<double>& t, double s) {
  std::vector<double> r;
  for (double x : t) r.push_back(x + s);
  return r;
}

template <int N>
static void run() {
  Knots k(vf_param("n"));
  const double s = vf_real("shift");
  const double b[4] = {vf_real("v0"), vf_real("a0"), vf_real("v1"), vf_real("a1")};
  const int ov = vf_choice("overload", 3);
  PolynomialSplineContainer<N> c, f;
  vf_assert(fit<N>(c, ov, k.t, k.p, b), "the fit succeeds");
  vf_assert(fit<N>(f, ov, moved(k.t, s), k.p, b), "the shifted fit succeeds");
  same<N>(c, f, vf_real("u"));
  vf_reach("container");
}
extern "C" void h_c13() { ORDER_SWITCH(run) }

extern "C" void h_c13_scalar() {
  Knots k(vf_param("n"));
  const double s = vf_real("shift"), u = vf_real("u");
  PolynomialSplineQuinticScalarCurve c, f;
  if (vf_choice("plain", 2)) {
    c.fitCurve(k.t, k.p);
    f.fitCurve(moved(k.t, s), k.p);
  } else {
    const double b[4] = {vf_real("v0"), vf_real("a0"), vf_real("v1"), vf_real("a1")};
    c.fitCurve(k.t, k.p, b[0], b[1], b[2], b[3]);
    f.fitCurve(moved(k.t, s), k.p, b[0], b[1], b[2], b[3]);
  }
  vf_eq(f.getMinTime(), c.getMinTime() + s, "first time is shifted");
  vf_eq(f.getMaxTime(), c.getMaxTime() + s, "last time is shifted");
  double x = 0.0, y = 0.0;
  c.evaluate(x, u);
  f.evaluate(y, u + s);
  vf_eq(y, x, "value");
  for (unsigned d = 1; d <= 2; ++d) {
    c.evaluateDerivative(x, u, d);
    f.evaluateDerivative(y, u + s, d);
    vf_eq(y, x, "derivative");
  }
  vf_reach("scalar");
}

extern "C" void h_c13_vector() {
  typedef PolynomialSplineQuinticVector3Curve VC;
  typedef VC::ValueType V;
  Knots k(vf_param("n"));
  auto rnd = [](const char* n, int i) { V v; for (int j = 0; j < 3; ++j) v(j) = vf_real(Nm(n, i, j)); return v; };
  std::vector<V> x;
  for (size_t i = 0; i < k.p.size(); ++i) x.push_back(rnd("x", (int)i));
  const double s = vf_real("shift"), u = vf_real("u");
  VC c, f;
  const int ov = vf_choice("overload", 3);
  if (ov == 0) {
    c.fitCurve(k.t, x);
    f.fitCurve(moved(k.t, s), x);
  } else if (ov == 1) {
    const V v0 = rnd("b", 0), a0 = rnd("b", 1), v1 = rnd("b", 2), a1 = rnd("b", 3);
    c.fitCurve(k.t, x, v0, a0, v1, a1);
    f.fitCurve(moved(k.t, s), x, v0, a0, v1, a1);
  } else {
    std::vector<V> d1, d2;
    for (size_t i = 0; i < k.p.size(); ++i) {
      d1.push_back(rnd("d", (int)i));
      d2.push_back(rnd("e", (int)i));
    }
    c.fitCurve(k.t, x, d1, d2);
    f.fitCurve(moved(k.t, s), x, d1, d2);
  }
  vf_eq(f.getMinTime(), c.getMinTime() + s, "first time is shifted");
  vf_eq(f.getMaxTime(), c.getMaxTime() + s, "last time is shifted");
  V y, z;
  c.evaluate(y, u);
  f.evaluate(z, u + s);
  for (int j = 0; j < 3; ++j) vf_eq(z(j), y(j), "value");
  for (unsigned d = 1; d <= 2; ++d) {
    c.evaluateDerivative(y, u, d);
    f.evaluateDerivative(z, u + s, d);
    for (int j = 0; j < 3; ++j) vf_eq(z(j), y(j), "derivative");
  }
  vf_reach("vector");
}
