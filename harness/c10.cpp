#include "container.h"
#include "curves/PolynomialSplineScalarCurve.hpp"
#include "curves/PolynomialSplineVectorSpaceCurve.hpp"
using namespace curves;

// container: any history, then a fit or a reset
template <int N>
static void run() {
  PolynomialSplineContainer<N> c, f;
  const double u = vf_real("u");
  prior<N>(c, vf_choice("prior", NPRIOR), u);
  const int act = vf_choice("act", 4);
  if (act == 3) {
    vf_assert(c.reset(), "reset succeeds");
  } else {
    Knots k(vf_param("n"));
    const double b[4] = {vf_real("v0"), vf_real("a0"), vf_real("v1"), vf_real("a1")};
    vf_assert(fit<N>(c, act, k.t, k.p, b), "the fit succeeds");
    vf_assert(fit<N>(f, act, k.t, k.p, b), "the fit succeeds");
  }
  same<N>(c, f, u);
  // still the same when played
  const double dt = vf_pos("dt");
  vf_assert(c.advance(dt) == f.advance(dt), "advance");
  vf_eq(c.getContainerTime(), f.getContainerTime(), "internal time after an advance");
  vf_eq(c.getPosition(), f.getPosition(), "position after an advance");
  vf_eq(c.getVelocity(), f.getVelocity(), "velocity after an advance");
  vf_reach("container");
}
extern "C" void h_c10() { ORDER_SWITCH(run) }

typedef PolynomialSplineQuinticScalarCurve SC;
static void sfit(SC& c, int kind, const char* pre) {
  char t0[8] = "_t", h[8] = "_h", p[8] = "_p", b[8] = "_b";
  t0[0] = h[0] = p[0] = b[0] = pre[0];
  if (kind == 0) {
    Knots k(2, t0, h, p);
    c.fitCurve(k.t, k.p);
  } else if (kind == 1) {
    Knots k(3, t0, h, p);
    c.fitCurve(k.t, k.p, vf_real(Nm(b, 0)), vf_real(Nm(b, 1)), vf_real(Nm(b, 2)), vf_real(Nm(b, 3)));
  } else {
    std::vector<SplineOptions> o;
    o.reserve(2);
    for (int i = 0; i < 2; ++i) {
      const double T = vf_pos(Nm(h, i));
      o.push_back(SplineOptions(T, vf_real(Nm(p, i, 0)), vf_real(Nm(p, i, 1)), vf_real(Nm(b, i, 0)), vf_real(Nm(b, i, 1)), vf_real(Nm(b, i, 2)),
                                vf_real(Nm(b, i, 3))));
    }
    c.fitCurve(o);
  }
}
template <class CV>
static void scalar_same(const CV& c, const CV& f, double u) {
  vf_eq(c.getMinTime(), f.getMinTime(), "first time");
  vf_eq(c.getMaxTime(), f.getMaxTime(), "last time");
  double x = 0.0, y = 0.0;
  vf_assert(c.evaluate(x, u) == f.evaluate(y, u), "evaluate");
  vf_eq(x, y, "value");
  for (unsigned d = 1; d <= 2; ++d) {
    vf_assert(c.evaluateDerivative(x, u, d) == f.evaluateDerivative(y, u, d), "evaluateDerivative");
    vf_eq(x, y, "derivative");
  }
}
// replays the same data into a second curve
extern "C" void h_c10_scalar() {
  SC c, f;
  const int before = vf_choice("before", 3), act = vf_choice("act", 4);
  sfit(c, before, "o");
  const double u = vf_real("u");
  { double x = 0.0; c.getMinTime(); c.getMaxTime(); c.evaluate(x, u); c.evaluateDerivative(x, u, 1); c.evaluateDerivative(x, u, 2); }
  if (act == 3) {
    c.clear();
  } else if (act == 0) {
    Knots k(2);
    c.fitCurve(k.t, k.p);
    f.fitCurve(k.t, k.p);
  } else if (act == 1) {
    Knots k(3);
    const double b[4] = {vf_real("v0"), vf_real("a0"), vf_real("v1"), vf_real("a1")};
    c.fitCurve(k.t, k.p, b[0], b[1], b[2], b[3]);
    f.fitCurve(k.t, k.p, b[0], b[1], b[2], b[3]);
  } else {
    std::vector<SplineOptions> o;
    o.reserve(2);
    for (int i = 0; i < 2; ++i) {
      const double T = vf_pos(Nm("h", i));
      o.push_back(SplineOptions(T, vf_real(Nm("q", i, 0)), vf_real(Nm("q", i, 1)), vf_real(Nm("q", i, 2)), vf_real(Nm("q", i, 3)),
                                vf_real(Nm("q", i, 4)), vf_real(Nm("q", i, 5))));
    }
    c.fitCurve(o);
    f.fitCurve(o);
  }
  scalar_same(c, f, u);
  vf_reach("scalar");
}

template <int D>
static void vec() {
  typedef PolynomialSplineVectorSpaceCurve<PolynomialSplineQuintic, D> VC;
  typedef typename VC::ValueType V;
  VC c, f;
  auto rnd = [](const char* n, int i) { V v; for (int k = 0; k < D; ++k) v(k) = vf_real(Nm(n, i, k)); return v; };
  auto data = [&](const char* tn, const char* hn, const char* vn, int n, std::vector<double>& t, std::vector<V>& x) {
    double s = vf_real(tn);
    for (int i = 0; i < n; ++i) { t.push_back(s); x.push_back(rnd(vn, i)); s = s + vf_pos(Nm(hn, i)); }
  };
  {
    std::vector<double> t;
    std::vector<V> x;
    data("ot0", "oh", "ox", 3, t, x);
    c.fitCurve(t, x);
  }
  const double u = vf_real("u");
  { V x; c.getMinTime(); c.getMaxTime(); c.evaluate(x, u); c.evaluateDerivative(x, u, 1); c.evaluateDerivative(x, u, 2); }
  const int act = vf_choice("act", 4);
  if (act == 3) {
    c.clear();
  } else {
    std::vector<double> t;
    std::vector<V> x;
    data("t0", "h", "x", 2, t, x);
    if (act == 0) { c.fitCurve(t, x); f.fitCurve(t, x); }
    if (act == 1) {
      const V v0 = rnd("b", 0), a0 = rnd("b", 1), v1 = rnd("b", 2), a1 = rnd("b", 3);
      c.fitCurve(t, x, v0, a0, v1, a1);
      f.fitCurve(t, x, v0, a0, v1, a1);
    }
    if (act == 2) {
      std::vector<V> d1, d2;
      for (int i = 0; i < 2; ++i) { d1.push_back(rnd("d", i)); d2.push_back(rnd("e", i)); }
      c.fitCurve(t, x, d1, d2);
      f.fitCurve(t, x, d1, d2);
    }
  }
  vf_eq(c.getMinTime(), f.getMinTime(), "first time");
  vf_eq(c.getMaxTime(), f.getMaxTime(), "last time");
  V x, y;
  x.setZero();
  y.setZero();
  vf_assert(c.evaluate(x, u) == f.evaluate(y, u), "evaluate");
  for (int k = 0; k < D; ++k) vf_eq(x(k), y(k), "value");
  for (unsigned d = 1; d <= 2; ++d) {
    vf_assert(c.evaluateDerivative(x, u, d) == f.evaluateDerivative(y, u, d), "evaluateDerivative");
    for (int k = 0; k < D; ++k) vf_eq(x(k), y(k), "derivative");
  }
  vf_reach("vector");
}
extern "C" void h_c10_vector() { vec<3>(); }
