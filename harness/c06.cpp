#include "container.h"
using namespace curves;

template <int N>
static void run() {
  const int n = vf_param("n");
  PolynomialSplineContainer<N> c;
  const double u = vf_real("u");
  prior<N>(c, vf_choice("prior", NPRIOR), u);
  const int ov = vf_choice("overload", 3);
  std::vector<double> t, p;
  const int bad = n < 2 ? -1 : vf_choice("bad", n - 1);
  double x = vf_real("t0");
  for (int i = 0; i < n; ++i) {
    t.push_back(x);
    p.push_back(vf_real(Nm("p", i)));
    const double d = vf_real(Nm("h", i));
    if (i == bad) vf_assume_le(d, 0.0);
    x = x + d;
  }
  const double b[4] = {vf_real("v0"), vf_real("a0"), vf_real("v1"), vf_real("a1")};
  vf_assert(!fit<N>(c, ov, t, p, b), "unusable knots are refused");
  vf_reach("refused");
  // usable afterwards
  Knots k(vf_param("m"), "vt0", "vh", "vp");
  const double vb[4] = {vf_real("vv0"), vf_real("va0"), vf_real("vv1"), vf_real("va1")};
  const int ov2 = vf_choice("overload2", 3);
  PolynomialSplineContainer<N> f;
  vf_assert(fit<N>(c, ov2, k.t, k.p, vb), "a following valid fit succeeds");
  vf_assert(fit<N>(f, ov2, k.t, k.p, vb), "a valid fit succeeds");
  same<N>(c, f, u);
  vf_reach("usable");
}
extern "C" void h_c06() { ORDER_SWITCH(run) }
