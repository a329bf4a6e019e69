#include "container.h"
using namespace curves;

template <int N>
static void judge(PolynomialSplineContainer<N>& c, const std::vector<double>& dur, const std::vector<double>& first) {
  vf_assert(c.isEmpty() == dur.empty(), "empty exactly when there are no splines");
  vf_assert(c.getSplines().size() == dur.size(), "number of splines");
  double sum = 0.0;
  for (size_t i = 0; i < dur.size(); ++i) {
    sum = sum + dur[i];
    vf_eq(c.getSplines()[i].getSplineDuration(), dur[i], "order of the splines");
    vf_eq(c.getSplines()[i].getPositionAtTime(0.0), first[i], "order of the splines");
    vf_assert(c.getSpline((int)i) == &c.getSplines()[i], "spline by index");
  }
  vf_eq(c.getContainerDuration(), sum, "duration is the sum of the durations");
  const double t = vf_real("t");
  double off = vf_real("off");
  const int idx = c.getActiveSplineIndexAtTime(t, off);
  if (dur.empty()) {
    vf_assert(idx == -1, "an empty container has no active segment");
    vf_reach("empty");
    return;
  }
  double start = 0.0;
  int want = 0;
  for (size_t i = 0; i < dur.size(); ++i) {
    want = (int)i;
    if (t < start + dur[i] || i + 1 == dur.size()) break;
    start = start + dur[i];
  }
  vf_assert(idx == want, "active segment");
  vf_eq(off, start, "start time of the active segment");
  if (t < 0.0) vf_reach("before"); else if (t < sum) vf_reach("inside"); else vf_reach("after");
}
template <int N>
static void run() {
  typedef PolynomialSpline<N> S;
  typedef typename S::SplineCoefficients C;
  const int ops = vf_param("ops");
  PolynomialSplineContainer<N> c;
  std::vector<double> dur;
  std::vector<double> first;   // constant coefficient of each segment that was added
  for (int o = 0; o < ops; ++o) {
    switch (vf_choice(Nm("op", o), 6)) {
      case 0: {
        const double d = vf_pos(Nm("d", o));
        const C k = sym_coeffs<C>("c", o);
        const S s(k, d);
        vf_assert(c.addSpline(s), "adding a spline succeeds");
        dur.push_back(d);
        first.push_back(k[N]);
        break;
      }
      case 1: {
        const double d = vf_pos(Nm("d", o));
        const C k = sym_coeffs<C>("c", o);
        vf_assert(c.addSpline(S(k, d)), "adding a spline succeeds");
        dur.push_back(d);
        first.push_back(k[N]);
        break;
      }
      case 2: {
        Knots k(3, Nm("t", o), Nm("h", o), Nm("p", o));
        vf_assert(c.setData(k.t, k.p), "fit succeeds");
        dur = k.h;
        first.assign(k.p.begin(), k.p.end() - 1);
        break;
      }
      case 3: {
        Knots k(3, Nm("t", o), Nm("h", o), Nm("p", o));
        const double b[4] = {vf_real(Nm("v", o)), vf_real(Nm("a", o)), vf_real(Nm("w", o)), vf_real(Nm("b", o))};
        vf_assert(fit<N>(c, 0, k.t, k.p, b), "fit succeeds");
        dur = k.h;
        first.assign(k.p.begin(), k.p.end() - 1);
        break;
      }
      case 4:
        vf_assert(c.reset(), "reset succeeds");
        dur.clear();
        first.clear();
        break;
      default:
        c.reserveSplines(4);
        look<N>(c, vf_real(Nm("q", o)));   // reading changes nothing
        c.setContainerTime(vf_real(Nm("ct", o)));
        break;
    }
  }
  judge<N>(c, dur, first);
}
extern "C" void h_c07() { ORDER_SWITCH(run) }

// many splines
template <int N>
static void many() {
  typedef PolynomialSpline<N> S;
  typedef typename S::SplineCoefficients C;
  PolynomialSplineContainer<N> c;
  std::vector<double> dur, first;
  for (int i = 0; i < vf_param("n"); ++i) {
    const double d = vf_pos(Nm("d", i));
    const C k = sym_coeffs<C>("c", i);
    c.addSpline(S(k, d));
    dur.push_back(d);
    first.push_back(k[N]);
  }
  judge<N>(c, dur, first);
}
extern "C" void h_c07_many() { ORDER_SWITCH(many) }
