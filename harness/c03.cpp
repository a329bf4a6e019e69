#include "common.h"
#include "curves/polynomial_splines.hpp"
using namespace curves;

// reference row: coefficient i multiplies t^(N-i); der-th derivative
static double ref_row(int N, int i, int der, double t) {
  const int e = N - i;
  double f = 1.0;
  for (int k = 0; k < der; ++k) f = f * (e - k > 0 ? e - k : 0);
  double r = f;
  for (int k = 0; k < e - der; ++k) r = r * t;
  return r;
}

template <int N, class Row, class Old>
static void check_row(const Row& row, const Old& old, bool add, int der, double t, const char* what) {
  for (int i = 0; i <= N; ++i) vf_eq(row(0, i), ref_row(N, i, der, t) + (add ? old(0, i) : 0.0), what);
}

// every function applied to a target of type Row (a row vector or a row block of a larger matrix)
template <int N, class Row>
static void apply(int fn, Row& row, double t, int* der, bool* add, bool* zero, const char** what) {
  typedef PolynomialSpline<N> S;
  *der = (fn / 2) % 3;
  *add = fn % 2;
  *zero = fn >= 6;
  switch (fn) {
    case 0: *what = "getTimeVector"; S::getTimeVector(row, t); break;
    case 1: *what = "addTimeVector"; S::addTimeVector(row, t); break;
    case 2: *what = "getDiffTimeVector"; S::getDiffTimeVector(row, t); break;
    case 3: *what = "addDiffTimeVector"; S::addDiffTimeVector(row, t); break;
    case 4: *what = "getDDiffTimeVector"; S::getDDiffTimeVector(row, t); break;
    case 5: *what = "addDDiffTimeVector"; S::addDDiffTimeVector(row, t); break;
    case 6: *what = "getTimeVectorAtZero"; S::getTimeVectorAtZero(row); break;
    case 7: *what = "addTimeVectorAtZero"; S::addTimeVectorAtZero(row); break;
    case 8: *what = "getDiffTimeVectorAtZero"; S::getDiffTimeVectorAtZero(row); break;
    case 9: *what = "addDiffTimeVectorAtZero"; S::addDiffTimeVectorAtZero(row); break;
    case 10: *what = "getDDiffTimeVectorAtZero"; S::getDDiffTimeVectorAtZero(row); break;
    default: *what = "addDDiffTimeVectorAtZero"; S::addDDiffTimeVectorAtZero(row); break;
  }
}

template <int N>
static void run() {
  typedef PolynomialSpline<N> S;
  typedef typename S::EigenTimeVectorType V;
  const double t = vf_real("t");
  V old;
  for (int i = 0; i <= N; ++i) old(i) = vf_real(Nm("o", i));
  V row = old;
  int der;
  bool add, zero;
  const char* what;
  const int mode = vf_choice("mode", 3);
  if (mode == 0) {
    const int fn = vf_choice("fn", 12);
    apply<N>(fn, row, t, &der, &add, &zero, &what);
    check_row<N>(row, old, add, der, zero ? 0.0 : t, what);
    vf_reach("row vector");
    // the same row times any coefficients is what a spline with these coefficients evaluates to
    if (!add) {
      typename S::SplineCoefficients c = sym_coeffs<typename S::SplineCoefficients>("c", 0);
      double d = 0.0;
      for (int i = 0; i <= N; ++i) d = d + row(i) * c[i];
      const double dur = vf_real("d"), u = zero ? 0.0 : t;
      vf_assume_le(0.0, u);
      vf_assume_le(u, dur);
      S s(c, dur);
      vf_eq(d, der == 0 ? s.getPositionAtTime(u) : der == 1 ? s.getVelocityAtTime(u) : s.getAccelerationAtTime(u), what);
      vf_reach("times coefficients");
    }
  } else if (mode == 1) {
    // row block of a larger matrix: nothing else is touched
    Eigen::MatrixXd m(3, N + 3);
    for (int r = 0; r < 3; ++r) for (int c = 0; c < N + 3; ++c) m(r, c) = vf_real(Nm("m", r, c));
    const Eigen::MatrixXd before = m;
    auto b = m.block<1, N + 1>(1, 1);
    apply<N>(vf_choice("fn", 12), b, t, &der, &add, &zero, &what);
    for (int r = 0; r < 3; ++r)
      for (int c = 0; c < N + 3; ++c)
        if (r == 1 && c >= 1 && c <= N + 1)
          vf_eq(m(r, c), ref_row(N, c - 1, der, zero ? 0.0 : t) + (add ? before(r, c) : 0.0), what);
        else
          vf_eq(m(r, c), before(r, c), "outside the row");
    vf_reach("row block");
  } else {
    const int fn = vf_choice("fn", 6);
    if (fn == 0) S::getTimeVector(Eigen::Ref<V>(row), t);
    if (fn == 1) S::getDTimeVector(row, t);
    if (fn == 2) S::getDDTimeVector(row, t);
    if (fn == 3) S::getTimeVectorAtZero(Eigen::Ref<V>(row));
    if (fn == 4) S::getDTimeVectorAtZero(row);
    if (fn == 5) S::getDDTimeVectorAtZero(row);
    check_row<N>(row, old, false, fn % 3, fn >= 3 ? 0.0 : t, "time vector (reference argument)");
    vf_reach("reference argument");
  }
}
extern "C" void h_c03() { ORDER_SWITCH(run) }
