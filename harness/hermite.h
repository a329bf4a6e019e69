// Reference for the cubic Hermite curves: knots, tangents and the cubic between two knots, per component.
#pragma once
#include "common.h"
typedef Eigen::Vector3d V3;
static const char* const XYZ[3] = {"x", "y", "z"};

struct Ref {
  std::vector<double> t, h;
  std::vector<V3> p, m;
  V3 v0, v1;
  int n() const { return (int)t.size(); }
  // neighbour slopes inside, given derivatives at the ends
  void tangents() {
    m.clear();
    for (int i = 0; i < n(); ++i) {
      V3 d;
      for (int c = 0; c < 3; ++c) {
        if (i == 0) d(c) = v0(c);
        else if (i + 1 == n()) d(c) = v1(c);
        else d(c) = (p[i + 1](c) - p[i - 1](c)) / (h[i - 1] + h[i]);
      }
      m.push_back(d);
    }
  }
  // value / first / second derivative of component c, x after knot i
  double cubic(int i, int c, double x, int order) const {
    const double a = p[i](c), b = p[i + 1](c), ma = m[i](c), mb = m[i + 1](c), r = 1.0 / h[i];
    const double q = (3.0 * (b - a) * r - 2.0 * ma - mb) * r, k = (2.0 * (a - b) * r + ma + mb) * r * r;
    if (order == 0) return a + x * (ma + x * (q + x * k));
    if (order == 1) return ma + x * (2.0 * q + x * 3.0 * k);
    return 2.0 * q + 6.0 * k * x;
  }
};

// n knots with arbitrary increasing times and values; derivatives at the ends arbitrary (kind 1) or zero (kind 0)
static Ref sym_ref(int n, int kind, const char* tn, const char* hn, const char* const* pn, const char* const* an, const char* const* bn) {
  Ref r;
  double x = vf_real(tn);
  for (int i = 0; i < n; ++i) {
    r.t.push_back(x);
    V3 p;
    for (int c = 0; c < 3; ++c) p(c) = vf_real(Nm(pn[c], i));
    r.p.push_back(p);
    if (i + 1 < n) { double d = vf_pos(Nm(hn, i)); r.h.push_back(d); x = x + d; }
  }
  for (int c = 0; c < 3; ++c) { r.v0(c) = kind ? vf_real(an[c]) : 0.0; r.v1(c) = kind ? vf_real(bn[c]) : 0.0; }
  r.tangents();
  return r;
}
static const char* const PN[3] = {"px", "py", "pz"};
static const char* const AN[3] = {"ax", "ay", "az"};
static const char* const BN[3] = {"bx", "by", "bz"};
static const char* const PO[3] = {"ox", "oy", "oz"};
static const char* const AO[3] = {"oax", "oay", "oaz"};
static const char* const BO[3] = {"obx", "oby", "obz"};

static void eq3(const V3& a, const V3& b, const char* msg) { for (int c = 0; c < 3; ++c) vf_eq(a(c), b(c), msg); }
// index of the segment that contains t (t inside the curve): the last one that starts at or before t, but not the last knot
static int segment(const Ref& r, double t) {
  int k = 0;
  for (int i = 1; i + 1 < r.n(); ++i) if (t >= r.t[i]) k = i;
  return k;
}
static bool is_knot(const Ref& r, double t) { for (int i = 1; i + 1 < r.n(); ++i) if (t == r.t[i]) return true; return false; }
