// Evaluations written to a file.
#include <curves/CubicHermiteE3Curve.hpp>
#include <curves/CubicHermiteSE3Curve.hpp>
#include "hermite.h"
#include <fstream>
#include <sstream>
#include <string>
typedef curves::CubicHermiteE3Curve E3;
typedef curves::CubicHermiteSE3Curve SE3C;
typedef SE3C::ValueType Pose;
typedef SE3C::DerivativeType Twist;
typedef kindr::RotationQuaternionPD Quat;

static const char* const FILENAME = "eval.txt";
// printed with six decimals
static void printed(double a, double b, const char* msg) {
#ifdef VF_SYMBOLIC
  const double e = 0.000001;
#else
  const double e = 0.000001 + 1e-9 * std::fabs(b);
#endif
  vf_assert(a - b <= e, msg);
  vf_assert(b - a <= e, msg);
}
static void put3(std::vector<double>& r, double a, double b, double c) { r.push_back(a); r.push_back(b); r.push_back(c); }
static std::vector<double> row_at(const E3& c, double t) {
  E3::ValueType p;
  E3::DerivativeType v;
  vf_assert(c.evaluate(p, t) && c.evaluateDerivative(v, t, 1), "evaluation inside the curve");
  std::vector<double> r(1, t);
  put3(r, p.x(), p.y(), p.z());
  put3(r, v.x(), v.y(), v.z());
  return r;
}
static std::vector<double> row_at(const SE3C& c, double t) {
  Pose p;
  Twist v;
  vf_assert(c.evaluate(p, t) && c.evaluateDerivative(v, t, 1), "evaluation inside the curve");
  std::vector<double> r(1, t);
  put3(r, p.getPosition().x(), p.getPosition().y(), p.getPosition().z());
  r.push_back(p.getRotation().w());
  put3(r, p.getRotation().x(), p.getRotation().y(), p.getRotation().z());
  put3(r, v.getTranslationalVelocity().x(), v.getTranslationalVelocity().y(), v.getTranslationalVelocity().z());
  put3(r, v.getRotationalVelocity().x(), v.getRotationalVelocity().y(), v.getRotationalVelocity().z());
  return r;
}
template <class C>
static void check_file(const C& c, int samples, const std::vector<std::string>& names) {
  vf_assert(c.writeEvalToFile(FILENAME, samples), "writing succeeds");
  std::ifstream f(FILENAME);
  vf_assert(f.is_open(), "the file is there");
  std::string line, word;
  vf_assert((bool)std::getline(f, line), "the file has a header");
  std::istringstream head(line);
  size_t k = 0;
  while (head >> word) { vf_assert(k < names.size() && word == names[k], "the header names the columns"); ++k; }
  vf_assert(k == names.size(), "the header names every column");
  const double t0 = c.getMinTime(), t1 = c.getMaxTime();
  double t = t0;
  int rows = 0;
  while (std::getline(f, line)) {
    vf_assert(rows < samples, "no more rows than samples");
    if (rows >= samples) return;
    t = t0 + rows * (t1 - t0) / (samples - 1);
    if (t > t1) t = t1;   // rounding
    const std::vector<double> want = row_at(c, t);
    std::istringstream s(line);
    for (size_t i = 0; i < want.size(); ++i) {
      double x = 7.0;
      vf_assert((bool)(s >> x), "every column has a number in every row");
      printed(x, want[i], i == 0 ? "time of a row" : "value of a row");
    }
    vf_assert(!(s >> word), "nothing else in a row");
    ++rows;
  }
  vf_assert(rows >= samples - 1, "a row for every sample before the last time");
}
static void old_file() {
  if (!vf_choice("old", 2)) return;
  std::ofstream o(FILENAME);
  for (int i = 0; i < 200; ++i) o << "something that was there before 1 2 3 4 5 6 7 8 9\n";
}
extern "C" void h_c36_e3() {
  const int n = vf_param("n");
  old_file();
  E3 c;
  const Ref r = sym_ref(n, 1, "t", "h", PN, AN, BN);
  c.fitCurveWithDerivatives(r.t, r.p, r.v0, r.v1);
  check_file(c, vf_param("samples"), {"t", "px", "py", "pz", "vx", "vy", "vz"});
  vf_reach("positions");
}
extern "C" void h_c36_se3() {
  const int n = vf_param("n");
  old_file();
  SE3C c;
  const Ref r = sym_ref(n, 1, "t", "h", PN, AN, BN);
  V3 w0(0.0, 0.0, 0.0), w1(0.0, 0.0, 0.0);
  if (vf_param("turn")) for (int k = 0; k < 3; ++k) { w0(k) = vf_real(Nm("wa", k)); w1(k) = vf_real(Nm("wb", k)); }
  std::vector<Pose> poses;
  for (int i = 0; i < n; ++i) {
    double q[4] = {1.0, 0.0, 0.0, 0.0};
    if (vf_param("rot")) vf_unitq(Nm("q", i), q);
    poses.push_back(Pose(Pose::Position(r.p[i]), Quat(q[0], q[1], q[2], q[3])));
  }
  c.fitCurveWithDerivatives(r.t, poses, Twist(r.v0, w0), Twist(r.v1, w1));
  check_file(c, vf_param("samples"), {"t", "px", "py", "pz", "rw", "rx", "ry", "rz", "vx", "vy", "vz", "wx", "wy", "wz"});
  vf_reach("poses");
}
// a file that cannot be written is reported
extern "C" void h_c36_refused() {
  E3 c;
  const Ref r = sym_ref(2, 0, "t", "h", PN, AN, BN);
  c.fitCurve(r.t, r.p);
  SE3C d;
  std::vector<Pose> poses;
  for (int i = 0; i < 2; ++i) poses.push_back(Pose(Pose::Position(r.p[i]), Quat()));
  d.fitCurve(r.t, poses);
  const char* const bad = "no such directory/eval.txt";
  if (vf_choice("pose", 2)) vf_assert(!d.writeEvalToFile(bad, 3), "a file that cannot be opened is reported");
  else vf_assert(!c.writeEvalToFile(bad, 3), "a file that cannot be opened is reported");
  vf_reach("refused");
}
