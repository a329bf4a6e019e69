// Importing trajectory messages.
#include <curves_ros/RosJointTrajectoryInterface.hpp>
#include <curves_ros/RosMultiDOFJointTrajectoryTranslationInterface.hpp>
#include <curves_ros/RosMultiDOFJointTrajectoryInterface.hpp>
#include "common.h"
typedef curves::PolynomialSplineQuinticScalarCurve Scalar;
typedef curves::PolynomialSplineQuinticVector3Curve Vec3;
typedef curves::CubicHermiteSE3Curve Hermite;

// a name of up to two arbitrary characters, or a long one that differs in its last character only
static std::string name(const char* n, int i) {
  std::string s;
  int len = vf_param("lens") == 1 ? 1 : vf_choice(Nm(n, i), vf_param("lens"));
  if (len == 3) { s = "right_front_shoulder_joint_"; len = 1; }
  for (int k = 0; k < len; ++k) s.push_back((char)vf_char(Nm(n, i, k)));
  return s;
}
struct Names {
  std::vector<std::string> list;
  std::string wanted;
  int found;   // -1: not listed
  Names() : found(-1) {
    const int joints = vf_param("joints");
    for (int j = 0; j < joints; ++j) list.push_back(name("joint", j));
    wanted = name("wanted", 0);
    for (int j = 0; j < joints; ++j) {
      if (list[j] == wanted) { vf_assume(found < 0); found = j; }   // listed once
    }
  }
};
// a message imported before: the wanted joint is listed at another place
static std::vector<std::string> earlier_names(const Names& nm) {
  std::vector<std::string> r(2, nm.wanted + "x");
  r[nm.found == 0 ? 1 : 0] = nm.wanted;
  return r;
}
// times from start: seconds and nanoseconds, strictly increasing
struct Times {
  std::vector<double> t;
  std::vector<ros::Duration> d;
  Times() {
    const int n = vf_param("n");
    double x = vf_real("t0");
    for (int i = 0; i < n; ++i) {
      const double ns = vf_real(Nm("nsec", i));
      d.push_back(ros::Duration(x - 1e-9 * ns, ns));
      t.push_back(d.back().toSec());
      x = x + vf_pos(Nm("h", i));
    }
  }
};
static void check(Scalar& c, const std::vector<double>& t, const std::vector<double>& p) {
  Scalar f;
  f.fitCurve(t, p);
  vf_eq(c.getMinTime(), f.getMinTime(), "first time");
  vf_eq(c.getMaxTime(), f.getMaxTime(), "last time");
  for (size_t i = 0; i < t.size(); ++i) { double x = 0.5; vf_assert(c.evaluate(x, t[i]), "evaluation at a point of the message"); vf_eq(x, p[i], "position of the joint at a point of the message"); }
  const double u = vf_real("u");
  double x = 0.25, y = 0.75;
  vf_assert(c.evaluate(x, u) == f.evaluate(y, u), "evaluation like a curve fitted to the joint's positions");
  vf_eq(x, y, "value of a curve fitted to the joint's positions");
}
static void check(Vec3& c, const std::vector<double>& t, const std::vector<Eigen::Vector3d>& p) {
  vf_eq(c.getMinTime(), t.front(), "first time");
  vf_eq(c.getMaxTime(), t.back(), "last time");
  for (size_t i = 0; i < t.size(); ++i) {
    Vec3::ValueType x(0.5, 0.5, 0.5);
    vf_assert(c.evaluate(x, t[i]), "evaluation at a point of the message");
    for (int k = 0; k < 3; ++k) vf_eq(x(k), p[i](k), "translation of the joint at a point of the message");
  }
  Vec3 f;
  std::vector<Vec3::ValueType> v(p.begin(), p.end());
  f.fitCurve(t, v);
  const double u = vf_real("u");
  Vec3::ValueType x(0.25, 0.25, 0.25), y(0.75, 0.75, 0.75);
  vf_assert(c.evaluate(x, u) == f.evaluate(y, u), "evaluation like a curve fitted to the joint's translations");
  for (int k = 0; k < 3; ++k) vf_eq(x(k), y(k), "value of a curve fitted to the joint's translations");
}
static void check(Hermite& c, const std::vector<double>& t, const std::vector<Hermite::ValueType>& p) {
  vf_assert(c.size() == (int)t.size(), "one knot per point of the message");
  vf_eq(c.getMinTime(), t.front(), "first time");
  vf_eq(c.getMaxTime(), t.back(), "last time");
  Hermite f;
  f.fitCurve(t, p);
  for (size_t i = 0; i <= t.size(); ++i) {
    const double u = i < t.size() ? t[i] : vf_real("u");
    Hermite::ValueType x(kindr::Position3D(7.0, 7.0, 7.0), kindr::RotationQuaternionPD()), y(kindr::Position3D(8.0, 8.0, 8.0), kindr::RotationQuaternionPD());
    const bool in = f.evaluate(y, u);
    vf_assert(c.evaluate(x, u) == in, "evaluation like a curve fitted to the joint's poses");
    if (!in) continue;
    for (int k = 0; k < 3; ++k) vf_eq(x.getPosition()(k), y.getPosition()(k), "position of a curve fitted to the joint's poses");
    const Eigen::Vector4d a = x.getRotation().vector(), b = y.getRotation().vector();
    for (int k = 0; k < 4; ++k) vf_eq(a(k), b(k), "rotation of a curve fitted to the joint's poses");
  }
}

extern "C" void h_c30_scalar() {
  const Names nm;
  const Times tm;
  const int n = vf_param("n"), joints = vf_param("joints");
  trajectory_msgs::JointTrajectory m;
  m.joint_names = nm.list;
  std::vector<double> want;
  for (int i = 0; i < n; ++i) {
    trajectory_msgs::JointTrajectoryPoint p;
    for (int j = 0; j < joints; ++j) p.positions.push_back(vf_real(Nm("p", i, j)));
    p.time_from_start = tm.d[i];
    if (nm.found >= 0) want.push_back(p.positions[nm.found]);
    m.points.push_back(p);
  }
  curves::RosJointTrajectoryInterface c;
  std::vector<double> ot, op;
  if (vf_choice("used", 2)) {
    ot.push_back(vf_real("ot")); ot.push_back(ot[0] + vf_pos("oh"));
    op.push_back(vf_real("op")); op.push_back(vf_real("op1"));
    c.fitCurve(ot, op);
  } else if (vf_choice("imported before", 2)) {
    trajectory_msgs::JointTrajectory e;
    e.joint_names = earlier_names(nm);
    for (int i = 0; i < 2; ++i) {
      trajectory_msgs::JointTrajectoryPoint p;
      p.positions.push_back(nm.found == 0 ? 77.0 : 5.0 + i);
      p.positions.push_back(nm.found == 0 ? 5.0 + i : 77.0);
      p.time_from_start = ros::Duration(1.0 + i, 0.0);
      e.points.push_back(p);
      ot.push_back(1.0 + i); op.push_back(5.0 + i);
    }
    vf_assert(c.fromMessage(e, nm.wanted), "the message is imported exactly when it lists the joint");
    check(c, ot, op);
    vf_reach("scalar imported before");
  }
  const bool r = c.fromMessage(m, nm.wanted);
  vf_assert(r == (nm.found >= 0), "the message is imported exactly when it lists the joint");
  if (nm.found >= 0) { check(c, tm.t, want); vf_reach("scalar"); }
  else if (!ot.empty()) { check(c, ot, op); vf_reach("scalar unchanged"); }
  else vf_reach("scalar refused");
}

extern "C" void h_c30_translation() {
  const Names nm;
  const Times tm;
  const int n = vf_param("n"), joints = vf_param("joints");
  trajectory_msgs::MultiDOFJointTrajectory m;
  m.joint_names = nm.list;
  std::vector<Eigen::Vector3d> want;
  for (int i = 0; i < n; ++i) {
    trajectory_msgs::MultiDOFJointTrajectoryPoint p;
    for (int j = 0; j < joints; ++j) {
      geometry_msgs::Transform f;
      f.translation.x = vf_real(Nm("x", i, j)); f.translation.y = vf_real(Nm("y", i, j)); f.translation.z = vf_real(Nm("z", i, j));
      f.rotation.w = 1.0;
      p.transforms.push_back(f);
      if (j == nm.found) want.push_back(Eigen::Vector3d(f.translation.x, f.translation.y, f.translation.z));
    }
    p.time_from_start = tm.d[i];
    m.points.push_back(p);
  }
  curves::RosMultiDOFJointTrajectoryTranslationInterface c;
  std::vector<double> ot;
  std::vector<Eigen::Vector3d> op;
  if (vf_choice("used", 2)) {
    ot.push_back(vf_real("ot")); ot.push_back(ot[0] + vf_pos("oh"));
    for (int i = 0; i < 2; ++i) op.push_back(Eigen::Vector3d(vf_real(Nm("ox", i)), vf_real(Nm("oy", i)), vf_real(Nm("oz", i))));
    c.fitCurve(ot, std::vector<Vec3::ValueType>(op.begin(), op.end()));
  } else if (vf_choice("imported before", 2)) {
    trajectory_msgs::MultiDOFJointTrajectory e;
    e.joint_names = earlier_names(nm);
    for (int i = 0; i < 2; ++i) {
      trajectory_msgs::MultiDOFJointTrajectoryPoint p;
      p.transforms.resize(2);
      for (int j = 0; j < 2; ++j) { geometry_msgs::Transform& f = p.transforms[j]; const double o = (nm.found == 0) == (j == 1) ? 0.0 : 77.0;
        f.translation.x = o + i; f.translation.y = o + 2.0; f.translation.z = o - i; f.rotation.w = 1.0; }
      p.time_from_start = ros::Duration(1.0 + i, 0.0);
      e.points.push_back(p);
      ot.push_back(1.0 + i); op.push_back(Eigen::Vector3d(i, 2.0, -i));
    }
    vf_assert(c.fromMessage(e, nm.wanted), "the message is imported exactly when it lists the joint");
    check(c, ot, op);
    vf_reach("translation imported before");
  }
  const bool r = c.fromMessage(m, nm.wanted);
  vf_assert(r == (nm.found >= 0), "the message is imported exactly when it lists the joint");
  if (nm.found >= 0) { check(c, tm.t, want); vf_reach("translation"); }
  else if (!ot.empty()) { check(c, ot, op); vf_reach("translation unchanged"); }
  else vf_reach("translation refused");
}

static geometry_msgs::Transform sym_transform(const char* n, int i, int j) {
  geometry_msgs::Transform f;
  const std::string b = n;
  f.translation.x = vf_real(Nm((b + "x").c_str(), i, j)); f.translation.y = vf_real(Nm((b + "y").c_str(), i, j)); f.translation.z = vf_real(Nm((b + "z").c_str(), i, j));
  double q[4];
  vf_unitq(Nm((b + "q").c_str(), i, j), q);
  f.rotation.w = q[0]; f.rotation.x = q[1]; f.rotation.y = q[2]; f.rotation.z = q[3];
  return f;
}
static Hermite::ValueType pose(const geometry_msgs::Transform& f) {
  return Hermite::ValueType(kindr::Position3D(f.translation.x, f.translation.y, f.translation.z), kindr::RotationQuaternionPD(f.rotation.w, f.rotation.x, f.rotation.y, f.rotation.z));
}
extern "C" void h_c30_pose() {
  const Names nm;
  const Times tm;
  const int n = vf_param("n"), joints = vf_param("joints");
  trajectory_msgs::MultiDOFJointTrajectory m;
  m.joint_names = nm.list;
  std::vector<Hermite::ValueType> want;
  for (int i = 0; i < n; ++i) {
    trajectory_msgs::MultiDOFJointTrajectoryPoint p;
    for (int j = 0; j < joints; ++j) {
      p.transforms.push_back(sym_transform("m", i, j));
      if (j == nm.found) want.push_back(pose(p.transforms.back()));
    }
    p.time_from_start = tm.d[i];
    m.points.push_back(p);
  }
  curves::RosMultiDOFJointTrajectoryInterface c;
  std::vector<double> ot;
  std::vector<Hermite::ValueType> op;
  if (vf_choice("used", 2)) {
    ot.push_back(vf_real("ot")); ot.push_back(ot[0] + vf_pos("oh"));
    for (int i = 0; i < 2; ++i) op.push_back(pose(sym_transform("o", i, 0)));
    c.fitCurve(ot, op);
  } else if (vf_choice("imported before", 2)) {
    trajectory_msgs::MultiDOFJointTrajectory e;
    e.joint_names = earlier_names(nm);
    for (int i = 0; i < 2; ++i) {
      trajectory_msgs::MultiDOFJointTrajectoryPoint p;
      p.transforms.resize(2);
      for (int j = 0; j < 2; ++j) { geometry_msgs::Transform& f = p.transforms[j]; const double o = (nm.found == 0) == (j == 1) ? 0.0 : 77.0;
        f.translation.x = o + i; f.translation.y = o + 2.0; f.translation.z = o - i; f.rotation.w = 1.0; f.rotation.x = f.rotation.y = f.rotation.z = 0.0; }
      p.time_from_start = ros::Duration(1.0 + i, 0.0);
      e.points.push_back(p);
      ot.push_back(1.0 + i); op.push_back(pose(p.transforms[nm.found == 0 ? 1 : 0]));
    }
    vf_assert(c.fromMessage(e, nm.wanted), "the message is imported exactly when it lists the joint");
    check(c, ot, op);
    vf_reach("pose imported before");
  }
  const bool r = c.fromMessage(m, nm.wanted);
  vf_assert(r == (nm.found >= 0), "the message is imported exactly when it lists the joint");
  if (nm.found >= 0) { check(c, tm.t, want); vf_reach("pose"); }
  else if (!ot.empty()) { check(c, ot, op); vf_reach("pose unchanged"); }
  else vf_reach("pose refused");
}
