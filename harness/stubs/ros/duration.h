// Stand-in for ros::Duration / ros::Time: seconds and nanoseconds, here arbitrary real numbers.
#pragma once
namespace ros {
class Duration {
 public:
  double sec, nsec;
  Duration() : sec(0.0), nsec(0.0) {}
  Duration(double s, double ns) : sec(s), nsec(ns) {}
  explicit Duration(double s) : sec(s), nsec(0.0) {}
  Duration& fromSec(double s) { sec = s; nsec = 0.0; return *this; }
  double toSec() const { return sec + 1e-9 * nsec; }
  double toNSec() const { return 1e9 * sec + nsec; }
  bool isZero() const { return sec == 0.0 && nsec == 0.0; }
  Duration operator+(const Duration& o) const { return Duration(sec + o.sec, nsec + o.nsec); }
  Duration operator-(const Duration& o) const { return Duration(sec - o.sec, nsec - o.nsec); }
  Duration& operator+=(const Duration& o) { sec += o.sec; nsec += o.nsec; return *this; }
  bool operator<(const Duration& o) const { return toSec() < o.toSec(); }
  bool operator==(const Duration& o) const { return toSec() == o.toSec(); }
};
class Time {
 public:
  double sec, nsec;
  Time() : sec(0.0), nsec(0.0) {}
  double toSec() const { return sec + 1e-9 * nsec; }
};
}  // namespace ros
