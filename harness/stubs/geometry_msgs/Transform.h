#pragma once
namespace geometry_msgs {
struct Vector3 { double x = 0, y = 0, z = 0; };
struct Quaternion { double x = 0, y = 0, z = 0, w = 0; };
struct Transform { Vector3 translation; Quaternion rotation; };
struct Twist { Vector3 linear, angular; };
}
