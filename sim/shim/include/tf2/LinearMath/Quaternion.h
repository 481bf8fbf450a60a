#pragma once
#include <cmath>
namespace tf2 { class Quaternion { public: double x_ = 0, y_ = 0, z_ = 0, w_ = 1; Quaternion() {} Quaternion(double x, double y, double z, double w) : x_(x), y_(y), z_(z), w_(w) {}
void setRPY(double r, double p, double y) { double cr = cos(r / 2), sr = sin(r / 2), cp = cos(p / 2), sp = sin(p / 2), cy = cos(y / 2), sy = sin(y / 2); x_ = sr * cp * cy - cr * sp * sy; y_ = cr * sp * cy + sr * cp * sy; z_ = cr * cp * sy - sr * sp * cy; w_ = cr * cp * cy + sr * sp * sy; }
double x() const { return x_; } double y() const { return y_; } double z() const { return z_; } double w() const { return w_; } double getX() const { return x_; } double getY() const { return y_; } double getZ() const { return z_; } double getW() const { return w_; } }; }
