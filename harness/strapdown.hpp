// Strapdown integration and error propagation in double precision: the reference for the IMU sequence.
#pragma once
#include "common.hpp"
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include <sequence_propagator.hpp>
namespace vf {
using V3 = Eigen::Vector3d;
using Q4 = Eigen::Quaterniond;
struct Nom { V3 p, v; Q4 q; };
struct ImuD { double t; V3 gyro, accel; };

inline Q4 expq(const V3 &th) {
    double n = th.norm();
    if (n < 1e-12) { return Q4(1, th.x() / 2, th.y() / 2, th.z() / 2).normalized(); }
    return Q4(Eigen::AngleAxisd(n, th / n));
}
inline V3 logq(Q4 q) {
    if (q.w() < 0) { q.coeffs() = -q.coeffs(); }
    double n = q.vec().norm();
    return n < 1e-12 ? V3(2 * q.vec()) : V3(q.vec() * (2 * std::atan2(n, q.w()) / n));
}
inline double angle(const Q4 &a, const Q4 &b) { Q4 d = a.conjugate() * b; return 2 * std::atan2(d.vec().norm(), std::fabs(d.w())); }
inline Eigen::Matrix3d skew(const V3 &v) { Eigen::Matrix3d m; m << 0, -v.z(), v.y(), v.z(), 0, -v.x(), -v.y(), v.x(), 0; return m; }

// How far single precision and a first-order rotation increment may lead away from the reference.
struct Bounds { double q = 1e-6, v = 1e-5, p = 1e-5; };

inline void strapdown(Nom &x, const ImuD &a, const ImuD &b, const V3 &ba, const V3 &bg, const V3 &g, Bounds *e = nullptr) {
    double dt = b.t - a.t;
    V3 w = 0.5 * (a.gyro + b.gyro) - bg;
    Q4 q1 = (x.q * expq(w * dt)).normalized();
    V3 f = 0.5 * (x.q * (a.accel - ba) + q1 * (b.accel - ba));
    V3 v1 = x.v + (f - g) * dt;
    V3 p1 = x.p + 0.5 * (x.v + v1) * dt;
    if (e) {
        e->q += std::pow((w * dt).norm(), 3) / 8 + 3e-7;
        double dv = (std::max((a.accel - ba).norm(), (b.accel - ba).norm()) + 1) * e->q * dt + 1.5e-7 * (1 + v1.norm() + g.norm() * dt);
        double dp = e->v * dt + 1.5e-7 * (1 + p1.norm());
        e->v += dv; e->p += dp + dv * dt;
    }
    x.q = q1; x.v = v1; x.p = p1;
}

// Error state: position, velocity, rotation (on the body side), accelerometer bias, gyroscope bias.
inline Eigen::MatrixXd transition(const Eigen::Matrix3d &R, const V3 &accel, const V3 &gyro, double dt) {
    Eigen::MatrixXd F = Eigen::MatrixXd::Identity(15, 15);
    F.block<3, 3>(0, 3) = dt * Eigen::Matrix3d::Identity();
    F.block<3, 3>(3, 6) = -dt * R * skew(accel);
    F.block<3, 3>(3, 9) = -dt * R;
    F.block<3, 3>(6, 6) -= dt * skew(gyro);
    F.block<3, 3>(6, 12) = -dt * Eigen::Matrix3d::Identity();
    return F;
}
inline Eigen::MatrixXd noiseInput(const Eigen::Matrix3d &R, double dt) {
    Eigen::MatrixXd G = Eigen::MatrixXd::Zero(15, 12);
    G.block<3, 3>(0, 0) = 0.5 * dt * dt * R;
    G.block<3, 3>(3, 0) = dt * R;
    for (int k = 0; k < 3; ++k) { G.block<3, 3>(6 + 3 * k, 3 + 3 * k) = dt * Eigen::Matrix3d::Identity(); }
    return G;
}
}  // namespace vf
