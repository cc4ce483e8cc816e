// C27: the mathematical helpers, against their definitions in double precision.
#define VF_MAIN
#include "common.hpp"
#include "strapdown.hpp"
#include <math_lib.hpp>
using namespace ESKF_VIO_BACKEND;
using vf::Case; using vf::Rng; using vf::V3; using vf::Q4;
static Q4 randomQ(Rng &r) {
    switch (r.range(0, 5)) {
        case 0: return vf::expq(V3(r.gauss(), r.gauss(), r.gauss()) * std::pow(10, r.uni(-8, -1)));                   // near none
        case 1: { V3 a(r.gauss(), r.gauss(), r.gauss()); return vf::expq(a.normalized() * (M_PI - std::pow(10, r.uni(-8, -1)))); }    // near half a turn
        case 2: { int k = r.range(0, 2); V3 a = V3::Unit(k) * r.pick(std::vector<double>{M_PI / 2, -M_PI / 2, M_PI, 0}); return vf::expq(a); }
        case 3: { Q4 y = vf::expq(V3(0, 0, r.uni(-3, 3))), p = vf::expq(V3(0, (r.chance(0.5) ? 1 : -1) * (M_PI / 2 - std::pow(10, r.uni(-8, -1))), 0)), x = vf::expq(V3(r.uni(-3, 3), 0, 0)); return y * p * x; }   // steep
        default: return Q4(r.gauss(), r.gauss(), r.gauss(), r.gauss()).normalized();
    }
}
static V3 randomV(Rng &r) { return V3(r.gauss(), r.gauss(), r.gauss()) * std::pow(10, r.uni(-6, 3)); }
static double turn(const Q4 &q) { return 2 * std::atan2(q.vec().norm(), std::fabs(q.w())); }
static void algebra(Rng &r, Case &c) {
    V3 a = randomV(r).cast<float>().cast<double>(), b = randomV(r).cast<float>().cast<double>(); Vector3 af = a.cast<float>(), bf = b.cast<float>();
    double tol = 1e-6 * a.norm() * b.norm();
    Vector3 x1 = Utility::SkewSymmetricMatrix(af) * bf, x2 = Utility::SkewSymmetricMatrix(Vector3(af * 1.0f).head<3>()) * bf; V3 x3 = Utility::SkewSymmetricMatrix(a) * b;
    c.near((x1.cast<double>() - a.cross(b)).norm(), 0, tol, "skew", "cross product by the skew matrix"); c.near((x2.cast<double>() - a.cross(b)).norm(), 0, tol, "skew", "cross product by the skew matrix of a segment"); c.near((x3 - a.cross(b)).norm(), 0, tol, "skew", "cross product in double precision");
    Q4 p = randomQ(r), q = randomQ(r); Eigen::Quaternionf pf = p.cast<float>(), qf = q.cast<float>(); Quaternion pq(pf), qq(qf);
    auto v4 = [](const Q4 &k) { return Eigen::Vector4d(k.w(), k.x(), k.y(), k.z()); };
    Eigen::Vector4d want = v4(p * q), fq = v4(qf.cast<double>()), fp = v4(pf.cast<double>());
    c.near((Utility::Qleft(pq).cast<double>() * fq - want).norm(), 0, 2e-6, "left", "quaternion product by the left matrix"); c.near((Utility::Qright(qq).cast<double>() * fp - want).norm(), 0, 2e-6, "right", "quaternion product by the right matrix");
    c.near((Utility::Qleft(p) * v4(q) - want).norm(), 0, 1e-12, "left", "quaternion product by the left matrix, double precision"); c.near((Utility::Qright(q) * v4(p) - want).norm(), 0, 1e-12, "right", "quaternion product by the right matrix, double precision");
    c.near((Utility::Qleft(static_cast<const Eigen::QuaternionBase<Quaternion> &>(pq)).cast<double>() * fq - want).norm(), 0, 2e-6, "left", "quaternion product by the left matrix, general form"); c.near((Utility::Qright(static_cast<const Eigen::QuaternionBase<Quaternion> &>(qq)).cast<double>() * fp - want).norm(), 0, 2e-6, "right", "quaternion product by the right matrix, general form");
    // small rotations
    V3 th = V3(r.gauss(), r.gauss(), r.gauss()).normalized() * std::pow(10, r.uni(-7, -0.3)); Vector3 tf = th.cast<float>();
    Quaternion d = Utility::DeltaQ(tf); double n = th.norm();
    c.near(vf::angle(d.cast<double>().normalized(), vf::expq(th)), 0, n * n * n / 10 + 1e-6 * n + 1e-9, "increment", "rotation increment of a rotation vector of " + std::to_string(n));
    Vector3 mf = tf; double m = Utility::ComputeRotationMagnitude(mf); (void)m;
    c.expect(std::isfinite(m), "magnitude", "magnitude of a rotation vector");
    Matrix44 T = Utility::TransformMatrix(pq, af); V3 moved = p * b + a; Eigen::Vector4d h; h << b, 1;
    c.near(((T.cast<double>() * h).head<3>() - moved).norm(), 0, 2e-6 * (b.norm() + a.norm()), "transform", "point moved by a transformation"); c.expect(T.row(3) == Eigen::RowVector4f(0, 0, 0, 1), "transform", "last row of a transformation");
    c.near(Utility::ComputeTranslationMagnitude(af), a.norm(), 1e-6 * a.norm(), "length", "length of a translation");
    c.nontrivial(); c.hashd(a.x()); c.hashd(p.x()); c.count("products"); c.sample = "rotation of " + std::to_string(turn(p)) + " rad, vector of length " + std::to_string(a.norm());
}
static void angles(Rng &r, Case &c) {
    Q4 q = randomQ(r); Quaternion f = q.cast<float>(); if (r.chance(0.5)) { f.normalize(); } q = f.cast<double>().normalized(); Matrix33 R(f);
    double want = turn(q);
    for (double m : {double(Utility::ComputeRotationMagnitude(f)), double(Utility::ComputeRotationMagnitude(R))}) {
        c.expect(m >= 0 && m <= 3.1415928, "magnitude", "rotation of " + std::to_string(want) + " rad is given the magnitude " + std::to_string(m));
        c.near(m, want, 1.5e-6 + 2e-6 / std::max(1e-3, std::sin(want)), "magnitude", "magnitude of a rotation");
    }
    Vector3 e = Utility::QuaternionToEuler(f); const double deg = 57.295779579;
    c.expect(e.allFinite() && std::fabs(e.x()) <= 180.01 && std::fabs(e.y()) <= 90.01 && std::fabs(e.z()) <= 180.01, "euler-range", "angles " + std::to_string(e.x()) + " " + std::to_string(e.y()) + " " + std::to_string(e.z()));
    Q4 back = Q4(Eigen::AngleAxisd(e.z() / deg, V3::UnitZ()) * Eigen::AngleAxisd(e.y() / deg, V3::UnitY()) * Eigen::AngleAxisd(e.x() / deg, V3::UnitX()));
    double cosPitch = std::cos(e.y() / deg), err = vf::angle(back, q);
    if (cosPitch > 1e-2) { c.near(err, 0, 4e-6 + 2e-6 / cosPitch, "euler", "rotation rebuilt from its angles"); c.count("rebuilt"); } else { c.count("steep"); }
    double sine = std::max(-1.0, std::min(1.0, 2 * (q.w() * q.y() - q.z() * q.x()))), pitch = std::asin(sine), near = std::sqrt(1 - sine * sine), tol = std::min(2e-6 / std::max(1e-9, near), 1.5e-3) + 2e-6; c.peak("pitch error / bound", std::fabs(e.y() / deg - pitch) / tol);
    c.near(e.y() / deg, pitch, tol, "euler", "pitch");
    c.nontrivial(); c.hashd(q.x()); c.hashd(q.w()); c.count("rotations"); c.sample = "rotation of " + std::to_string(want) + " rad";
}
static void inverse(Rng &r, Case &c) {
    int n = r.range(1, 12), rank = r.range(0, n); Eigen::MatrixXd B(n, std::max(1, rank)); for (long i = 0; i < B.size(); ++i) { B(i) = r.gauss(); } if (rank == 0) { B.setZero(); }
    double size = r.chance(0.5) ? 1 : std::pow(10.0, r.uni(-14, 8)); B *= std::sqrt(size); Matrix A = (B * B.transpose()).cast<float>(); A = (A + A.transpose()) / 2; Eigen::MatrixXd Ad = A.cast<double>();
    Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(Ad); double top = std::max(1e-9 * size, es.eigenvalues()(n - 1)), low = 1e300; for (int i = 0; i < n; ++i) { if (i >= n - rank) { low = std::min(low, es.eigenvalues()(i)); } }
    if (rank && low < 0.02 * top) { c.count("skipped, badly conditioned"); return; }
    if (rank < n) { return; }
    Matrix I = Utility::Inverse(A); double e = (I.cast<double>() * Ad - Eigen::MatrixXd::Identity(n, n)).norm();
    c.near(e, 0, 1e-4 * n, "inverse", "inverse times matrix, against the identity, order " + std::to_string(n)); c.nontrivial(); c.hashd(B(0)); c.hash(uint64_t(n)); c.count("inverses");
}
int main(int argc, char **argv) {
    vf::Runner run; run.init(argc, argv);
    run.rule = "random vectors over nine decades, rotations random, near none, near half a turn, steep and about the axes, against double precision definitions; distinct by values";
    run.family("algebra", run.n(100000, 1000000), algebra); run.family("angles", run.n(100000, 2000000), angles); run.family("inverse", run.n(20000, 100000), inverse);
    return run.finish();
}
