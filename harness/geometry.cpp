// C14 C15 C16 C17: triangulation and pose estimation, against double precision references and the
// definition of what they solve.
#define VF_MAIN
#include "common.hpp"
#include "strapdown.hpp"
#include <trianglation.hpp>
#include <perspective_n_point.hpp>
#include <memory>
using namespace ESKF_VIO_BACKEND;
using vf::Case; using vf::Rng; using vf::V3; using vf::Q4;
using Eigen::MatrixXd; using Eigen::Vector2d;

static V3 vec(Rng &r, double s) { return V3(r.gauss(), r.gauss(), r.gauss()) * s; }
static Q4 randomQ(Rng &r) { return Q4(r.gauss(), r.gauss(), r.gauss(), r.gauss()).normalized(); }
static std::string str(const V3 &v) { std::ostringstream s; s.precision(8); s << "(" << v.x() << ", " << v.y() << ", " << v.z() << ")"; return s.str(); }

struct Views {                       // as the library gets them, in single precision
    std::vector<Quaternion> q; std::vector<Vector3> p; std::vector<Vector2> z;
    Q4 qd(size_t i) const { return q[i].cast<double>().normalized(); }
    V3 pd(size_t i) const { return p[i].cast<double>(); }
    V3 inCam(size_t i, const V3 &w) const { return qd(i).conjugate() * (w - pd(i)); }
    double cost(const V3 &w) const { double c = 0; for (size_t i = 0; i < q.size(); ++i) { V3 x = inCam(i, w); c += (x.head<2>() / x.z() - z[i].cast<double>()).squaredNorm(); } return c; }
    void add(const Q4 &qq, const V3 &pp) { q.push_back(qq.cast<float>().normalized()); p.push_back(pp.cast<float>()); z.push_back(Vector2::Zero()); }
    void observe(const V3 &w, Rng &r, double noise) { for (size_t i = 0; i < q.size(); ++i) { V3 x = inCam(i, w); z[i] = (x.head<2>() / x.z() + Vector2d(r.gauss(), r.gauss()) * noise).cast<float>(); } }
    void trace(Case &c) const { for (size_t i = 0; i < q.size(); ++i) { c.trace << "view at " << p[i].transpose() << " quaternion " << q[i].coeffs().transpose() << " sees " << z[i].transpose() << "\n"; } }
};
// Rotation of a camera whose optical axis points along d.
static Q4 lookAlong(const V3 &d, Rng &r) { return (Q4::FromTwoVectors(V3::UnitZ(), d) * Q4(Eigen::AngleAxisd(r.uni(-3.1, 3.1), V3::UnitZ()))).normalized(); }

struct Dlt { V3 p = V3::Zero(); double err = INFINITY; bool ok = false, clear = false; };
// The point in double precision, how far single precision may move it, and whether it lies in front of every view.
static Dlt dlt(const Views &v) {
    Dlt d; long n = long(v.q.size()); MatrixXd A(2 * n, 4);
    for (long i = 0; i < n; ++i) {
        Eigen::Matrix<double, 3, 4> T; Eigen::Matrix3d R = v.qd(size_t(i)).conjugate().toRotationMatrix(); T.leftCols<3>() = R; T.col(3) = -R * v.pd(size_t(i));
        A.row(2 * i) = double(v.z[size_t(i)].x()) * T.row(2) - T.row(0); A.row(2 * i + 1) = double(v.z[size_t(i)].y()) * T.row(2) - T.row(1);
    }
    Eigen::JacobiSVD<MatrixXd> svd(A, Eigen::ComputeFullV); Eigen::Vector4d x = svd.matrixV().col(3);
    double gap = (svd.singularValues()(2) - svd.singularValues()(3)) / svd.singularValues()(0);
    d.p = x.head<3>() / x(3); d.err = 3e-6 / std::max(1e-12, gap) * (1 + d.p.squaredNorm());
    d.ok = std::fabs(x(3)) >= 1e-6; double zmin = 1e300;
    for (size_t i = 0; i < v.q.size(); ++i) { double z = v.inCam(i, d.p).z(); zmin = std::min(zmin, std::fabs(z)); if (z < 0) { d.ok = false; } }
    d.clear = d.err < 0.05 && zmin > 4 * d.err && std::fabs(std::fabs(x(3)) - 1e-6) > 1e-6;
    return d;
}
static Views around(Rng &r, const V3 &target, size_t n, double lo, double hi) {
    Views v; V3 main = vec(r, 1).normalized(); bool sweep = r.chance(0.5);
    for (size_t i = 0; i < n; ++i) {
        V3 dir = sweep ? (main + vec(r, 0.25)).normalized() : vec(r, 1).normalized();       // one side of the point, or all round it
        double dist = r.uni(lo, hi);
        v.add(lookAlong((dir + vec(r, 0.2)).normalized(), r), target - dir * dist);
    }
    return v;
}
static bool seen(const Views &v, const V3 &w, double least = 0.2) { for (size_t i = 0; i < v.q.size(); ++i) { V3 x = v.inCam(i, w); if (x.z() < least || x.head<2>().norm() > 1.5 * x.z()) { return false; } } return true; }

static Trianglator &shared() { static Trianglator t; return t; }

static void analytic(Rng &r, Case &c) {
    V3 w = vec(r, r.pick(std::vector<double>{0.1, 1, 3, 10})); size_t n = size_t(r.chance(0.5) ? r.range(2, 4) : r.range(5, 24));
    double noise = r.chance(0.4) ? 0 : std::pow(10, r.uni(-4, -2));
    bool close = r.chance(0.15); if (close) { w *= 0.05; c.count("close to the cameras"); }
    Views v = close ? around(r, w, n, 0.02, r.pick(std::vector<double>{0.04, 0.1, 0.3})) : around(r, w, n, 1, r.pick(std::vector<double>{2, 5, 15}));
    if (!seen(v, w, close ? 0.005 : 0.2)) { c.count("skipped, not visible"); return; }
    v.observe(w, r, noise);
    int kind = r.range(0, 5);
    size_t hit = size_t(r.range(0, int(n) - 1));
    if (kind == 1) { v.q[hit] = (v.q[hit] * Quaternion(0, 1, 0, 0)).normalized(); v.z[hit].y() = -v.z[hit].y(); v.z[hit].x() = -v.z[hit].x(); V3 x = v.inCam(hit, w); v.z[hit] = (x.head<2>() / x.z()).cast<float>(); }   // looks away from the point, on the same line
    if (kind == 2) { for (size_t i = 0; i < n; ++i) { v.q[i] = (v.q[i] * Quaternion(0, 1, 0, 0)).normalized(); V3 x = v.inCam(i, w); v.z[i] = (x.head<2>() / x.z()).cast<float>(); } }
    v.trace(c);
    Dlt d = dlt(v);
    Vector3 p(7, 8, 9), q(7, 8, 9);
    bool ok = shared().TrianglateAnalytic(v.q, v.p, v.z, p); Trianglator fresh; bool again = fresh.TrianglateAnalytic(v.q, v.p, v.z, q);
    c.expect(ok == again && (!ok || p == q), "history", "the answer depends on earlier calls of the same triangulator");
    if (ok) {
        c.expect(p.allFinite(), "not-finite", "success with a point that is not finite");
        for (size_t i = 0; i < n; ++i) { double z = v.inCam(i, p.cast<double>()).z(); c.expect(z > -1e-4 * (1 + p.cast<double>().norm()), "behind", "success with a point " + std::to_string(-z) + " behind view " + std::to_string(i)); }
    }
    if (!d.clear) { c.count("too close to call"); return; }
    c.expect(ok == d.ok, d.ok ? "rejected" : "behind", std::string(ok ? "success" : "failure") + ", but the point " + str(d.p) + (d.ok ? " lies in front of all " : " does not lie in front of all ") + std::to_string(n) + " views");
    if (kind == 1 || kind == 2) { c.count("points behind a view"); if (noise == 0) { c.expect(!ok, "behind", "success though a view faces away from the point"); } }
    if (ok) {
        double e = (p.cast<double>() - d.p).norm(); c.peak("error / bound", e / d.err);
        c.near(e, 0, 4 * d.err, "point", "distance from the least squares point " + str(d.p) + " of " + std::to_string(n) + " views, got " + str(p.cast<double>()));
        if (noise == 0 && kind != 1 && kind != 2) { c.near((p.cast<double>() - w).norm(), 0, 2 * d.err, "true-point", "distance from the point all rays meet in, " + str(w)); c.count("exact observations"); }
        // the order of the views does not matter
        std::vector<size_t> o(n); for (size_t i = 0; i < n; ++i) { o[i] = i; } r.shuffle(o);
        Views s; for (size_t i : o) { s.q.push_back(v.q[i]); s.p.push_back(v.p[i]); s.z.push_back(v.z[i]); }
        Vector3 t; bool k = fresh.TrianglateAnalytic(s.q, s.p, s.z, t);
        c.expect(k && (t - p).cast<double>().norm() <= 2 * d.err, "order", "the point changes with the order of the views");
    }
    c.count(ok ? "points" : "refusals"); c.count("views", double(n)); c.nontrivial(); c.hashd(w.x()); c.hash(n); c.hash(uint64_t(kind));
    c.sample = std::to_string(n) + " views of " + str(w) + ", noise " + std::to_string(noise) + (ok ? ", point " + str(p.cast<double>()) : ", refused");
}
// Far from the origin of the map, as after a long drive: how far single precision may move the point is
// found by disturbing the equations in double precision as rounding disturbs them.
static void farAway(Rng &r, Case &c) {
    V3 w = vec(r, 1).normalized() * std::pow(10.0, r.uni(1, 4)); size_t n = size_t(r.range(2, 16));
    Views v = around(r, w, n, 1, r.pick(std::vector<double>{5, 15, 40}));
    if (!seen(v, w)) { c.count("skipped, not visible"); return; }
    v.observe(w, r, r.chance(0.4) ? 0 : std::pow(10, r.uni(-4, -2.5))); v.trace(c);
    MatrixXd A(2 * long(n), 4);
    for (long i = 0; i < long(n); ++i) {
        Eigen::Matrix<double, 3, 4> T; Eigen::Matrix3d R = v.qd(size_t(i)).conjugate().toRotationMatrix(); T.leftCols<3>() = R; T.col(3) = -R * v.pd(size_t(i));
        A.row(2 * i) = double(v.z[size_t(i)].x()) * T.row(2) - T.row(0); A.row(2 * i + 1) = double(v.z[size_t(i)].y()) * T.row(2) - T.row(1);
    }
    auto solve = [](const MatrixXd &m, double &last) { Eigen::Vector4d x = Eigen::JacobiSVD<MatrixXd>(m, Eigen::ComputeFullV).matrixV().col(3); last = std::fabs(x(3)); return V3(x.head<3>() / x(3)); };
    double last, ignore; V3 want = solve(A, last); double err = 0, big = A.cwiseAbs().maxCoeff();
    for (int k = 0; k < 6; ++k) { MatrixXd B = A; for (long i = 0; i < B.rows(); ++i) { for (long j = 0; j < 4; ++j) { B(i, j) += 2e-7 * big * r.uni(-1, 1); } } err = std::max(err, (solve(B, ignore) - want).norm()); }
    err = 4 * err + 1e-6 * want.norm(); double zmin = 1e300; for (size_t i = 0; i < n; ++i) { zmin = std::min(zmin, v.inCam(i, want).z()); }
    if (!(zmin > 4 * err) || last < 3e-5) { c.count("too close to call"); return; }
    Vector3 p(7, 8, 9); bool ok = shared().TrianglateAnalytic(v.q, v.p, v.z, p);
    c.expect(ok, "rejected", "no point, but " + str(want) + " lies at least " + std::to_string(zmin) + " m in front of all " + std::to_string(n) + " views");
    double e = (p.cast<double>() - want).norm(); c.peak("far away: error / bound", e / err); c.peak("distance from the origin (m)", want.norm());
    c.near(e, 0, err, "point", "distance from the least squares point " + str(want) + " of " + std::to_string(n) + " views, got " + str(p.cast<double>()));
    c.count("points far from the origin"); c.nontrivial(); c.hashd(w.x()); c.hash(n); c.sample = std::to_string(n) + " views of " + str(w) + ", point " + str(p.cast<double>());
}
static void fewViews(Rng &r, Case &c) {
    Views v = around(r, vec(r, 2), size_t(r.range(0, 1)), 1, 5); Vector3 p(7, 8, 9);
    c.expect(!shared().TrianglateAnalytic(v.q, v.p, v.z, p), "few-views", "success with " + std::to_string(v.q.size()) + " views");
    // no baseline: any answer but one that is not a number or behind
    V3 w = vec(r, 3); Views b = around(r, w, 1, 1, 5); if (!seen(b, w)) { return; } b.observe(w, r, 0);
    int n = r.range(1, 5); for (int i = 0; i < n; ++i) { b.q.push_back(b.q[0]); b.p.push_back(b.p[0]); b.z.push_back(b.z[0]); }
    bool ok = shared().TrianglateAnalytic(b.q, b.p, b.z, p);
    if (ok) { c.expect(p.allFinite(), "not-finite", "success with a point that is not finite"); }
    c.count(ok ? "no baseline: a point" : "no baseline: refused"); c.nontrivial(); c.hashd(w.x());
}

// C15
static Views forward(Rng &r, const V3 &w, size_t n, double base) {
    Views v; (void)w;
    for (size_t i = 0; i < n; ++i) { v.add(vf::expq(vec(r, 0.15)), V3(r.uni(-base, base), r.uni(-base, base), r.uni(-0.3, 0.3) * base)); }
    return v;
}
static V3 optimum(const Views &v, V3 w) {                        // Levenberg-Marquardt on the plain cost, double precision
    double lambda = 1e-6, cost = v.cost(w);
    for (int k = 0; k < 200; ++k) {
        Eigen::Matrix3d A = Eigen::Matrix3d::Zero(); V3 b = V3::Zero();
        for (size_t i = 0; i < v.q.size(); ++i) {
            V3 x = v.inCam(i, w); Eigen::Matrix<double, 2, 3> J; J << 1 / x.z(), 0, -x.x() / (x.z() * x.z()), 0, 1 / x.z(), -x.y() / (x.z() * x.z());
            J = J * v.qd(i).conjugate().toRotationMatrix(); A += J.transpose() * J; b += J.transpose() * (x.head<2>() / x.z() - v.z[i].cast<double>());
        }
        Eigen::Matrix3d D = A; D.diagonal() *= 1 + lambda; V3 dx = -D.ldlt().solve(b), t = w + dx; double e = v.cost(t);
        if (e <= cost) { if (dx.norm() < 1e-12 * (1 + w.norm())) { break; } w = t; cost = e; lambda = std::max(1e-12, lambda / 10); } else { lambda = std::max(1e-9, lambda * 10); if (lambda > 1e10) { break; } }
    }
    return w;
}
static void iterative(Rng &r, Case &c) {
    size_t n = size_t(r.range(2, 16)); V3 w(r.uni(-2, 2), r.uni(-2, 2), r.uni(3, 8));
    Views v = forward(r, w, n, r.pick(std::vector<double>{0.5, 1, 2}));
    if (!seen(v, w)) { c.count("skipped, not visible"); return; }
    double noise = r.chance(0.4) ? 0 : std::pow(10, r.uni(-4, -2.3)); v.observe(w, r, noise);
    bool wild = r.chance(0.4);
    V3 guess = wild ? V3(r.uni(-20, 20), r.uni(-20, 20), r.pick(std::vector<double>{0.1, 0.5, 2, 10, 50}) * r.uni(0.5, 2)) : w + V3(r.gauss() * 0.3, r.gauss() * 0.3, r.uni(-1, 3));
    bool middle = !wild && r.chance(0.4);        // the right direction, the depth wrong by a factor
    if (middle) { double k = r.chance(0.3) ? std::pow(30, r.uni(0, 1)) : std::pow(r.pick(std::vector<double>{2, 4}), r.uni(-1, 1)); guess = V3(w.x() * k + r.gauss() * 0.3, w.y() * k + r.gauss() * 0.3, w.z() * k); }
    Vector3 p = guess.cast<float>(); V3 start = p.cast<double>(); v.trace(c); c.trace << "first guess " << p.transpose() << "\n";
    // the solver works in single precision: its costs are those of points within rounding of the stated ones
    auto around = [&](const V3 &x, bool most) { double m = v.cost(x); for (int k = 0; k < 8; ++k) { V3 y = x + 2e-6 * x.norm() * V3(k & 1 ? 1 : -1, k & 2 ? 1 : -1, k & 4 ? 1 : -1); double e = v.cost(y); m = most ? std::max(m, e) : std::min(m, e); } return m; };
    double before = around(start, true);
    bool ok = shared().TrianglateIterative(v.q, v.p, v.z, p);
    c.expect(ok, "failure", "no result"); c.expect(p.allFinite(), "not-finite", "the result is not finite");
    double after = around(p.cast<double>(), false);
    c.peak("cost after / before", before > 1e-6 ? after / before : 0);
    c.expect(after <= before * (1 + 2e-3) + 1e-8, "cost", "the squared reprojection error of " + std::to_string(n) + " views grows from " + std::to_string(before) + " to " + std::to_string(after));
    if (!wild) {
        V3 best = optimum(v, w); double low = v.cost(best);
        // how far the cost pins the point down
        Eigen::Matrix3d A = Eigen::Matrix3d::Zero();
        for (size_t i = 0; i < n; ++i) { V3 x = v.inCam(i, best); Eigen::Matrix<double, 2, 3> J; J << 1 / x.z(), 0, -x.x() / (x.z() * x.z()), 0, 1 / x.z(), -x.y() / (x.z() * x.z()); A += v.qd(i) .toRotationMatrix() * J.transpose() * J * v.qd(i).conjugate().toRotationMatrix(); }
        double weak = Eigen::SelfAdjointEigenSolver<Eigen::Matrix3d>(A).eigenvalues()(0);
        if (weak > 1e-3 && noise <= 2e-3) {       // larger residuals are down-weighted on purpose
            double e = (p.cast<double>() - best).norm(), tol = 5e-5 + 1e-6 / weak + 0.3 * std::sqrt(1e-3 * low / weak);
            if (!middle) { c.peak(noise == 0 ? "exact: distance / bound" : "noisy: distance / bound", e / tol); } if (middle && e > tol) { c.count("wrong depths not overcome"); return; } if (middle) { c.count("wrong depths overcome"); }
            c.peak("distance to the minimum / bound", e / tol); c.near(e, 0, tol, "minimum", "distance of the result " + str(p.cast<double>()) + " from the point of least error " + str(best) + ", " + std::to_string(n) + " views, noise " + std::to_string(noise));
            if (noise == 0) { c.near((p.cast<double>() - w).norm(), 0, tol, "true-point", "distance from the point all rays meet in"); }
            c.count("results compared with the minimum");
        }
    } else { c.count("far first guesses"); }
    c.count("views", double(n)); c.nontrivial(); c.hashd(w.x()); c.hash(n);
    c.sample = std::to_string(n) + " views, first guess " + str(start) + ", result " + str(p.cast<double>()) + " for " + str(w);
}

// C16, C17
struct Pnp { std::vector<Vector3> X; std::vector<Vector2> z; Q4 q; V3 p; Quaternion gq; Vector3 gp; std::vector<bool> out;
    Vector2d res(size_t i, const Q4 &qq, const V3 &pp) const { V3 x = qq.conjugate() * (X[i].cast<double>() - pp); return x.head<2>() / x.z() - z[i].cast<double>(); }
    double cost(const Q4 &qq, const V3 &pp) const { double c = 0; for (size_t i = 0; i < X.size(); ++i) { c += res(i, qq, pp).squaredNorm(); } return c; } };
static Pnp problem(Rng &r, int n, double noise, double gross, double size, double away, double near = 0, double scale = 1) {
    Pnp s; s.q = randomQ(r); s.p = vec(r, r.pick(std::vector<double>{0, 1, 5}));
    while (int(s.X.size()) < n) {
        V3 x(r.uni(-3, 3), r.uni(-3, 3), r.uni(3, 8)); if (x.head<2>().norm() > x.z()) { continue; } if (near > 0 && r.chance(near)) { x *= r.uni(0.1, 0.3) / x.z(); }
        x *= scale; bool o = r.chance(gross); Vector2d z = x.head<2>() / x.z() + Vector2d(r.gauss(), r.gauss()) * noise;
        if (o) { double a = r.uni(0, 6.28); z += Vector2d(std::cos(a), std::sin(a)) * size * r.uni(1, 3); }
        s.X.push_back((s.q * x + s.p).cast<float>()); s.z.push_back(z.cast<float>()); s.out.push_back(o);
    }
    if (gross > 0 && r.chance(0.5)) {             // the wrong ones side by side in the lists, as when one object moves or one region is mismatched
        Pnp t = s; size_t at = 0; s.X.clear(); s.z.clear(); s.out.clear(); bool first = r.chance(0.5);
        for (int pass = 0; pass < 2; ++pass) { for (at = 0; at < t.X.size(); ++at) { if (t.out[at] == (first ? pass == 0 : pass == 1)) { s.X.push_back(t.X[at]); s.z.push_back(t.z[at]); s.out.push_back(t.out[at]); } } }
    }
    s.gq = (s.q * vf::expq(vec(r, 0.1 * away))).cast<float>().normalized(); s.gp = (s.p + vec(r, 0.3 * away * scale)).cast<float>();
    return s;
}
// Normal equations of the reprojection error at a pose.
static void normal(const Pnp &s, const Q4 &q, const V3 &p, Eigen::Matrix<double, 6, 6> &H, Eigen::Matrix<double, 6, 1> &b) {
    H.setZero(); b.setZero();
    for (size_t i = 0; i < s.X.size(); ++i) {
        V3 x = q.conjugate() * (s.X[i].cast<double>() - p); Eigen::Matrix<double, 2, 3> D; D << 1 / x.z(), 0, -x.x() / (x.z() * x.z()), 0, 1 / x.z(), -x.y() / (x.z() * x.z());
        Eigen::Matrix<double, 2, 6> J; J.leftCols<3>() = -D * q.conjugate().toRotationMatrix(); J.rightCols<3>() = D * vf::skew(x);
        H += J.transpose() * J; b -= J.transpose() * s.res(i, q, p);
    }
}
static bool refine(const Pnp &s, Q4 &q, V3 &p, double &weak) {
    for (int k = 0; k < 50; ++k) { Eigen::Matrix<double, 6, 6> H; Eigen::Matrix<double, 6, 1> b; normal(s, q, p, H, b); weak = Eigen::SelfAdjointEigenSolver<Eigen::Matrix<double, 6, 6>>(H).eigenvalues()(0); Eigen::Matrix<double, 6, 1> d = H.ldlt().solve(b); p += d.head<3>(); q = (q * vf::expq(d.tail<3>())).normalized(); if (!(d.norm() < 10)) { return false; } if (d.norm() < 1e-12) { return true; } }
    return false;
}
static void pnp(Rng &r, Case &c) {
    int n = r.chance(0.4) ? r.range(6, 10) : r.range(11, 60); double noise = r.chance(0.4) ? 0 : std::pow(10, r.uni(-4, -2.3));
    bool near = r.chance(0.2); double scale = !near && r.chance(0.3) ? r.uni(1, 25) : 1; Pnp s = problem(r, n, noise, 0, 0, near ? r.uni(0, 0.05) : r.uni(0, 1), near ? r.uni(0.1, 1) : 0, scale); if (scale > 6) { c.count("problems with points dozens of metres away"); } if (near) { c.count("problems with points closer than 0.3 m"); }
    Q4 bq = s.q; V3 bp = s.p; double weak = 0; if (!refine(s, bq, bp, weak) || (weak *= scale * scale) < 0.02) { c.count("skipped, badly determined"); return; }
    for (int kernel = 0; kernel < 2; ++kernel) {
        PnPSolver solver; Quaternion q = s.gq; Vector3 p = s.gp;
        bool ok = kernel ? solver.EstimatePoseKernel(s.X, s.z, q, p) : solver.EstimatePose(s.X, s.z, q, p);
        std::string name = kernel ? "robust estimate" : "estimate";
        c.expect(ok && q.coeffs().allFinite() && p.allFinite(), "failure", "no result from the " + name);
        c.near(q.norm(), 1, 2e-6, "not-unit", "norm of the rotation of the " + name);
        double ep = (p.cast<double>() - bp).norm(), eq = vf::angle(q.cast<double>().normalized(), bq), tol = 0.2 * (2e-5 * (1 + s.p.norm()) + 1e-5 / std::sqrt(weak) + 1e-6 / weak);
        c.peak(near ? "near points: error / bound" : "error / bound", std::max(ep / scale, eq) / tol);
        c.near(ep, 0, tol * scale, "position", "distance of the " + name + " from the least squares pose of " + std::to_string(n) + " points, noise " + std::to_string(noise));
        c.near(eq, 0, tol, "rotation", "angle of the " + name + " from the least squares pose of " + std::to_string(n) + " points, noise " + std::to_string(noise));
        if (noise == 0) { c.near((p.cast<double>() - s.p).norm(), 0, 2 * tol * scale, "true-pose", "distance from the pose the observations were made from"); c.count("exact observations"); }
    }
    c.count("points", double(n)); c.nontrivial(); c.hashd(s.p.x()); c.hashd(s.q.x()); c.hash(uint64_t(n));
    c.sample = std::to_string(n) + " points, noise " + std::to_string(noise) + ", first guess " + std::to_string(vf::angle(s.gq.cast<double>(), s.q)) + " rad and " + std::to_string((s.gp.cast<double>() - s.p).norm()) + " m away";
}
static void gross(Rng &r, Case &c) {
    int n = r.range(20, 60); Pnp s = problem(r, n, 1e-3, 0.1, 3, 0.3); int bad = 0; for (bool o : s.out) { bad += o; }
    if (!bad) { return; }
    double err[2];
    for (int kernel = 0; kernel < 2; ++kernel) {
        PnPSolver solver; Quaternion q = s.gq; Vector3 p = s.gp;
        bool ok = kernel ? solver.EstimatePoseKernel(s.X, s.z, q, p) : solver.EstimatePose(s.X, s.z, q, p);
        err[kernel] = ok && p.allFinite() ? std::min(1e3, (p.cast<double>() - s.p).norm() + 5 * vf::angle(q.cast<double>().normalized(), s.q)) : 1e3;
    }
    c.peak("robust error / plain error", err[1] / err[0]);
    c.count("robust compared"); c.count("robust better", err[1] < err[0]); c.count("robust worse", err[1] >= err[0]); c.count("sum of log error ratios", std::log(err[1] / err[0]));
    c.peak("robust error", err[1]);
    c.nontrivial(); c.hashd(s.p.x()); c.hashd(s.q.x());
    c.sample = std::to_string(bad) + " gross errors in " + std::to_string(n) + ": plain error " + std::to_string(err[0]) + ", robust " + std::to_string(err[1]);
}
static void refusals(Rng &r, Case &c) {
    Pnp s = problem(r, r.range(0, 12), 0, 0, 0, 1);
    int kind = r.range(0, 2);
    if (kind == 0) { s.X.clear(); s.z.clear(); } else { int k = r.range(1, 3); while (k--) { if (kind == 1 || s.X.empty()) { s.z.push_back(Vector2::Zero()); } else { s.X.pop_back(); } } }
    if (s.X.size() == s.z.size() && !s.X.empty()) { return; }
    Quaternion q = s.gq; Vector3 p = s.gp; PnPSolver solver;
    c.expect(!solver.EstimatePose(s.X, s.z, q, p) && !solver.EstimatePoseKernel(s.X, s.z, q, p), "accepted", std::to_string(s.X.size()) + " points with " + std::to_string(s.z.size()) + " observations are accepted");
    c.expect(q.coeffs() == s.gq.coeffs() && p == s.gp, "pose-touched", "a refused call changes the pose");
    c.nontrivial(); c.hash(s.X.size() * 100 + s.z.size()); c.count("refusals");
}
static const double THRES = 1e-3;
static int score(const Pnp &s, const Quaternion &q, const Vector3 &p, int &unclear) {
    int k = 0; unclear = 0; Q4 qq = q.cast<double>().normalized();
    for (size_t i = 0; i < s.X.size(); ++i) { double e = s.res(i, qq, p.cast<double>()).squaredNorm(); k += e < THRES; unclear += std::fabs(e - THRES) < 2e-2 * THRES; }
    return k;
}
static void ransac(Rng &r, Case &c) {
    int n = r.chance(0.8) ? r.range(8, 60) : r.range(60, 300); bool hard = r.chance(0.5);
    Pnp s = problem(r, n, r.chance(0.5) ? 0 : 1e-3, hard ? 0.15 : 0.05, 0.3, 0.3);
    int bad = 0; for (bool o : s.out) { bad += o; } if (bad > n / 4) { return; }
    uint64_t stream = r.next() | 1;
    PnPSolver solver; solver.ransacParam.inlierThres = Scalar(THRES); solver.ransacParam.maxIterateTimes = 100; solver.ransacParam.inlierRateThres = 1;
    std::vector<bool> in(size_t(r.range(0, r.chance(0.5) ? 3 : 400)), true); Quaternion q = s.gq; Vector3 p = s.gp; vf::randState = stream;
    bool ok = solver.EstimatePoseRANSAC(s.X, s.z, q, p, in);
    c.expect(ok && p.allFinite() && q.coeffs().allFinite(), "failure", "no result for " + std::to_string(n) + " points");
    c.expect(in.size() == s.X.size(), "flags", std::to_string(in.size()) + " flags for " + std::to_string(n) + " points");
    for (size_t i = 0; i < s.X.size(); ++i) {
        double e = s.res(i, q.cast<double>().normalized(), p.cast<double>()).squaredNorm();
        if (std::fabs(e - THRES) > 2e-2 * THRES) { c.expect(in[i] == (e < THRES), "flag-pose", "point " + std::to_string(i) + " is flagged " + (in[i] ? "inlier" : "outlier") + ", but its squared error at the returned pose is " + std::to_string(e)); c.count("flags checked"); }
    }
    // A bad first sample can mislead a run, so the truth is asked of five runs.
    int good = 0; std::vector<bool> truth; for (bool o : s.out) { truth.push_back(!o); }
    for (int k = 0; k < 5; ++k) { Quaternion qk = s.gq; Vector3 pk = s.gp; std::vector<bool> f; vf::randState = r.next() | 1; good += solver.EstimatePoseRANSAC(s.X, s.z, qk, pk, f) && f == truth; }
    c.expect(good > 0, "outliers", "none of five runs finds the " + std::to_string(bad) + " outliers of " + std::to_string(n) + " points");
    c.count("runs that find all outliers", good); c.count("runs that do not", 5 - good);
    // the plain form gives the same pose
    Quaternion q2 = s.gq; Vector3 p2 = s.gp; vf::randState = stream;
    c.expect(solver.EstimatePoseRANSAC(s.X, s.z, q2, p2) && q2.coeffs() == q.coeffs() && p2 == p, "forms", "the two forms of the call give different poses");
    c.count("outliers", bad); c.count("points", n); c.nontrivial(); c.hashd(s.p.x()); c.hashd(s.q.x()); c.hash(uint64_t(n));
    c.sample = std::to_string(bad) + " outliers in " + std::to_string(n) + " points, found in " + std::to_string(good) + " of 5 runs";
}
// More rounds never give a worse pose; many outliers and far first guesses, so that the rounds differ.
static void rounds(Rng &r, Case &c) {
    int n = r.range(4, 40); Pnp s = problem(r, n, r.pick(std::vector<double>{0, 1e-3, 1e-2}), r.uni(0.2, 0.7), 0.2, r.uni(0.3, 2));
    uint64_t stream = r.next() | 1; int last = -1, lastUnclear = 0, steps = 0, kept = 0; std::string path; Quaternion pq = s.gq; Vector3 pp = s.gp; uint64_t at = stream; int best = 0, bestUnclear = 0;
    for (uint32_t k = 1; k <= 12; ++k) {
        PnPSolver solver; solver.ransacParam.inlierThres = Scalar(THRES); solver.ransacParam.maxIterateTimes = k; solver.ransacParam.inlierRateThres = Scalar(0.9);
        Quaternion q = s.gq; Vector3 p = s.gp; vf::randState = stream;
        c.expect(solver.EstimatePoseRANSAC(s.X, s.z, q, p), "failure", "no result for " + std::to_string(n) + " points");
        int unclear, now = score(s, q, p, unclear); path += std::to_string(now) + " ";
        uint64_t now_at = vf::randState;
        if (now_at != at) {                                                // another round was made, from the best pose so far: what it gave
            PnPSolver one; one.ransacParam = solver.ransacParam; one.ransacParam.maxIterateTimes = 1; Quaternion hq = pq; Vector3 hp = pp; vf::randState = at; one.EstimatePoseRANSAC(s.X, s.z, hq, hp);
            int hu, h = score(s, hq, hp, hu); auto is = [&](const Quaternion &a, const Vector3 &b) { return a.cast<double>().normalized().angularDistance(q.cast<double>().normalized()) < 1e-5 && (b - p).norm() <= 1e-5f * (1 + b.norm()); };
            if (h > best + bestUnclear + hu) { c.expect(is(hq, hp), "best", "round " + std::to_string(k) + " has " + std::to_string(h) + " inliers, the best before " + std::to_string(best) + ", but its pose is not kept"); ++kept; }
            if (h + hu + bestUnclear < best) { c.expect(is(pq, pp), "best", "round " + std::to_string(k) + " has " + std::to_string(h) + " inliers, the best before " + std::to_string(best) + ", but the pose changes"); }
        }
        at = now_at; pq = q; pp = p; vf::randState = now_at;
        if (q.coeffs() == s.gq.coeffs() && p == s.gp) { continue; }        // no round has had any inlier yet
        best = now; bestUnclear = unclear;
        c.expect(now + unclear + lastUnclear >= last, "rounds", "inliers of the returned pose after 1, 2, ... rounds: " + path);
        steps += now > last && last >= 0; last = now; lastUnclear = unclear;
    }
    c.count("improvements over rounds", steps); c.count("better rounds", kept); if (steps) { c.nontrivial(); } c.hashd(s.p.x()); c.hashd(s.q.x()); c.sample = std::to_string(n) + " points, inliers by rounds: " + path;
}
static void tooFew(Rng &r, Case &c) {
    Pnp s = problem(r, r.range(0, 2), 0, 0, 0, 1); if (r.chance(0.3)) { s = problem(r, 6, 0, 0, 0, 1); s.z.resize(size_t(r.range(0, 5))); }
    PnPSolver solver; Quaternion q = s.gq; Vector3 p = s.gp; std::vector<bool> in;
    c.expect(!solver.EstimatePoseRANSAC(s.X, s.z, q, p) && !solver.EstimatePoseRANSAC(s.X, s.z, q, p, in), "too-few", "success with " + std::to_string(s.X.size()) + " points and " + std::to_string(s.z.size()) + " observations");
    c.expect(q.coeffs() == s.gq.coeffs() && p == s.gp, "pose-touched", "a refused call changes the pose");
    // three points are enough to end
    Pnp t = problem(r, 3, 0, 0, 0, 0.2); q = t.gq; p = t.gp; c.expect(solver.EstimatePoseRANSAC(t.X, t.z, q, p, in) && in.size() == 3, "three", "no result for three points");
    c.nontrivial(); c.hash(s.X.size() * 10 + s.z.size()); c.count("refusals");
}

int main(int argc, char **argv) {
    vf::Runner run; run.init(argc, argv);
    if (run.prop == "C14") {
        run.rule = "random views (2-24, all directions, up to 10 m from the origin) with exact, noisy and reversed observations, against a double precision solution; points up to 10 km from the origin, against the effect of rounding on the equations; no and one view, no baseline; distinct by point, number of views and kind";
        run.family("analytic", run.n(80000, 1000000), analytic); run.family("far", run.n(16000, 200000), farAway); run.family("few", run.n(3000, 20000), fewViews);
    } else if (run.prop == "C15") {
        run.rule = "2-16 views from near and far first guesses: reprojection error recomputed in double precision before and after, distance to the double precision minimum; distinct by point and number of views";
        run.family("iterative", run.n(80000, 1000000), iterative);
        run.ratio("wrong depths not overcome", "wrong depths overcome", 0.003, 200, "minimum-rate", "first guesses in the right direction at a wrong depth from which the point of least error is not found, per guess from which it is");
    } else if (run.prop == "C16") {
        run.rule = "6-60 points from perturbed first guesses against the double precision least squares pose; gross errors, plain against robust; wrong sizes; distinct by pose and number of points";
        run.family("pose", run.n(24000, 400000), pnp); run.family("gross", run.n(9000, 100000), gross); run.family("refusals", run.n(300, 5000), refusals);
        run.ratio("sum of log error ratios", "robust compared", -1, 50, "robust-gain", "with gross errors the robust estimate is not clearly better than the plain one: mean log ratio of the errors");
        run.ratio("robust worse", "robust compared", 0.05, 50, "robust", "the robust estimate is worse than the plain one in too many problems with gross errors");
    } else {
        run.rule = "outliers among 8-60 points: flags against the returned pose and against the truth; inliers of the returned pose over 1-12 rounds with the same random stream; fewer than three points; distinct by pose; rounds are non-trivial when more rounds improve the pose";
        run.family("ransac", run.n(2500, 20000), ransac); run.family("rounds", run.n(10000, 80000), rounds); run.family("few", run.n(300, 5000), tooFew);
        run.ratio("runs that do not", "runs that find all outliers", 0.05, 50, "outliers-rate", "runs that miss outliers per run that finds them");
    }
    return run.finish();
}
