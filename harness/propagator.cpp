// C08 C09 C10: the IMU sequence, against strapdown integration and first-order error propagation in
// double precision, and against the trajectory that made the samples.
#define VF_MAIN
#include "common.hpp"
#include "strapdown.hpp"
#include "sim.hpp"
using namespace ESKF_VIO_BACKEND;
using vf::Case; using vf::Rng; using vf::V3; using vf::Q4; using vf::Nom; using vf::ImuD;

static V3 vec(Rng &r, double s) { return V3(r.gauss(), r.gauss(), r.gauss()) * s; }
static Q4 randomQ(Rng &r) { return Q4(r.gauss(), r.gauss(), r.gauss(), r.gauss()).normalized(); }

struct Scene {
    FrameManager frames; PropagateQueue q;
    std::vector<ImuD> s; V3 ba, bg, g; Nom init; size_t cams = 0;
    double dtMax = 0, wMax = 0, aMax = 0;
    // Random samples of bounded rates and accelerations, regular or not, sometimes with a gap or a repeat.
    void random(Rng &r, int n, bool violent = false, bool outages = false) {
        cams = size_t(r.range(0, 4)); frames.extrinsics.resize(cams);
        q.propagator = &frames;
        g = V3(0, 0, r.uni(9.6, 10.0)); IMUFullState::SetGravityNorm(Scalar(g.z())); g = IMUFullState::gravity_w.cast<double>();
        ba = vec(r, r.chance(0.3) ? 0 : 0.3); bg = vec(r, r.chance(0.3) ? 0 : 0.1);
        q.bias_a = ba.cast<float>(); q.bias_g = bg.cast<float>(); ba = q.bias_a.cast<double>(); bg = q.bias_g.cast<double>();
        double hz = r.pick(std::vector<double>{100, 200, 250, 400, 1000}), w = violent ? r.uni(2, 25) : r.uni(0, 2), a = violent ? r.uni(8, 80) : r.uni(0, 8), t = r.chance(0.3) ? std::pow(10.0, r.uni(3, 6.5)) : r.uni(0, 1000);
        bool irregular = r.chance(0.4), outage = outages && r.chance(0.1); int out = r.range(1, std::max(1, n - 1)); if (outage) { w *= 0.05; a *= 0.2; }      // seconds without a sample
        double smooth = r.uni(0.5, 0.99);
        V3 gy = vec(r, w * 0.5), ac = vec(r, a * 0.5) + V3(0, 0, r.chance(0.5) ? 9.8 : 0);
        for (int k = 0; k < n; ++k) {
            if (k) { double dt = (irregular ? r.uni(0.1, 2) : 1) / hz; if (irregular && r.chance(0.02)) { dt = r.chance(0.15) ? r.uni(0.06, 0.8) : r.uni(0.02, 0.06); } if (irregular && r.chance(0.01)) { dt = std::pow(10.0, r.uni(-6, -3.5)); } if (outage && k == out) { dt = r.uni(0.8, 5); } t += dt; dtMax = std::max(dtMax, dt); }
            gy = gy * smooth + vec(r, w * 0.5) * std::sqrt(1 - smooth * smooth); ac = (ac - V3(0, 0, 9.8)) * smooth + V3(0, 0, 9.8) + vec(r, a * 0.5) * std::sqrt(1 - smooth * smooth);
            ImuD m; m.t = t; m.gyro = gy.cast<float>().cast<double>() + V3::Zero(); m.accel = ac.cast<float>().cast<double>();
            s.push_back(m); wMax = std::max(wMax, (gy - bg).norm()); aMax = std::max(aMax, (ac - ba).norm());
        }
        init.p = vec(r, r.pick(std::vector<double>{0, 1, 20})); init.v = vec(r, r.pick(std::vector<double>{0, 1, 5})); init.q = randomQ(r);
        q.initState = IMUMotionState(init.p.cast<float>(), init.v.cast<float>(), init.q.cast<float>());
        init.p = q.initState.p_wb.cast<double>(); init.v = q.initState.v_wb.cast<double>(); init.q = q.initState.q_wb.cast<double>();
    }
    bool feed(size_t k) { return q.Propagate(s[k].accel.cast<float>(), s[k].gyro.cast<float>(), s[k].t); }
};

// The whole sequence against the reference started at its first item.
static void compareNominal(const PropagateQueue &q, const V3 &g, Case &c, const char *when) {
    Nom x; vf::Bounds b;
    for (size_t i = 0; i < q.items.size(); ++i) {
        auto &it = *q.items[i];
        ImuD m{it.timeStamp, it.gyro.cast<double>(), it.accel.cast<double>()};
        if (i == 0) { x.p = it.nominalState.p_wb.cast<double>(); x.v = it.nominalState.v_wb.cast<double>(); x.q = it.nominalState.q_wb.cast<double>(); }
        else {
            auto &pr = *q.items[i - 1];
            ImuD l{pr.timeStamp, pr.gyro.cast<double>(), pr.accel.cast<double>()};
            vf::strapdown(x, l, m, q.bias_a.cast<double>(), q.bias_g.cast<double>(), g, &b);
        }
        Nom got{it.nominalState.p_wb.cast<double>(), it.nominalState.v_wb.cast<double>(), it.nominalState.q_wb.cast<double>()};
        double ep = (got.p - x.p).norm(), ev = (got.v - x.v).norm(), eq = vf::angle(got.q, x.q);
        c.peak("position error / bound", ep / b.p); c.peak("velocity error / bound", ev / b.v); c.peak("attitude error / bound", eq / b.q);
        std::ostringstream w; w << when << ", item " << i << " of " << q.items.size() << ": ";
        c.near(ep, 0, b.p, "position", w.str() + "position off the integrated samples");
        c.near(ev, 0, b.v, "velocity", w.str() + "velocity off the integrated samples");
        c.near(eq, 0, b.q, "attitude", w.str() + "attitude off the integrated samples");
        c.near(it.nominalState.q_wb.norm(), 1, 2e-6, "not-unit", w.str() + "norm of the attitude");
    }
    c.count("items compared", double(q.items.size()));
}

static void nominal(Rng &r, Case &c) {
    Scene sc; bool violent = r.chance(0.2); if (violent) { c.count("violent motions"); } sc.random(r, r.range(2, 400), violent, true); if (sc.dtMax > 0.8) { c.count("runs with an outage of a second or more"); }
    for (size_t k = 0; k < sc.s.size(); ++k) {
        c.expect(sc.feed(k), "refused", "a sample refused");
        c.expect(sc.q.items.size() == k + 1, "lost-item", "the sequence does not grow by one item per sample");
        auto &b = *sc.q.items.back();
        c.expect(b.timeStamp == sc.s[k].t && b.accel == sc.s[k].accel.cast<float>() && b.gyro == sc.s[k].gyro.cast<float>(), "sample", "an item keeps another sample than it was given");
        if (k == 0) {
            c.expect(b.nominalState.p_wb.cast<double>() == sc.init.p && b.nominalState.v_wb.cast<double>() == sc.init.v && b.nominalState.q_wb.coeffs().cast<double>() == sc.init.q.coeffs(), "origin", "the sequence does not start at its initial state");
            c.expect(b.imuCov.isZero() && b.imuExCamCov.isZero() && b.imuExCamCov.cols() == long(sc.cams * 6 + 6) && sc.q.exCamCov.isZero() && sc.q.exCamCov.rows() == long(sc.cams * 6 + 6), "origin", "the sequence does not start with the covariance of a known state");
        }
    }
    c.expect(sc.q.bias_a.cast<double>() == sc.ba && sc.q.bias_g.cast<double>() == sc.bg, "bias", "propagation changed the biases");
    compareNominal(sc.q, sc.g, c, "after propagation");
    c.nontrivial(); c.hashd(sc.s.back().t); c.hashd(sc.wMax); c.count("samples", double(sc.s.size()));
    std::ostringstream m; m << sc.s.size() << " samples, up to " << sc.wMax << " rad/s, " << sc.aMax << " m/s2, longest period " << sc.dtMax; c.sample = m.str();
}

// A real motion: the integral converges to it with the square of the period.
static void motion(Rng &r, Case &c) {
    vf::Sim s; s.random(r); s.duration = r.uni(3, 8); s.imuHz = r.pick(std::vector<double>{100, 200, 400});
    s.pts.clear(); s.ba = vec(r, 0.2); s.bg = vec(r, 0.05); s.generate(r);
    IMUFullState::SetGravityNorm(Scalar(s.tr.g));
    FrameManager f; PropagateQueue q; q.propagator = &f; q.bias_a = s.ba.cast<float>(); q.bias_g = s.bg.cast<float>();
    size_t k0 = size_t(r.range(0, int(s.imu.size()) / 2));
    auto x0 = s.tr.at(s.imu[k0].t);
    q.initState = IMUMotionState(x0.p.cast<float>(), x0.v.cast<float>(), x0.q.cast<float>());
    for (size_t k = k0; k < s.imu.size(); ++k) { q.Propagate(s.imu[k].accel.cast<float>(), s.imu[k].gyro.cast<float>(), s.imu[k].t); }
    auto x1 = s.tr.at(s.imu.back().t); double T = s.imu.back().t - s.imu[k0].t, h = 1 / s.imuHz;
    auto &b = q.items.back()->nominalState;
    double eq = vf::angle(b.q_wb.cast<double>(), x1.q), ev = (b.v_wb.cast<double>() - x1.v).norm(), ep = (b.p_wb.cast<double>() - x1.p).norm();
    double lq = (4e-6 + 2 * h * h) * (1 + T), lv = 9.8 * lq * T * 0.5 + 1e-4 + 4 * h * h * T, lp = lv * T * 0.5 + 1e-4 + 4 * h * h * T;
    c.peak("attitude error / bound", eq / lq); c.peak("velocity error / bound", ev / lv); c.peak("position error / bound", ep / lp);
    std::ostringstream w; w << "after " << T << " s at " << s.imuHz << " Hz: ";
    c.near(eq, 0, lq, "motion-attitude", w.str() + "attitude off the true motion"); c.near(ev, 0, lv, "motion-velocity", w.str() + "velocity off the true motion");
    c.near(ep, 0, lp, "motion-position", w.str() + "position off the true motion");
    c.count("seconds of motion", T); c.nontrivial(); c.hashd(T); c.hashd(x1.p.x()); c.sample = w.str() + "errors " + std::to_string(ep) + " m, " + std::to_string(eq) + " rad";
}

using Eigen::MatrixXd;
static MatrixXd randomCov(Rng &r, int n) {
    MatrixXd A(n, n); for (int i = 0; i < n; ++i) { for (int j = 0; j < n; ++j) { A(i, j) = r.gauss(); } }
    Eigen::VectorXd d(n); for (int i = 0; i < n; ++i) { d[i] = std::pow(10.0, r.uni(-2.5, -0.5)); }
    return (d.asDiagonal() * (A * A.transpose() / n) * d.asDiagonal()).eval();
}

static void covariance(Rng &r, Case &c) {
    Scene sc; sc.random(r, r.range(2, 120));
    V3 na, x; double noise[4];
    for (double &v : noise) { v = r.chance(0.15) ? 0 : std::pow(10.0, r.uni(-5, 0)); v = double(float(v)); }
    sc.q.InitializeProcessNoiseMatrix(float(noise[0]), float(noise[1]), float(noise[2]), float(noise[3]));
    sc.feed(0);
    int ex = int(sc.cams) * 6 + 6 * (r.chance(0.1) ? r.range(7, 24) : r.range(1, 6));
    MatrixXd P = (randomCov(r, 15 + ex) * (r.chance(0.15) ? std::pow(10.0, r.uni(-7, -3)) : 1)).cast<float>().cast<double>();      // also states known to a few micrometres
    if (r.chance(0.2)) { P.setZero(); }
    auto &f = *sc.q.items.front();
    f.imuCov = P.topLeftCorner(15, 15).cast<float>(); f.imuExCamCov = P.topRightCorner(15, ex).cast<float>(); sc.q.exCamCov = P.bottomRightCorner(ex, ex).cast<float>();
    Matrix exCam = sc.q.exCamCov;
    MatrixXd A = P.topLeftCorner(15, 15), B = P.topRightCorner(15, ex);
    bool again = r.chance(0.5);
    for (size_t k = 1; k < sc.s.size(); ++k) { sc.feed(k); }
    if (again) {                                    // the same after a correction of the origin, from there on
        f.nominalState.q_wb = (f.nominalState.q_wb * Quaternion(1, 0.02f, -0.01f, 0.03f)).normalized(); sc.q.bias_a += Vector3(0.1f, -0.1f, 0.05f); sc.q.bias_g += Vector3(0.01f, 0.02f, -0.01f);
        f.imuCov *= 0.5f; f.imuExCamCov *= -0.5f; A *= 0.5; B *= -0.5;
        c.expect(sc.q.Repropagate(), "repropagate", "repropagation fails"); c.count("repropagations");
    }
    MatrixXd Q = MatrixXd::Zero(12, 12); for (int i = 0; i < 12; ++i) { Q(i, i) = noise[i / 3]; }
    double worst = 0;
    for (size_t k = 1; k < sc.q.items.size(); ++k) {
        auto &i0 = *sc.q.items[k - 1]; auto &i1 = *sc.q.items[k];
        double dt = i1.timeStamp - i0.timeStamp;
        Eigen::Matrix3d R = i0.nominalState.q_wb.cast<double>().normalized().toRotationMatrix();
        V3 ma = 0.5 * (i0.accel + i1.accel).cast<double>() - sc.q.bias_a.cast<double>(), mg = 0.5 * (i0.gyro + i1.gyro).cast<double>() - sc.q.bias_g.cast<double>();
        MatrixXd F = vf::transition(R, ma, mg, dt), G = vf::noiseInput(R, dt);
        A = F * A * F.transpose() + G * Q * G.transpose(); B = F * B;
        // rounding scales with the standard deviations
        for (int i = 0; i < 15; ++i) {
            for (int j = 0; j < 15; ++j) {
                double sc_ij = std::sqrt(A(i, i) * A(j, j)), tol = (2e-6 * double(k) + 2e-5) * (sc_ij + 1e-12);
                double e = std::fabs(double(i1.imuCov(i, j)) - A(i, j)); worst = std::max(worst, e / tol);
                if (!(e <= tol)) { std::ostringstream m; m << "covariance of IMU states " << i << "," << j << " after " << k << " samples is " << i1.imuCov(i, j) << ", expected " << A(i, j) << ", dt " << dt; c.fail("imu-covariance", m.str()); }
            }
        }
        c.expect(i1.imuExCamCov.cols() == ex, "dimension", "the covariance between IMU and cameras changes its size");
        for (int i = 0; i < 15; ++i) {
            for (int j = 0; j < ex; ++j) {
                double tol = (2e-6 * double(k) + 2e-5) * (std::sqrt(A(i, i)) * std::sqrt(std::max(1e-12, P(15 + j, 15 + j))) + 1e-12) * 2;
                double e = std::fabs(double(i1.imuExCamCov(i, j)) - B(i, j)); worst = std::max(worst, e / tol);
                if (!(e <= tol)) { std::ostringstream m; m << "covariance of IMU state " << i << " and camera state " << j << " after " << k << " samples is " << i1.imuExCamCov(i, j) << ", expected " << B(i, j); c.fail("cross-covariance", m.str()); }
            }
        }
        c.count("steps compared");
    }
    c.peak("covariance error / bound", worst);
    c.expect(sc.q.exCamCov == exCam, "camera-covariance", "propagation changed the covariance of the camera states");
    c.nontrivial(); c.hashd(P(0, 0)); c.hash(sc.s.size()); c.hashd(noise[0]);
    std::ostringstream m; m << sc.s.size() << " samples, " << ex << " camera states, noise " << noise[0] << " " << noise[1] << " " << noise[2] << " " << noise[3]; c.sample = m.str();
}

// The transition is the derivative of what propagation does to the state: perturb the start, measure the end.
static void derivative(Rng &r, Case &c) {
    Scene base; base.random(r, 2); base.s[1].t = base.s[0].t + 0.005; base.init.p.setZero(); base.init.v = vec(r, 0.3);
    auto run = [&](const Eigen::Matrix<double, 15, 1> &d) {
        PropagateQueue q; q.propagator = &base.frames;
        Q4 q0 = base.init.q * vf::expq(d.segment<3>(6));
        q.initState = IMUMotionState((base.init.p + d.segment<3>(0)).cast<float>(), (base.init.v + d.segment<3>(3)).cast<float>(), q0.cast<float>().normalized());
        q.bias_a = (base.ba + d.segment<3>(9)).cast<float>(); q.bias_g = (base.bg + d.segment<3>(12)).cast<float>();
        for (auto &m : base.s) { q.Propagate(m.accel.cast<float>(), m.gyro.cast<float>(), m.t); }
        auto &n = q.items.back()->nominalState;
        return Nom{n.p_wb.cast<double>(), n.v_wb.cast<double>(), n.q_wb.cast<double>()};
    };
    // what the covariance says: a unit cross covariance carries the transition
    PropagateQueue q; q.propagator = &base.frames; q.bias_a = base.ba.cast<float>(); q.bias_g = base.bg.cast<float>();
    q.initState = IMUMotionState(base.init.p.cast<float>(), base.init.v.cast<float>(), base.init.q.cast<float>());
    q.Propagate(base.s[0].accel.cast<float>(), base.s[0].gyro.cast<float>(), base.s[0].t);
    q.items.front()->imuExCamCov = Matrix::Identity(15, 15);
    q.Propagate(base.s[1].accel.cast<float>(), base.s[1].gyro.cast<float>(), base.s[1].t);
    MatrixXd F = q.items.back()->imuExCamCov.cast<double>();
    double dt = 0.005;
    for (int j = 0; j < 15; ++j) {
        double h = 0.05; Eigen::Matrix<double, 15, 1> d = Eigen::Matrix<double, 15, 1>::Zero(); d[j] = h;
        Nom a = run(d), b = run(-d);
        Eigen::Matrix<double, 15, 1> J = Eigen::Matrix<double, 15, 1>::Zero();
        J.segment<3>(0) = (a.p - b.p) / (2 * h); J.segment<3>(3) = (a.v - b.v) / (2 * h); J.segment<3>(6) = vf::logq(b.q.conjugate() * a.q) / (2 * h);
        if (j >= 9) { J[j] = 1; }
        for (int i = 0; i < 15; ++i) {
            // first order in the period; the attitude perturbation has its own third order
            double tol = 2e-4 + dt * dt * (base.aMax + 10) * (1 + base.wMax) + (j >= 6 && j < 9 ? 1e-3 * (1 + base.aMax * dt) : 0) + std::pow((base.wMax + 1) * dt, 2) * 1.5;
            std::ostringstream m; m << "effect of state " << j << " on state " << i << " over one period";
            c.near(F(i, j), J[i], tol, "transition", m.str()); c.peak("transition error / bound", std::fabs(F(i, j) - J[i]) / tol);
        }
    }
    c.count("derivatives measured", 225); c.nontrivial(); c.hashd(base.wMax); c.hashd(base.aMax); c.sample = "transition over one period at " + std::to_string(base.wMax) + " rad/s";
}

// C10
static void origin(Rng &r, Case &c) {
    Scene sc; 
    c.expect(!sc.q.ResetOrigin(0, 0.01), "reset-empty", "an empty sequence moved its origin");
    sc.random(r, r.range(1, 100));
    sc.q.InitializeProcessNoiseMatrix(0.02f, 0.01f, 1e-3f, 1e-4f);
    for (size_t k = 0; k < sc.s.size(); ++k) { sc.feed(k); }
    int rounds = r.range(1, 5);
    for (int n = 0; n < rounds && !sc.q.items.empty(); ++n) {
        auto before = sc.q.items;                   // shared items; copies tell whether they changed
        std::vector<IMUPropagateQueueItem> copy; for (auto &i : before) { copy.push_back(*i); }
        double period = sc.dtMax > 0 ? sc.dtMax : 0.01, thr = r.uni(0.5, 1.5) * period;
        double t0 = before.front()->timeStamp, t1 = before.back()->timeStamp, at;
        switch (r.range(0, 4)) { case 0: at = before[size_t(r.range(0, int(before.size()) - 1))]->timeStamp; break; case 1: at = t1 + r.uni(0, 3) * period; break; default: at = r.uni(t0, t1 + 1e-6); }
        size_t best = 0; double d1 = 1e300, d2 = 1e300;
        for (size_t i = 0; i < before.size(); ++i) { double d = std::fabs(before[i]->timeStamp - at); if (d < d1) { d2 = d1; d1 = d; best = i; } else { d2 = std::min(d2, d); } }
        if (d2 - d1 < 1e-9 || std::fabs(std::fabs(at - t1) - thr) < 1e-9 || (at < t1 && d1 > thr)) { c.count("ties skipped"); continue; }
        bool want = at - t1 <= thr;
        std::ostringstream m; m.precision(12); m << "origin moved to " << at << " in a sequence from " << t0 << " to " << t1 << ", threshold " << thr << ": ";
        c.trace << m.str() << "\n";
        bool ok = sc.q.ResetOrigin(at, thr);
        c.expect(ok == want, "reset", m.str() + (ok ? "accepted" : "refused"));
        if (!ok) { c.count("frames after the last sample"); c.hashd(at); c.nontrivial(); return; }
        c.expect(sc.q.items.size() == before.size() - best, "reset-nearest", m.str() + "starts at item " + std::to_string(before.size() - sc.q.items.size()) + ", the nearest is " + std::to_string(best));
        for (size_t i = best; i < before.size(); ++i) {
            auto &x = *sc.q.items[i - best]; auto &y = copy[i];
            c.expect(x.timeStamp == y.timeStamp && x.accel == y.accel && x.gyro == y.gyro && x.nominalState.p_wb == y.nominalState.p_wb && x.nominalState.v_wb == y.nominalState.v_wb &&
                     x.nominalState.q_wb.coeffs() == y.nominalState.q_wb.coeffs() && x.imuCov == y.imuCov && x.imuExCamCov == y.imuExCamCov, "reset-kept", m.str() + "a kept item changed");
        }
        // a correction at the origin reaches everything after it
        auto &f = *sc.q.items.front();
        f.nominalState.p_wb += vec(r, 0.3).cast<float>(); f.nominalState.v_wb += vec(r, 0.3).cast<float>();
        f.nominalState.q_wb = (f.nominalState.q_wb * Quaternion(1, float(r.uni(-0.1, 0.1)), float(r.uni(-0.1, 0.1)), float(r.uni(-0.1, 0.1)))).normalized();
        sc.q.bias_a += vec(r, 0.05).cast<float>(); sc.q.bias_g += vec(r, 0.02).cast<float>();
        int ex = int(sc.cams) * 6 + 6 * r.range(1, 5); f.imuExCamCov = Matrix::Random(15, ex) * 0.01f; sc.q.exCamCov = Matrix::Identity(ex, ex);
        IMUPropagateQueueItem fc = f; std::vector<IMUPropagateQueueItem> kept; for (auto &i : sc.q.items) { kept.push_back(*i); }
        Vector3 ba = sc.q.bias_a, bg = sc.q.bias_g;
        c.expect(sc.q.Repropagate(), "repropagate", "repropagation fails");
        c.expect(sc.q.items.size() == kept.size() && sc.q.bias_a == ba && sc.q.bias_g == bg, "repropagate", "repropagation changed the samples or the biases");
        c.expect(f.nominalState.p_wb == fc.nominalState.p_wb && f.nominalState.v_wb == fc.nominalState.v_wb && f.nominalState.q_wb.coeffs() == fc.nominalState.q_wb.coeffs() && f.imuCov == fc.imuCov && f.imuExCamCov == fc.imuExCamCov, "repropagate-origin", "repropagation changed its origin");
        for (size_t i = 0; i < kept.size(); ++i) {
            auto &x = *sc.q.items[i];
            c.expect(x.timeStamp == kept[i].timeStamp && x.accel == kept[i].accel && x.gyro == kept[i].gyro, "repropagate-samples", "repropagation changed a sample");
            c.expect(x.imuExCamCov.cols() == ex, "dimension", "repropagation leaves covariances of another size");
        }
        compareNominal(sc.q, sc.g, c, "after repropagation");
        // the same as feeding the samples to a sequence that starts there
        PropagateQueue fresh; fresh.propagator = &sc.frames; fresh.Q = sc.q.Q; fresh.bias_a = ba; fresh.bias_g = bg; fresh.initState = fc.nominalState;
        fresh.Propagate(fc.accel, fc.gyro, fc.timeStamp); fresh.items.front()->imuCov = fc.imuCov; fresh.items.front()->imuExCamCov = fc.imuExCamCov;
        for (size_t i = 1; i < kept.size(); ++i) { fresh.Propagate(kept[i].accel, kept[i].gyro, kept[i].timeStamp); }
        for (size_t i = 0; i < kept.size(); ++i) {
            auto &x = *sc.q.items[i]; auto &y = *fresh.items[i];
            double e = std::max({double((x.nominalState.p_wb - y.nominalState.p_wb).norm() / (1 + y.nominalState.p_wb.norm())), double((x.nominalState.v_wb - y.nominalState.v_wb).norm() / (1 + y.nominalState.v_wb.norm())),
                                 double((x.imuCov - y.imuCov).norm() / (1e-6 + y.imuCov.norm())), double((x.imuExCamCov - y.imuExCamCov).norm() / (1e-6 + y.imuExCamCov.norm()))});
            c.near(e, 0, 1e-5, "repropagate-fresh", "a repropagated item differs from a freshly propagated one");
        }
        c.count("origins moved"); c.count("items dropped", double(best)); c.hash(best); c.hashd(at);
        c.nontrivial();
        if (r.chance(0.5)) {                        // further samples arrive
            double t = sc.s.back().t; size_t from = sc.s.size();
            for (int k = r.range(1, 20); k > 0; --k) { ImuD m = sc.s[size_t(r.range(0, int(from) - 1))]; m.t = (t += r.uni(0.2, 1) * period); sc.s.push_back(m); sc.feed(sc.s.size() - 1); }
            compareNominal(sc.q, sc.g, c, "after further samples");
        }
        if (n == 0) { c.sample = m.str() + "item " + std::to_string(best); }
    }
}

int main(int argc, char **argv) {
    vf::Runner run; run.init(argc, argv);
    if (run.prop == "C08") {
        run.rule = "nominal: random sample sequences (0-4 cameras, biases, irregular periods, gaps) against strapdown integration in double precision after every sample; motion: analytic motions at 100-400 Hz; distinct by time and rates";
        run.family("nominal", run.n(2800, 25000), nominal);
        run.family("motion", run.n(600, 5000), motion);
    } else if (run.prop == "C09") {
        run.rule = "covariance: random prior covariances of IMU and camera states, noises and samples against F P F' + G Q G' in double precision after every sample; derivative: the transition against the measured derivative of propagation; distinct by covariance, noise and rates";
        run.family("covariance", run.n(2800, 12000), covariance);
        run.family("derivative", run.n(3200, 12000), derivative);
    } else {
        run.rule = "random sequences whose origin moves to random frame times (on samples, between them, past the last), is corrected and repropagated, with further samples in between; distinct by times and dropped items";
        run.family("origin", run.n(5600, 25000), origin);
    }
    return run.finish();
}
