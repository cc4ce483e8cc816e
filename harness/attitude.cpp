// C06 C07: the attitude solver that gives the backend its first attitude, against the attitude that
// made the samples, and its queue, against a record of what it was given.
#define VF_MAIN
#include "common.hpp"
#include "sim.hpp"
#include <attitude_estimate.hpp>
#include <imu_state.hpp>
using namespace ESKF_VIO_BACKEND;
using vf::Case; using vf::Rng; using vf::V3; using vf::Q4;

static V3 randomUnit(Rng &r) { V3 v; do { v = V3(r.gauss(), r.gauss(), r.gauss()); } while (v.norm() < 1e-3); return v.normalized(); }
static Q4 randomQ(Rng &r) { return Q4(r.gauss(), r.gauss(), r.gauss(), r.gauss()).normalized(); }
static void healthy(const AttitudeEstimate &a, Case &c) {
    for (auto &i : a.items) {
        c.expect(i != nullptr, "null-item", "the queue holds a null item");
        c.expect(i->q_wb.coeffs().allFinite(), "not-finite", "attitude is not finite");
        c.near(i->q_wb.norm(), 1, 2e-6, "not-unit", "norm of the attitude quaternion");
    }
}
static double tilt(const Quaternion &q, const Q4 &truth) {           // angle between the two estimates of "up" in the body
    V3 a = q.cast<double>().conjugate() * V3::UnitZ(), b = truth.conjugate() * V3::UnitZ();
    return std::atan2(a.cross(b).norm(), a.dot(b));
}

// The first sample: gravity within the tolerance starts the solver, with the measured direction up.
static void start(Rng &r, Case &c) {
    double g = r.uni(9.5, 10.1); IMUFullState::SetGravityNorm(Scalar(g));
    AttitudeEstimate a;
    V3 ba = randomUnit(r) * (r.chance(0.4) ? 0.0 : r.uni(0, 0.6)), bg = randomUnit(r) * r.uni(0, 0.05);
    a.SetBias(ba.cast<float>(), bg.cast<float>());
    V3 up;
    switch (r.range(0, 5)) {
        case 0: up = randomUnit(r); break;
        case 1: up = V3::UnitZ(); break;
        case 2: up = -V3::UnitZ(); break;
        case 3: up = (-V3::UnitZ() + randomUnit(r) * std::pow(10.0, r.uni(-6, -1))).normalized(); break;
        case 4: up = V3::Zero(); up[r.range(0, 2)] = r.chance(0.5) ? 1 : -1; break;
        default: up = (V3::UnitZ() + randomUnit(r) * std::pow(10.0, r.uni(-6, -1))).normalized();
    }
    double off = r.chance(0.5) ? r.uni(-0.035, 0.035) : (r.chance(0.5) ? 1 : -1) * (r.chance(0.5) ? r.uni(0.045, 0.2) : r.uni(0.2, 9));
    V3 acc = up * (g + off) + ba;
    bool want = std::fabs(off) < 0.04;
    double t = r.uni(-5, 1000);
    bool got = a.Propagate(acc.cast<float>(), randomUnit(r).cast<float>(), t);
    std::ostringstream m; m << "first sample with norm off by " << off << ", up " << up.transpose() << ", bias " << ba.transpose();
    c.trace << m.str() << "\n";
    c.expect(got == want, "start", m.str() + (want ? ": refused" : ": accepted"));
    c.expect(a.items.size() == (want ? 1u : 0u), "start", m.str() + ": wrong number of items");
    if (want) {
        healthy(a, c);
        V3 u = a.items.front()->q_wb.cast<double>() * up;
        double e = std::atan2(u.cross(V3::UnitZ()).norm(), u.z());
        c.peak("tilt of the first attitude (rad)", e);
        double limit = 1 + up.z() < 3e-5 ? 1.5e-2 : 2e-3;      // upside down to within half a degree, single precision loses the axis
        c.expect(e < limit, "start-tilt", m.str() + ": the attitude is tilted by " + std::to_string(e) + " rad");
        c.expect(a.items.front()->timeStamp == t, "stamp", "item has another time stamp than its sample");
        Quaternion q; c.expect(a.GetAttitude(t, 1e-3, q) && q.coeffs() == a.items.front()->q_wb.coeffs(), "query", "the first attitude cannot be queried");
        c.count("solver started");
    } else { Quaternion q; c.expect(!a.GetAttitude(t, 1e-3, q), "query", "an attitude before the start"); c.count("start refused"); }
    c.nontrivial(); c.hashd(off); c.hashd(up.x()); c.hashd(ba.x()); c.sample = m.str();
}

// Turning without accelerating: the attitude follows the turn, up to the heading it started with.
static void track(Rng &r, Case &c) {
    double g = r.uni(9.6, 10.0); IMUFullState::SetGravityNorm(Scalar(g));
    AttitudeEstimate a;
    V3 ba = randomUnit(r) * r.uni(0, 0.5), bg = randomUnit(r) * r.uni(0, 0.3);
    if (r.chance(0.3)) { ba.setZero(); } if (r.chance(0.3)) { bg.setZero(); }
    a.SetBias(ba.cast<float>(), bg.cast<float>());
    // piecewise constant turn, so the truth is exact; samples on both sides of a change see both rates
    Q4 q = randomQ(r); double t = r.chance(0.3) ? std::pow(10.0, r.uni(3, 6.5)) : r.uni(0, 100), hz = r.pick(std::vector<double>{100, 200, 250, 400});
    bool slow = r.chance(0.15); int n = slow ? r.range(1000, 5000) : r.range(50, 1500); double wMax = slow ? std::pow(10.0, r.uni(-4, -1)) : r.uni(0.1, 3.0); if (slow) { c.count("slow turns"); }
    bool irregular = r.chance(0.4), inclReject = r.chance(0.5), zeros = r.chance(0.3), gaps = r.chance(0.4);
    V3 w = randomUnit(r) * r.uni(0, wMax), dw(0, 0, 0);
    Q4 align = Q4::Identity(); double bound = 2e-3; V3 wPrev = w; double turned = 0, lag = 0;
    for (int k = 0; k < n; ++k) {
        double dt = k ? (irregular ? r.uni(0.2, 2.0) : 1.0) / hz : 0;
        if (k % 20 == 0) { dw = randomUnit(r) * r.uni(0, wMax) * 0.05; if ((w + dw * 20).norm() > wMax) { dw = -w * 0.05; } }
        if (k) { w += dw; }
        // samples lost for up to a second, as far as one step can follow the turn
        if (k && gaps && r.chance(0.03)) { dt = std::min(r.uni(0.05, 1.0), 0.25 / std::max(1e-3, std::max(w.norm(), wPrev.norm()))); c.count("gaps"); c.peak("longest gap (s)", dt); }
        V3 mid = 0.5 * (w + wPrev) * dt;
        if (mid.norm() > 1e-14) { q = (q * Q4(Eigen::AngleAxisd(mid.norm(), mid.normalized()))).normalized(); }
        bound += std::pow(mid.norm(), 3) / 8 + 4e-7; turned += mid.norm();
        // the accelerometer is compared with the attitude one sample earlier, a lag its integral collects
        lag += 1e-4 * mid.norm(); bound += (lag + 1e-3 * mid.norm()) * dt;
        t += dt;
        V3 acc = q.conjugate() * V3(0, 0, g);
        bool zero = zeros && k > 5 && r.chance(0.01);
        V3 meas = zero ? V3(0, 0, 0) : acc;
        bool ok = a.Propagate((meas + ba).cast<float>(), (w + bg).cast<float>(), t);
        c.expect(ok, "refused", "a sample in time order refused");
        c.expect(int(a.items.size()) == k + 1, "lost-item", "the queue does not grow by one item per sample");
        if (zero) { c.count("zero accelerometer samples"); }
        auto &back = *a.items.back();
        c.expect(back.timeStamp == t, "stamp", "item has another time stamp than its sample");
        c.expect((back.accel - (meas + ba).cast<float>()).norm() < 1e-6 && (back.gyro - (w + bg).cast<float>()).norm() < 1e-6, "raw", "the queue does not keep the sample as measured");
        c.expect(back.q_wb.coeffs().allFinite(), "not-finite", "attitude is not finite after " + std::to_string(k) + " samples");
        c.near(back.q_wb.norm(), 1, 2e-6, "not-unit", "norm of the attitude quaternion");
        if (k == 0) { align = back.q_wb.cast<double>() * q.conjugate(); }
        Q4 e = (align * q).conjugate() * back.q_wb.cast<double>();
        double err = 2 * std::atan2(e.vec().norm(), std::fabs(e.w()));
        c.peak("attitude error / bound", err / bound); c.peak("attitude error (rad)", err);
        if (err > bound) { std::ostringstream m; m << "after " << k << " samples and " << turned << " rad of turning the attitude is off by " << err << " rad, bias " << bg.transpose(); c.fail("track", m.str()); }
        if (inclReject && r.chance(0.05)) {
            size_t had = a.items.size(); auto before = a.items.back();
            Eigen::Vector4f was = before->q_wb.coeffs(); V3 integral = a.errInt.cast<double>();
            c.expect(!a.Propagate(randomUnit(r).cast<float>() * float(g), randomUnit(r).cast<float>(), t - r.uni(1e-4, 1)), "out-of-order", "a sample from the past accepted");
            c.expect(a.items.size() == had && a.items.back() == before && before->q_wb.coeffs() == was && a.errInt.cast<double>() == integral, "out-of-order", "a refused sample changed the solver");
            c.count("samples from the past");
        }
        wPrev = w;
    }
    healthy(a, c);
    c.count("samples", n); c.nontrivial(); c.hashd(turned); c.hashd(t);
    std::ostringstream m; m << n << " samples, " << turned << " rad turned at up to " << wMax << " rad/s, gyroscope bias " << bg.norm(); c.sample = m.str();
}

// The accelerometer keeps an unknown gyroscope bias from tilting the attitude without bound.
static void correct(Rng &r, Case &c) {
    IMUFullState::SetGravityNorm(9.8f);
    AttitudeEstimate a; double hz = 200, g = 9.8;
    Q4 q = randomQ(r);
    V3 up = q.conjugate() * V3::UnitZ(), ax = up.cross(randomUnit(r)).normalized();
    double rate = r.uni(0.002, 0.02); V3 bias = ax * rate;                // unknown to the solver, horizontal
    double worst = 0, T = 60;
    for (int k = 0; k <= T * hz; ++k) {
        a.Propagate((up * g).cast<float>(), bias.cast<float>(), k / hz);
        worst = std::max(worst, tilt(a.items.back()->q_wb, q));
        if (k % 100 == 0) { a.CleanOldItems(k / hz, 0.1f); }
    }
    std::ostringstream m; m << "unknown gyroscope bias of " << rate << " rad/s for " << T << " s: tilt up to " << worst << " rad, without correction " << rate * T;
    c.peak("tilt with correction / without", worst / (rate * T));
    c.expect(worst < 0.3 * rate * T, "drift", m.str());
    healthy(a, c);
    c.nontrivial(); c.hashd(rate); c.hashd(up.x()); c.sample = m.str(); c.count("samples", T * hz);
}

// C07
static void query(Rng &r, Case &c) {
    IMUFullState::SetGravityNorm(9.8f);
    AttitudeEstimate a;
    struct Rec { double t; Eigen::Vector4f q; Vector3 acc, gyr; };
    std::deque<Rec> rec;
    double t = r.chance(0.2) ? std::pow(10.0, r.uni(3, 6.5)) : r.uni(0, 50), period = r.pick(std::vector<double>{0.0025, 0.005, 0.01});
    int steps = r.range(5, 120);
    int fill = r.chance(0.01) ? int(std::pow(10.0, r.uni(2.5, 3.6))) : 0;         // a history that was never trimmed
    auto same = [&](const char *when) {
        c.expect(a.items.size() == rec.size(), "items", std::string(when) + ": queue holds " + std::to_string(a.items.size()) + " items, expected " + std::to_string(rec.size()));
        for (size_t i = 0; i < rec.size(); ++i) {
            auto &x = *a.items[i];
            c.expect(x.timeStamp == rec[i].t && x.q_wb.coeffs() == rec[i].q && x.accel == rec[i].acc && x.gyro == rec[i].gyr, "items", std::string(when) + ": an item of the queue changed");
        }
    };
    Quaternion q;
    c.expect(!a.GetAttitude(t, 1.0, q), "query-empty", "an attitude from an empty queue");
    c.expect(a.CleanOldItems(t, 0.1f) && a.items.empty(), "trim-empty", "trimming an empty queue");
    for (int s = 0; s < steps; ++s) {
        int kind = r.range(0, 9);
        if (s == 1) {
            for (int k = 0; k < fill; ++k) {
                t += r.uni(0.5, 1.5) * period;
                Vector3 acc = (randomUnit(r) * 9.8).cast<float>(), gyr = (randomUnit(r) * r.uni(0.5, 3)).cast<float>();
                c.expect(a.Propagate(acc, gyr, t), "refused", "a sample in time order refused");
                rec.push_back({t, a.items.back()->q_wb.coeffs(), acc, gyr});
            }
            c.peak("longest history", double(rec.size()));
        }
        if (kind < 6 || rec.empty()) {
            if (!rec.empty() || s) { t += r.chance(0.1) ? r.uni(0.05, 0.5) : r.uni(0.5, 1.5) * period; }
            Vector3 acc = a.items.empty() ? Vector3(0, 0, 9.8f) : Vector3((randomUnit(r) * 9.8).cast<float>()), gyr = (randomUnit(r) * r.uni(0.5, 3)).cast<float>();
            c.expect(a.Propagate(acc, gyr, t), "refused", "a sample in time order refused");
            rec.push_back({t, a.items.back()->q_wb.coeffs(), acc, gyr});
        } else if (kind < 9) {
            for (int k = 0; k < 6; ++k) {
                double at; double thr = r.uni(0.2, 3) * period;
                switch (r.range(0, 3)) {
                    case 0: at = r.uni(rec.front().t - 3 * period, rec.back().t + 3 * period); break;
                    case 1: at = r.pick(std::vector<Rec>(rec.begin(), rec.end())).t + r.uni(-1, 1) * period; break;
                    case 2: at = r.pick(std::vector<Rec>(rec.begin(), rec.end())).t; break;
                    default: at = r.chance(0.5) ? rec.front().t - r.uni(0, 2) * period : rec.back().t + r.uni(0, 2) * period;
                }
                double best = 1e300, second = 1e300; size_t bi = 0;
                for (size_t i = 0; i < rec.size(); ++i) { double d = std::fabs(rec[i].t - at); if (d < best) { second = best; best = d; bi = i; } else if (d < second) { second = d; } }
                if (std::fabs(best - thr) < 1e-9 || second - best < 1e-9) { c.count("ties skipped"); continue; }
                Quaternion got(0.5f, 0.5f, 0.5f, 0.5f);
                bool ok = a.GetAttitude(at, thr, got);
                std::ostringstream m; m.precision(12); m << "query at " << at << " within " << thr << ", nearest of " << rec.size() << " items at " << rec[bi].t << ": ";
                c.expect(ok == (best < thr), "query", m.str() + (ok ? "answered" : "refused"));
                if (ok) { c.expect(got.coeffs() == rec[bi].q, "query-nearest", m.str() + "not the attitude of the nearest sample"); c.count("queries answered"); }
                else { c.count("queries refused"); }
                c.hashd(best / thr);
            }
            same("after queries");
        } else {
            double at = r.chance(0.1) ? rec.back().t + 10 : r.uni(rec.front().t - period, rec.back().t + period); double thr = r.uni(0, 2) * period;
            bool close = false; for (auto &x : rec) { if (std::fabs(at - x.t - thr) < 1e-6) { close = true; } }
            if (close) { continue; }
            size_t had = rec.size();
            while (!rec.empty() && at - rec.front().t > thr) { rec.pop_front(); }
            c.expect(a.CleanOldItems(at, Scalar(thr)), "trim", "trimming fails");
            same("after trimming"); c.count("items trimmed", double(had - rec.size())); c.hash(had - rec.size());
            if (rec.empty()) { c.expect(!a.GetAttitude(at, 10, q), "query-empty", "an attitude from an emptied queue"); c.count("queues emptied"); }
        }
    }
    same("at the end");
    if (steps > 20) { c.nontrivial(); }
    c.sample = std::to_string(steps) + " operations, " + std::to_string(rec.size()) + " items at the end";
}

int main(int argc, char **argv) {
    vf::Runner run; run.init(argc, argv);
    if (run.prop == "C06") {
        run.rule = "start: one first sample of any direction and norm; track: a turn known exactly, with biases, irregular periods, zero accelerometer samples and samples from the past; correct: a minute of unknown gyroscope bias; distinct by the numbers drawn";
        run.family("start", run.n(60000, 400000), start);
        run.family("track", run.n(1000, 8000), track);
        run.family("correct", run.n(16, 100), correct);
    } else {
        run.rule = "random sequences of samples, queries (at, between, before and after items, thresholds around the distance) and trims, compared to a list; distinct by distances and trims, non-trivial over 20 operations";
        run.family("query", run.n(20000, 100000), query);
    }
    return run.finish();
}
