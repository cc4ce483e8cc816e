// C18 C19 C20 C21 C23 C24 C26 C29 C30: the whole backend on simulated rigs.
#define VF_MAIN
#include "common.hpp"
#include "rig.hpp"
#include "strapdown.hpp"
using namespace ESKF_VIO_BACKEND;
using vf::Case; using vf::Rng; using vf::V3; using vf::Q4; using vf::Sim; using vf::Rig; using vf::Align; using vf::publish; using vf::Published;

static V3 vec(Rng &r, double s) { return V3(r.gauss(), r.gauss(), r.gauss()) * s; }
static std::string num(double v) { std::ostringstream s; s.precision(6); s << v; return s.str(); }
static void describe(const Sim &s, Case &c) {
    c.trace << s.cams.size() << " cameras, IMU " << s.imuHz << " Hz, a frame every " << s.camEvery << " samples, " << s.camShift << " periods off, " << s.duration << " s, tracks at most " << s.maxTracks
            << ", noise " << s.pixNoise << " " << s.gyroNoise << " " << s.accelNoise << ", bias " << s.ba.transpose() << " / " << s.bg.transpose() << "\n";
}
static void sane(const Published &u, Case &c, const std::string &when) {
    c.expect(u.raw.allFinite(), "not-finite", "the published state is not finite " + when);
    c.near(u.q.norm(), 1, 5e-6, "not-unit", "norm of the published rotation " + when);
}

// ---- C18 ----
static void initial(Rng &r, Case &c) {
    Sim s; s.random(r); s.duration = 2.5; s.imuHz = r.pick(std::vector<double>{100, 200, 250});
    double rate = r.chance(0.5) ? 10 : r.pick(std::vector<double>{1, 2, 5, 20, 50, 100}); s.camEvery = int(s.imuHz / rate);       // from a frame a second to one with every IMU sample
    bool moving = r.chance(0.6);
    if (moving) { s.tr.t0 = -5; s.tr.ramp = 1; s.tr.amp.setZero(); s.tr.eAmp.setZero(); s.tr.vel = vec(r, 0.7); if (r.chance(0.25)) { s.tr.vel = s.tr.vel.normalized() * std::min(r.uni(2, 12), rate); c.count("fast starts"); } s.tr.eRate = vec(r, 0.12); s.duration = std::max(1.2, 5.5 / rate); }
    else { s.tr.t0 = 100; s.duration = std::max(2.5, 8 / rate); }
    if (r.chance(0.5)) { s.ba = vec(r, 0.05); s.bg = vec(r, 0.02); }
    s.maxTracks = 40; s.pts.clear();
    { auto at = s.tr.at(moving ? 0.6 : 0); V3 v = moving ? at.v : V3(V3::Zero()); for (int i = 0; i < 160; ++i) { V3 d = at.q * V3(r.uni(2, 8), r.uni(-4, 4), r.uni(-3, 3)); s.pts.push_back(at.p + d + v * r.uni(-0.5, 0.5)); } }
    s.generate(r); describe(s, c);
    // how many of the tracks each frame reports: too few at first, enough later
    int poor = r.range(0, 4), low = r.range(0, 9), high = r.pick(std::vector<int>{10, 11, 12, 15, 30});
    bool stereoOnly = r.chance(0.3);                               // some tracks are seen by one camera only and cannot be triangulated in one frame
    Sim::Config cfg; cfg.ba = s.ba.cast<float>().cast<double>(); cfg.bg = s.bg.cast<float>().cast<double>(); cfg.sigma = 0.005; cfg.window = r.range(3, 9);
    std::map<uint32_t, bool> mono;
    for (size_t k = 0; k < s.frames.size(); ++k) {
        auto &f = s.frames[k]; size_t m = std::min<size_t>(f.ids.size(), size_t(int(k) < poor ? low : high));
        f.ids.resize(m); f.pt.resize(m); f.obs.resize(m);
        for (size_t i = 0; i < m; ++i) { if (stereoOnly) { if (!mono.count(f.ids[i])) { mono[f.ids[i]] = r.chance(0.15); } if (mono[f.ids[i]] && f.obs[i].count(0)) { f.obs[i] = {{0, f.obs[i][0]}}; } } }
    }
    Rig rig(s, cfg); size_t seenFrames = 0; bool was = false; long tried = 0;
    while (rig.feed()) {
        size_t before = rig.b->MonitorFrameManager().frames.empty() ? 0 : rig.b->MonitorFrameManager().frames.back()->id + 1; (void)before;
        while (rig.b->RunOnce()) {}
        while (seenFrames < rig.nextFrame) {                     // one frame at most per sample here
            size_t k = seenFrames++; int common = 0; bool loose = false;
            if (k > 0) {
                auto &a = s.frames[k - 1], &b = s.frames[k];
                for (size_t i = 0; i < a.ids.size(); ++i) {
                    auto it = std::find(b.ids.begin(), b.ids.end(), a.ids[i]); if (it == b.ids.end()) { continue; }
                    size_t j = size_t(it - b.ids.begin()); if (!b.obs[j].count(0)) { continue; }
                    if (a.obs[i].size() >= 2) { ++common; }
                    V3 x = s.cams[0].q_bc.conjugate() * (s.tr.at(a.t).q.conjugate() * (s.pts[size_t(a.pt[i])] - s.tr.at(a.t).p)); loose |= x.z() > 12;
                }
            }
            Published u = publish(*rig.b, true), p = publish(*rig.b, false);
            c.expect(u.ok == (rig.b->status != NEED_INIT) && p.ok == u.ok, "published", "publishing disagrees with the status");
            if (was) { c.expect(u.ok, "lost", "the backend falls back after initialisation, frame " + std::to_string(k)); continue; }
            ++tried;
            c.expect(!u.ok || common >= 10, "too-few", "initialised with " + std::to_string(common) + " features, frame " + std::to_string(k));
            if (common >= 10 && !loose) { c.expect(u.ok, "not-initialised", "not initialised with " + std::to_string(common) + " features seen by several cameras and again by the first, frame " + std::to_string(k)); }
            if (!u.ok) { c.count("refused attempts"); continue; }
            was = true;
            auto s0 = s.tr.at(s.frames[k - 1].t); Align al; 
            c.expect(std::fabs(rig.frontFrameTime() - s.frames[k - 1].t) < 1e-9, "window", "the window does not start at the frame before the initialisation");
            auto front = rig.b->MonitorFrameManager().frames.front(); al.fromAttitude(s0, front->q_wb.cast<double>());
            auto g = s.tr.at(u.t);
            sane(u, c, "after initialisation");
            double ep = (u.p - al.pos(g.p)).norm(), ev = (u.v - al.vel(g.v)).norm(), eq = vf::angleBetween(al.att(g.q), u.q);
            c.peak("position error", ep); c.peak("velocity error", ev); c.peak("attitude error", eq);
            double longer = std::max(1.0, 10 / rate); c.near(ep, 0, 1e-4 * std::pow(longer, 1.5), "position", "position error after initialisation"); c.near(ev, 0, 1e-3 * std::pow(longer, 0.75), "velocity", "velocity error after initialisation (speed " + num(g.v.norm()) + ")"); c.near(eq, 0, 1e-4 * longer, "attitude", "attitude error after initialisation");
            c.near((u.ba - cfg.ba).norm(), 0, 1e-3, "bias", "accelerometer bias after initialisation, against the configured one"); c.near((u.bg - cfg.bg).norm(), 0, 1e-3, "bias", "gyroscope bias after initialisation, against the configured one");
            c.near(u.t, s.frames[k].t, 0.51 / s.imuHz, "stamp", "stamp of the state after initialisation");
            c.count("initialisations"); if (rate < 4) { c.count("starts from frames half a second or a second apart"); } c.count(moving ? "moving starts" : "starts at rest"); c.count("configured with biases", s.ba.norm() > 0);
        }
    }
    // the run goes on from there as accurately
    if (was) {
        Published p = publish(*rig.b, false); c.expect(p.ok, "lost", "nothing is published at the end"); sane(p, c, "at the end");
        c.nontrivial();
    }
    c.count("attempts", double(tried)); c.hashd(s.tr.vel.x()); c.hashd(s.tr.e0.x()); c.hash(uint64_t(poor * 100 + low * 10 + high));
    c.sample = std::string(moving ? "moving" : "at rest") + ", " + std::to_string(poor) + " frames with " + std::to_string(low) + " tracks, then " + std::to_string(high) + ": initialised after " + std::to_string(tried) + " frames";
}

// ---- C19 ----
struct Given { double t; V3 gyro, accel; };
// Everything publishing promises, after one step of the backend.
struct PublishMonitor {
    std::vector<Given> given; Published lastUpdate; double g = 9.8, period = 0; bool was = false;
    void check(Backend &b, size_t pending, Case &c, bool reset = false) {
        Published u = publish(b, true), p = publish(b, false);
        bool need = b.status == NEED_INIT;
        if (was && !reset) {                                       // initialised before this step: only a frame without samples ends that
            double late = b.MonitorFrameManager().frames.back()->timeStamp - given[given.size() - pending - 1].t;
            if (need) { c.expect(late > period * 0.999, "lost", "the backend falls back though the newest sample processed is only " + num(late) + " s older than the newest frame, the period is " + num(period)); c.count("fallbacks"); }
            else { c.expect(late < period * 1.001, "kept-going", "the backend goes on though the newest sample processed is " + num(late) + " s older than the newest frame, the period is " + num(period)); }
            c.peak("frame after the newest sample, periods", need ? 0 : late / period);
        }
        was = !need;
        c.expect(u.ok == !need && p.ok == !need, "published", need ? "a state is published though the backend has to initialise" : "nothing is published though the backend is initialised");
        if (need) {
            IMUFullState st; st.p_wb << 1, 2, 3; double t = -7; IMUFullState keep = st;
            bool any = b.PublishUpdateState(st, t) || b.PublishPropagateState(st, t);
            c.expect(!any && t == -7 && st.p_wb == keep.p_wb, "touched", "a refused publication writes its outputs"); c.count("refusals"); lastUpdate.ok = false; return;
        }
        Published u2 = publish(b, true), p2 = publish(b, false);
        c.expect(u.raw == u2.raw && p.raw == p2.raw && u.t == u2.t && p.t == p2.t, "idempotent", "publishing twice gives two answers");
        sane(u, c, "(update)"); sane(p, c, "(propagate)");
        size_t done = given.size() - pending; c.expect(done > 0 && p.t == given[done - 1].t, "latest", "the propagated state is stamped " + num(p.t) + ", the newest IMU sample processed " + num(done ? given[done - 1].t : NAN));
        double tf = b.MonitorFrameManager().frames.back()->timeStamp;
        size_t i = 0; while (i < done && given[i].t != u.t) { ++i; }
        c.expect(i < done, "update-stamp", "the updated state is stamped " + num(u.t) + ", at no IMU sample");
        double best = INFINITY; for (size_t k = 0; k < done; ++k) { best = std::min(best, std::fabs(given[k].t - tf)); }
        c.near(std::fabs(u.t - tf), best, 1e-9, "update-stamp", "distance of the updated state from its frame, against the nearest IMU sample");
        c.expect(u.ba == p.ba && u.bg == p.bg, "biases", "the two published states have different biases");
        vf::Nom x{u.p, u.v, u.q.normalized()}; vf::Bounds e;
        for (size_t k = i + 1; k < done; ++k) { vf::strapdown(x, {given[k - 1].t, given[k - 1].gyro, given[k - 1].accel}, {given[k].t, given[k].gyro, given[k].accel}, u.ba, u.bg, V3(0, 0, g), &e); }
        c.peak("propagation error / bound", std::max({(p.p - x.p).norm() / e.p, (p.v - x.v).norm() / e.v, vf::angle(p.q, x.q) / e.q}));
        c.near((p.p - x.p).norm(), 0, e.p, "propagation", "position of the propagated state, against the updated state carried over " + std::to_string(done - 1 - i) + " samples");
        c.near((p.v - x.v).norm(), 0, e.v, "propagation", "velocity of the propagated state, against the updated state carried over " + std::to_string(done - 1 - i) + " samples");
        c.near(vf::angle(p.q, x.q), 0, e.q, "propagation", "attitude of the propagated state, against the updated state carried over " + std::to_string(done - 1 - i) + " samples");
        if (lastUpdate.ok && tf == lastTf) { c.expect(u.raw == lastUpdate.raw && u.t == lastUpdate.t, "drifts", "the updated state changes without a frame"); c.count("publications between frames"); }
        else { c.count("publications after a frame"); }
        lastUpdate = u; lastTf = tf;
    }
    double lastTf = NAN;
};
static void publishing(Rng &r, Case &c) {
    Sim s; s.random(r); s.duration = r.uni(3, 7); s.imuHz = r.pick(std::vector<double>{100, 200, 250}); s.camEvery = int(s.imuHz / r.pick(std::vector<double>{5, 10, 12.5})); s.camShift = r.chance(0.5) ? 0 : r.uni(0, 0.99);
    if (r.chance(0.6)) { s.pixNoise = 1e-3; s.gyroNoise = 2e-3; s.accelNoise = 0.03; }
    s.generate(r); describe(s, c);
    Sim::Config cfg; cfg.window = r.range(3, 9);
    double dropImu = r.chance(0.4) ? r.uni(0, 0.1) : 0, dropFrame = r.chance(0.4) ? r.uni(0, 0.3) : 0, gapAt = r.chance(0.3) ? r.uni(1, 5) : 1e9, gapLen = r.uni(0.05, 0.6), resetAt = r.chance(0.3) ? r.uni(1, 5) : 1e9;
    size_t batch = r.chance(0.5) ? 1 : size_t(r.range(2, 40));
    double blindFrom = r.chance(0.25) ? r.uni(1.2, 3) : 1e9, blindTo = blindFrom + r.uni(1, 4);      // no frame for a while, but samples
    Rig rig(s, cfg); PublishMonitor m; m.g = s.tr.g; m.period = double(float(1 / s.imuHz)); bool reset = false;
    size_t steps = 0, done = 0; double lastFed = -1e9;
    while (true) {
        bool more = true; size_t k;
        for (k = 0; k < batch; ++k) {
            size_t i = rig.nextImu; if (i >= s.imu.size()) { more = false; break; }
            bool use = i == 0 || (!r.chance(dropImu) && !(s.imu[i].t > gapAt && s.imu[i].t < gapAt + gapLen));
            rig.feed([&](size_t) { return use; }, [&](size_t k) { return !r.chance(dropFrame) && !(s.frames[k].t > blindFrom && s.frames[k].t < blindTo); });
            if (use) { m.given.push_back({s.imu[i].t, s.imu[i].gyro.cast<float>().cast<double>(), s.imu[i].accel.cast<float>().cast<double>()}); }
        }
        (void)lastFed;
        if (!reset && rig.nextImu < s.imu.size() && s.imu[rig.nextImu].t > resetAt) { rig.b->Reset(); reset = true; m.check(*rig.b, rig.b->MonitorDataLoader().MonitorWaitingImu(), c, true); c.count("resets"); }
        while (rig.b->RunOnce()) { ++steps; m.check(*rig.b, rig.b->MonitorDataLoader().MonitorWaitingImu(), c); if (rig.b->status != NEED_INIT) { ++done; } }
        if (!more) { break; }
    }
    c.count("steps", double(steps)); c.count("steps while initialised", double(done));
    if (done > 50) { c.nontrivial(); } c.hashd(s.tr.amp.x()); c.hash(batch);
    c.sample = std::to_string(steps) + " steps, " + std::to_string(done) + " initialised, batches of " + std::to_string(batch) + ", IMU loss " + num(dropImu) + ", frame loss " + num(dropFrame);
}

// ---- C20, C21 ----
struct Errors { double pos = 0, vel = 0, att = 0, sum = 0, sumAtt = 0, vSum = 0; long n = 0; double rmse() const { return std::sqrt(sum / std::max(1L, n)); } double rmsAtt() const { return std::sqrt(sumAtt / std::max(1L, n)); } };
static void exactRun(Rng &r, Case &c) {
    Sim s; s.random(r); s.duration = r.uni(6, 14); s.imuHz = r.pick(std::vector<double>{100, 200, 250, 400}); s.camEvery = int(s.imuHz / r.pick(std::vector<double>{5, 10, 20})); s.camShift = r.chance(0.5) ? 0 : r.uni(-0.5, 0.5);
    s.maxTracks = r.range(16, 40); int way = r.range(0, 7);        // kinds of motion
    if (way == 1) { s.tr.amp *= 0.01; s.tr.eAmp *= 0.01; } else if (way == 2) { s.tr.amp.setZero(); s.tr.eAmp[2] = r.uni(0.3, 1); } else if (way == 3) { s.tr.amp.setZero(); s.tr.eAmp.setZero(); s.tr.vel = vec(r, 1.5); } else if (way == 4) { s.tr.eAmp.setZero(); s.tr.eRate[2] = r.uni(-0.5, 0.5); }
    s.landmarks(r, way == 5 ? 400 : 300, way == 5 ? 10 : 2, way == 5 ? 22 : 10); if (way == 6) { s.fov = r.uni(0.35, 0.6); s.landmarks(r, 1200, 2, 10); } if (way == 3) { s.landmarks(r, 1500, 2, 10); }
    static const char *ways[] = {"general motion", "hovering", "turning on the spot", "straight", "spinning", "far points", "narrow view", "general motion"};
    if (way != 6 && r.chance(0.15)) { s.fov = r.uni(1.2, 2.5); c.count("wide views"); }
    if (r.chance(0.5)) { s.ba = vec(r, 0.1).cast<float>().cast<double>(); s.bg = vec(r, 0.02).cast<float>().cast<double>(); }
    s.generate(r); describe(s, c);
    Sim::Config cfg; cfg.window = r.chance(0.12) ? r.range(13, 30) : r.range(3, 12); cfg.ba = s.ba; cfg.bg = s.bg; if (r.chance(0.3)) { cfg.minTracked = r.range(0, 40); cfg.maxTrans = r.uni(0.02, 2); }
    size_t fewest = 99; for (auto &f : s.frames) { fewest = std::min(fewest, f.ids.size()); }
    if (fewest < 12 && way != 0 && way != 7) { c.count("left for few tracks"); return; }      // little to see is not good data
    Rig rig(s, cfg); Errors e; bool up = false; Align al; double path = 0; V3 lastP = V3::Zero();
    double startAt = NAN;
    while (rig.feed()) {
        while (rig.b->RunOnce()) {}
        Published p = publish(*rig.b, false);
        if (!p.ok) { c.expect(!up, "lost", "nothing is published at " + num(s.imu[rig.nextImu - 1].t) + " s, after initialisation"); continue; }
        if (!up) { up = true; auto f = rig.b->MonitorFrameManager().frames.front(); al.fromAttitude(s.tr.at(f->timeStamp), f->q_wb.cast<double>()); startAt = p.t; }
        auto g = s.tr.at(p.t); sane(p, c, "");
        double ep = (p.p - al.pos(g.p)).norm(), ev = (p.v - al.vel(g.v)).norm(), eq = vf::angleBetween(al.att(g.q), p.q);
        e.pos = std::max(e.pos, ep); e.vel = std::max(e.vel, ev); e.att = std::max(e.att, eq); e.sum += ep * ep; ++e.n; path += (g.p - lastP).norm(); lastP = g.p;
    }
    bool enough = true; for (size_t k = 0; k < 4 && k < s.frames.size(); ++k) { enough &= s.frames[k].ids.size() >= 14; }
    c.expect((up && startAt < 0.45) || !enough, "no-start", "not initialised from rest within four frames");
    std::string k = s.camShift == 0 ? "aligned" : "shifted";
    double dt = 1 / s.imuHz, off = std::fabs(s.camShift) * dt;
    // a frame is applied at the nearest sample: off seconds of motion enter each measurement
    double tp = way == 3 ? 3e-4 + 2e-5 * path + 8 * off : 1e-4 + 4 * off, tv = way == 3 ? 1.2e-3 + 10 * off : 4e-4 + 6 * off, ta = way == 3 ? 2e-4 + 2 * off : 5e-5 + 1.5 * off;
    c.count(ways[way]); c.peak(std::string(ways[way]) + ": position error / bound", e.pos / tp); c.peak(std::string(ways[way]) + ": velocity error / bound", e.vel / tv); c.peak(std::string(ways[way]) + ": attitude error / bound", e.att / ta);
    c.peak(k + ": position error", e.pos); c.peak(k + ": velocity error", e.vel); c.peak(k + ": attitude error", e.att);
    c.peak(k + ": position error / bound", e.pos / tp); c.peak(k + ": velocity error / bound", e.vel / tv); c.peak(k + ": attitude error / bound", e.att / ta);
    c.near(e.pos, 0, tp, "position", "largest position error over " + num(path) + " m, exact measurements"); c.near(e.vel, 0, tv, "velocity", "largest velocity error, exact measurements"); c.near(e.att, 0, ta, "attitude", "largest attitude error, exact measurements");
    c.count("states compared", double(e.n)); c.count("metres", path); c.count("frames", double(s.frames.size())); c.nontrivial(); c.hashd(s.tr.amp.x()); c.hashd(s.imuHz);
    c.sample = num(path) + " m in " + num(s.duration) + " s at " + num(s.imuHz) + " Hz, " + k + " frames: position error " + num(e.pos) + ", attitude " + num(e.att);
}
static void noisyRun(Rng &r, Case &c) {
    Sim s; s.random(r); s.duration = r.uni(8, 16); s.imuHz = r.pick(std::vector<double>{100, 200}); s.camEvery = int(s.imuHz / 10); s.camShift = r.chance(0.5) ? 0 : r.uni(-0.5, 0.5);
    s.pixNoise = r.pick(std::vector<double>{5e-4, 1e-3, 2e-3}); s.gyroNoise = 1e-3; s.accelNoise = 0.02;
    bool bias = r.chance(0.5); if (bias) { s.ba = vec(r, 0.04); s.bg = vec(r, 0.004); }                 // biases nobody configured
    s.generate(r); describe(s, c);
    Sim::Config cfg; cfg.sigma = s.pixNoise * 1.5;
    Rig rig(s, cfg); Errors e; bool up = false; Align al; double path = 0; V3 lastP = V3::Zero();
    while (rig.feed()) {
        while (rig.b->RunOnce()) {}
        Published p = publish(*rig.b, false);
        if (!p.ok) { if (up) { c.count("fell back"); } c.expect(!up, "lost", "nothing is published at " + num(s.imu[rig.nextImu - 1].t) + " s, after initialisation"); continue; }
        if (!up) { up = true; auto f = rig.b->MonitorFrameManager().frames.front(); al.fromAttitude(s.tr.at(f->timeStamp), f->q_wb.cast<double>()); }
        auto g = s.tr.at(p.t); sane(p, c, "");
        double ep = (p.p - al.pos(g.p)).norm(), ev = (p.v - al.vel(g.v)).norm(), eq = vf::angleBetween(al.att(g.q), p.q);
        e.pos = std::max(e.pos, ep); e.vel = std::max(e.vel, ev); e.att = std::max(e.att, eq); e.sum += ep * ep; e.sumAtt += eq * eq; ++e.n; path += (g.p - lastP).norm(); lastP = g.p;
    }
    c.expect(up, "no-start", "never initialised");
    double scale = s.pixNoise / 1e-3; std::string w = bias ? "unknown biases: " : "";
    c.peak(w + "position error", e.pos); c.peak(w + "velocity error", e.vel); c.peak(w + "attitude error", e.att); c.peak(w + "rms position error", e.rmse());
    c.count(w + "sum of rms position errors", e.rmse()); c.count(w + "sum of rms attitude errors", e.rmsAtt()); c.count(w + "runs");
    // a gyroscope bias turns the heading, which nothing corrects, until it is found
    double turn = bias ? 0.03 + 1.5 * s.bg.norm() * s.duration : 0;
    c.near(e.pos, 0, 0.15 + 0.5 * scale + 2 * turn, "position", "largest position error over " + num(path) + " m, noisy measurements"); c.near(e.att, 0, 0.05 + 0.1 * scale + turn, "attitude", "largest attitude error, noisy measurements");
    c.count("states compared", double(e.n)); c.count("metres", path); c.nontrivial(); c.hashd(s.tr.amp.x()); c.hashd(s.pixNoise);
    c.sample = num(path) + " m, noise " + num(s.pixNoise) + ": rms position error " + num(e.rmse()) + ", attitude " + num(e.rmsAtt());
}
// Good data in demanding conditions: the backend must hold on, and the motion be right again soon.
static void hardRun(Rng &r, Case &c) {
    Sim s; s.random(r); s.duration = r.uni(8, 14); s.imuHz = r.pick(std::vector<double>{100, 200}); s.camEvery = int(s.imuHz / r.pick(std::vector<double>{5, 10})); s.camShift = r.chance(0.5) ? 0 : r.uni(-0.5, 0.5);
    int kind = r.range(0, 4);                      // 0 first frames in motion, 1 large biases nobody configured, 2 violent motion, 3 violent with large biases, 4 violent from the first frame on
    if (kind >= 2) { for (int i = 0; i < 3; ++i) { s.tr.amp[i] = r.uni(1, 2.5) * (i == 2 ? 0.5 : 1); s.tr.freq[i] = r.uni(0.9, 1.8); s.tr.eAmp[i] = r.uni(0.2, 0.4); s.tr.eFreq[i] = r.uni(0.9, 1.8); } s.tr.ramp = r.uni(0.5, 1.5); }
    s.landmarks(r, 400, 2, 10); if (r.chance(0.5)) { s.pixNoise = 1e-3; s.gyroNoise = 1e-3; s.accelNoise = 0.01; }
    if (kind == 1 || kind == 3) { s.bg = vec(r, 0.01); s.ba = vec(r, 0.5); }
    V3 a0 = s.tr.accel(0); if (s.ba.norm() > 0) { s.ba -= a0.normalized() * (a0.normalized().dot(s.ba)); V3 n = (a0 + s.ba); s.ba += n.normalized() * (s.tr.g - n.norm()); }     // gravity is found only when its norm is right
    s.generate(r); describe(s, c); double first = kind == 0 || kind == 4 ? s.tr.t0 + r.uni(0.2, 4) : 0;
    Sim::Config cfg; cfg.sigma = 2e-3; cfg.window = r.range(5, 12); cfg.nwa = r.pick(std::vector<double>{0.1, 0.5}); cfg.nwg = 1e-3; Rig rig(s, cfg); bool up = false, fell = false; double ev = 0, et = 0, worst = 0; long n = 0;
    while (rig.feed([](size_t) { return true; }, [&](size_t k) { return s.frames[k].t >= first; })) {
        while (rig.b->RunOnce()) {}
        Published p = publish(*rig.b, false);
        if (!p.ok) { fell |= up; c.expect(!up, "lost", "nothing is published at " + num(s.imu[rig.nextImu - 1].t) + " s, after initialisation"); continue; }
        up = true; sane(p, c, ""); auto g = s.tr.at(p.t); double v = (p.q.conjugate() * p.v - g.q.conjugate() * g.v).norm(), t = vf::angleBetween(Q4::FromTwoVectors(p.q.conjugate() * V3::UnitZ(), g.q.conjugate() * V3::UnitZ()), Q4::Identity()); worst = std::max(worst, v);
        if (p.t > s.duration - 2) { ev = std::max(ev, v); et = std::max(et, t); ++n; }
    }
    static const char *names[] = {"first frames in motion", "large biases", "violent motion", "violent motion and large biases", "first frames in violent motion"}; std::string w = names[kind];
    c.count(w); c.count(w + ": fell back", fell); c.count(w + ": up", up); c.peak(w + ": velocity error", worst); c.peak(w + ": final velocity error", ev); c.peak(w + ": final tilt error", et); c.count(w + ": sum of final velocity errors", ev); c.count(w + ": sum of final tilt errors", et);
    c.expect(n > 0, "no-start", "nothing is published at the end");
    c.near(ev, 0, kind == 0 || kind == 2 ? 0.15 : kind == 4 ? 0.4 : 1, "hard-velocity", "velocity error in body axes in the last two seconds, " + w); c.near(et, 0, kind == 0 || kind == 2 ? 0.04 : kind == 4 ? 0.12 : 0.5, "hard-tilt", "tilt error in the last two seconds, " + w);
    c.count("states compared", double(n)); c.nontrivial(); c.hashd(s.tr.amp.x()); c.hash(uint64_t(kind)); c.sample = w + ": final velocity error " + num(ev) + ", tilt " + num(et);
}
static void recover(Rng &r, Case &c) {
    Sim s; s.random(r); s.imuHz = r.pick(std::vector<double>{100, 200}); s.camEvery = int(s.imuHz / 10); s.tr.ramp = 1.0; s.tr.t0 = 0.6; s.tr.t1 = r.uni(2.5, 4); s.tr.t2 = s.tr.t1 + 4.5; s.duration = s.tr.t2 + r.uni(3, 5);
    if (r.chance(0.5)) { s.ba = vec(r, 0.05).cast<float>().cast<double>(); s.bg = vec(r, 0.01).cast<float>().cast<double>(); }
    int kind = r.range(0, 4);                      // Reset; IMU gap; both gone; frames gone; Reset while moving, at the end of which rest follows
    double at = s.tr.t1 + 1.1 + r.uni(0, 1), len = r.uni(0.3, 1.5);
    if (kind == 4) { at = r.uni(1.7, s.tr.t1); len = 0; }
    int resets = kind == 0 ? r.range(1, 3) : 1;
    s.generate(r); describe(s, c); c.trace << "disturbance " << kind << " at " << at << " for " << len << "\n";
    Sim::Config cfg; cfg.ba = s.ba; cfg.bg = s.bg; cfg.window = r.range(3, 9);
    Rig rig(s, cfg); Errors e; Align al; bool up = false, hit = false, fellBack = false; int starts = 0; size_t framesSince = 0, frameAtHit = 0; double upAt = NAN; long after = 0;
    auto lost = [&](double t) { return t > at && t < at + len; };
    while (rig.nextImu < s.imu.size()) {
        double t = s.imu[rig.nextImu].t;
        if (!hit && t > at) { hit = true; frameAtHit = rig.nextFrame; if (kind == 0 || kind == 4) { for (int k = 0; k < resets; ++k) { rig.b->Reset(); } c.expect(!publish(*rig.b, true).ok && !publish(*rig.b, false).ok, "reset-publishes", "a state is published after a reset"); up = false; fellBack = true; } }
        rig.feed([&](size_t k) { return !((kind == 1 || kind == 2) && lost(s.imu[k].t)); }, [&](size_t k) { return !((kind == 2 || kind == 3) && lost(s.frames[k].t)); });
        while (rig.b->RunOnce()) {}
        Published p = publish(*rig.b, false);
        c.expect(p.ok == (rig.b->status != NEED_INIT), "published", "publishing disagrees with the status");
        if (!p.ok) {
            if (up) { c.expect(hit, "lost", "the backend falls back at " + num(t) + " s, before any disturbance"); fellBack = true; }
            up = false;
            if (hit && t > at + len + 0.2 + 2.5 / s.imuHz) { c.fail("no-recovery", "nothing is published " + num(t - at - len) + " s after the disturbance, at rest"); }
            continue;
        }
        sane(p, c, "at " + num(p.t));
        if (!up) { up = true; ++starts; auto f = rig.b->MonitorFrameManager().frames.front(); al.fromAttitude(s.tr.at(f->timeStamp), f->q_wb.cast<double>()); upAt = p.t;
            if (hit) { c.expect(f->timeStamp > at - 1.0 / s.imuHz - 0.11, "old-frame", "the new start uses a frame from before the disturbance"); } }
        if (kind == 4 && hit) { ++after; continue; }                                      // accuracy of a start in motion is not promised
        auto g = s.tr.at(p.t); double ep = (p.p - al.pos(g.p)).norm(), ev = (p.v - al.vel(g.v)).norm(), eq = vf::angleBetween(al.att(g.q), p.q);
        e.pos = std::max(e.pos, ep); e.vel = std::max(e.vel, ev); e.att = std::max(e.att, eq); ++e.n; after += hit;
    }
    (void)framesSince; (void)frameAtHit; (void)upAt;
    c.expect(up, "no-recovery", "nothing is published at the end");
    c.expect(after > 0, "no-recovery", "nothing was published after the disturbance");
    if (kind == 0 || kind == 4) { c.expect(starts >= 2, "no-restart", "no new start after a reset"); }
    if (kind == 1 && len > 0.35) { c.expect(fellBack, "kept-going", "frames without IMU for " + num(len) + " s do not make the backend start over"); }
    static const char *names[] = {"reset", "IMU gap", "gap in both", "frame gap", "reset in motion"};
    c.peak(std::string(names[kind]) + ": position error", e.pos); c.peak(std::string(names[kind]) + ": velocity error", e.vel); c.peak(std::string(names[kind]) + ": attitude error", e.att);
    // a restart takes its tilt from the attitude filter, which the motion before has pulled off a little
    double tp = starts > 1 && kind != 4 ? 0.06 : 2e-4, tv = starts > 1 && kind != 4 ? 0.1 : 1e-3, ta = starts > 1 && kind != 4 ? 0.02 : 1e-4;
    c.near(e.pos, 0, tp, "position", std::string("largest position error, ") + names[kind]); c.near(e.vel, 0, tv, "velocity", std::string("largest velocity error, ") + names[kind]); c.near(e.att, 0, ta, "attitude", std::string("largest attitude error, ") + names[kind]);
    c.count(names[kind]); c.count("starts", starts); c.count("fell back", fellBack); c.nontrivial(); c.hashd(s.tr.amp.x()); c.hash(uint64_t(kind));
    c.sample = std::string(names[kind]) + " of " + num(len) + " s: " + std::to_string(starts) + " starts, position error " + num(e.pos);
}

// ---- C23, C24, C30: the same input, run differently ----
struct Out { bool ok; double t; Eigen::Matrix<float, 16, 1> u, p; double tu; std::vector<std::pair<double, V3>> win; };
static Out take(Backend &b) { Published u = publish(b, true), p = publish(b, false); Out o; o.ok = p.ok; o.t = p.ok ? p.t : 0; o.tu = u.ok ? u.t : 0; o.u.setZero(); o.p.setZero(); if (p.ok) { o.u = u.raw; o.p = p.raw; for (auto &f : b.MonitorFrameManager().frames) { o.win.push_back({f->timeStamp, f->p_wb.cast<double>()}); } } return o; }
// Two windows differ because a frame is as far from the one before as the key frame policy's limit, but for rounding: nothing can be compared from there on.
static bool forked(const Out &a, const Out &b, double ua, double maxTrans) {
    auto has = [](const Out &o, double t) { for (auto &f : o.win) { if (f.first == t) { return true; } } return false; };
    for (auto *o : {&a, &b}) { for (size_t i = 1; i < o->win.size(); ++i) { if (!has(o == &a ? b : a, o->win[i].first)) { double d = (o->win[i].second - o->win[i - 1].second).norm() / (o == &a ? ua : 1); if (std::fabs(d - maxTrans) < 1e-3) { return true; } } } }
    return false;
}
static void violent(Rng &r, Sim &s) { for (int i = 0; i < 3; ++i) { s.tr.amp[i] = r.uni(1, 2.5) * (i == 2 ? 0.5 : 1); s.tr.freq[i] = r.uni(0.9, 1.8); s.tr.eAmp[i] = r.uni(0.2, 0.4); s.tr.eFreq[i] = r.uni(0.9, 1.8); } s.tr.ramp = r.uni(0.5, 1.5); }
static Sim noisySim(Rng &r, double len) {
    Sim s; s.random(r); s.duration = len; s.imuHz = r.pick(std::vector<double>{100, 200}); s.camEvery = int(s.imuHz / 10); s.camShift = r.chance(0.5) ? 0 : r.uni(0, 0.9);
    s.pixNoise = 1e-3; s.gyroNoise = 2e-3; s.accelNoise = 0.03; s.maxTracks = r.range(16, 40);
    if (r.chance(0.2)) { s.fov = r.uni(1, 2.5); }
    if (r.chance(0.25)) { violent(r, s); s.landmarks(r, 400, 2, 10); }
    s.generate(r); return s;
}
static std::vector<Out> alone(Sim &s, const Sim::Config &cfg, uint64_t stream) {
    Rig rig(s, cfg, "alone"); vf::randState = stream; std::vector<Out> o; while (rig.feed()) { while (rig.b->RunOnce()) {} o.push_back(take(*rig.b)); } return o;
}
static bool same(const Out &a, const Out &b) { return a.ok == b.ok && a.t == b.t && a.tu == b.tu && a.u == b.u && a.p == b.p; }
static void isolation(Rng &r, Case &c) {
    int n = r.range(1, 3); std::vector<Sim> sims; std::vector<Sim::Config> cfgs; std::vector<uint64_t> streams; std::vector<std::vector<Out>> want; size_t inits = 0;
    for (int i = 0; i < n; ++i) {
        sims.push_back(noisySim(r, r.uni(1.5, 3))); Sim::Config k; k.window = r.range(3, 10); k.sigma = r.uni(1e-3, 4e-3); k.na = r.uni(0.01, 0.05); k.minTracked = r.range(0, 20); k.maxTrans = r.uni(0.05, 0.5);
        cfgs.push_back(k); streams.push_back(r.next() | 1); sims.back().firstId = uint32_t(r.range(0, 1000));
    }
    for (int i = 0; i < n; ++i) { want.push_back(alone(sims[size_t(i)], cfgs[size_t(i)], streams[size_t(i)])); inits += want.back().back().ok; }
    // all together, in random turns; created in another order, one possibly destroyed on the way
    std::vector<std::unique_ptr<Rig>> rigs(static_cast<size_t>(n)); std::vector<uint64_t> st = streams; std::vector<size_t> at(size_t(n), 0);
    std::vector<int> order; for (int i = 0; i < n; ++i) { order.push_back(i); } r.shuffle(order);
    for (int i : order) { rigs[size_t(i)] = std::make_unique<Rig>(sims[size_t(i)], cfgs[size_t(i)], "together" + std::to_string(i)); }
    long turns = 0;
    while (true) {
        std::vector<int> left; for (int i = 0; i < n; ++i) { if (rigs[size_t(i)] && at[size_t(i)] < want[size_t(i)].size()) { left.push_back(i); } }
        if (left.empty()) { break; }
        size_t i = size_t(r.pick(left)); int burst = r.chance(0.5) ? 1 : r.range(1, 50); ++turns;
        vf::randState = st[i];
        while (burst-- && at[i] < want[i].size()) {
            rigs[i]->feed(); while (rigs[i]->b->RunOnce()) {}
            Out o = take(*rigs[i]->b);
            c.expect(same(o, want[i][at[i]]), n == 1 ? "not-repeatable" : "interference", "backend " + std::to_string(i) + " of " + std::to_string(n) + " differs from its run alone after " + std::to_string(at[i]) + " samples: position " + num(o.p[0]) + " " + num(o.p[1]) + " " + num(o.p[2]) + ", alone " + num(want[i][at[i]].p[0]) + " " + num(want[i][at[i]].p[1]) + " " + num(want[i][at[i]].p[2]));
            ++at[i]; c.count("states compared");
        }
        st[i] = vf::randState;
        if (n > 2 && r.chance(0.002)) { rigs[i].reset(); c.count("destroyed on the way"); }
    }
    c.count("turns", double(turns)); c.count("backends", n); c.count("initialised at the end", double(inits)); if (inits) { c.nontrivial(); } c.hash(streams[0]); c.hash(uint64_t(turns));
    c.sample = std::to_string(n) + " backends in " + std::to_string(turns) + " turns";
}
static void origin(Rng &r, Case &c) {
    Sim s; s.random(r); s.duration = r.uni(2, 4); s.imuHz = r.pick(std::vector<double>{128, 256}); s.camEvery = int(s.imuHz / 8); s.camShift = r.pick(std::vector<double>{0, 0.25, 0.5, 0.75}); s.pixNoise = 1e-3; s.gyroNoise = 2e-3; s.accelNoise = 0.03; s.generate(r); describe(s, c);
    Sim::Config cfg; cfg.window = r.range(3, 9); uint64_t stream = r.next() | 1;
    auto want = alone(s, cfg, stream);
    double o = r.pick(std::vector<double>{1, 1000, 1048576, 1600000000, 1700000000.5, -3, -100000}) + r.range(0, 1000); s.origin = o;
    auto got = alone(s, cfg, stream);
    c.expect(got.size() == want.size(), "length", "different numbers of states");
    for (size_t i = 0; i < got.size(); ++i) { c.expect(same(got[i], want[i]), "origin", "with the clock starting at " + num(o) + " sample " + std::to_string(i) + " gives another state: stamp " + num(got[i].t) + " instead of " + num(want[i].t) + ", position " + num(got[i].p[0]) + " instead of " + num(want[i].p[0])); }
    // stamps as clocks give them: rounded differently for every origin
    c.count("states compared", double(got.size())); if (want.back().ok) { c.nontrivial(); c.count("runs initialised"); } c.hash(stream); c.hashd(o);
    c.sample = "clock at " + num(o) + ", " + std::to_string(got.size()) + " states identical";
}
// The clock was set by a frame long ago: everything is as if the run's own first message had set it, only stamped later.
static void forerunner(Rng &r, Case &c) {
    Sim s; s.random(r); s.duration = r.uni(2, 3.5); s.imuHz = r.pick(std::vector<double>{128, 256}); s.camEvery = int(s.imuHz / 8); s.camShift = r.pick(std::vector<double>{0, 0.25, 0.5, 0.75}); s.pixNoise = 1e-3; s.gyroNoise = 2e-3; s.accelNoise = 0.03; s.generate(r); describe(s, c);
    Sim::Config cfg; cfg.window = r.range(3, 9); uint64_t stream = r.next() | 1;
    auto want = alone(s, cfg, stream);
    double ago = std::round(std::pow(10.0, r.uni(2, 6.5)));
    Rig rig(s, cfg, "late"); vf::randState = stream;
    auto m = s.featMsg(0); m->timeStamp -= ago; double rawFirst = m->timeStamp; (void)rawFirst;
    for (auto &id : m->ids) { id = 0xF0000000u + id; }
    int keep = r.range(0, int(m->ids.size())); m->ids.resize(size_t(keep)); m->observes.resize(size_t(keep)); m->flag.resize(size_t(keep), 0);
    rig.b->GetFeaturesMessage(m); if (r.chance(0.5)) { while (rig.b->RunOnce()) {} }
    double first = std::min(s.imu.front().t, s.frames.front().t), shift = first - (s.frames.front().t - ago);      // what the run's own first message is stamped
    size_t i = 0;
    while (rig.feed()) {
        while (rig.b->RunOnce()) {}
        Out o = take(*rig.b); c.expect(i < want.size(), "length", "different numbers of states"); auto &w = want[i++];
        bool eq = o.ok == w.ok && o.u == w.u && o.p == w.p && (!o.ok || (o.t == w.t + shift && o.tu == w.tu + shift));
        c.expect(eq, "late", "the clock was set " + num(ago) + " s before: sample " + std::to_string(i - 1) + " gives another state, stamp " + num(o.t) + " instead of " + num(w.t + shift) + ", position " + num(o.p[0]) + " instead of " + num(w.p[0]));
    }
    c.count("states compared", double(i)); if (want.back().ok) { c.nontrivial(); c.count("late runs initialised"); } c.peak("first message before the run (s)", ago); c.hash(stream); c.hashd(ago);
    c.sample = "first message " + num(ago) + " s before, " + std::to_string(i) + " states identical";
}
static void labels(Rng &r, Case &c) {
    Sim s = noisySim(r, r.uni(2, 4)); describe(s, c); s.maxTracks = 28;
    // a few tracks are rare enough for the cap of thirty never to bind
    for (auto &f : s.frames) { if (f.ids.size() > 24) { f.ids.resize(24); f.pt.resize(24); f.obs.resize(24); } }
    Sim::Config cfg; cfg.window = r.range(3, 9); cfg.sigma = 2e-3;
    auto want = alone(s, cfg, 99);
    Sim q = s; std::map<uint32_t, uint32_t> to; std::set<uint32_t> used; int style = r.range(0, 5); uint32_t low = uint32_t(r.range(0, 200)), step = r.pick(std::vector<uint32_t>{1u << 8, 1u << 16, 1u << 20});
    for (auto &f : q.frames) {
        for (auto &id : f.ids) {
            if (!to.count(id)) { uint32_t n; do { n = style == 0 ? uint32_t(r.next()) : style == 1 ? 0xFFFFFFFFu - uint32_t(r.range(0, 5000)) : style == 2 ? uint32_t(r.range(0, 5000)) : style == 3 ? 0x7FFFFFF0u + uint32_t(r.range(0, 5000)) : low + step * uint32_t(used.size() % 4096) + uint32_t(style == 5 ? used.size() / 64 : used.size() / 4096); } while (used.count(n)); used.insert(n); to[id] = n; }
            id = to[id];
        }
        std::vector<size_t> o; for (size_t i = 0; i < f.ids.size(); ++i) { o.push_back(i); } r.shuffle(o);
        auto g = f; for (size_t i = 0; i < o.size(); ++i) { g.ids[i] = f.ids[o[i]]; g.pt[i] = f.pt[o[i]]; g.obs[i] = f.obs[o[i]]; } f = g;
    }
    // observations in cameras nobody configured, on the tracks and on tracks of their own
    bool beyond = r.chance(0.5); long extra = 0;
    if (beyond) {
        for (auto &f : q.frames) {
            auto cam = [&]() { return r.chance(0.5) ? uint32_t(s.cams.size()) + uint32_t(r.range(0, 3)) : r.chance(0.5) ? 0xFFFFFFFFu : uint32_t(s.cams.size()) + uint32_t(r.next() >> 33); };
            for (auto &o : f.obs) { while (r.chance(0.3)) { o[cam()] = Eigen::Vector2d(r.gauss(), r.gauss()); ++extra; } }
            for (int i = r.range(0, 3); i > 0; --i) { uint32_t n; do { n = uint32_t(r.next()); } while (used.count(n)); used.insert(n); f.ids.push_back(n); f.pt.push_back(-1); f.obs.push_back({{cam(), Eigen::Vector2d(r.gauss(), r.gauss())}}); ++extra; }
        }
    }
    auto got = alone(q, cfg, 7);
    double worst = 0;
    for (size_t i = 0; i < got.size(); ++i) {
        c.expect(got[i].ok == want[i].ok && got[i].t == want[i].t, "labels", "renamed tracks change whether a state is published, sample " + std::to_string(i));
        if (forked(got[i], want[i], 1, cfg.maxTrans)) { c.count("left at a tie of the key frame policy"); break; }
        if (got[i].ok) { double d = (got[i].p.cast<double>() - want[i].p.cast<double>()).cwiseAbs().maxCoeff(); worst = std::max(worst, d); }
    }
    c.peak("difference", worst);
    c.near(worst, 0, 4e-4, "labels", "largest difference of the states when tracks are renamed and listed in another order (naming " + std::to_string(style) + ")");
    c.count("states compared", double(got.size())); c.count("tracks renamed", double(to.size())); c.count("naming " + std::to_string(style)); c.count("observations in unknown cameras", double(extra)); if (want.back().ok) { c.nontrivial(); } c.hashd(s.tr.amp.x()); c.hash(uint64_t(style));
    c.sample = std::to_string(to.size()) + " tracks renamed, largest difference " + num(worst);
}

// ---- C32: the same rig described otherwise ----
static void description(Rng &r, Case &c) {
    Sim s = noisySim(r, r.uni(2.5, 5)); int kind = r.range(0, 6);        // 0 body axes, 1 order of the cameras, 2 unit of length, 3 all of them, 4 unit of time, 5 image axes, 6 cameras listed twice
    if (kind == 1 || kind == 3) { s.rig(r, r.range(3, 4), r.uni(0.12, 0.4)); }
    if (r.chance(0.5)) { s.ba = vec(r, 0.05); s.bg = vec(r, 0.01); }
    Sim::Config cfg; cfg.window = r.chance(0.15) ? r.range(10, 20) : r.range(3, 9); cfg.sigma = 2e-3; if (r.chance(0.7)) { cfg.ba = s.ba; cfg.bg = s.bg; }
    if (kind >= 2 && kind <= 4) { s.accelNoise = 2e-3; s.pixNoise = 0; s.gyroNoise = 1e-4; s.camShift = 0; cfg.ba = s.ba; cfg.bg = s.bg; }      // the linear triangulation of inexact rays depends on the unit, and so does the look for gravity
    s.maxTracks = r.range(14, 24); s.generate(r); describe(s, c);
    for (auto &f : s.frames) { if (f.ids.size() > 24) { f.ids.resize(24); f.pt.resize(24); f.obs.resize(24); } }
    if (kind != 4 && r.chance(0.4)) { double from = s.tr.t0 + s.tr.ramp * r.uni(0.2, 1); s.frames.erase(s.frames.begin(), std::find_if(s.frames.begin(), s.frames.end(), [&](const Sim::FrameS &f) { return f.t >= from; })); c.count("first frames in motion"); }
    auto want = alone(s, cfg, 99);
    Sim q = s; Sim::Config k = cfg; Q4 A = Q4::Identity(); double u = 1, ut = 1; std::vector<uint32_t> to(s.cams.size()); for (size_t i = 0; i < to.size(); ++i) { to[i] = uint32_t(i); }
    if (kind == 0 || kind == 3) {
        // gravity must not end up exactly opposite to the world's, where the heading is free
        V3 up = s.tr.at(0).q.conjugate() * V3::UnitZ(); do { A = Q4(r.gauss(), r.gauss(), r.gauss(), r.gauss()).normalized(); } while ((A * up).z() < -0.9);
        for (auto &m : q.imu) { m.gyro = A * m.gyro; m.accel = A * m.accel; } for (auto &m : q.cams) { m.q_bc = A * m.q_bc; m.p_bc = A * m.p_bc; } k.ba = A * k.ba; k.bg = A * k.bg;
    }
    if (kind == 1 || kind == 3) {
        std::vector<uint32_t> o(to.begin() + 1, to.end()); r.shuffle(o); std::copy(o.begin(), o.end(), to.begin() + 1); auto cams = q.cams;
        for (size_t i = 0; i < to.size(); ++i) { q.cams[to[i]] = cams[i]; }
        for (auto &f : q.frames) { for (auto &ob : f.obs) { std::map<uint32_t, Eigen::Vector2d> n; for (auto &e : ob) { n[to[e.first]] = e.second; } ob = n; } }
    }
    if (kind == 2 || kind == 3) {
        u = r.pick(std::vector<double>{0.5, 2}); q.tr.g *= u; for (auto &m : q.imu) { m.accel *= u; } for (auto &m : q.cams) { m.p_bc *= u; }
        k.ba *= u; k.maxTrans *= u; k.na *= u * u; k.nwa *= u * u;
    }
    if (kind == 4) {
        ut = r.pick(std::vector<double>{0.5, 2, 8}); q.imuHz /= ut; q.tr.g /= ut * ut; for (auto &m : q.imu) { m.t *= ut; m.gyro /= ut; m.accel /= ut * ut; } for (auto &f : q.frames) { f.t *= ut; }
        k.ba /= ut * ut; k.bg /= ut; k.na /= std::pow(ut, 4); k.ng /= ut * ut; k.nwa /= std::pow(ut, 6); k.nwg /= std::pow(ut, 4);
    }
    if (kind == 5) {
        for (size_t i = 0; i < q.cams.size(); ++i) {
            double a = r.chance(0.3) ? M_PI_2 * r.range(1, 3) : r.uni(-M_PI, M_PI); Eigen::Rotation2Dd turn(a); q.cams[i].q_bc = (q.cams[i].q_bc * Q4(Eigen::AngleAxisd(a, V3::UnitZ()))).normalized();
            for (auto &f : q.frames) { for (auto &ob : f.obs) { auto it = ob.find(uint32_t(i)); if (it != ob.end()) { it->second = turn.inverse() * it->second; } } }
        }
    }
    if (kind == 6) {
        size_t n = q.cams.size(); std::vector<uint32_t> twin; for (int i = r.range(1, 3); i > 0; --i) { uint32_t of = uint32_t(r.range(1, int(n) - 1)); twin.push_back(of); q.cams.push_back(q.cams[of]); }
        for (auto &f : q.frames) { for (auto &ob : f.obs) { std::map<uint32_t, Eigen::Vector2d> m; for (auto &e : ob) { uint32_t to1 = e.first; for (size_t k = 0; k < twin.size(); ++k) { if (twin[k] == e.first && r.chance(0.5)) { to1 = uint32_t(n + k); } } m[to1] = e.second; } ob = m; } }
    }
    c.trace << "kind " << kind << ", turn " << A.coeffs().transpose() << ", unit " << u << ", of time " << ut << "\n";
    auto got = alone(q, k, 99); double wp = 0, wv = 0, wq = 0, wb = 0; bool up = false; Q4 H = Q4::Identity(); long n = 0;
    auto Q = [](const Eigen::Matrix<float, 16, 1> &x) { return Q4(double(x[9]), double(x[6]), double(x[7]), double(x[8])); };
    for (size_t i = 0; i < got.size(); ++i) {
        c.expect(got[i].ok == want[i].ok && got[i].t == want[i].t * ut, "states", "another description changes whether a state is published, sample " + std::to_string(i));
        if (!got[i].ok) { up = false; continue; }
        if (forked(got[i], want[i], u, cfg.maxTrans)) { c.count("left at a tie of the key frame policy"); break; }
        for (bool upd : {true, false}) {
            Eigen::Matrix<float, 16, 1> gf = upd ? got[i].u : got[i].p, wf = upd ? want[i].u : want[i].p; auto a = gf.cast<double>().eval(), b = wf.cast<double>().eval(); Q4 qa = Q(gf) * A, qb = Q(wf);
            if (!up) { up = true; Q4 d = qa * qb.conjugate(); H = Q4(Eigen::AngleAxisd(std::atan2(2 * (d.w() * d.z() + d.x() * d.y()), 1 - 2 * (d.y() * d.y() + d.z() * d.z())), V3::UnitZ())); }
            wp = std::max(wp, (a.head<3>() / u - H * b.head<3>()).norm()); wv = std::max(wv, (a.segment<3>(3) / u * ut - H * b.segment<3>(3)).norm()); wq = std::max(wq, vf::angleBetween(qa, H * qb));
            wb = std::max(wb, std::max((a.segment<3>(10) / u * ut * ut - A * b.segment<3>(10)).norm(), (a.segment<3>(13) * ut - A * b.segment<3>(13)).norm())); ++n;
        }
    }
    static const char *names[] = {"body axes", "camera order", "unit of length", "all", "unit of time", "image axes", "cameras listed twice"}; std::string w = names[kind];
    c.peak(w + ": position", wp); c.peak(w + ": velocity", wv); c.peak(w + ": attitude", wq); c.peak(w + ": biases", wb);
    c.near(wp, 0, 4e-4, "position", "largest difference of the positions, described with another " + w); c.near(wv, 0, 1e-3, "velocity", "largest difference of the velocities, described with another " + w);
    c.near(wq, 0, 1e-4, "attitude", "largest difference of the attitudes, described with another " + w); c.near(wb, 0, 1e-4, "biases", "largest difference of the biases, described with another " + w);
    c.count(w); c.count("states compared", double(n)); if (want.back().ok) { c.nontrivial(); } c.hashd(s.tr.amp.x()); c.hash(uint64_t(kind));
    c.sample = w + ": largest differences " + num(wp) + ", " + num(wv) + ", " + num(wq);
}

// ---- C36: all noises larger by the same factor ----
static void noiseScale(Rng &r, Case &c) {
    Sim s = noisySim(r, r.uni(2.5, 6)); describe(s, c); Sim::Config cfg; cfg.window = r.range(3, 10);
    auto draw = [&](double a, double b) { return double(float(std::pow(10.0, r.uni(a, b)))); };
    cfg.sigma = draw(-3.3, -2.3); cfg.na = draw(-3, -1); cfg.ng = draw(-3, -1.5); cfg.nwa = r.chance(0.15) ? 0 : draw(-5, -1); cfg.nwg = r.chance(0.15) ? 0 : draw(-6, -3);
    int j = r.chance(0.4) ? r.range(6, 15) : r.range(1, 5); if (r.chance(0.5)) { j = -std::min(j, 12); } double k = std::ldexp(1.0, 2 * j); Sim::Config big = cfg; big.sigma *= std::ldexp(1.0, j); big.na *= k; big.ng *= k; big.nwa *= k; big.nwg *= k;
    uint64_t stream = r.next() | 1; double gapAt = r.chance(0.3) ? r.uni(1, 4) : 1e9, gapLen = r.uni(0.05, 0.5);
    c.trace << "noises " << cfg.sigma << " " << cfg.na << " " << cfg.ng << " " << cfg.nwa << " " << cfg.nwg << ", variances times " << k << "\n";
    struct Snap { Out o; std::vector<Matrix> cov; };
    auto go = [&](const Sim::Config &x) {
        Rig rig(s, x, "scaled"); vf::randState = stream; std::vector<Snap> v; size_t frames = 0;
        while (rig.feed([&](size_t i) { return !(s.imu[i].t > gapAt && s.imu[i].t < gapAt + gapLen); })) {
            while (rig.b->RunOnce()) {} Snap n; n.o = take(*rig.b); auto &q = rig.b->MonitorPropagator();
            if (n.o.ok && rig.nextFrame != frames) { frames = rig.nextFrame; n.cov = {q.items.front()->imuCov, q.items.back()->imuCov, q.items.back()->imuExCamCov, q.exCamCov}; } v.push_back(n);
        }
        return v;
    };
    auto a = go(cfg), b = go(big); c.expect(a.size() == b.size(), "length", "different numbers of states"); long up = 0, entries = 0;
    for (size_t i = 0; i < a.size(); ++i) {
        c.expect(same(a[i].o, b[i].o), "states", "with all variances of the noises times " + num(k) + " sample " + std::to_string(i) + " gives another state: position " + num(b[i].o.p[0]) + " " + num(b[i].o.p[1]) + " " + num(b[i].o.p[2]) + " instead of " + num(a[i].o.p[0]) + " " + num(a[i].o.p[1]) + " " + num(a[i].o.p[2]));
        up += a[i].o.ok; c.expect(a[i].cov.size() == b[i].cov.size(), "covariance", "covariances at other frames");
        for (size_t m = 0; m < a[i].cov.size(); ++m) {
            c.expect(a[i].cov[m].rows() == b[i].cov[m].rows() && a[i].cov[m].cols() == b[i].cov[m].cols(), "covariance", "covariance of another size"); entries += a[i].cov[m].size();
            c.expect(a[i].cov[m] * float(k) == b[i].cov[m], "covariance", "with all variances of the noises times " + num(k) + " the covariance after sample " + std::to_string(i) + " is not the same times that");
        }
    }
    c.count("states compared", double(a.size())); c.count("covariance entries compared", double(entries)); if (up > 20) { c.nontrivial(); } c.hash(stream); c.hash(uint64_t(j + 100)); c.hashd(cfg.sigma);
    c.sample = "variances times " + num(k) + ", " + std::to_string(up) + " published states the same";
}
// ---- C37: what measures nothing ----
static void nothing(Rng &r, Case &c) {
    Sim s = noisySim(r, r.uni(2, 4)); if (r.chance(0.5)) { s.rig(r, 2, r.uni(0.12, 0.4)); s.maxTracks = 24; s.generate(r); } describe(s, c);
    for (auto &f : s.frames) { if (f.ids.size() > 24) { f.ids.resize(24); f.pt.resize(24); f.obs.resize(24); } }
    Sim::Config cfg; cfg.window = r.range(3, 9); cfg.sigma = 2e-3; if (r.chance(0.4)) { cfg.minTracked = r.range(10, 24); }
    auto want = alone(s, cfg, 99);
    Sim q = s; bool blind = r.chance(0.5), once = r.chance(0.5), hollow = r.chance(0.5) || (!blind && !once); long extra = 0; double crowd = r.chance(0.1) ? 1.1 : 0.1; std::set<uint32_t> used; for (auto &f : s.frames) { used.insert(f.ids.begin(), f.ids.end()); }
    auto fresh = [&]() { uint32_t n; do { n = r.chance(0.5) ? uint32_t(r.next()) : uint32_t(r.range(0, 3000)); } while (used.count(n)); used.insert(n); return n; };
    if (blind) { size_t n = q.cams.size(); q.rig(r, int(n) + r.range(1, 3), 0.2); for (size_t i = 0; i < n; ++i) { q.cams[i] = s.cams[i]; } c.count("cameras without observations", double(q.cams.size() - n)); }
    std::vector<uint32_t> names; if (hollow) { for (int i = r.range(1, 30); i > 0; --i) { names.push_back(fresh()); } }
    for (auto &f : q.frames) {
        auto put = [&](uint32_t id, std::map<uint32_t, Eigen::Vector2d> o) { size_t at = size_t(r.range(0, int(f.ids.size()))); f.ids.insert(f.ids.begin() + long(at), id); f.pt.insert(f.pt.begin() + long(at), -1); f.obs.insert(f.obs.begin() + long(at), o); ++extra; };
        if (once) { for (int i = r.chance(crowd) ? r.range(20, 60) : r.range(0, 6); i > 0; --i) { put(fresh(), {{uint32_t(r.range(0, int(s.cams.size()) - 1)), Eigen::Vector2d(r.gauss(), r.gauss()) * 0.5}}); } }
        for (uint32_t id : names) { if (r.chance(0.7)) { put(id, {}); } }
    }
    auto got = alone(q, cfg, 7); double worst = 0;
    for (size_t i = 0; i < got.size(); ++i) {
        c.expect(got[i].ok == want[i].ok && got[i].t == want[i].t && got[i].tu == want[i].tu, "states", "what measures nothing changes whether or when a state is published, sample " + std::to_string(i));
        if (forked(got[i], want[i], 1, cfg.maxTrans)) { c.count("left at a tie of the key frame policy"); break; }
        if (got[i].ok) { worst = std::max(worst, double((got[i].p - want[i].p).cwiseAbs().maxCoeff())); worst = std::max(worst, double((got[i].u - want[i].u).cwiseAbs().maxCoeff())); }
    }
    std::string w = std::string(blind ? "cameras without observations " : "") + (once ? "tracks seen once " : "") + (hollow ? "tracks without measurements" : "");
    c.peak("difference", worst); c.near(worst, 0, 4e-4, "influence", "largest difference of the states with " + w); c.count("states compared", double(got.size())); c.count("tracks added to messages", double(extra)); if (want.back().ok) { c.nontrivial(); } c.hashd(s.tr.amp.x()); c.hash(uint64_t(extra));
    c.sample = w + ": largest difference " + num(worst);
}

static void turnedAttitude(Rng &r, Case &c) {
    V3 g(0, 0, 9.8); IMUFullState::gravity_w = g.cast<float>(); AttitudeEstimate a, b; Q4 A, q0 = Q4(Eigen::AngleAxisd(r.uni(-0.5, 0.5), V3(r.gauss(), r.gauss(), 0.1).normalized())); V3 up = q0.conjugate() * V3::UnitZ(); do { A = Q4(r.gauss(), r.gauss(), r.gauss(), r.gauss()).normalized(); } while ((A * up).z() < -0.9);
    V3 ba = r.chance(0.5) ? vec(r, 0.05) : V3(0, 0, 0), bg = r.chance(0.5) ? vec(r, 0.01) : V3(0, 0, 0); a.SetBias(ba.cast<float>(), bg.cast<float>()); b.SetBias((A * ba).cast<float>(), (A * bg).cast<float>());
    double t = 0, noise = r.uni(0, 2), turn = r.uni(0, 0.5), worst = 0; Q4 H = Q4::Identity(); int n = r.range(50, 600); double dt = r.uni(0.002, 0.02); V3 push = vec(r, noise);
    for (int k = 0; k < n; ++k) {
        if (k % 50 == 0) { push = vec(r, noise); } V3 acc = up * 9.8 + ba, w = bg; if (k) { acc += push + vec(r, 0.1 * noise); w += vec(r, turn); }
        bool x = a.Propagate(acc.cast<float>(), w.cast<float>(), t), y = b.Propagate((A * acc).cast<float>(), (A * w).cast<float>(), t); c.expect(x && y, "attitude-start", "the attitude estimator refuses a sample"); t += dt;
        Q4 qa = a.items.back()->q_wb.cast<double>(), qb = b.items.back()->q_wb.cast<double>() * A;
        if (!k) { Q4 d = qb * qa.conjugate(); H = Q4(Eigen::AngleAxisd(std::atan2(2 * (d.w() * d.z() + d.x() * d.y()), 1 - 2 * (d.y() * d.y() + d.z() * d.z())), V3::UnitZ())); }
        worst = std::max(worst, vf::angleBetween(qb, H * qa));
    }
    c.peak("attitude estimator", worst); c.near(worst, 0, 1e-4, "attitude-estimator", "largest difference of the attitude estimates in other body axes over " + std::to_string(n) + " samples"); c.count("attitudes compared", n); c.nontrivial(); c.hashd(A.x()); c.hash(uint64_t(n)); c.sample = std::to_string(n) + " attitudes, largest difference " + num(worst);
}
// ---- C33: when it is run, what it refuses and what is asked leave no trace ----
// A step that fails has still used up its message.
static void drain(Backend &b, const std::function<void()> &then = nullptr) { while (b.MonitorDataLoader().MonitorWaitingImu() + b.MonitorDataLoader().MonitorWaitingFeatures() > 0) { b.RunOnce(); if (then) { then(); } } }
static void tell(Backend &b) {
    std::ostringstream sink; auto *old = std::cout.rdbuf(sink.rdbuf()); auto &fm = const_cast<FrameManager &>(b.MonitorFrameManager()); auto &fe = const_cast<FeatureManager &>(b.MonitorFeatureManager());
    fm.Information(); fe.Information(); for (auto &f : fm.frames) { f->Information(); (void)fm.IsKeyFrame(f); (void)f->GetCovisibleFeatures(fm.frames.front()); } for (auto &f : fe.features) { f.second->Information(); } (void)fm.NeedMarginalize(); (void)fm.GetMaxFrameID();
    std::cout.rdbuf(old);
}
static void schedule(Rng &r, Case &c) {
    Sim s = noisySim(r, r.uni(2, 4)); describe(s, c); Sim::Config cfg; cfg.window = r.range(3, 9); uint64_t stream = r.next() | 1;
    double dropImu = r.chance(0.3) ? r.uni(0, 0.05) : 0, gapAt = r.chance(0.3) ? r.uni(1, 3) : 1e9, gapLen = r.uni(0.1, 0.5); std::vector<bool> use(s.imu.size(), true), useF(s.frames.size(), true);
    for (size_t i = 1; i < use.size(); ++i) { use[i] = !r.chance(dropImu) && !(s.imu[i].t > gapAt && s.imu[i].t < gapAt + gapLen); }
    for (size_t i = 0; i < useF.size(); ++i) { useF[i] = !r.chance(dropImu * 4); }
    use.back() = true;
    std::map<size_t, Out> want; size_t inits = 0;
    {
        Rig rig(s, cfg, "alone"); vf::randState = stream;
        while (rig.feed([&](size_t k) { return use[k]; }, [&](size_t k) { return useF[k]; })) { if (!use[rig.nextImu - 1]) { continue; } drain(*rig.b); want[rig.nextImu] = take(*rig.b); inits += want[rig.nextImu].ok; }
    }
    size_t most = r.pick(std::vector<size_t>{1, 3, 10, 50, 400, 100000}), next = 0; double junk = r.chance(0.5) ? r.uni(0, 0.5) : 0; bool ask = r.chance(0.5); long compared = 0, refused = 0;
    Rig rig(s, cfg, "batched"); vf::randState = stream; Backend &b = *rig.b; std::vector<size_t> fedImu; size_t fedFrames = 0;
    auto nonsense = [&]() {
        switch (r.range(0, 5)) {
            case 0: b.GetIMUMessage(nullptr); break;
            case 1: b.GetFeaturesMessage(nullptr); break;
            case 2: { auto m = std::make_shared<FeaturesMessage>(); m->timeStamp = s.origin + r.uni(-5, 50); m->ids = {1, 2, 3}; b.GetFeaturesMessage(m); break; }
            case 3: if (!fedImu.empty()) { auto m = s.imuMsg(fedImu.back()); m->accel *= 3; if (r.chance(0.5)) { m->timeStamp -= r.uni(0, 3); } b.GetIMUMessage(m); } break;
            case 4: if (fedFrames) { auto m = s.featMsg(fedFrames - 1); m->timeStamp -= r.chance(0.3) ? 0 : r.uni(0, 3); b.GetFeaturesMessage(m); } break;
            default: if (!fedImu.empty()) { auto m = std::make_shared<IMUMessage>(*s.imuMsg(fedImu[r.next() % fedImu.size()])); m->gyro.setConstant(NAN); b.GetIMUMessage(m); } break;
        }
        ++refused;
    };
    while (r.chance(junk)) { nonsense(); }
    while (true) {
        bool more = rig.feed([&](size_t k) { return use[k]; }, [&](size_t k) { if (useF[k]) { fedFrames = k + 1; } return useF[k]; }); if (!more) { break; }
        bool here = use[rig.nextImu - 1]; if (here) { fedImu.push_back(rig.nextImu - 1); }
        // a stale frame counts as stale only against a frame that was taken
        while (fedFrames && r.chance(junk)) { nonsense(); }
        if (!here) { continue; }
        if (next == 0) { next = 1 + r.next() % most; }
        if (--next && rig.nextImu < s.imu.size()) { continue; }
        next = 0;
        drain(b, [&]() { if (ask && r.chance(0.3)) { take(b); } if (ask && r.chance(0.02)) { tell(b); } });
        if (ask) { for (int i = r.range(0, 3); i > 0; --i) { c.expect(!b.RunOnce(), "ran", "a step reports work though nothing waits"); } }
        Out o = take(b); const Out &w = want[rig.nextImu];
        c.expect(same(o, w), "schedule", "run in turns of up to " + std::to_string(most) + " samples with " + std::to_string(refused) + " refused messages, the state after " + std::to_string(rig.nextImu) + " samples differs: position " + num(o.p[0]) + " " + num(o.p[1]) + " " + num(o.p[2]) + ", run after each sample " + num(w.p[0]) + " " + num(w.p[1]) + " " + num(w.p[2]));
        ++compared;
    }
    c.count("states compared", double(compared)); c.count("messages refused", double(refused)); c.count("turns of up to " + std::to_string(most)); if (inits && (most > 1 || refused || ask)) { c.nontrivial(); } c.hash(stream); c.hash(most); c.hash(uint64_t(refused));
    c.sample = std::to_string(compared) + " turns of up to " + std::to_string(most) + " samples, " + std::to_string(refused) + " refused messages";
}

// ---- C38: frames that arrive late ----
static void late(Rng &r, Case &c) {
    Sim s = noisySim(r, r.uni(2.5, 6)); describe(s, c); Sim::Config cfg; cfg.window = r.range(3, 10); uint64_t stream = r.next() | 1;
    for (size_t i = s.frames.size(); i-- > 1;) { if (r.chance(0.05)) { s.frames.erase(s.frames.begin() + long(i)); } }
    struct Snap { Out o; std::vector<Matrix> cov; };
    auto snap = [](Backend &b) { Snap n; n.o = take(b); auto &q = b.MonitorPropagator(); if (n.o.ok) { n.cov = {q.items.front()->imuCov, q.items.back()->imuCov, q.items.back()->imuExCamCov, q.exCamCov}; } return n; };
    // the frame k is handed over before the sample due[k]; punctual ones before the first sample not older than they are
    std::vector<size_t> punctual, due; for (auto &f : s.frames) { size_t i = 0; while (i < s.imu.size() && s.imu[i].t + 1e-9 < f.t) { ++i; } punctual.push_back(i); }
    int kind = r.range(0, 3); int most = r.range(1, 3 * s.camEvery); double hang = r.uni(0.02, 0.1);
    size_t stallFrom = r.chance(0.4) ? 0 : size_t(r.uni(0.8, 4) * s.imuHz), stallTo = stallFrom + size_t(r.uni(0.2, 2) * s.imuHz);
    for (size_t k = 0; k < punctual.size(); ++k) {
        size_t d = punctual[k];
        if (kind == 0) { d += size_t(most); } else if (kind == 1) { d += size_t(r.range(0, most)); } else if (kind == 2) { if (r.chance(hang)) { d += size_t(r.range(1, 6 * s.camEvery)); } }
        else if (d >= stallFrom && d < stallTo) { d = stallTo; }
        due.push_back(std::max(d, k ? due.back() : 0));
    }
    struct Run { std::vector<std::pair<size_t, Snap>> at; std::map<double, Out> updates; };
    auto go = [&](const std::vector<size_t> &at) {
        Rig rig(s, cfg, "late"); vf::randState = stream; Run v; size_t f = 0, ready = 0; double newest = NAN;
        auto step = [&]() { auto &w = rig.b->MonitorFrameManager().frames; if (!w.empty() && w.back()->timeStamp != newest) { newest = w.back()->timeStamp; v.updates[newest] = take(*rig.b); } };
        for (size_t i = 0; i < s.imu.size() + 1; ++i) {
            bool end = i == s.imu.size();
            while (f < at.size() && (at[f] <= i || end)) { rig.b->GetFeaturesMessage(s.featMsg(f)); ++f; }
            if (!end) { rig.b->GetIMUMessage(s.imuMsg(i)); } drain(*rig.b, step); while (ready < punctual.size() && punctual[ready] <= i) { ++ready; }
            v.at.push_back({f, f == ready ? snap(*rig.b) : Snap()});
            if (f < ready) { c.peak("samples processed beyond a frame", double(i - punctual[f])); c.peak("frames waited for", double(ready - f)); }
        }
        return v;
    };
    auto a = go(punctual), b = go(due); long compared = 0, up = 0, lateOnes = 0; for (size_t k = 0; k < due.size(); ++k) { lateOnes += due[k] > punctual[k]; }
    static const char *names[] = {"a constant delay", "random delays", "a few late ones", "a stall"}; auto where = [](const Out &o) { return o.ok ? "position " + num(o.u[0]) + " " + num(o.u[1]) + " " + num(o.u[2]) : std::string("nothing"); };
    c.expect(a.updates.size() == b.updates.size(), "frames", "late frames change how many frames are processed");
    for (auto &e : a.updates) {
        auto it = b.updates.find(e.first); if (it == b.updates.end()) { c.expect(false, "frames", "a late frame is not processed"); continue; } const Out &x = e.second, &y = it->second; up += x.ok;
        c.expect(x.ok == y.ok && x.tu == y.tu && x.u == y.u, "updates", std::string("with ") + names[kind] + " of the frames the state of the frame at " + num(e.first) + " s differs: " + where(y) + ", punctually " + where(x)); c.count("frames compared");
    }
    for (size_t i = 0; i < a.at.size(); ++i) {
        if (b.at[i].first != a.at[i].first) { continue; }
        ++compared; const Snap &x = a.at[i].second, &y = b.at[i].second;
        c.expect(same(x.o, y.o), "states", std::string("with ") + names[kind] + " of the frames the state after sample " + std::to_string(i) + " differs though all frames have arrived: " + where(y.o) + ", punctually " + where(x.o));
        for (size_t m = 0; m < x.cov.size() && m < y.cov.size(); ++m) { c.expect(x.cov[m].rows() == y.cov[m].rows() && x.cov[m].cols() == y.cov[m].cols() && x.cov[m] == y.cov[m], "covariance", "the covariances after sample " + std::to_string(i) + " differ though all frames have arrived"); c.count("covariance entries compared", double(x.cov[m].size())); }
    }
    c.count("states compared", double(compared)); c.count("late frames", double(lateOnes)); c.count(names[kind]); if (up > 5 && lateOnes) { c.nontrivial(); } c.hash(stream); c.hash(uint64_t(kind)); c.hash(uint64_t(lateOnes));
    c.sample = std::string(names[kind]) + ": " + std::to_string(lateOnes) + " of " + std::to_string(due.size()) + " frames late, " + std::to_string(compared) + " states the same";
}

// ---- C39: the same rig and motion in a mirror ----
static void mirror(Rng &r, Case &c) {
    Sim s = noisySim(r, r.uni(2.5, 6)); if (r.chance(0.5)) { s.ba = vec(r, 0.05); s.bg = vec(r, 0.01); } if (r.chance(0.3)) { s.rig(r, r.range(2, 4), r.uni(0.12, 0.4)); }
    Sim::Config cfg; cfg.window = r.chance(0.15) ? r.range(10, 20) : r.range(3, 9); cfg.sigma = 2e-3; if (r.chance(0.7)) { cfg.ba = s.ba; cfg.bg = s.bg; }
    s.maxTracks = r.range(14, 24); s.generate(r); describe(s, c);
    for (auto &f : s.frames) { if (f.ids.size() > 24) { f.ids.resize(24); f.pt.resize(24); f.obs.resize(24); } }
    if (r.chance(0.4)) { double from = s.tr.t0 + s.tr.ramp * r.uni(0.2, 1); s.frames.erase(s.frames.begin(), std::find_if(s.frames.begin(), s.frames.end(), [&](const Sim::FrameS &f) { return f.t >= from; })); c.count("first frames in motion"); }
    if (r.chance(0.4)) { long wrong = 0; for (auto &f : s.frames) { for (auto &o : f.obs) { for (auto &e : o) { if (r.chance(0.01)) { e.second += Eigen::Vector2d(r.gauss(), r.gauss()) * 0.06; ++wrong; } } } } c.count("wrong observations", double(wrong)); }
    auto want = alone(s, cfg, 99);
    using M3 = Eigen::Matrix3d; int axis = r.range(0, 5); V3 n = axis < 3 ? V3(V3::Unit(axis)) : vec(r, 1).normalized(), up = s.tr.at(0).q.conjugate() * V3::UnitZ();
    auto flip = [](const V3 &x) { return M3(M3::Identity() - 2 * x * x.transpose()); }; M3 B = flip(n);
    while ((B * up).z() < -0.9) { n = vec(r, 1).normalized(); B = flip(n); axis = 3; }                                 // where the heading is free
    bool lines = r.chance(0.5); M3 W = flip(V3::UnitY()), K = flip(lines ? V3::UnitX() : V3::UnitY());                  // the images: columns or lines
    Sim q = s; Sim::Config k = cfg; for (auto &m : q.imu) { m.gyro = -(B * m.gyro); m.accel = B * m.accel; } k.ba = B * k.ba; k.bg = -(B * k.bg);
    for (auto &m : q.cams) { m.q_bc = Q4(M3(B * m.q_bc.toRotationMatrix() * K)).normalized(); m.p_bc = B * m.p_bc; }
    for (auto &f : q.frames) { for (auto &o : f.obs) { for (auto &e : o) { e.second[lines ? 0 : 1] *= -1; } } }
    c.trace << "mirror normal " << n.transpose() << "\n";
    auto got = alone(q, k, 99); double wp = 0, wv = 0, wq = 0, wb = 0; bool aligned = false; M3 H = M3::Identity(); long states = 0;
    auto R = [](const Eigen::Matrix<float, 16, 1> &x) { return Q4(double(x[9]), double(x[6]), double(x[7]), double(x[8])).normalized().toRotationMatrix(); };
    for (size_t i = 0; i < got.size(); ++i) {
        c.expect(got[i].ok == want[i].ok && got[i].t == want[i].t && got[i].tu == want[i].tu, "states", "a mirror changes whether or when a state is published, sample " + std::to_string(i));
        if (!got[i].ok) { aligned = false; continue; }
        if (forked(got[i], want[i], 1, cfg.maxTrans)) { c.count("left at a tie of the key frame policy"); break; }
        for (bool upd : {true, false}) {
            Eigen::Matrix<float, 16, 1> gf = upd ? got[i].u : got[i].p, wf = upd ? want[i].u : want[i].p; auto a = gf.cast<double>().eval(), b = wf.cast<double>().eval(); M3 ra = R(gf), rb = W * R(wf) * B;
            if (!aligned) { aligned = true; Q4 d(M3(ra * rb.transpose())); H = Eigen::AngleAxisd(std::atan2(2 * (d.w() * d.z() + d.x() * d.y()), 1 - 2 * (d.y() * d.y() + d.z() * d.z())), V3::UnitZ()).toRotationMatrix(); }
            wp = std::max(wp, (a.head<3>() - H * W * b.head<3>()).norm()); wv = std::max(wv, (a.segment<3>(3) - H * W * b.segment<3>(3)).norm()); wq = std::max(wq, vf::angleBetween(Q4(ra), Q4(M3(H * rb))));
            wb = std::max(wb, std::max((a.segment<3>(10) - B * b.segment<3>(10)).norm(), (a.segment<3>(13) + B * b.segment<3>(13)).norm())); ++states;
        }
    }
    c.peak("position", wp); c.peak("velocity", wv); c.peak("attitude", wq); c.peak("biases", wb);
    c.near(wp, 0, 4e-4, "position", "largest difference of the positions from those of the mirrored world"); c.near(wv, 0, 1e-3, "velocity", "largest difference of the velocities from those of the mirrored world");
    c.near(wq, 0, 1e-4, "attitude", "largest difference of the attitudes from those of the mirrored world"); c.near(wb, 0, 1e-4, "biases", "largest difference of the biases from those of the mirrored world");
    c.count(axis < 3 ? "mirrors across a body axis" : "mirrors across a slant plane"); c.count("states compared", double(states)); if (want.back().ok) { c.nontrivial(); } c.hashd(s.tr.amp.x()); c.hashd(n.x());
    c.sample = "mirrored: largest differences " + num(wp) + ", " + num(wv) + ", " + num(wq) + " in " + std::to_string(states) + " states";
}

// ---- C40: standing still ----
// lone: tracks which only one camera sees, and that without parallax, are left in
static void rests(Rng &r, Case &c, bool lone) {
    Sim s; s.random(r); bool moved = lone || r.chance(0.6), noisy = lone || r.chance(0.6); double rest = r.uni(10, 45); s.imuHz = r.pick(std::vector<double>{100, 200}); s.camEvery = int(s.imuHz / r.pick(std::vector<double>{5, 10, 20})); s.camShift = r.chance(0.5) ? 0 : r.uni(-0.5, 0.5);
    if (moved) { s.tr.ramp = r.uni(1, 2); s.tr.t1 = s.tr.t0 + s.tr.ramp + r.uni(1, 6); s.duration = s.tr.t1 + s.tr.ramp + rest; } else { s.tr.t0 = 1e6; s.duration = rest; }
    s.landmarks(r, 300, 2, 10); if (noisy) { s.pixNoise = r.pick(std::vector<double>{5e-4, 1e-3, 2e-3}); s.gyroNoise = 1e-3; s.accelNoise = 0.02; }
    if (r.chance(0.5)) { s.ba = vec(r, 0.05).cast<float>().cast<double>(); s.bg = vec(r, 0.01).cast<float>().cast<double>(); }
    s.maxTracks = r.range(14, 40); s.generate(r); describe(s, c);
    Sim::Config cfg; cfg.window = r.range(3, 10); cfg.ba = s.ba; cfg.bg = s.bg; cfg.sigma = noisy ? s.pixNoise * 1.5 : 2e-3; cfg.minTracked = lone ? 41 : r.pick(std::vector<int>{0, 12, r.range(0, 41), 41});       // beyond what is tracked every frame is a key frame
    if (!lone) { for (auto &f : s.frames) { if (f.t < s.duration - rest - 0.5) { continue; } Sim::FrameS k; k.t = f.t; for (size_t i = 0; i < f.ids.size(); ++i) { if (f.obs[i].size() > 1) { k.ids.push_back(f.ids[i]); k.pt.push_back(f.pt[i]); k.obs.push_back(f.obs[i]); } } f = k; } }
    if (s.frames.back().ids.size() < 12) { c.count("left for few tracks"); return; }
    double from = s.duration - rest + 1;
    Rig rig(s, cfg); bool up = false; V3 p0; Q4 q0; double ep = 0, ev = 0, et = 0, eh = 0, early = 0; long n = 0; double half = s.duration - rest / 2;
    while (rig.feed()) {
        while (rig.b->RunOnce()) {}
        Published p = publish(*rig.b, true); if (!p.ok) { c.expect(!up, "lost", "nothing is published at " + num(s.imu[rig.nextImu - 1].t) + " s, after initialisation"); continue; }
        if (p.t < from) { up = true; continue; } if (!n) { p0 = p.p; q0 = p.q; } up = true; ++n;
        ep = std::max(ep, (p.p - p0).norm()); if (p.t < half) { early = ep; } ev = std::max(ev, p.v.norm()); et = std::max(et, vf::angleBetween(Q4::FromTwoVectors(p.q.conjugate() * V3::UnitZ(), q0.conjugate() * V3::UnitZ()), Q4::Identity())); eh = std::max(eh, vf::angleBetween(p.q, q0));
    }
    c.expect(n > 0, "no-start", "never initialised"); std::string w = std::string(moved ? "after a motion" : "from the start") + (noisy ? ", noisy" : ", exact");
    double k = noisy ? s.pixNoise / 1e-3 : 1, tp = noisy ? 0.03 + 0.04 * k : moved ? 5e-4 : 2e-5, tv = noisy ? 0.05 + 0.03 * k : moved ? 1.5e-3 : 2e-5, ta = noisy ? 0.006 + 0.006 * k : moved ? 2e-4 : 4e-6;
    if (lone) { c.count("diverged", ep > 1 || !std::isfinite(ep)); if (ep > tp || ev > tv || eh > ta || !std::isfinite(ep)) { c.expect(false, "diverges", "with tracks which only one camera sees at rest the position goes " + num(ep) + " m away"); } c.nontrivial(); c.hashd(rest); c.sample = "with one camera's tracks: wandered " + num(ep) + " m"; return; }
    c.peak(w + ": position", ep / k); c.peak(w + ": velocity", ev / k); c.peak(w + ": attitude", eh / k); c.peak(w + ": tilt", et / k);
    c.count(w); if (noisy && !lone) { c.count("sum of wanderings", ep / k); c.count("sum of turns", eh / k); c.count("sum of wanderings in the first half", early / k); c.count("noisy rests"); }
    c.near(ep, 0, tp, "wanders", "how far the position goes in " + num(rest) + " s of rest " + w); c.near(ev, 0, tv, "moves", "speed in " + num(rest) + " s of rest " + w); c.near(eh, 0, ta, "turns", "how far the attitude goes in " + num(rest) + " s of rest " + w);
    c.count("states compared", double(n)); c.nontrivial(); c.hashd(s.tr.amp.x()); c.hashd(rest); c.sample = num(rest) + " s at rest " + w + ": wandered " + num(ep) + " m, " + num(eh);
}

static void still(Rng &r, Case &c) { rests(r, c, false); }
static void oneCamera(Rng &, Case &c) { Rng r(c.index ? 45 : 42); vf::randState = 40; rests(r, c, true); }

// ---- C41: biases the configuration knows ----
static void knownBias(Rng &r, Case &c) {
    Sim s = noisySim(r, r.uni(2.5, 6)); s.maxTracks = r.range(14, 24); s.generate(r); describe(s, c);
    for (auto &f : s.frames) { if (f.ids.size() > 24) { f.ids.resize(24); f.pt.resize(24); f.obs.resize(24); } }
    Sim::Config cfg; cfg.window = r.chance(0.15) ? r.range(10, 20) : r.range(3, 9); cfg.sigma = 2e-3; if (r.chance(0.3)) { cfg.ba = vec(r, 0.01); cfg.bg = vec(r, 0.002); }
    if (r.chance(0.4)) { double from = s.tr.t0 + s.tr.ramp * r.uni(0.2, 1); s.frames.erase(s.frames.begin(), std::find_if(s.frames.begin(), s.frames.end(), [&](const Sim::FrameS &f) { return f.t >= from; })); c.count("first frames in motion"); }
    double gapAt = r.chance(0.3) ? r.uni(1, 4) : 1e9, gapLen = r.uni(0.1, 0.4);
    auto go = [&](Sim &x, const Sim::Config &k) { Rig rig(x, k, "biased"); vf::randState = 99; std::vector<Out> o; while (rig.feed([&](size_t i) { return !(x.imu[i].t > gapAt && x.imu[i].t < gapAt + gapLen); })) { while (rig.b->RunOnce()) {} o.push_back(take(*rig.b)); } return o; };
    auto want = go(s, cfg); double size = r.pick(std::vector<double>{0.3, 1, 3}); V3 ba = vec(r, 0.1 * size).cast<float>().cast<double>(), bg = vec(r, 0.02 * size).cast<float>().cast<double>();
    Sim q = s; Sim::Config k = cfg; k.ba += ba; k.bg += bg; for (auto &m : q.imu) { m.accel += ba; m.gyro += bg; }
    c.trace << "biases " << ba.transpose() << " / " << bg.transpose() << "\n";
    auto got = go(q, k); double wp = 0, wv = 0, wq = 0, wb = 0; long states = 0;
    auto Q = [](const Eigen::Matrix<float, 16, 1> &x) { return Q4(double(x[9]), double(x[6]), double(x[7]), double(x[8])); };
    for (size_t i = 0; i < got.size(); ++i) {
        c.expect(got[i].ok == want[i].ok && got[i].t == want[i].t && got[i].tu == want[i].tu, "states", "a known bias changes whether or when a state is published, sample " + std::to_string(i));
        if (!got[i].ok) { continue; }
        if (forked(got[i], want[i], 1, cfg.maxTrans)) { c.count("left at a tie of the key frame policy"); break; }
        for (bool upd : {true, false}) {
            Eigen::Matrix<float, 16, 1> gf = upd ? got[i].u : got[i].p, wf = upd ? want[i].u : want[i].p; auto a = gf.cast<double>().eval(), b = wf.cast<double>().eval();
            wp = std::max(wp, (a.head<3>() - b.head<3>()).norm()); wv = std::max(wv, (a.segment<3>(3) - b.segment<3>(3)).norm()); wq = std::max(wq, vf::angleBetween(Q(gf), Q(wf)));
            wb = std::max(wb, std::max((a.segment<3>(10) - ba - b.segment<3>(10)).norm(), (a.segment<3>(13) - bg - b.segment<3>(13)).norm())); ++states;
        }
    }
    c.peak("position", wp); c.peak("velocity", wv); c.peak("attitude", wq); c.peak("biases", wb);
    c.near(wp, 0, 4e-4, "position", "largest difference of the positions, with known biases"); c.near(wv, 0, 1e-3, "velocity", "largest difference of the velocities, with known biases");
    c.near(wq, 0, 1e-4, "attitude", "largest difference of the attitudes, with known biases"); c.near(wb, 0, 1e-4, "biases", "largest difference of the estimated biases from the known ones, against the run without");
    c.count("states compared", double(states)); if (want.back().ok) { c.nontrivial(); } c.hashd(s.tr.amp.x()); c.hashd(ba.x());
    c.sample = "biases of " + num(ba.norm()) + " and " + num(bg.norm()) + ": largest differences " + num(wp) + ", " + num(wv) + ", " + num(wq);
}

// ---- C42: limits which are not reached ----
static void limits(Rng &r, Case &c) {
    Sim s = noisySim(r, r.uni(3, 6)); if (r.chance(0.5)) { s.tr.t0 = r.uni(0.5, 2); } if (r.chance(0.3)) { s.maxTracks = r.range(12, 18); } s.generate(r); describe(s, c);
    int kind = r.range(0, 4);            // distance never reached, distance always passed, tracks never too few, tracks always too few, window never full
    Sim::Config cfg; cfg.window = r.chance(0.25) ? r.range(10, 25) : r.range(3, 9); cfg.minTracked = r.range(0, 20); cfg.maxTrans = r.uni(0.05, 0.5); cfg.sigma = r.uni(1e-3, 4e-3);
    if (kind == 0) { cfg.maxTrans = 1e6; } if (kind == 1) { cfg.maxTrans = 0; cfg.minTracked = 0; } if (kind == 2) { cfg.minTracked = 0; } if (kind == 3) { cfg.minTracked = 100000; }
    double resetAt = r.chance(0.4) ? r.uni(1.5, 3) : 1e9, gapAt = r.chance(0.3) ? r.uni(1, 4) : 1e9, gapLen = r.uni(0.1, 0.4); uint64_t stream = r.next() | 1;
    std::vector<size_t> fill; float dmin = 1e9f, dmax = 0; int tmin = 100000, tmax = 0; long pairs = 0;
    auto go = [&](const Sim::Config &k, bool first) {
        Rig rig(s, k, "limit"); vf::randState = stream; std::vector<Out> o; bool was = false; double stamp = -1;
        while (rig.feed([&](size_t i) { return !(s.imu[i].t > gapAt && s.imu[i].t < gapAt + gapLen); })) {
            double t = s.imu[rig.nextImu - 1].t; if (t >= resetAt && !was) { was = true; rig.b->Reset(); }
            while (rig.b->RunOnce()) {}
            o.push_back(take(*rig.b)); auto &fr = rig.b->MonitorFrameManager().frames; if (!first) { fill.push_back(fr.size()); }
            if (first && fr.size() >= 2 && fr.back()->timeStamp != stamp) {      // what the next decision will look at
                stamp = fr.back()->timeStamp; auto a = *std::next(fr.rbegin()), b = fr.back(); float d = (b->p_wb - a->p_wb).norm(); int n = 0;
                for (auto &f : b->features) { Vector2 x, y; if (a->features.count(f.first) && f.second->GetNorm(b->id, 0, x) && f.second->GetNorm(a->id, 0, y)) { ++n; } }
                dmin = std::min(dmin, d); dmax = std::max(dmax, d); tmin = std::min(tmin, n); tmax = std::max(tmax, n); ++pairs;
            }
        }
        return o;
    };
    auto want = go(cfg, true); if (!pairs) { c.count("never started"); return; }
    Sim::Config k = cfg; std::string what;
    if (kind == 0) { k.maxTrans = double(dmax) * (1 + 1e-6) + (r.chance(0.5) ? 0 : r.uni(0, 1)); what = "a greater distance"; }
    if (kind == 1) { k.maxTrans = double(dmin) * (1 - 1e-6) * (r.chance(0.5) ? 1 : r.uni(0, 1)); what = "a smaller distance"; }
    if (kind == 2) { k.minTracked = r.chance(0.5) ? tmin : r.range(0, tmin); what = "fewer tracks"; }
    if (kind == 3) { k.minTracked = r.chance(0.5) ? tmax + 1 : r.range(tmax + 1, 5000); what = "more tracks"; }
    if (kind == 4) { k.window = cfg.window + r.range(1, 12); what = "a larger window"; }
    c.trace << "kind " << kind << ": window " << k.window << ", tracks " << k.minTracked << ", distance " << k.maxTrans << "\n";
    auto got = go(k, false); long n = 0; c.expect(got.size() == want.size(), "length", "different numbers of states");
    for (size_t i = 0; i < got.size(); ++i) {
        if (kind == 4 && fill[i] > size_t(cfg.window)) { c.count("windows filled"); break; }
        c.expect(same(got[i], want[i]) && got[i].win == want[i].win, "limit", what + " changes the states from sample " + std::to_string(i) + ": position " + num(got[i].p[0]) + " instead of " + num(want[i].p[0])); n += got[i].ok;
    }
    c.count("states compared", double(n)); c.count(what); if (n > 20) { c.nontrivial(); } c.hash(stream); c.hash(uint64_t(kind));
    c.sample = what + ": " + std::to_string(n) + " states alike; distances " + num(dmin) + " to " + num(dmax) + ", tracks " + std::to_string(tmin) + " to " + std::to_string(tmax);
}

// ---- C35: a new start knows nothing of the run before it but the biases, the cameras, the attitude and the newest frame ----
static void newStart(Rng &r, Case &c) {
    Sim s = noisySim(r, 0.2); s.duration = r.uni(3.5, 7); if (r.chance(0.3)) { s.tr.amp *= 6; s.tr.freq /= 3; s.landmarks(r, 250, 2.0, 10.0); c.count("runs far from where they began"); } if (r.chance(0.5)) { s.tr.t1 = r.uni(1.5, 3); s.tr.t2 = s.tr.t1 + s.tr.ramp + 1; } s.origin = r.chance(0.5) ? 0 : r.uni(-1e3, 1e6); s.firstId = uint32_t(r.range(0, 1000)); if (r.chance(0.5)) { s.ba = vec(r, 0.02); s.bg = vec(r, 0.01); } s.generate(r); describe(s, c);
    double mono = r.chance(0.6) ? r.uni(0, 0.5) : 0, lost = r.chance(0.5) ? r.uni(0, 0.2) : 0;                     // observations by one camera only, tracks that pause
    for (auto &f : s.frames) { for (auto &o : f.obs) { if (o.size() > 1 && r.chance(mono)) { auto keep = *std::next(o.begin(), r.chance(0.7) ? 0 : 1); o = {keep}; } else if (r.chance(lost)) { o.clear(); } } }
    Sim::Config cfg; cfg.window = r.range(3, 9); cfg.sigma = r.pick(std::vector<double>{1e-3, 2e-3, 5e-3}); cfg.minTracked = r.range(0, 14); cfg.maxTrans = r.uni(0.05, 0.3);
    std::vector<double> resets, gaps; for (int i = r.range(1, 3); i > 0; --i) { (r.chance(0.6) ? resets : gaps).push_back(r.uni(1, s.duration - 1)); } double len = r.uni(0.25, 0.7);
    Rig rig(s, cfg, "before"); std::unique_ptr<Rig> twin; uint64_t st = r.next() | 1, st2 = 0; bool up = false; size_t twins = 0, compared = 0, both = 0; std::vector<bool> done(resets.size(), false);
    auto here = [&](size_t k) { for (double g : gaps) { if (s.imu[k].t > g && s.imu[k].t < g + len) { return false; } } return true; };
    size_t sinceTwin = 0;
    while (rig.nextImu < s.imu.size()) {
        double t = s.imu[rig.nextImu].t;
        for (size_t i = 0; i < resets.size(); ++i) { if (!done[i] && t > resets[i]) { done[i] = true; rig.b->Reset(); if (twin) { twin->b->Reset(); } c.count("resets"); } }
        vf::randState = st; rig.feed(here); drain(*rig.b); st = vf::randState;
        if (twin) { vf::randState = st2; twin->feed(here); drain(*twin->b); st2 = vf::randState; ++sinceTwin; }
        Out a = take(*rig.b); up |= a.ok;
        if (!a.ok && up) { auto &q = rig.b->MonitorPropagator(); auto &e = rig.b->MonitorAttitudeEstimator(); c.expect(e.bias_a == q.bias_a && e.bias_g == q.bias_g, "biases", "while no motion is published the attitude is followed with other biases than the motion will be, at " + num(t) + " s"); c.count("biases compared"); }
        if (twin) {
            Out b = take(*twin->b); ++compared; both += a.ok;
            c.expect(a.ok == b.ok, "start", std::string("a backend that has run before ") + (a.ok ? "starts" : "does not start") + " " + std::to_string(sinceTwin) + " samples on, a new one with the same biases, cameras, attitude and frame does" + (b.ok ? "" : " not"));
            c.expect(same(a, b), "carried-over", "a backend that has run before and a new one with the same biases, cameras, attitude and frame differ " + std::to_string(sinceTwin) + " samples later, at " + num(t) + " s: position " + num(a.p[0]) + " " + num(a.p[1]) + " " + num(a.p[2]) + ", new " + num(b.p[0]) + " " + num(b.p[1]) + " " + num(b.p[2]));
        }
        auto &fm = rig.b->MonitorFrameManager();
        if (!a.ok && up && fm.frames.size() == 1 && (!twin || r.chance(0.2))) {
            size_t k = 0; while (k < s.frames.size() && std::fabs(s.frames[k].t - fm.frames.back()->timeStamp) > 1e-7) { ++k; }
            c.expect(k < s.frames.size(), "frame", "the frame kept is not one of those given");
            twin = std::make_unique<Rig>(s, cfg, "twin"); Backend &b = *twin->b;
            auto first = std::make_shared<FeaturesMessage>(); first->timeStamp = s.imu[0].t + s.origin; b.GetFeaturesMessage(first); drain(b); b.GetFeaturesMessage(s.featMsg(k)); drain(b);      // the first only sets the clock
            c.expect(b.MonitorFrameManager().frames.size() == 1, "window", "a new backend keeps two frames without IMU samples");
            const_cast<AttitudeEstimate &>(b.MonitorAttitudeEstimator()) = rig.b->MonitorAttitudeEstimator();
            auto &q = const_cast<PropagateQueue &>(b.MonitorPropagator()); q.bias_a = rig.b->MonitorPropagator().bias_a; q.bias_g = rig.b->MonitorPropagator().bias_g;
            const_cast<FrameManager &>(b.MonitorFrameManager()).extrinsics = fm.extrinsics;
            twin->nextImu = rig.nextImu; twin->nextFrame = rig.nextFrame; st2 = st; ++twins; sinceTwin = 0;
        }
    }
    c.count("new backends", double(twins)); c.count("states compared", double(compared)); c.count("published states compared", double(both)); if (both > 20) { c.nontrivial(); } c.hash(st); c.hashd(s.tr.amp.x());
    c.sample = std::to_string(twins) + " new backends, " + std::to_string(both) + " published states identical";
}

// ---- C34: biases that drift after the start are found ----
static void findBias(Rng &r, Case &c) {
    Sim s; s.random(r); s.duration = r.uni(16, 24); s.imuHz = r.pick(std::vector<double>{100, 200}); s.camEvery = int(s.imuHz / 10);
    for (int i = 0; i < 3; ++i) { s.tr.amp[i] = r.uni(0.8, 2); s.tr.freq[i] = r.uni(0.6, 1.1); s.tr.eAmp[i] = r.uni(0.15, 0.3); s.tr.eFreq[i] = r.uni(0.5, 1.1); }
    s.landmarks(r, 400, 2, 10); bool noisy = r.chance(0.5); if (noisy) { s.pixNoise = 1e-3; s.gyroNoise = 1e-3; s.accelNoise = 0.02; }
    // configured biases hold at rest; then others set in within a second
    Sim::Config cfg; cfg.sigma = 1.5e-3; cfg.window = r.range(6, 12); cfg.na = r.uni(0.01, 0.03); cfg.ng = r.uni(0.005, 0.015); cfg.nwa = r.uni(0.07, 0.2); cfg.nwg = r.uni(7e-4, 2e-3);
    if (r.chance(0.4)) { cfg.ba = vec(r, 0.05); cfg.bg = vec(r, 0.01); }
    V3 da = vec(r, 0.1), dg = vec(r, 0.01); s.ba = cfg.ba + da; s.bg = cfg.bg + dg; s.generate(r); describe(s, c);
    for (auto &m : s.imu) { double f = std::min(1.0, std::max(0.0, m.t - s.tr.t0)); m.accel -= da * (1 - f); m.gyro -= dg * (1 - f); }
    Rig rig(s, cfg); double aSum = 0, gSum = 0; long n = 0, same = 0;
    while (rig.feed()) {
        size_t waiting = rig.b->MonitorDataLoader().MonitorWaitingFeatures(); drain(*rig.b);
        Published p = publish(*rig.b, true); if (!p.ok) { continue; }
        if (waiting) { auto &e = rig.b->MonitorAttitudeEstimator(); c.expect(e.bias_a.cast<double>() == p.ba && e.bias_g.cast<double>() == p.bg, "attitude-biases", "the attitude estimator does not use the biases published after the update"); ++same; }
        if (p.t > s.duration - 3) { aSum += (p.ba - s.ba).norm(); gSum += (p.bg - s.bg).norm(); ++n; }
    }
    c.expect(n > 0, "no-start", "nothing is published at the end");
    double ea = aSum / double(n), eg = gSum / double(n); std::string w = noisy ? "noisy: " : "exact: ";
    c.peak(w + "accelerometer bias error", ea); c.peak(w + "gyroscope bias error", eg);
    c.near(ea, 0, (noisy ? 0.15 + 0.3 * da.norm() : 0.006 + 0.02 * da.norm()), "accelerometer", "error of the accelerometer bias in the last three seconds, after a drift of " + num(da.norm())); c.near(eg, 0, (noisy ? 2e-3 : 1e-3) + 0.1 * dg.norm(), "gyroscope", "error of the gyroscope bias in the last three seconds, after a drift of " + num(dg.norm()));
    c.count(w + "sum of accelerometer bias errors", ea); c.count(w + "sum of gyroscope bias errors", eg); c.count(w + "sum of accelerometer drifts", da.norm()); c.count(w + "sum of gyroscope drifts", dg.norm()); c.count(w + "runs"); c.count("updates with the biases handed on", double(same));
    c.nontrivial(); c.hashd(s.tr.amp.x()); c.sample = w + "accelerometer drift " + num(da.norm()) + ", error " + num(ea) + "; gyroscope drift " + num(dg.norm()) + ", error " + num(eg);
}

// ---- C26, C29 ----
static void watch(Backend &b, const Sim &s, const Sim::Config &cfg, double perFrame, Case &c, size_t pushedFrames) {
    auto &fm = b.MonitorFrameManager(); auto &fe = b.MonitorFeatureManager(); auto &q = b.MonitorPropagator(); auto &a = b.MonitorAttitudeEstimator(); auto &d = b.MonitorDataLoader();
    c.peak("frames over the window size", double(fm.frames.size()) - cfg.window); c.peak("IMU samples per frame gap, sequence", double(q.items.size()) / perFrame); c.peak("IMU samples per frame gap, attitude", double(a.items.size()) / perFrame); c.peak("features", double(fe.features.size()));
    c.expect(fm.frames.size() <= size_t(std::max(2, cfg.window)), "frames", std::to_string(fm.frames.size()) + " frames are kept, the window is " + std::to_string(cfg.window));
    c.expect(double(q.items.size()) <= 2.2 * perFrame + 4, "sequence", std::to_string(q.items.size()) + " IMU samples are kept in the sequence, " + num(perFrame) + " arrive between frames, after " + std::to_string(pushedFrames) + " frames");
    c.expect(double(a.items.size()) <= 2.2 * perFrame + 4, "attitude", std::to_string(a.items.size()) + " samples are kept for the attitude, " + num(perFrame) + " arrive between frames, after " + std::to_string(pushedFrames) + " frames");
    size_t obs = 0; for (auto &f : fe.features) { obs += f.second->observes.size(); }
    c.expect(fe.features.size() <= fm.frames.size() * size_t(s.maxTracks) && obs <= fe.features.size() * fm.frames.size(), "features", std::to_string(fe.features.size()) + " features with " + std::to_string(obs) + " observations are kept for " + std::to_string(fm.frames.size()) + " frames");
    c.expect(d.MonitorWaitingImu() <= perFrame + 4 && d.MonitorWaitingFeatures() <= 2, "queue", std::to_string(d.MonitorWaitingImu()) + " samples and " + std::to_string(d.MonitorWaitingFeatures()) + " frames wait after everything was processed");
    c.count("observations of the queues");
}
static void bounded(Rng &r, Case &c) {
    Sim s = noisySim(r, 0.2); s.duration = r.uni(10, 25); int kind = r.range(0, 3); s.landmarks(r, 200, 2, 10); s.generate(r); describe(s, c);
    // 0 regular, 1 never enough features, 2 starts over again and again, 3 frames and samples get lost
    if (kind == 1) { int few = r.range(0, 9); for (auto &f : s.frames) { if (int(f.ids.size()) > few) { f.ids.resize(size_t(few)); f.pt.resize(size_t(few)); f.obs.resize(size_t(few)); } } }
    Sim::Config cfg; cfg.window = r.range(3, 9); Rig rig(s, cfg); double perFrame = s.camEvery; size_t seen = 0; double lostTill = -1, lastFrame = 0;
    while (rig.nextImu < s.imu.size()) {
        double t = s.imu[rig.nextImu].t;
        if (kind == 2 && r.chance(0.004)) { rig.b->Reset(); }
        if (kind == 3 && r.chance(0.003)) { lostTill = t + r.uni(0, 0.5); }
        rig.feed([&](size_t) { return !(kind == 3 && (t < lostTill || r.chance(0.02))); }, [&](size_t k) { lastFrame = s.frames[k].t; return true; });
        while (rig.b->RunOnce()) {}
        if (rig.nextFrame > 2) { watch(*rig.b, s, cfg, perFrame, c, rig.nextFrame); }
        if (rig.b->status != NEED_INIT) { ++seen; }
    }
    (void)lastFrame;
    static const char *names[] = {"regular", "never initialised", "resets", "losses"};
    c.count(std::string("runs: ") + names[kind]); c.count("frames", double(rig.nextFrame)); if (rig.nextFrame > 50 && (seen > 0 || kind == 1)) { c.nontrivial(); } c.hashd(s.tr.amp.x()); c.hash(uint64_t(kind));
    c.sample = std::string(names[kind]) + ": " + std::to_string(rig.nextFrame) + " frames, " + std::to_string(s.imu.size()) + " samples";
}
static void health(Rng &r, Case &c) {
    Sim s = noisySim(r, 0.2); s.duration = r.uni(20, 40); s.landmarks(r, 300, 2, 10); if (r.chance(0.3)) { s.pixNoise = 1e-5; }
    // also runs with a rest in which nothing arrives for a while, some with exact data
    bool rest = r.chance(0.6); double lostFrom = 1e9, lostTo = 1e9;
    if (rest) { s.tr.t1 = r.uni(2.5, 6); s.tr.t2 = s.tr.t1 + s.tr.ramp + r.uni(2, 6); lostFrom = s.tr.t1 + s.tr.ramp + r.uni(0.1, 1); lostTo = lostFrom + r.uni(0.3, 1.5); if (r.chance(0.5)) { s.pixNoise = s.gyroNoise = s.accelNoise = 0; } s.duration = s.tr.t2 + r.uni(3, 15); }
    s.generate(r); describe(s, c); if (rest) { c.trace << "rest from " << s.tr.t1 + s.tr.ramp << " to " << s.tr.t2 << ", nothing from " << lostFrom << " to " << lostTo << "\n"; c.count("runs with a rest and a gap"); }
    auto here = [&](double t) { return !(t > lostFrom && t < lostTo); };
    Sim::Config cfg; cfg.window = r.range(3, 12); cfg.sigma = r.pick(std::vector<double>{1e-3, 2e-3, 5e-3}); Rig rig(s, cfg); size_t frames = 0, checks = 0; double restart = 0;
    while (rig.feed([&](size_t k) { return here(s.imu[k].t); }, [&](size_t k) { return here(s.frames[k].t); })) {
        while (rig.b->RunOnce()) {}
        if (rig.b->status == NEED_INIT) { restart += checks > 0; continue; }
        if (rig.nextFrame == frames) { continue; }
        frames = rig.nextFrame; ++checks;
        auto &q = rig.b->MonitorPropagator(); auto &fm = rig.b->MonitorFrameManager();
        long ex = 6 * long(fm.extrinsics.size() + fm.frames.size());
        c.expect(q.exCamCov.rows() == ex && q.exCamCov.cols() == ex, "dimension", "the camera covariance has " + std::to_string(q.exCamCov.rows()) + " rows for " + std::to_string(fm.frames.size()) + " frames");
        for (auto end : {q.items.front(), q.items.back()}) {
            c.expect(end->imuExCamCov.cols() == ex, "dimension", "the covariance of a sample with the cameras has " + std::to_string(end->imuExCamCov.cols()) + " columns");
            Eigen::MatrixXd P(15 + ex, 15 + ex); P << end->imuCov.cast<double>(), end->imuExCamCov.cast<double>(), end->imuExCamCov.cast<double>().transpose(), q.exCamCov.cast<double>();
            c.expect(P.allFinite(), "not-finite", "the covariance is not finite after " + std::to_string(frames) + " frames");
            double scale = 0, asym = 0;
            for (long i = 0; i < P.rows(); ++i) { c.expect(P(i, i) >= 0, "negative-variance", "variance " + std::to_string(i) + " is " + num(P(i, i)) + " after " + std::to_string(frames) + " frames"); scale = std::max(scale, P(i, i)); }
            for (long i = 0; i < P.rows(); ++i) { for (long j = 0; j < i; ++j) { double d = std::sqrt(P(i, i) * P(j, j)); asym = std::max(asym, std::fabs(P(i, j) - P(j, i)) / (d + 1e-9 * scale)); } }
            c.peak("asymmetry", asym); c.near(asym, 0, 1e-3, "asymmetric", "largest relative asymmetry of the covariance after " + std::to_string(frames) + " frames");
            // correlations, over the states that have any uncertainty
            double tiny = 1e-9 * scale; std::vector<long> k; for (long i = 0; i < P.rows(); ++i) { if (P(i, i) > tiny) { k.push_back(i); } }
            Eigen::MatrixXd C(long(k.size()), long(k.size())); for (size_t i = 0; i < k.size(); ++i) { for (size_t j = 0; j < k.size(); ++j) { C(long(i), long(j)) = 0.5 * (P(k[i], k[j]) + P(k[j], k[i])) / std::sqrt(P(k[i], k[i]) * P(k[j], k[j])); } }
            if (C.rows()) { double low = Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd>(C, Eigen::EigenvaluesOnly).eigenvalues()(0); c.peak("minus the smallest eigenvalue of the correlations", -low); c.expect(low > -1e-4, "indefinite", "the correlations have the eigenvalue " + num(low) + " after " + std::to_string(frames) + " frames"); }
            c.near(end->nominalState.q_wb.norm(), 1, 5e-6, "not-unit", "norm of a rotation of the sequence");
        }
        for (auto &f : fm.frames) { c.near(f->q_wb.norm(), 1, 5e-6, "not-unit", "norm of a rotation of the window"); c.expect(f->p_wb.allFinite(), "not-finite", "a position of the window is not finite"); }
        for (auto &x : fm.extrinsics) { c.near(x.q_bc.norm(), 1, 5e-6, "not-unit", "norm of a camera's rotation after " + std::to_string(frames) + " frames"); }
        Published u = publish(*rig.b, true); sane(u, c, "after " + std::to_string(frames) + " frames");
    }
    c.expect(checks > 0, "no-start", "never initialised");
    c.count("covariances checked", double(2 * checks)); c.count("runs that started over", restart > 0); if (checks > 100) { c.nontrivial(); } c.hashd(s.tr.amp.x());
    c.sample = std::to_string(checks) + " updates over " + num(s.duration) + " s";
}

int main(int argc, char **argv) {
    vf::Runner run; run.init(argc, argv);
    if (run.prop == "C18") {
        run.rule = "starts at rest and in uniform motion with exact tracks, of which the first frames report too few: attempts counted, first state against the truth; distinct by motion and numbers of tracks; non-trivial when a start was reached";
        run.family("initial", run.n(1500, 15000), initial);
    } else if (run.prop == "C19") {
        run.rule = "noisy and exact runs with lost samples, lost frames, gaps and resets, fed in batches of 1-40 samples; both publications judged after every step; distinct by motion and batch; non-trivial with more than 50 initialised steps";
        run.family("publishing", run.n(160, 1500), publishing);
    } else if (run.prop == "C20") {
        run.rule = "exact: 6-14 s of motion without noise at 100-400 Hz, every published state against the truth; noisy: 8-16 s; distinct by motion and rate";
        run.family("exact", run.n(140, 2000), exactRun); run.family("noisy", run.n(100, 1500), noisyRun); run.family("hard", run.n(200, 2000), hardRun);
        run.ratio("sum of rms position errors", "runs", 0.02, 10, "mean-position", "mean rms position error in metres of runs with known biases");
        run.ratio("sum of rms attitude errors", "runs", 0.01, 10, "mean-attitude", "mean rms attitude error in radians of runs with known biases");
        run.ratio("unknown biases: sum of rms position errors", "unknown biases: runs", 0.06, 10, "mean-position-bias", "mean rms position error in metres of runs with unknown biases");
        run.ratio("unknown biases: sum of rms attitude errors", "unknown biases: runs", 0.03, 10, "mean-attitude-bias", "mean rms attitude error in radians of runs with unknown biases");
        struct { const char *w; double v, t; } hard[] = {{"first frames in motion", 0.03, 0.006}, {"large biases", 0.08, 0.13}, {"violent motion", 0.03, 0.006}, {"violent motion and large biases", 0.2, 0.14}, {"first frames in violent motion", 0.06, 0.015}};
        for (auto &h : hard) { std::string w = h.w; run.ratio(w + ": sum of final velocity errors", w, h.v, 10, "mean-hard-velocity", w + ": mean final velocity error"); run.ratio(w + ": sum of final tilt errors", w, h.t, 10, "mean-hard-tilt", w + ": mean final tilt error"); }
    } else if (run.prop == "C21") {
        run.rule = "rest, motion, rest, motion, with a reset or a gap in the data; states before and after against the truth; distinct by motion and kind of disturbance";
        run.family("recover", run.n(240, 2500), recover);
    } else if (run.prop == "C23") {
        run.rule = "one to three backends with noisy input alone and interleaved in random turns, every state compared bit by bit; distinct by random stream and turns; non-trivial when a backend was initialised";
        run.family("isolation", run.n(160, 2000), isolation);
    } else if (run.prop == "C24") {
        run.rule = "origin: the same noisy run with the clock starting at zero and elsewhere (dyadic stamps); forerunner: the clock set by a frame minutes to weeks before; every state compared bit by bit; distinct by run and origin";
        run.family("origin", run.n(240, 2500), origin); run.family("forerunner", run.n(160, 2000), forerunner);
    } else if (run.prop == "C26") {
        run.rule = "10-25 s runs, regular, with too few features, with resets, with losses: sizes of all queues after every sample; distinct by motion and kind; non-trivial with more than 50 frames";
        run.family("bounded", run.n(120, 1000), bounded);
    } else if (run.prop == "C29") {
        run.rule = "10-40 s runs, most noisy, some with exact data or a rest with a gap in the data: full covariance of the first and last sample of the sequence, rotations and extrinsics after every frame; distinct by motion; non-trivial with more than 100 updates";
        run.family("health", run.n(96, 1200), health);
    } else if (run.prop == "C32") {
        run.rule = "noisy runs described in other body axes, with the cameras after the first numbered otherwise, listed twice or turned about their optical axes, in another unit, or several at once; distinct by motion and kind; non-trivial when initialised at the end";
        run.family("description", run.n(240, 2500), description); run.family("attitude", run.n(800, 20000), turnedAttitude);
    } else if (run.prop == "C34") {
        run.rule = "16-24 s of lively motion, exact or noisy, with biases that leave the configured ones as the motion starts: mean estimates of the last three seconds against the truth; distinct by motion";
        run.family("biases", run.n(80, 1000), findBias);
        for (std::string w : {"exact: ", "noisy: "}) {
            run.ratio(w + "sum of accelerometer bias errors", w + "sum of accelerometer drifts", w[0] == 'e' ? 0.015 : 0.4, 1, "mean-accelerometer", w + "mean error of the accelerometer bias, as a part of the mean drift");
            run.ratio(w + "sum of gyroscope bias errors", w + "sum of gyroscope drifts", w[0] == 'e' ? 0.03 : 0.07, 0.1, "mean-gyroscope", w + "mean error of the gyroscope bias, as a part of the mean drift");
        }
    } else if (run.prop == "C36") {
        run.rule = "noisy runs with random configured noises, some with a gap in the IMU data, repeated with all variances times a power of four: states bit for bit, covariances exactly scaled; distinct by random stream and factor; non-trivial with more than 20 published states";
        run.family("noise", run.n(240, 2500), noiseScale);
    } else if (run.prop == "C37") {
        run.rule = "noisy runs repeated with cameras that observe nothing, tracks seen once by one camera and tracks without measurements put anywhere into the messages; distinct by motion and number of additions; non-trivial when initialised at the end";
        run.family("nothing", run.n(240, 2500), nothing);
    } else if (run.prop == "C38") {
        run.rule = "noisy runs repeated with frames handed over up to six frame intervals late or held up for seconds: states and covariances bit for bit whenever all frames have arrived; distinct by random stream and delays; non-trivial with late frames and published states compared";
        run.family("late", run.n(240, 2500), late);
    } else if (run.prop == "C39") {
        run.rule = "noisy runs, from rest and in motion, repeated as seen in a mirror through a body axis or slant, the cameras' images mirrored in columns or lines; distinct by motion and mirror; non-trivial when initialised at the end";
        run.family("mirror", run.n(240, 2500), mirror);
    } else if (run.prop == "C40") {
        run.rule = "rests of 10-45 s, from the start or after a motion, exact or noisy: position, speed and attitude against those when the rest began; distinct by motion and length of the rest";
        run.family("still", run.n(160, 2000), still); run.family("one-camera", 2, oneCamera);
        run.ratio("sum of wanderings", "noisy rests", 0.0075, 10, "mean-wandering", "mean of how far the position goes in a rest"); run.ratio("sum of turns", "noisy rests", 0.0016, 10, "mean-turn", "mean of how far the attitude goes in a rest");
        run.ratio("sum of wanderings", "sum of wanderings in the first half", 1.4, 0.01, "grows", "how far the position goes in all of a rest, against its first half");
    } else if (run.prop == "C41") {
        run.rule = "noisy runs, from rest and in motion, some falling back at a gap of the IMU data, repeated with biases added to the measurements and to the configuration; distinct by motion and biases; non-trivial when initialised at the end";
        run.family("known-bias", run.n(240, 2500), knownBias);
    } else if (run.prop == "C42") {
        run.rule = "noisy runs, some with a reset or a gap in the IMU data, repeated with other values of a key frame limit that leave it unreached or always passed, up to the nearest such value, and with larger windows while the smaller is not full: states and window bit for bit; distinct by random stream and limit; non-trivial with more than 20 published states compared";
        run.family("limits", run.n(320, 4000), limits);
    } else if (run.prop == "C35") {
        run.rule = "noisy runs with resets and gaps in the IMU data, tracks seen by one camera or pausing; at each fallback a new backend is given the biases, cameras, attitude and newest frame and the same input, and compared bit for bit; distinct by motion and random stream; non-trivial with more than 20 published states compared";
        run.family("new-start", run.n(240, 3000), newStart);
    } else if (run.prop == "C33") {
        run.rule = "the same noisy input run after every sample and in turns of up to 1-100000 samples, with refused messages, idle steps and publications mixed in, bit for bit; distinct by random stream, turns and refusals; non-trivial when initialised and something differed";
        run.family("schedule", run.n(240, 2500), schedule);
    } else {
        run.rule = "noisy runs with the tracks renamed (also near the ends of the range) and listed in another order; distinct by motion and naming; non-trivial when the run was initialised";
        run.family("labels", run.n(240, 2500), labels);
    }
    return run.finish();
}
