// C22: whatever reaches the backend, in whatever order, no memory error, no undefined behaviour, no
// failed assertion, and every call returns. The oracle is the sanitizers' and the alarm's.
#define VF_MAIN
#include "common.hpp"
#include "rig.hpp"
using namespace ESKF_VIO_BACKEND;
using vf::Case; using vf::Rng; using vf::Sim; using vf::Rig; using vf::publish; using vf::V3;

struct Abuse {                                  // how likely each kind of damage is
    double drop = 0, swap = 0, dup = 0, null = 0, mangle = 0, value = 0, stamp = 0, control = 0; bool nan = false;
};
static float badNumber(Rng &r, bool nan) {
    static const float v[] = {0, -0.f, 1e-30f, -1e-20f, 1e10f, -1e10f, 1e30f, -1e30f, 3.4e38f, 1, -1, 1e5f};
    if (nan && r.chance(0.3)) { return r.chance(0.5) ? NAN : (r.chance(0.5) ? INFINITY : -INFINITY); }
    return v[r.range(0, 11)];
}
static double badStamp(Rng &r, double t, bool nan) {
    switch (r.range(0, 8)) {
        case 0: return -t; case 1: return 0; case 2: return t + 1e9; case 3: return t - 5; case 4: return 1e300; case 5: return -1e300;
        case 6: return nan ? NAN : t; case 7: return nan ? INFINITY : t + 1e-12; default: return t * r.uni(0, 2);
    }
}
static void hurt(Rng &r, Case &c, const Abuse &a, FeaturesMessage &m) {
    int n = r.range(1, 3);
    while (n--) {
        size_t k = m.ids.empty() ? 0 : size_t(r.range(0, int(m.ids.size()) - 1));
        switch (r.range(0, 13)) {
            case 0: if (!m.ids.empty()) { m.ids.pop_back(); } break;
            case 1: m.ids.push_back(uint32_t(r.next())); break;
            case 2: if (!m.observes.empty()) { m.observes.pop_back(); } break;
            case 3: m.observes.push_back(nullptr); break;
            case 4: if (k < m.observes.size()) { m.observes[k] = nullptr; } break;
            case 5: if (k < m.observes.size() && m.observes[k]) { m.observes[k] = std::make_shared<FeatureObserve>(); } break;
            case 6: if (k < m.observes.size() && m.observes[k]) { m.observes[k]->norms[r.chance(0.5) ? uint32_t(r.range(0, 9)) : 0xFFFFFFFFu] = Vector2(0.1f, badNumber(r, a.nan)); } break;
            case 7: if (k < m.observes.size() && m.observes[k] && !m.observes[k]->norms.empty()) { m.observes[k]->norms.erase(m.observes[k]->norms.begin()); } break;
            case 8: if (k < m.observes.size() && m.observes[k] && !m.observes[k]->norms.empty()) { m.observes[k]->norms.begin()->second = Vector2(badNumber(r, a.nan), badNumber(r, a.nan)); } break;
            case 9: if (k < m.ids.size()) { m.ids[k] = m.ids[size_t(r.range(0, int(m.ids.size()) - 1))]; } break;
            case 10: if (k < m.ids.size()) { m.ids[k] = r.chance(0.5) ? 0xFFFFFFFFu : uint32_t(r.next()); } break;
            case 11: m.ids.clear(); if (r.chance(0.7)) { m.observes.clear(); } break;
            case 12: m.flag.clear(); break;
            default: if (k < m.observes.size() && m.observes[k]) { auto shared = m.observes[k]; for (auto &o : m.observes) { if (r.chance(0.3)) { o = shared; } } } break;      // one observation object for several tracks
        }
    }
    c.count("features messages mangled");
}
static void spoilConfig(Rng &r, const std::string &dir, Sim &s) {
    auto put = [&](const std::string &f, const std::string &t) { std::ofstream(dir + "/" + f) << t; };
    if (r.chance(0.3)) { put("window_size.txt", r.pick(std::vector<std::string>{"0", "1", "2", "3", "25", "40", "", "x", "7.5"}) + "\n"); }
    if (r.chance(0.2)) { put("imu_frequence.txt", r.pick(std::vector<std::string>{"0", "-100", "", "1e9", "1"}) + "\n"); }
    if (r.chance(0.2)) { put("imu_na_ng_nwa_nwg.txt", r.pick(std::vector<std::string>{"0 0 0 0", "-1 1 0 0", "1e20 1e20 1e20 1e20", "1", ""}) + "\n"); }
    if (r.chance(0.2)) { put("vision_measure_noise.txt", r.pick(std::vector<std::string>{"0", "-1", "1e20", ""}) + "\n"); }
    if (r.chance(0.2)) { put("keyframe_policy.txt", r.pick(std::vector<std::string>{"0 0 0", "1e9 1e9 1e9", "0 -1 -1", "5"}) + "\n"); }
    if (r.chance(0.2)) { put("gravity_norm.txt", r.pick(std::vector<std::string>{"0", "-9.8", "1e10", ""}) + "\n"); }
    if (r.chance(0.2)) { put("imu_bias_a_g_init.txt", r.pick(std::vector<std::string>{"1 2 3\n4 5 6", "1e20 0 0\n0 0 1e20", "1 2", ""}) + "\n"); }
    if (r.chance(0.3)) { unlink((dir + "/T_bc" + std::to_string(r.range(0, int(s.cams.size()) - 1)) + ".txt").c_str()); }
    if (r.chance(0.2)) { put("T_bc" + std::to_string(r.range(0, 3)) + ".txt", r.pick(std::vector<std::string>{"", "1 2 3\n", "0 0 0 0\n0 0 0 0\n0 0 0 0\n0 0 0 0\n", "1 0 0 0\n0 1 0 0\n0 0 1 0\n0 0 0 1\n", "1e30 0 0 1\n0 1 0 1\n0 0 1 1e30\n0 0 0 1\n"})); }
}
static void hostile(Rng &r, Case &c) {
    Sim s; s.random(r); s.rig(r, r.range(1, 4), 0.2);
    s.duration = r.uni(2, 4.5); s.imuHz = r.pick(std::vector<double>{50, 100}); s.camEvery = r.range(4, 12); s.pixNoise = r.chance(0.5) ? 1e-3 : 0; s.maxTracks = r.pick(std::vector<int>{3, 12, 20, 40, 90}); s.camShift = r.chance(0.4) ? r.uni(0, 1) : 0;
    s.origin = r.chance(0.5) ? 0 : r.uni(-1e3, 1.7e9); s.firstId = r.chance(0.3) ? 0xFFFFFFFFu - uint32_t(r.range(0, 40)) : 0; if (r.chance(0.4)) { s.tr.t0 = 100; }
    if (r.chance(0.2)) { s.fov = r.uni(1, 4); }
    s.generate(r);
    Sim::Config k; k.window = r.chance(0.1) ? r.range(10, 25) : r.range(2, 9); k.sigma = 2e-3; k.minTracked = r.uni(0, 30); k.maxTrans = r.uni(0, 1);
    Abuse a; int mild = r.range(0, 3);              // a quarter of the runs is left alone after the start, so that it initialises
    double q = mild == 0 ? 0 : r.pick(std::vector<double>{0.002, 0.01, 0.05, 0.2});
    for (double *d : {&a.drop, &a.swap, &a.dup, &a.null, &a.mangle, &a.value, &a.stamp, &a.control}) { *d = r.chance(0.6) ? q * r.uni(0, 1) : 0; }
    a.mangle *= 4; a.nan = r.chance(0.3); if (r.chance(0.5)) { a.stamp = 0; }
    double calm = r.chance(0.6) ? s.tr.t0 + r.uni(0, 1) : 0;      // no damage before: most runs should be under way
    if (calm > s.duration * 0.7) { calm = s.duration * 0.3; }
    Backend *b = new Backend(); std::unique_ptr<Backend> own(b);
    std::string dir = "cfg"; bool configured = !r.chance(0.05), spoilt = r.chance(0.25);
    vf::freshDir(dir); if (!configured) { b->ConfigParams("nowhere"); }
    if (configured) { s.writeConfig(dir, k); if (spoilt) { spoilConfig(r, dir, s); } b->ConfigParams(dir); }
    c.trace << "seed state, " << s.cams.size() << " cameras, window " << k.window << ", damage rate " << q << (configured ? "" : ", not configured") << (spoilt ? ", configuration spoilt" : "") << "\n";
    std::vector<std::shared_ptr<FeaturesMessage>> kept; std::vector<std::shared_ptr<IMUMessage>> heldImu; size_t frame = 0; bool everOk = false; long damage = 0, steps = 0;
    auto step = [&] {
        for (int i = 0; i < 4 && b->RunOnce(); ++i) { ++steps; }
        auto p = publish(*b, false); auto u = publish(*b, true); everOk |= p.ok | u.ok; if (p.ok) { c.count("states published"); }
    };
    for (size_t i = 0; i < s.imu.size(); ++i) {
        bool on = s.imu[i].t >= calm;
        while (frame < s.frames.size() && s.frames[frame].t <= s.imu[i].t + 1e-9) {
            auto m = s.featMsg(frame); ++frame;
            if (on && r.chance(a.drop)) { ++damage; c.count("messages dropped"); continue; }
            if (on && r.chance(a.mangle)) { ++damage; hurt(r, c, a, *m); }
            if (on && r.chance(a.stamp)) { ++damage; m->timeStamp = badStamp(r, m->timeStamp, a.nan); c.count("stamps changed"); }
            if (on && r.chance(a.null)) { ++damage; m = nullptr; c.count("null messages"); }
            b->GetFeaturesMessage(m); if (on && r.chance(a.dup * 3)) { ++damage; b->GetFeaturesMessage(m); c.count("messages repeated"); }
            if (m && r.chance(0.05)) { kept.push_back(m); }
            if (!kept.empty() && on && r.chance(a.swap * 3)) { ++damage; b->GetFeaturesMessage(r.pick(kept)); c.count("old messages sent again"); }
            if (r.chance(0.3)) { step(); }
        }
        auto m = s.imuMsg(i);
        if (on && r.chance(a.drop)) { ++damage; c.count("messages dropped"); if (r.chance(0.1)) { size_t gap = size_t(r.range(1, 60)); i += std::min(gap, s.imu.size() - 1 - i); } continue; }
        if (on && r.chance(a.value)) { ++damage; (r.chance(0.5) ? m->gyro : m->accel)[r.range(0, 2)] = badNumber(r, a.nan); c.count("values changed"); }
        if (on && r.chance(a.stamp)) { ++damage; m->timeStamp = badStamp(r, m->timeStamp, a.nan); c.count("stamps changed"); }
        if (on && r.chance(a.null)) { ++damage; b->GetIMUMessage(nullptr); c.count("null messages"); }
        heldImu.push_back(m);
        if (on && r.chance(a.swap) && heldImu.size() < 6) { ++damage; c.count("messages held back"); continue; }
        if (heldImu.size() > 1) { r.shuffle(heldImu); }
        for (auto &h : heldImu) { b->GetIMUMessage(h); if (on && r.chance(a.dup)) { ++damage; b->GetIMUMessage(h); c.count("messages repeated"); } }
        heldImu.clear();
        if (on && r.chance(a.control)) {
            ++damage; c.count("control calls");
            switch (r.range(0, 4)) {
                case 0: b->Reset(); break;
                case 1: if (configured) { b->ConfigParams(dir); } break;
                case 2: if (configured) { b->Reset(); b->ConfigParams(dir); } break;
                case 3: {                   // another backend, perhaps for other cameras or for none
                    own.reset(); own.reset(new Backend()); b = own.get(); configured = r.chance(0.9);
                    if (configured && r.chance(0.3)) { dir = "other"; vf::freshDir(dir); Sim t; t.tr.g = s.tr.g; t.imuHz = s.imuHz; t.rig(r, r.range(1, 4), 0.2); Sim::Config kk = k; kk.window = r.chance(0.1) ? r.range(10, 25) : r.range(2, 9); t.writeConfig(dir, kk); c.count("cameras changed"); }
                    b->ConfigParams(configured ? dir : std::string("nowhere")); break;
                }
                default: b->Reset(); b->Reset(); break;
            }
        }
        if (r.chance(0.9)) { step(); }
    }
    step(); own.reset();
    c.count("messages damaged or control calls", double(damage)); c.count("steps", double(steps)); if (everOk) { c.count("runs that were initialised at some point"); }
    if (everOk && damage) { c.nontrivial(); } c.hashd(s.tr.amp.x()); c.hash(uint64_t(damage));
    c.sample = std::to_string(damage) + " disturbances in " + std::to_string(steps) + " steps" + (everOk ? ", initialised" : "") + (spoilt ? ", configuration spoilt" : "");
}
int main(int argc, char **argv) {
    vf::Runner run; run.init(argc, argv);
    run.rule = "simulated runs with messages dropped, held back, repeated, null, of mismatched sizes, with bad values, stamps and cameras, broken configurations and control calls at any time, under AddressSanitizer and UBSan; distinct by trajectory and number of disturbances; non-trivial when the backend was initialised at some point and disturbed";
    run.family("hostile", run.n(320, 12000), hostile, 60);
    return run.finish();
}
