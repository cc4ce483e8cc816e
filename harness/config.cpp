// C25: configuration files, as the parts of the backend end up using them.
#define VF_MAIN
#include "common.hpp"
#include "rig.hpp"
#include <config.hpp>
using namespace ESKF_VIO_BACKEND;
using vf::Case; using vf::Rng; using vf::V3; using vf::Q4;

static std::string num(float v) { char b[40]; std::snprintf(b, 40, "%.9g", double(v)); return b; }
struct Expect {          // the documented defaults
    float period = 0.005f, na = 0.019f, ng = 0.015f, nwa = 0.001f, nwg = 0.0001f, g = 9.8f, sigma = 0.0021739f, parallax = 0.2f, trans = 0.1f;
    uint32_t window = 6, tracked = 25; Vector3 ba = Vector3::Zero(), bg = Vector3::Zero(); std::vector<Quaternion> q; std::vector<Vector3> p;
};
// One row as people write it: several blanks, tabs, trailing blanks, numbers in other notations.
static std::string row(Rng &r, const std::vector<float> &v) {
    std::string s = r.chance(0.2) ? "  " : "";
    for (size_t i = 0; i < v.size(); ++i) { if (i) { s += r.chance(0.7) ? " " : r.chance(0.5) ? "\t" : "   "; } char b[48]; switch (r.range(0, 3)) { case 0: std::snprintf(b, 48, "%.9e", double(v[i])); break; case 1: std::snprintf(b, 48, "%+.9g", double(v[i])); break; default: std::snprintf(b, 48, "%.9g", double(v[i])); } s += b; }
    if (r.chance(0.2)) { s += r.chance(0.5) ? "  " : "\r"; }
    return s;
}
static std::string text(Rng &r, const std::vector<std::vector<float>> &m) {
    std::string s; for (size_t i = 0; i < m.size(); ++i) { s += row(r, m[i]); if (i + 1 < m.size() || r.chance(0.7)) { s += "\n"; } }
    if (r.chance(0.1)) { s += "# a remark\n"; }
    return s;
}
// The same, spoilt so that it cannot be read in full.
static std::string spoilt(Rng &r, const std::vector<std::vector<float>> &m) {
    switch (r.range(0, 5)) {
        case 0: return "";
        case 1: return "\n" + text(r, m);                                    // starts with an empty line
        case 2: { auto k = m; k.back().pop_back(); std::string s; for (auto &v : k) { s += row(r, v) + "\n"; } return s; }       // a value short
        case 3: { auto k = m; k.pop_back(); std::string s; for (auto &v : k) { s += row(r, v) + "\n"; } return s; }              // a row short
        case 4: { std::string s; for (auto &v : m) { std::string w = row(r, v); size_t at = w.find_first_of("0123456789"); w[at] = 'x'; s += w + "\n"; } return s; }
        default: return "abc\n";
    }
}
static Q4 slight(Rng &r) { V3 w = V3(r.gauss(), r.gauss(), r.gauss()) * std::pow(10.0, r.uni(-5, 0)); return Q4(Eigen::AngleAxisd(w.norm(), w.normalized())); }      // a camera mounted nearly, or not at all, along the axes
static void files(Rng &r, Case &c) {
    std::string dir = "cfg"; vf::freshDir(dir); Expect e; int written = 0, broken = 0, missing = 0;
    auto put = [&](const std::string &name, const std::vector<std::vector<float>> &m) {
        int k = r.range(0, 9);
        if (k == 0) { ++missing; c.trace << name << " missing\n"; return false; }
        std::string t = k == 1 ? spoilt(r, m) : text(r, m); std::ofstream(dir + "/" + name, std::ios::binary) << t; c.trace << name << (k == 1 ? " spoilt" : "") << ":\n" << t << "\n";
        if (k == 1) { ++broken; return false; } ++written; return true;
    };
    auto f = [&](double lo, double hi) { return float(std::pow(10.0, r.uni(std::log10(lo), std::log10(hi)))); };
    { float hz = r.chance(0.5) ? float(r.range(10, 1000)) : f(1, 1e4); if (put("imu_frequence.txt", {{hz}})) { e.period = 1.0f / hz; } }
    { std::vector<float> v{f(1e-4, 1), f(1e-4, 1), f(1e-6, 0.1), f(1e-6, 0.1)}; if (put("imu_na_ng_nwa_nwg.txt", {v})) { e.na = v[0]; e.ng = v[1]; e.nwa = v[2]; e.nwg = v[3]; } }
    { std::vector<float> a, b; double big = r.chance(0.3) ? std::pow(10.0, r.uni(0, 2)) : 1; for (int i = 0; i < 3; ++i) { a.push_back(float(r.gauss() * 0.3 * big)); b.push_back(float(r.gauss() * 0.05 * big)); } if (put("imu_bias_a_g_init.txt", {a, b})) { e.ba = Vector3(a[0], a[1], a[2]); e.bg = Vector3(b[0], b[1], b[2]); } }
    { float g = r.chance(0.7) ? float(r.uni(9.7, 9.9)) : f(0.5, 1e4); if (put("gravity_norm.txt", {{g}})) { e.g = g; } }
    { uint32_t w = r.chance(0.7) ? uint32_t(r.range(1, 30)) : uint32_t(f(30, 1e5)); if (put("window_size.txt", {{float(w)}})) { e.window = w; } }
    { float s = f(1e-4, 1e-1); if (put("vision_measure_noise.txt", {{s}})) { e.sigma = s; } }
    { uint32_t n = r.chance(0.7) ? uint32_t(r.range(0, 200)) : uint32_t(f(200, 1e5)); float a = f(1e-3, 1), b = f(1e-3, 10); if (put("keyframe_policy.txt", {{float(n), a, b}})) { e.tracked = n; e.parallax = a; e.trans = b; } }
    int cams = r.chance(0.9) ? r.range(0, 6) : r.range(7, 20); bool chain = true;
    for (int i = 0; i < cams; ++i) {
        Eigen::Quaternionf q = (r.chance(0.6) ? Q4(r.gauss(), r.gauss(), r.gauss(), r.gauss()).normalized() : Q4(0.5, -0.5, 0.5, -0.5) * slight(r)).cast<float>(); if (r.chance(0.2)) { q = slight(r).cast<float>(); } Vector3 p(float(r.gauss()), float(r.gauss()), float(r.gauss())); Matrix33 R = q.toRotationMatrix();
        std::vector<std::vector<float>> m; for (int a = 0; a < 3; ++a) { m.push_back({R(a, 0), R(a, 1), R(a, 2), p[a]}); } m.push_back({0, 0, 0, 1});
        chain = put("T_bc" + std::to_string(i) + ".txt", m) && chain;           // cameras are numbered without gaps
        if (chain) { e.q.push_back(q); e.p.push_back(p); }
    }
    std::unique_ptr<Backend> b(new Backend());
    bool slash = r.chance(0.2);
    c.expect(b->ConfigParams(slash ? dir + "/" : dir), "refused", "the configuration is refused");
    auto eq = [&](double got, double want, const char *what) { c.near(got, want, 0, "value", what); c.count("values checked"); };
    eq(b->MonitorDataLoader().imuPeriod, double(e.period), "IMU period");
    auto &q = b->MonitorPropagator(); auto &fm = b->MonitorFrameManager(); auto &u = b->MonitorVisionUpdator(); auto &a = b->MonitorAttitudeEstimator();
    auto *cfg = Configurator::GetInstance();
    eq(cfg->imu.sigmaBiasAccel, e.na, "accelerometer noise"); eq(cfg->imu.sigmaBiasGyro, e.ng, "gyroscope noise"); eq(cfg->imu.sigmaBiasAccelRandomWalk, e.nwa, "accelerometer bias walk"); eq(cfg->imu.sigmaBiasGyroRandomWalk, e.nwg, "gyroscope bias walk");
    PropagateQueue ref; ref.InitializeProcessNoiseMatrix(e.na, e.ng, e.nwa, e.nwg); c.expect(q.Q == ref.Q, "value", "the process noise is not the configured one");
    c.expect(q.Q(0, 0) != 0 && (e.na == e.ng || q.Q(0, 0) != q.Q(3, 3)), "value", "the process noise does not separate accelerometer and gyroscope");
    for (int i = 0; i < 3; ++i) { eq(q.bias_a[i], e.ba[i], "accelerometer bias"); eq(q.bias_g[i], e.bg[i], "gyroscope bias"); eq(a.bias_a[i], e.ba[i], "accelerometer bias of the attitude filter"); eq(a.bias_g[i], e.bg[i], "gyroscope bias of the attitude filter"); }
    eq(IMUFullState::gravity_w.norm(), e.g, "gravity"); eq(std::fabs(IMUFullState::gravity_w.z()), e.g, "gravity along the vertical");
    eq(fm.maxWindowSize, e.window, "window size"); eq(fm.minKeyframeTrackedFeatureNum, e.tracked, "tracks of a key frame"); eq(fm.minKeyframeMeanParallax, e.parallax, "parallax of a key frame"); eq(fm.maxKeyframeTranslation, e.trans, "translation of a key frame");
    eq(u.measureNoise, e.sigma, "vision noise");
    c.expect(fm.extrinsics.size() == e.q.size(), "cameras", std::to_string(fm.extrinsics.size()) + " cameras are configured, the files name " + std::to_string(e.q.size()));
    for (size_t i = 0; i < e.q.size(); ++i) {
        c.expect(fm.extrinsics[i].p_bc == e.p[i], "camera-position", "position of camera " + std::to_string(i));
        c.near(vf::angleBetween(fm.extrinsics[i].q_bc.cast<double>().normalized(), e.q[i].cast<double>().normalized()), 0, 2e-6, "camera-rotation", "rotation of camera " + std::to_string(i)); c.near(fm.extrinsics[i].q_bc.norm(), 1, 2e-6, "camera-rotation", "norm of the rotation of camera " + std::to_string(i));
        c.count("cameras checked");
    }
    // a second directory starts from the defaults again, on the same backend and on a new one
    if (r.chance(0.5)) {
        vf::freshDir("empty"); std::unique_ptr<Backend> other(new Backend()); Backend &o = r.chance(0.5) ? *b : *other; std::string where = r.chance(0.5) ? "empty" : "no/such/place";
        c.expect(o.ConfigParams(where), "refused", "a directory without files is refused"); Expect d;
        eq(o.MonitorDataLoader().imuPeriod, double(d.period), "IMU period of an empty configuration"); eq(o.MonitorFrameManager().maxWindowSize, d.window, "window size of an empty configuration"); eq(o.MonitorVisionUpdator().measureNoise, d.sigma, "vision noise of an empty configuration");
        eq(o.MonitorFrameManager().minKeyframeTrackedFeatureNum, d.tracked, "tracks of a key frame of an empty configuration"); eq(o.MonitorFrameManager().maxKeyframeTranslation, d.trans, "translation of a key frame of an empty configuration"); eq(o.MonitorPropagator().bias_a.norm() + o.MonitorPropagator().bias_g.norm() + o.MonitorAttitudeEstimator().bias_a.norm() + o.MonitorAttitudeEstimator().bias_g.norm(), 0, "biases of an empty configuration");
        ref.InitializeProcessNoiseMatrix(d.na, d.ng, d.nwa, d.nwg); c.expect(o.MonitorPropagator().Q == ref.Q, "value", "the process noise of an empty configuration is not the default");
        eq(IMUFullState::gravity_w.norm(), d.g, "gravity of an empty configuration"); c.expect(o.MonitorFrameManager().extrinsics.empty(), "cameras", "an empty configuration has cameras"); c.count("empty configurations");
    }
    c.count("files written", written); c.count("files spoilt", broken); c.count("files missing", missing); if (written > 2) { c.nontrivial(); } c.hashd(e.na); c.hash(uint64_t(written * 100 + broken * 10 + missing)); c.hash(e.q.size());
    c.sample = std::to_string(written) + " files, " + std::to_string(broken) + " spoilt, " + std::to_string(missing) + " missing, " + std::to_string(e.q.size()) + " cameras";
}
int main(int argc, char **argv) {
    vf::Runner run; run.init(argc, argv);
    run.rule = "directories with random values in varied notation, files missing or spoilt at random, then empty ones: every parameter where the backend uses it; distinct by values and which files were there";
    run.family("files", run.n(2400, 20000), files);
    return run.finish();
}
