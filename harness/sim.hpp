// A smooth simulated rig in double precision: analytic trajectory, ideal IMU, pinhole cameras on the
// normalised plane, persistent tracks. Starts at rest, as the backend needs to find gravity.
#pragma once
#include "common.hpp"
#include <Eigen/Dense>
#include <Eigen/Geometry>
#include <algorithm>
#include <memory>
#include <typedef.hpp>
#include <data_typedef.hpp>

namespace vf {
using V3 = Eigen::Vector3d;
using Q4 = Eigen::Quaterniond;

struct Traj {
    double t0 = 1.0, ramp = 2.0;                 // rest until t0, full speed after t0 + ramp
    V3 amp = V3(1.5, 1.0, 0.5), freq = V3(0.5, 0.7, 0.9), phase = V3(0, 0, 0), vel = V3::Zero();
    V3 eAmp = V3(0.15, 0.1, 0.5), eFreq = V3(0.6, 0.5, 0.4), ePhase = V3(0, 0, 0);
    V3 e0 = V3(0, 0, 0), eRate = V3(0, 0, 0);    // roll, pitch, yaw at rest; constant rates of u
    double g = 9.8;

    double t1 = INFINITY, t2 = INFINITY;         // at rest again from t1 + ramp until t2, when given
    // u(t) = integral of smooth steps: u, u', u''
    void step(double t, double sign, double &u, double &d1, double &d2) const {
        double x = t / ramp;
        if (!(x > 0)) { return; }
        if (x >= 1) { u += sign * (ramp * 0.5 + (t - ramp)); d1 += sign; return; }
        d1 += sign * x * x * x * (10 + x * (-15 + 6 * x));
        d2 += sign * 30 * x * x * (x - 1) * (x - 1) / ramp;
        u += sign * ramp * x * x * x * x * (2.5 + x * (-3 + x));
    }
    void warp(double t, double &u, double &d1, double &d2) const {
        u = d1 = d2 = 0;
        step(t - t0, 1, u, d1, d2); step(t - t1, -1, u, d1, d2); step(t - t2, 1, u, d1, d2);
    }
    struct State { V3 p, v, a, w; Q4 q; };
    State at(double t) const {
        double u, d1, d2; warp(t, u, d1, d2);
        State s;
        V3 e, ed;
        for (int i = 0; i < 3; ++i) {
            double f = amp[i] * (std::sin(freq[i] * u + phase[i]) - std::sin(phase[i])) + vel[i] * u;
            double f1 = amp[i] * freq[i] * std::cos(freq[i] * u + phase[i]) + vel[i];
            double f2 = -amp[i] * freq[i] * freq[i] * std::sin(freq[i] * u + phase[i]);
            s.p[i] = f; s.v[i] = f1 * d1; s.a[i] = f2 * d1 * d1 + f1 * d2;
            e[i] = e0[i] + eAmp[i] * (std::sin(eFreq[i] * u + ePhase[i]) - std::sin(ePhase[i])) + eRate[i] * u;
            ed[i] = (eAmp[i] * eFreq[i] * std::cos(eFreq[i] * u + ePhase[i]) + eRate[i]) * d1;
        }
        s.q = Q4(Eigen::AngleAxisd(e[2], V3::UnitZ()) * Eigen::AngleAxisd(e[1], V3::UnitY()) * Eigen::AngleAxisd(e[0], V3::UnitX()));
        double cr = std::cos(e[0]), sr = std::sin(e[0]), cp = std::cos(e[1]), sp = std::sin(e[1]);
        s.w = V3(ed[0] - sp * ed[2], cr * ed[1] + sr * cp * ed[2], -sr * ed[1] + cr * cp * ed[2]);
        return s;
    }
    V3 gyro(double t) const { return at(t).w; }
    V3 accel(double t) const { State s = at(t); return s.q.conjugate() * (s.a + V3(0, 0, g)); }
};

struct Cam { Q4 q_bc; V3 p_bc; };

struct Sim {
    Traj tr;
    std::vector<Cam> cams;
    std::vector<V3> pts;
    double imuHz = 200; int camEvery = 20;       // a frame every so many IMU samples
    double camShift = 0;                         // in IMU periods, frames between samples
    int maxTracks = 28; double fov = 0.9, minDepth = 0.5, maxDepth = 25;
    double pixNoise = 0, gyroNoise = 0, accelNoise = 0;
    V3 ba = V3::Zero(), bg = V3::Zero();
    double duration = 10, origin = 0;            // origin: raw stamp of t = 0
    uint32_t firstId = 0;
    bool allVisible = false;                     // every point in every frame, as the project's own simulations do

    static Q4 forward() {                        // camera z along body x, camera x along body -y
        Eigen::Matrix3d R; R << 0, 0, 1, -1, 0, 0, 0, -1, 0;
        return Q4(R);
    }
    void rig(Rng &r, int n, double baseline) {
        cams.clear();
        for (int i = 0; i < n; ++i) {
            Q4 small(Eigen::AngleAxisd(r.uni(-0.05, 0.05), V3(r.gauss(), r.gauss(), r.gauss()).normalized()));
            cams.push_back({(forward() * small).normalized(), V3(r.uni(-0.1, 0.1), baseline * (0.5 * (n - 1) - i), r.uni(-0.1, 0.1))});
        }
    }
    void landmarks(Rng &r, int n, double rMin, double rMax, double spread = 2.0) {
        pts.clear();
        for (int i = 0; i < n; ++i) {
            V3 d;
            do { d = V3(r.uni(-1, 1), r.uni(-1, 1), r.uni(-0.6, 0.6)); } while (d.norm() > 1 || d.norm() < 0.1);
            double u = r.uni(0, tr.at(0).p.norm() + duration);
            V3 c = tr.at(std::min(u, duration)).p;
            pts.push_back(c + d.normalized() * r.uni(rMin, rMax) + V3(r.gauss(), r.gauss(), r.gauss()) * 0.1 * spread);
        }
    }

    struct ImuS { double t; V3 gyro, accel; };
    struct FrameS { double t; std::vector<uint32_t> ids; std::vector<int> pt; std::vector<std::map<uint32_t, Eigen::Vector2d>> obs; };
    std::vector<ImuS> imu; std::vector<FrameS> frames;

    bool project(int cam, const Traj::State &s, const V3 &p, Eigen::Vector2d &uv) const {
        V3 c = cams[cam].q_bc.conjugate() * (s.q.conjugate() * (p - s.p) - cams[cam].p_bc);
        if (allVisible) { if (std::fabs(c.z()) < 0.2) { return false; } uv = c.head<2>() / c.z(); return true; }
        if (c.z() < minDepth || c.z() > maxDepth) { return false; }
        uv = c.head<2>() / c.z();
        return std::fabs(uv.x()) < fov && std::fabs(uv.y()) < fov;
    }
    void generate(Rng &r) {
        imu.clear(); frames.clear();
        std::map<int, uint32_t> track;           // point -> id
        uint32_t next = firstId;
        int n = int(duration * imuHz) + 1;
        for (int k = 0; k < n; ++k) {
            double t = k / imuHz;
            ImuS m{t, tr.gyro(t) + bg, tr.accel(t) + ba};
            for (int i = 0; i < 3; ++i) { m.gyro[i] += gyroNoise * r.gauss(); m.accel[i] += accelNoise * r.gauss(); }
            imu.push_back(m);
            if (k % camEvery || k == 0) { continue; }
            double tf = t - camShift / imuHz;
            auto s = tr.at(tf);
            FrameS f; f.t = tf;
            std::map<int, std::map<uint32_t, Eigen::Vector2d>> seen;
            for (size_t i = 0; i < pts.size(); ++i) {
                for (size_t c = 0; c < cams.size(); ++c) {
                    Eigen::Vector2d uv;
                    if (project(int(c), s, pts[i], uv)) {
                        if (pixNoise > 0) { uv += Eigen::Vector2d(r.gauss(), r.gauss()) * pixNoise; }
                        seen[int(i)][uint32_t(c)] = uv;
                    }
                }
            }
            for (auto it = track.begin(); it != track.end();) { if (!seen.count(it->first)) { it = track.erase(it); } else { ++it; } }
            std::vector<int> fresh;
            for (auto &e : seen) { if (!track.count(e.first) && e.second.size() == cams.size()) { fresh.push_back(e.first); } }
            r.shuffle(fresh);
            for (int i : fresh) { if (int(track.size()) >= maxTracks) { break; } track[i] = next++; }
            for (auto &e : track) { f.ids.push_back(e.second); f.pt.push_back(e.first); f.obs.push_back(seen[e.first]); }
            frames.push_back(f);
        }
    }

    std::shared_ptr<ESKF_VIO_BACKEND::IMUMessage> imuMsg(size_t k) const {
        return std::make_shared<ESKF_VIO_BACKEND::IMUMessage>(imu[k].gyro.cast<float>(), imu[k].accel.cast<float>(), imu[k].t + origin);
    }
    std::shared_ptr<ESKF_VIO_BACKEND::FeaturesMessage> featMsg(size_t k) const {
        auto m = std::make_shared<ESKF_VIO_BACKEND::FeaturesMessage>();
        m->timeStamp = frames[k].t + origin;
        m->ids.assign(frames[k].ids.begin(), frames[k].ids.end());
        for (auto &o : frames[k].obs) {
            auto ob = std::make_shared<ESKF_VIO_BACKEND::FeatureObserve>();
            for (auto &e : o) { ob->norms[e.first] = e.second.cast<float>(); }
            m->observes.push_back(ob); m->flag.push_back(0);
        }
        return m;
    }

    // A configuration directory for the backend, in the format of eskf_vio_backend/config.
    struct Config { double na = 0.02, ng = 0.01, nwa = 1e-3, nwg = 1e-4, sigma = 0.002; int window = 9; double minTracked = 12, parallax = 0.2, maxTrans = 0.15; V3 ba = V3::Zero(), bg = V3::Zero(); };
    void writeConfig(const std::string &dir, const Config &c) const {
        std::string cmd = dir; (void)cmd;
        auto put = [&](const std::string &name, const std::string &text) { std::ofstream(dir + "/" + name) << text; };
        auto num = [](double v) { char b[40]; std::snprintf(b, 40, "%.9g", v); return std::string(b); };
        put("imu_frequence.txt", num(imuHz) + "\n");
        put("imu_na_ng_nwa_nwg.txt", num(c.na) + " " + num(c.ng) + " " + num(c.nwa) + " " + num(c.nwg) + "\n");
        put("imu_bias_a_g_init.txt", num(c.ba[0]) + " " + num(c.ba[1]) + " " + num(c.ba[2]) + "\n" + num(c.bg[0]) + " " + num(c.bg[1]) + " " + num(c.bg[2]) + "\n");
        put("gravity_norm.txt", num(tr.g) + "\n");
        put("window_size.txt", std::to_string(c.window) + "\n");
        put("vision_measure_noise.txt", num(c.sigma) + "\n");
        put("keyframe_policy.txt", num(c.minTracked) + " " + num(c.parallax) + " " + num(c.maxTrans) + "\n");
        for (size_t i = 0; i < cams.size(); ++i) {
            Eigen::Matrix4d T = Eigen::Matrix4d::Identity();
            T.topLeftCorner<3, 3>() = cams[i].q_bc.toRotationMatrix(); T.topRightCorner<3, 1>() = cams[i].p_bc;
            std::ostringstream s; s.precision(9);
            for (int a = 0; a < 4; ++a) { for (int b = 0; b < 4; ++b) { s << T(a, b) << (b < 3 ? " " : "\n"); } }
            put("T_bc" + std::to_string(i) + ".txt", s.str());
        }
    }
    void random(Rng &r) {
        for (int i = 0; i < 3; ++i) {
            tr.amp[i] = r.uni(0.3, 2.0) * (i == 2 ? 0.4 : 1); tr.freq[i] = r.uni(0.3, 0.9); tr.phase[i] = r.uni(0, 6.28);
            tr.eAmp[i] = r.uni(0.05, i == 2 ? 0.6 : 0.2); tr.eFreq[i] = r.uni(0.3, 0.9); tr.ePhase[i] = r.uni(0, 6.28);
            tr.e0[i] = i == 2 ? r.uni(-3, 3) : r.uni(-0.3, 0.3);
        }
        tr.t0 = r.uni(0.6, 1.2); tr.ramp = r.uni(1.5, 3.0);
        rig(r, r.range(2, 3), r.uni(0.12, 0.4));
        landmarks(r, 250, 2.0, 10.0);
    }
};
}  // namespace vf
