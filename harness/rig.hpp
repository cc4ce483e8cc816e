// Runs a Backend on a simulated rig and gives the monitors their snapshots.
#pragma once
#include "sim.hpp"
#include <backend.hpp>
#include <dirent.h>
#include <sys/stat.h>

namespace vf {
using ESKF_VIO_BACKEND::Backend;
using ESKF_VIO_BACKEND::IMUFullState;

inline void freshDir(const std::string &d) {
    mkdir(d.c_str(), 0755);
    if (DIR *h = opendir(d.c_str())) {
        while (dirent *e = readdir(h)) { std::string n = e->d_name; if (n != "." && n != "..") { unlink((d + "/" + n).c_str()); } }
        closedir(h);
    }
}

struct Published { bool ok = false; double t = NAN; V3 p, v, ba, bg; Q4 q; Eigen::Matrix<float, 16, 1> raw; };

inline Published publish(Backend &b, bool update) {
    Published r; IMUFullState s; double t = NAN;
    r.ok = update ? b.PublishUpdateState(s, t) : b.PublishPropagateState(s, t);
    if (r.ok) {
        r.t = t; r.p = s.p_wb.cast<double>(); r.v = s.v_wb.cast<double>(); r.ba = s.bias_a.cast<double>(); r.bg = s.bias_g.cast<double>();
        r.q = s.q_wb.cast<double>();
        r.raw << s.p_wb, s.v_wb, s.q_wb.coeffs(), s.bias_a, s.bias_g;
    }
    return r;
}

// One backend fed from a Sim in time order, with a hook after every RunOnce.
struct Rig {
    Sim &s;
    std::unique_ptr<Backend> b;
    size_t nextImu = 0, nextFrame = 0;
    std::string dir;
    explicit Rig(Sim &sim, const Sim::Config &cfg, const std::string &d = "cfg") : s(sim), b(new Backend()), dir(d) {
        freshDir(dir); s.writeConfig(dir, cfg); b->ConfigParams(dir);
    }
    // Pushes the IMU sample `nextImu` and the frames not later than it.
    bool feed(const std::function<bool(size_t)> &useImu = nullptr, const std::function<bool(size_t)> &useFrame = nullptr) {
        if (nextImu >= s.imu.size()) { return false; }
        while (nextFrame < s.frames.size() && s.frames[nextFrame].t <= s.imu[nextImu].t + 1e-9) {
            if (!useFrame || useFrame(nextFrame)) { b->GetFeaturesMessage(s.featMsg(nextFrame)); }
            ++nextFrame;
        }
        if (!useImu || useImu(nextImu)) { b->GetIMUMessage(s.imuMsg(nextImu)); }
        ++nextImu;
        return true;
    }
    double frontFrameTime() { return b->MonitorFrameManager().frames.front()->timeStamp; }
};

// The backend's world has its origin at the body of the first frame of the window it started from, and
// the heading that the shortest rotation from measured to true gravity gives.
struct Align {
    Q4 R = Q4::Identity(); V3 p0 = V3::Zero();
    // p0, q0: true pose at the start; qe: estimated attitude there. Only the heading is taken from qe.
    void fromAttitude(const Traj::State &s0, const Q4 &qe) {
        p0 = s0.p;
        Q4 d = qe * s0.q.conjugate();
        double yaw = std::atan2(2 * (d.w() * d.z() + d.x() * d.y()), 1 - 2 * (d.y() * d.y() + d.z() * d.z()));
        R = Q4(Eigen::AngleAxisd(yaw, V3::UnitZ()));
    }
    V3 pos(const V3 &p) const { return R * (p - p0); }
    V3 vel(const V3 &v) const { return R * v; }
    Q4 att(const Q4 &q) const { return R * q; }
};
inline double angleBetween(const Q4 &a, const Q4 &b) {
    Q4 d = a.conjugate() * b;
    return 2 * std::atan2(d.vec().norm(), std::fabs(d.w()));
}
}  // namespace vf
