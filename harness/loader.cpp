// C01 C02 C03: the data loader against a model that keeps its own queues.
#define VF_MAIN
#include "common.hpp"
#include <data_loader.hpp>
#include <deque>
#include <memory>
using namespace ESKF_VIO_BACKEND;
using vf::Case; using vf::Rng;

struct MsgModel { double t; long tag; Eigen::Vector3d gyro, accel; bool empty = false; };

// The specification: what a loader has to deliver.
struct LoaderModel {
    double period = 0.005, origin = NAN, lastImu = -INFINITY, lastFeat = -INFINITY;
    std::deque<MsgModel> imu, feat;
    long accepted = 0, refused = 0;
    void clear() { imu.clear(); feat.clear(); origin = NAN; lastImu = lastFeat = -INFINITY; }
    void push(bool isImu, MsgModel m) {
        if (std::isnan(origin)) { origin = m.t; }
        m.t -= origin;
        double &last = isImu ? lastImu : lastFeat;
        if (m.t > last) { last = m.t; (isImu ? imu : feat).push_back(m); ++accepted; } else { ++refused; }
    }
    struct Out { bool ok = false; bool hasFeat = false; MsgModel feat; std::vector<MsgModel> imu; };
    Out popOne() {
        Out o;
        if (imu.empty() && feat.empty()) { return o; }
        o.ok = true;
        bool takeFeat = imu.empty() || (!feat.empty() && feat.front().t <= imu.front().t);
        if (takeFeat) {
            o.hasFeat = true; o.feat = feat.front(); feat.pop_front();
            if (!imu.empty() && std::fabs(o.feat.t - imu.front().t) < period) { o.imu.push_back(imu.front()); imu.pop_front(); }
        } else { o.imu.push_back(imu.front()); imu.pop_front(); }
        return o;
    }
    Out popPacked() {
        Out o;
        if (imu.empty() || feat.empty() || imu.back().t <= feat.front().t) { return o; }
        if (imu.front().t >= feat.front().t) { feat.pop_front(); return o; }
        o.ok = o.hasFeat = true;
        o.feat = feat.front(); feat.pop_front();
        while (imu.front().t <= o.feat.t) { o.imu.push_back(imu.front()); imu.pop_front(); }
        MsgModel left = o.imu.back();
        if (std::fabs(left.t - o.feat.t) > 1e-6) {
            MsgModel right = imu.front(), mid;
            double r = (o.feat.t - left.t) / (right.t - left.t);
            mid.t = o.feat.t; mid.tag = -1;
            mid.gyro = left.gyro * (1 - r) + right.gyro * r;
            mid.accel = left.accel * (1 - r) + right.accel * r;
            o.imu.push_back(mid);
        }
        imu.push_front(o.imu.back());
        return o;
    }
};

struct Pair {
    std::unique_ptr<DataLoader> real{new DataLoader()};
    LoaderModel model;
    double tImu = 0, tFeat = 0;
    std::shared_ptr<CombinedMessage> out;
};

static long nextTag = 1;

static std::shared_ptr<FeaturesMessage> makeFeat(double t, long tag, Rng &r, bool empty = false) {
    std::shared_ptr<FeaturesMessage> m(new FeaturesMessage());
    int n = empty ? 0 : r.range(0, 3);
    if (!empty) { m->ids.push_back(uint32_t(tag)); }
    for (int i = 0; i < n; ++i) { m->ids.push_back(uint32_t(tag * 7 + i)); }
    for (size_t i = 0; i < m->ids.size(); ++i) {
        std::shared_ptr<FeatureObserve> o(new FeatureObserve());
        o->norms[0] = Vector2(Scalar(tag % 1000), Scalar(i));
        m->observes.push_back(o); m->flag.push_back(uint8_t(tag + long(i)));
    }
    m->timeStamp = t;
    return m;
}

static void push(Pair &p, bool isImu, double t, Rng &r, Case &c) {
    MsgModel m; m.t = t; m.tag = nextTag++;
    for (int k = 0; k < 3; ++k) { m.gyro[k] = float(r.uni(-3, 3)); m.accel[k] = float(r.uni(-12, 12)); }
    m.gyro[0] = double(m.tag % 100000);         // the sample's identity, exact in float
    c.trace << (isImu ? "push imu " : "push feat ") << t << " tag " << m.tag << "\n";
    if (isImu) {
        std::shared_ptr<IMUMessage> msg(new IMUMessage(m.gyro.cast<Scalar>(), m.accel.cast<Scalar>(), t));
        p.real->PushIMUMessage(msg);
    } else { m.empty = r.chance(0.1); p.real->PushFeaturesMessage(makeFeat(t, m.tag, r, m.empty)); }
    p.model.push(isImu, m);
    c.hash(isImu); c.hashd(t);
}

static void compare(Pair &p, bool ok, const LoaderModel::Out &w, Case &c, const char *op) {
    auto &o = p.out;
    c.trace << op << " -> " << ok << (w.ok ? " (expected message" : " (expected none") << (w.hasFeat ? " feat " : "") << w.imu.size() << " imu)\n";
    c.expect(ok == w.ok, "result", std::string(op) + (w.ok ? " delivered nothing although a message is due" : " delivered although nothing is due"));
    if (!ok) { c.expect(o == nullptr || (o->featMeas == nullptr && o->imuMeas.empty()), "left-over", std::string(op) + " delivers nothing, but its output holds messages"); return; }
    c.expect(o != nullptr, "null-output", "successful pop left the output null");
    c.expect((o->featMeas != nullptr) == w.hasFeat, "kind", w.hasFeat ? "camera frame missing from the output" : "unexpected camera frame in the output");
    if (w.hasFeat) {
        if (w.feat.empty) { c.count("frames without tracks"); }
        c.expect(o->featMeas->ids.empty() == w.feat.empty && (w.feat.empty || o->featMeas->ids[0] == uint32_t(w.feat.tag)), "feat-order", "wrong camera frame delivered");
        c.expect(o->featMeas->observes.size() == o->featMeas->ids.size(), "feat-content", "camera frame content changed");
        for (size_t i = 0; i < o->featMeas->observes.size(); ++i) {
            auto &n = o->featMeas->observes[i]->norms;
            c.expect(n.size() == 1 && n.count(0) && n[0] == Vector2(Scalar(w.feat.tag % 1000), Scalar(i)), "feat-content", "camera frame content changed");
        }
        c.expect(o->featMeas->flag.size() == o->featMeas->ids.size(), "feat-content", "flags of the camera frame changed");
        for (size_t i = 0; i < o->featMeas->flag.size(); ++i) { c.expect(o->featMeas->flag[i] == uint8_t(w.feat.tag + long(i)), "feat-content", "flags of the camera frame changed"); }
        c.near(o->featMeas->timeStamp, w.feat.t, 1e-9, "feat-stamp", "time stamp of the camera frame");
        c.count("frames delivered");
    }
    c.expect(o->imuMeas.size() == w.imu.size(), "imu-count", "number of IMU samples delivered: got " + std::to_string(o->imuMeas.size()) +
             ", expected " + std::to_string(w.imu.size()));
    for (size_t i = 0; i < w.imu.size(); ++i) {
        auto &g = o->imuMeas[i];
        c.expect(g != nullptr, "imu-null", "null IMU sample delivered");
        c.near(g->timeStamp, w.imu[i].t, 1e-9, "imu-stamp", "time stamp of IMU sample " + std::to_string(i));
        double tol = w.imu[i].tag < 0 ? 2e-2 : 0;       // interpolated: gyro[0] holds tags up to 1e5 in float
        for (int k = 0; k < 3; ++k) {
            double rel = tol * (k == 0 ? std::max(1.0, std::fabs(w.imu[i].gyro[0]) * 1e-4) : 1e-3);
            c.near(g->gyro[k], w.imu[i].gyro[k], rel, w.imu[i].tag < 0 ? "interpolation" : "imu-content", "gyro of IMU sample " + std::to_string(i));
            c.near(g->accel[k], w.imu[i].accel[k], tol * 1e-3, w.imu[i].tag < 0 ? "interpolation" : "imu-content", "accel of IMU sample " + std::to_string(i));
        }
        c.count("imu delivered");
    }
}

static void popOne(Pair &p, Case &c, Rng &r) {
    if (r.chance(0.3)) { p.out.reset(); }
    bool ok = p.real->PopOneMessage(p.out);
    auto w = p.model.popOne();
    if (w.ok && w.hasFeat && !w.imu.empty()) { c.count("merged outputs"); }
    compare(p, ok, w, c, "pop");
}
static void popPacked(Pair &p, Case &c) {
    if (!p.out) { p.out.reset(new CombinedMessage()); }
    size_t before = p.model.feat.size();
    bool ok = p.real->PopPackedMessage(p.out);
    auto w = p.model.popPacked();
    if (!w.ok && p.model.feat.size() < before) { c.count("frames without IMU dropped"); }
    if (w.ok && w.imu.back().tag < 0) { c.count("interpolated boundaries"); }
    if (w.ok) { c.count("bundles"); }
    compare(p, ok, w, c, "pop packed");
}

// Advances a stream's raw clock: mostly forward, sometimes repeated or backwards.
static double step(double &t, double unit, Rng &r, double disorder) {
    if (r.chance(disorder)) {
        switch (r.range(0, 2)) {
            case 0: return t;
            case 1: return t - unit * r.range(1, 4);
            default: return t - unit * r.range(5, 40);
        }
    }
    t += unit * r.range(1, 3);
    return t;
}

static void c01(Rng &r, Case &c) {
    Pair p;
    bool dyadic = r.chance(0.6);
    double unit = dyadic ? 1.0 / 1024 : 0.001 * r.uni(0.7, 1.3);
    int periodUnits = r.range(1, 8);
    p.real->imuPeriod = p.model.period = dyadic ? periodUnits * unit : 0.0037 * periodUnits;
    double base = dyadic ? r.range(-2000, 2000) : r.uni(-1e3, 1e6);
    if (r.chance(0.2)) { base = 0; }
    p.tImu = p.tFeat = base;
    double disorder = r.chance(0.5) ? 0.0 : r.uni(0, 0.4);
    double burst = r.uni(0.2, 0.95);
    int ops = r.range(20, 120), camEvery = r.range(1, 10);
    int pops = 0; bool jitter = r.chance(0.4);
    // a stream that goes on long after the message that set the clock: hours to weeks
    long lateFrom = r.chance(0.25) ? r.range(1, ops) : -1;
    for (int i = 0; i < ops; ++i) {
        if (i == lateFrom) {
            double jump = std::round(std::pow(10.0, r.uni(3, 6.5)));
            p.tImu = p.tFeat = std::max(p.tImu, p.tFeat) + jump; c.count("streams resumed late");
        }
        if (r.chance(burst)) {
            // keep the two clocks near each other, or let one lag
            bool isImu = r.range(0, camEvery) != 0;
            if (!isImu && r.chance(0.7)) { p.tFeat = std::max(p.tFeat, p.tImu - unit * r.range(0, 5)); }
            double t = step(isImu ? p.tImu : p.tFeat, unit, r, disorder);
            if (jitter && r.chance(0.5)) { t += unit * std::pow(10.0, r.uni(-4, 0)); }      // close to, but not at, the stamps of the others
            push(p, isImu, t, r, c);
            if (r.chance(0.05)) {
                if (r.chance(0.5)) { p.real->PushIMUMessage(nullptr); } else { p.real->PushFeaturesMessage(nullptr); }
                auto bad = makeFeat(t + unit, 12345, r); bad->ids.push_back(1);
                p.real->PushFeaturesMessage(bad);
                c.count("malformed pushed"); c.trace << "push malformed\n";
            }
        } else { popOne(p, c, r); ++pops; }
    }
    while (!p.model.imu.empty() || !p.model.feat.empty()) { popOne(p, c, r); }
    popOne(p, c, r); popOne(p, c, r);
    c.count("messages accepted", p.model.accepted); c.count("messages refused", p.model.refused); c.count("pops between pushes", pops);
    if (p.model.accepted > 5) { c.nontrivial(); }
    c.sample = "period " + std::to_string(p.model.period) + " s, " + std::to_string(p.model.accepted) + " accepted, " + std::to_string(p.model.refused) + " refused, all delivered in model order";
}

static void c02(Rng &r, Case &c) {
    Pair p;
    double unit = 1.0 / 1024;
    p.tImu = p.tFeat = r.range(-100, 1000);
    double disorder = r.chance(0.7) ? 0.0 : r.uni(0, 0.2);
    int camEvery = r.range(2, 12), ops = r.range(30, 150);
    bool late = r.chance(0.2);          // camera starts before the IMU
    p.real->imuPeriod = p.model.period = r.pick(std::vector<double>{0, unit * 4, unit * 8, 0.02});
    long bundles = 0, longest = 0;
    long lateFrom = r.chance(0.2) ? r.range(1, ops) : -1;       // hours to weeks after the message that set the clock
    long longAt = r.chance(0.1) ? r.range(1, ops) : -1;         // the camera is away while many samples arrive
    for (int i = 0; i < ops; ++i) {
        if (i == lateFrom) { p.tImu = p.tFeat = std::round(std::max(p.tImu, p.tFeat) + std::pow(10.0, r.uni(3, 6.5))); c.count("streams resumed late"); }
        if (i == longAt) { for (int k = 0, n = int(std::pow(10.0, r.uni(2, 3.3))); k < n; ++k) { push(p, true, step(p.tImu, unit * 4, r, 0), r, c); } }
        if (r.chance(0.75)) {
            bool isImu = !(late && i < 4) && r.range(0, camEvery) != 0;
            double t;
            if (isImu) { t = step(p.tImu, unit * 4, r, disorder); }
            else {
                // exactly on an IMU sample, within a microsecond of one, or between two
                double target = std::max(p.tFeat + unit, p.tImu - unit * r.range(-8, 20));
                double grid = std::round(target / (unit * 4)) * unit * 4;
                if (grid > p.tFeat && r.chance(0.4)) { target = grid; if (r.chance(0.3)) { target += 2e-7; } else if (r.chance(0.4)) { target += unit * 4 * std::pow(10.0, r.uni(-2.3, 0)); } }
                p.tFeat = t = r.chance(disorder) ? p.tFeat : target;
            }
            push(p, isImu, t, r, c);
        } else { size_t n = p.model.feat.size(); popPacked(p, c); if (p.model.feat.size() < n) { ++bundles; longest = std::max(longest, long(p.out->imuMeas.size())); } }
    }
    for (int k = 0; k < 200 && !p.model.feat.empty(); ++k) { popPacked(p, c); ++bundles; longest = std::max(longest, long(p.out->imuMeas.size())); }
    c.peak("longest bundle, samples", longest);
    for (int k = 0; k < 20; ++k) { push(p, true, step(p.tImu, unit * 4, r, 0), r, c); }
    for (int k = 0; k < 200 && !p.model.feat.empty(); ++k) { popPacked(p, c); }
    if (bundles > 2) { c.nontrivial(); }
    c.sample = std::to_string(ops) + " operations, " + std::to_string(bundles) + " bundles or drops";
}

static void c03(Rng &r, Case &c) {
    int n = r.range(1, 3);
    std::vector<Pair> ps(n);
    for (auto &p : ps) {
        p.real->imuPeriod = p.model.period = 0.005;
        p.tImu = p.tFeat = r.chance(0.2) ? 0.0 : (r.chance(0.5) ? r.uni(-1e4, 1e4) : r.uni(1.6e9, 1.7e9));
    }
    // recordings of both kinds, or of one kind only
    auto kinds = [&]() { return r.chance(0.3) ? (r.chance(0.5) ? 0.0 : 1.0) : 0.7; };
    std::vector<double> imuPart; for (int i = 0; i < n; ++i) { imuPart.push_back(kinds()); }
    int clears = 0;
    for (int i = 0, ops = r.range(30, 120); i < ops; ++i) {
        size_t which = size_t(r.range(0, n - 1)); auto &p = ps[which];
        double what = r.uni();
        if (what < 0.04) {
            auto bad = makeFeat(p.tFeat + r.uni(-5, 5), 77, r); bad->ids.push_back(3);
            p.real->PushFeaturesMessage(bad); c.trace << "push malformed\n";
        } else if (what < 0.10) {
            p.real->Clear(); p.model.clear(); ++clears; imuPart[which] = kinds(); c.trace << "clear\n";
            if (r.chance(0.6)) { p.tImu = p.tFeat = r.uni(-1e3, 1e3); }       // a new recording, maybe older
        } else if (what < 0.11) {
            p.tImu = p.tFeat = std::max(p.tImu, p.tFeat) + std::pow(10.0, r.uni(2, 6.5)); c.count("streams resumed late");
        } else if (what < 0.75) {
            bool isImu = r.chance(imuPart[which]);
            push(p, isImu, step(isImu ? p.tImu : p.tFeat, 0.004, r, 0.1), r, c);
        } else { popOne(p, c, r); }
    }
    for (auto &p : ps) { while (!p.model.imu.empty() || !p.model.feat.empty()) { popOne(p, c, r); } popOne(p, c, r); }
    c.count("clears", clears); c.count("loaders", n);
    if (n > 1 || clears) { c.nontrivial(); }
    c.sample = std::to_string(n) + " loaders interleaved, " + std::to_string(clears) + " clears";
}

int main(int argc, char **argv) {
    vf::Runner run; run.init(argc, argv);
    if (run.prop == "C01") {
        run.rule = "a case is a random interleaving of pushes (in order, repeated, backwards, malformed) and single pops, then a full drain, with every output compared to a model of the two queues; non-trivial when more than five messages were accepted; distinct by the pushed stamps and kinds";
        run.family("one", run.n(24000, 200000), c01);
    } else if (run.prop == "C02") {
        run.rule = "a case is a random interleaving of pushes and packed pops, with frames on, near and between IMU samples, compared to a model of the bundles; non-trivial when at least three frames were bundled or dropped; distinct by the pushed stamps and kinds";
        run.family("packed", run.n(24000, 200000), c02);
    } else if (run.prop == "C03") {
        run.rule = "a case interleaves pushes, pops, clears and malformed frames over one to three loaders whose clocks start anywhere; every delivered stamp is compared to raw stamp minus the loader's first stamp; non-trivial with several loaders or at least one clear; distinct by the pushed stamps";
        run.family("clock", run.n(24000, 200000), c03);
    }
    return run.finish();
}
