// C31: messages, tracks, frames and states keep what they are given, and telling about them is safe.
#define VF_MAIN
#include "common.hpp"
#include <frame_manager.hpp>
#include <sequence_propagator.hpp>
#include <tick_tock.hpp>
#include <chrono>
#include <thread>
using namespace ESKF_VIO_BACKEND;
using vf::Case; using vf::Rng;

static Scalar value(Rng &r) { return r.chance(0.05) ? Scalar(0) : Scalar(r.gauss() * std::pow(10, r.uni(-6, 6))); }
static Vector2 v2(Rng &r) { return Vector2(value(r), value(r)); }
static Vector3 v3(Rng &r) { return Vector3(value(r), value(r), value(r)); }
static Quaternion rot(Rng &r) { Quaternion q(Scalar(r.gauss()), Scalar(r.gauss()), Scalar(r.gauss()), Scalar(r.gauss())); q.normalize(); return q; }
static uint32_t label(Rng &r) { return r.chance(0.6) ? uint32_t(r.range(0, 40)) : r.chance(0.3) ? 0xFFFFFFFFu - uint32_t(r.range(0, 3)) : uint32_t(r.next()); }
// What an object prints.
template <class T> static std::string told(T &x) {
    std::ostringstream s; auto *old = std::cout.rdbuf(s.rdbuf()); std::cout.clear(); x.Information(); std::cout.rdbuf(old); std::cout.setstate(std::ios::failbit); return s.str();
}
static bool mentions(const std::string &text, const std::string &word) {
    auto part = [](char ch) { return std::isalnum(static_cast<unsigned char>(ch)); };
    for (size_t at = text.find(word); at != std::string::npos; at = text.find(word, at + 1)) {
        if ((at == 0 || !part(text[at - 1])) && (at + word.size() >= text.size() || !part(text[at + word.size()]))) { return true; }
    }
    return false;
}
static std::shared_ptr<FeatureObserve> observe(Rng &r, std::map<uint32_t, Vector2> &want) {
    std::unordered_map<uint32_t, Vector2> n; want.clear(); for (int k = r.range(0, 4); k > 0; --k) { uint32_t cam = r.chance(0.8) ? uint32_t(r.range(0, 4)) : label(r); want[cam] = v2(r); n[cam] = want[cam]; }
    auto o = r.chance(0.5) ? std::make_shared<FeatureObserve>(n) : std::make_shared<FeatureObserve>(); if (o->norms.empty()) { o->norms = n; }
    n.clear(); return o;                                        // the caller's own map no longer matters
}
static void seen(FeatureObserve &o, const std::map<uint32_t, Vector2> &want, Rng &r, Case &c) {
    c.expect(o.norms.size() == want.size(), "observation", "an observation by " + std::to_string(want.size()) + " cameras holds " + std::to_string(o.norms.size()));
    for (int k = 0; k < 8; ++k) {
        uint32_t cam = !want.empty() && r.chance(0.5) ? std::next(want.begin(), long(r.next() % want.size()))->first : r.chance(0.7) ? uint32_t(k) : label(r); Vector2 n(7, -9); bool got = o.GetNorm(cam, n), is = want.count(cam);
        c.expect(got == is, "camera", "camera " + std::to_string(cam) + (is ? " observed and is not answered for" : " did not observe and is answered for"));
        c.expect(n == (is ? want.at(cam) : Vector2(7, -9)), "value", "asking for camera " + std::to_string(cam) + (is ? " answers with another value" : " is refused, but writes the output"));
        c.count(is ? "observations answered" : "observations refused");
    }
}
static void messages(Rng &r, Case &c) {
    // one observation
    std::map<uint32_t, Vector2> want; auto o = observe(r, want); seen(*o, want, r, c);
    // camera messages
    int n = r.range(0, 12), m = r.chance(0.7) ? n : r.range(0, 12), fl = r.chance(0.5) ? n : r.range(0, 12); double t = r.pick(std::vector<double>{0, 1e-3, 1.5, -2, 1.7e9}) + r.uni();
    std::vector<uint32_t> ids; std::vector<std::shared_ptr<FeatureObserve>> obs; std::vector<uint8_t> flag; std::vector<std::map<uint32_t, Vector2>> wants; bool nulls = false;
    for (int i = 0; i < n; ++i) { ids.push_back(label(r)); } for (int i = 0; i < m; ++i) { wants.emplace_back(); obs.push_back(observe(r, wants.back())); if (r.chance(0.1)) { obs.back() = nullptr; nulls = true; } } for (int i = 0; i < fl; ++i) { flag.push_back(uint8_t(r.range(0, 255))); }
    FeaturesMessage msg(ids, obs, flag, t); auto ids0 = ids; auto obs0 = obs; auto flag0 = flag; ids.assign(3, 0); obs.clear(); flag.clear();
    if (n == m) {
        c.expect(msg.ids == ids0 && msg.observes == obs0 && msg.flag == flag0 && msg.timeStamp == t, "features", "a camera message does not hold what it was made from");
        for (int i = 0; i < n; ++i) { if (obs0[size_t(i)]) { seen(*msg.observes[size_t(i)], wants[size_t(i)], r, c); } }
        std::string s = told(msg); for (uint32_t id : msg.ids) { c.expect(mentions(s, std::to_string(id)), "told", "a camera message tells about itself without its track " + std::to_string(id)); }
        c.expect(msg.ids == ids0 && msg.observes == obs0 && msg.flag == flag0 && msg.timeStamp == t, "told-changes", "telling about a camera message changes it");
        c.count("camera messages"); c.count("camera messages with missing observations", nulls);
    } else {
        c.expect(msg.ids.empty() && msg.observes.empty() && msg.flag.empty() && msg.timeStamp == 0, "mismatch", std::to_string(n) + " labels with " + std::to_string(m) + " observations make a message that is not empty"); told(msg); c.count("mismatched lists");
    }
    // messages whose lists somebody changed afterwards
    FeaturesMessage odd; odd.ids = ids0; odd.observes = obs0; told(odd); c.expect(odd.ids == ids0 && odd.observes == obs0, "told-changes", "telling about a camera message changes it"); odd.Clear(); c.expect(odd.ids.empty() && odd.observes.empty() && odd.timeStamp == 0, "clear", "a cleared camera message is not empty");
    for (size_t i = 0; i < obs0.size(); ++i) { if (obs0[i]) { seen(*obs0[i], wants[i], r, c); } }             // clearing a message leaves observations held elsewhere
    o->Clear(); c.expect(o->norms.empty(), "clear", "a cleared observation is not empty");
    // IMU messages and both together
    Vector3 w = v3(r), a = v3(r); double ti = r.uni(-3, 1e6); auto imu = std::make_shared<IMUMessage>(w, a, ti); c.expect(imu->gyro == w && imu->accel == a && imu->timeStamp == ti, "imu", "an IMU message does not hold what it was made from"); told(*imu); c.expect(imu->gyro == w && imu->accel == a && imu->timeStamp == ti, "told-changes", "telling about an IMU message changes it");
    IMUMessage none; c.expect(none.gyro.isZero(0) && none.accel.isZero(0) && none.timeStamp == 0, "imu", "an IMU message made from nothing is not zero");
    auto feat = r.chance(0.8) ? std::make_shared<FeaturesMessage>(msg) : nullptr; std::vector<std::shared_ptr<IMUMessage>> list; for (int k = r.range(0, 5); k > 0; --k) { list.push_back(r.chance(0.15) ? nullptr : std::make_shared<IMUMessage>(v3(r), v3(r), r.uni(0, 10))); }
    CombinedMessage many(feat, list), one(feat, r.chance(0.2) ? std::shared_ptr<IMUMessage>() : imu); auto list0 = list; list.clear();
    c.expect(many.featMeas == feat && many.imuMeas == list0, "combined", "a combined message does not hold what it was made from"); c.expect(one.featMeas == feat && one.imuMeas.size() == 1 && (one.imuMeas[0] == imu || !one.imuMeas[0]), "combined", "a combined message does not hold its one IMU message");
    told(many); told(one); CombinedMessage empty; told(empty); c.expect(!empty.featMeas && empty.imuMeas.empty(), "combined", "a combined message made from nothing is not empty");
    size_t feats = feat ? feat->ids.size() : 0; many.Clear(); c.expect(!many.featMeas && many.imuMeas.empty(), "clear", "a cleared combined message is not empty"); c.expect(!feat || feat->ids.size() == feats, "clear", "clearing a combined message empties its camera message"); c.count("combined messages", 2);
    c.nontrivial(); c.hash(uint64_t(n * 100 + m)); c.hashd(w.x()); c.sample = std::to_string(n) + " labels, " + std::to_string(m) + " observations, " + std::to_string(list0.size()) + " IMU messages";
}
static void managers(Rng &r, Case &c) {
    FrameManager fm; FeatureManager fe; told(fm); told(fe); c.expect(fm.GetMaxFrameID() == 0 && !fm.GetFrame(0) && !fm.GetFrame(1) && !fm.NeedMarginalize() && !fm.RemoveFrame(0) && !fm.IsKeyFrame(nullptr), "empty", "an empty window answers for frames it has not");
    int n = r.chance(0.05) ? r.range(15, 45) : r.range(1, 8); std::map<std::pair<uint32_t, uint32_t>, std::shared_ptr<FeatureObserve>> given; std::vector<std::set<uint32_t>> in; std::vector<std::shared_ptr<Frame>> all; double t = r.uni(0, 5); std::vector<uint32_t> pool; for (int i = 0; i < 20; ++i) { pool.push_back(label(r)); }
    for (int i = 0; i < n; ++i) {
        auto f = std::make_shared<Frame>(t += r.uni(0.01, 1)); f->p_wb = v3(r); f->v_wb = v3(r); f->q_wb = rot(r); double stamp = f->timeStamp; c.expect(fm.AddNewFrame(f), "add", "the window refuses a frame");
        c.expect(f->timeStamp == stamp && fm.frames.back() == f, "add", "the newest frame of the window is not the one added, with its stamp");
        if (i == 0) { c.expect(f->p_wb.isZero(0) && f->v_wb.isZero(0) && f->q_wb.coeffs() == Quaternion::Identity().coeffs(), "first-pose", "the first frame does not start at the origin"); }
        else { c.expect(f->p_wb == all.back()->p_wb && f->v_wb == all.back()->v_wb && f->q_wb.coeffs() == all.back()->q_wb.coeffs() && f->id == all.back()->id + 1, "next-pose", "a new frame does not start where the one before is"); }
        f->p_wb = v3(r); f->v_wb = v3(r); f->q_wb = rot(r); all.push_back(f);
        std::vector<uint32_t> ids; std::vector<std::shared_ptr<FeatureObserve>> obs; std::set<uint32_t> s; for (uint32_t id : pool) { if (r.chance(0.4) && !s.count(id)) { auto o = std::make_shared<FeatureObserve>(); o->norms[uint32_t(r.range(0, 2))] = v2(r); ids.push_back(id); obs.push_back(o); s.insert(id); given[{f->id, id}] = o; } }
        std::vector<std::shared_ptr<Feature>> ch; fe.AddNewFeatures(ids, obs, f->id, ch); if (!ch.empty() && r.chance(0.2)) { ch.insert(ch.begin() + long(r.next() % ch.size()), ch[r.next() % ch.size()]); } f->AddFeatures(ch); in.push_back(s);
        c.expect(f->features.size() == s.size(), "links", "a frame given " + std::to_string(s.size()) + " tracks, one perhaps twice, knows " + std::to_string(f->features.size())); for (uint32_t id : s) { c.expect(f->features.count(id) && f->features.at(id) == fe.features.at(id), "links", "a frame does not know a track it was given"); }
        c.expect(fm.GetMaxFrameID() == f->id, "max-id", "the newest frame of " + std::to_string(fm.frames.size()) + " has number " + std::to_string(f->id) + ", told is " + std::to_string(fm.GetMaxFrameID())); for (auto &g : all) { c.expect(fm.GetFrame(g->id) == g, "get-frame", "a frame of the window is not found by its number"); }
    }
    // telling
    std::string s = told(fe); for (auto &e : fe.features) { c.expect(mentions(s, std::to_string(e.first)), "told", "the tracks tell about themselves without " + std::to_string(e.first)); } told(fm);
    auto snap = [&]() { std::ostringstream o; o.precision(9); for (auto &f : fm.frames) { o << f->id << " " << f->timeStamp << " " << f->p_wb.transpose() << f->v_wb.transpose() << f->q_wb.coeffs().transpose() << " " << f->features.size() << ";"; } for (uint32_t id : pool) { auto it = fe.features.find(id); if (it != fe.features.end()) { o << id << " " << it->second->firstFrameID << " " << it->second->observes.size() << " " << it->second->observeNum << it->second->p_w.transpose() << it->second->status << ";"; } } return o.str(); };
    std::string before = snap(); for (auto &f : all) { std::string x = told(*f); c.expect(mentions(x, std::to_string(f->id)), "told", "a frame tells about itself without its number"); } for (auto &e : fe.features) { told(*e.second); } told(fm); told(fe); c.expect(snap() == before, "told-changes", "telling about the window changes it");
    // what a track answers for frames and cameras
    for (auto &e : fe.features) {
        for (int k = 0; k < 6; ++k) {
            size_t i = r.next() % all.size(); bool near = r.chance(0.8); uint32_t frame = near ? all[i]->id : r.chance(0.5) ? all.back()->id + uint32_t(r.range(1, 3)) : label(r), cam = uint32_t(r.range(0, 3)); Vector2 n(7, -9); const Vector2 *is = nullptr;
            if (near && in[i].count(e.first)) { auto &norms = given.at({all[i]->id, e.first})->norms; auto it = norms.find(cam); if (it != norms.end()) { is = &it->second; } }
            if (!near && frame >= all.front()->id && frame <= all.back()->id) { continue; }
            bool got = e.second->GetNorm(frame, cam, n); c.expect(got == (is != nullptr), "track", "track " + std::to_string(e.first) + " in frame " + std::to_string(frame) + ", camera " + std::to_string(cam) + (is ? " was observed and is not answered for" : " was not observed and is answered for"));
            c.expect(n == (is ? *is : Vector2(7, -9)), "track", is ? "a track answers with another value" : "a track asked for a frame or camera that did not observe it writes the output"); c.count(is ? "track answers" : "track refusals");
        }
    }
    // what two frames share
    for (int k = 0; k < 6; ++k) {
        size_t a = r.next() % all.size(), b = r.next() % all.size(); std::set<uint32_t> both, got; for (uint32_t id : in[a]) { if (in[b].count(id)) { both.insert(id); } }
        auto cov = all[a]->GetCovisibleFeatures(all[b]); for (auto &f : cov) { got.insert(f->id); c.expect(f == fe.features.at(f->id), "shared", "two frames share a track that is not the window's"); } c.expect(got == both && cov.size() == both.size(), "shared", "two frames share " + std::to_string(both.size()) + " tracks, told are " + std::to_string(cov.size())); c.count("pairs of frames");
    }
    // a frame that is not in the window (any more), or none at all
    auto stranger = std::make_shared<Frame>(t + 1); if (r.chance(0.5)) { stranger->id = all.back()->id + uint32_t(r.range(0, 3)); } stranger->features = all.back()->features; (void)fm.IsKeyFrame(stranger); c.expect(!fm.IsKeyFrame(nullptr), "no-frame", "no frame is called a key frame"); c.expect(all[0]->GetCovisibleFeatures(nullptr).empty(), "no-frame", "a frame shares tracks with none"); c.count("frames outside the window");
    c.expect(snap() == before, "asking-changes", "asking about frames changes the window");
    // an observation of nothing
    for (int k = 0; k < 3 && !fe.features.empty(); ++k) {
        auto it = fe.features.begin(); std::advance(it, long(r.next() % fe.features.size())); auto &x = *it->second; size_t had = x.observes.size(); uint32_t num = x.observeNum; Feature::Status st = x.status; uint32_t last = x.FinalFrameID();
        x.AddNewObserve(std::make_shared<FeatureObserve>()); c.expect(x.observes.size() == had && x.observeNum == num && x.status == st && x.FinalFrameID() == last, "nothing-observed", "an observation without a measurement changes a track"); c.count("empty observations");
    }
    for (auto &e : fe.features) { e.second->status = r.pick(std::vector<Feature::Status>{Feature::UNSOLVED, Feature::SOLVED, Feature::ERROR}); }
    // forgetting a track
    for (int k = r.range(0, 6); k > 0; --k) { uint32_t id = r.chance(0.8) ? r.pick(pool) : label(r); size_t had = fe.features.count(id), size = fe.features.size(); fe.RemoveByID(id); c.expect(!fe.features.count(id) && fe.features.size() == size - had, "forget", "forgetting a track leaves it, or takes another"); c.count("tracks forgotten", double(had)); }
    // a frame used again
    auto f = all.back(); uint32_t id = label(r); double ft = r.uni(0, 9); c.expect(f->Initialize(id, ft) && f->id == id && f->timeStamp == ft && f->features.empty() && f->p_wb.isZero(0) && f->v_wb.isZero(0) && f->q_wb.coeffs() == Quaternion::Identity().coeffs(), "frame-again", "a frame initialised again is not as new");
    uint32_t size = uint32_t(r.range(0, 30)); c.expect(fm.Initialize(size) && fm.frames.empty() && fm.maxWindowSize == size && !fm.NeedMarginalize(), "window-again", "a window initialised again is not empty and of the given size");
    auto again = std::make_shared<Frame>(label(r), 1.25); c.expect(fm.AddNewFrame(again) && again->timeStamp == 1.25 && fm.GetMaxFrameID() == again->id && fm.GetFrame(again->id) == again, "window-again", "a window initialised again does not take a frame"); Extrinsic ex(rot(r), v3(r)); Extrinsic ey = ex; c.expect(ey.p_bc == ex.p_bc && ey.q_bc.coeffs() == ex.q_bc.coeffs(), "camera", "a camera's place is not kept");
    c.nontrivial(); c.hash(uint64_t(n)); c.hashd(t); c.sample = std::to_string(n) + " frames, " + std::to_string(fe.features.size()) + " tracks";
}
static void states(Rng &r, Case &c) {
    Vector3 p = v3(r), v = v3(r), th = v3(r), ba = v3(r), bg = v3(r); Quaternion q = rot(r); Vector3 g0 = IMUFullState::gravity_w;
    IMUFullState a(p, q, v, ba, bg), b(p, th, v, ba, bg), z;
    c.expect(a.p_wb == p && a.q_wb.coeffs() == q.coeffs() && a.v_wb == v && a.bias_a == ba && a.bias_g == bg && a.theta_wb.isZero(0), "state", "a state does not hold what it was made from");
    c.expect(b.p_wb == p && b.theta_wb == th && b.v_wb == v && b.bias_a == ba && b.bias_g == bg && b.q_wb.coeffs() == Quaternion::Identity().coeffs(), "error-state", "an error state does not hold what it was made from");
    auto zero = [](const IMUFullState &s) { return s.p_wb.isZero(0) && s.v_wb.isZero(0) && s.theta_wb.isZero(0) && s.bias_a.isZero(0) && s.bias_g.isZero(0) && s.q_wb.coeffs() == Quaternion::Identity().coeffs(); };
    c.expect(zero(z), "zero", "a state made from nothing is not zero");
    IMUMotionState m(p, v, q); c.expect(m.p_wb == p && m.v_wb == v && m.q_wb.coeffs() == q.coeffs(), "motion", "a motion state does not hold what it was made from");
    a.theta_wb = th; a.Reset(); b.Reset(); c.expect(zero(a) && zero(b), "reset", "a state reset is not zero"); c.expect(IMUFullState::gravity_w == g0, "gravity", "making and resetting states changes gravity");
    Scalar g = Scalar(r.uni(0.1, 30)); IMUFullState::SetGravityNorm(g); c.expect(IMUFullState::gravity_w == Vector3(0, 0, g), "gravity", "gravity is not the norm given, along the vertical"); IMUFullState::gravity_w = g0;
    // the propagation's noise
    PropagateQueue pq;
    Scalar na = Scalar(r.uni(0, 1)), ng = Scalar(r.uni(0, 1)), nwa = Scalar(r.uni(0, 1)), nwg = Scalar(r.uni(0, 1)); for (int k = r.range(1, 3); k > 0; --k) { pq.InitializeProcessNoiseMatrix(na, ng, nwa, nwg); }
    Eigen::Matrix<Scalar, 12, 1> d; d << Vector3::Constant(na), Vector3::Constant(ng), Vector3::Constant(nwa), Vector3::Constant(nwg); Eigen::Matrix<Scalar, 12, 12> Q = d.asDiagonal(); c.expect(pq.Q == Q, "noise", "the noise matrix is not the diagonal of the given values");
    c.nontrivial(); c.hashd(p.x()); c.hashd(bg.z()); c.count("states", 3); c.sample = "state with |p| " + std::to_string(p.norm());
}
static void timer(Rng &r, Case &c) {
    using clock = std::chrono::steady_clock; auto ms = [](clock::duration d) { return std::chrono::duration<double, std::milli>(d).count(); };
    auto t0 = clock::now(); TickTockTimer timer; auto t1 = clock::now();
    for (int k = 0; k < 3; ++k) {
        int nap = r.range(0, 30); std::this_thread::sleep_for(std::chrono::milliseconds(nap)); auto t2 = clock::now(); double got = timer.TickTock(); auto t3 = clock::now();
        // the wall clock may be adjusted while the steady one is not
        c.expect(got >= ms(t2 - t1) * 0.9 - 2 && got <= ms(t3 - t0) * 1.1 + 2, "timer", "the timer tells " + std::to_string(got) + " ms, between " + std::to_string(ms(t2 - t1)) + " and " + std::to_string(ms(t3 - t0)) + " ms have passed since it was last asked"); t0 = t2; t1 = t3; c.count("timings");
    }
    c.nontrivial(); c.hash(r.next());
}
int main(int argc, char **argv) {
    vf::Runner run; run.init(argc, argv);
    run.rule = "random messages (matched and mismatched lists, missing observations), windows and states: what they hold, answer and print against what they were given; distinct by sizes and values";
    run.family("messages", run.n(20000, 200000), messages); run.family("managers", run.n(8000, 80000), managers); run.family("states", run.n(20000, 200000), states); run.family("timer", run.n(40, 200), timer);
    return run.finish();
}
