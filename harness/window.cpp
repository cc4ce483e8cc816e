// C04 C05: the sliding window and the attribution of observations, against a model that keeps, for
// every frame in the window, what its message said.
#define VF_MAIN
#include "common.hpp"
#include "rig.hpp"
using namespace ESKF_VIO_BACKEND;
using vf::Case; using vf::Rng;

using Obs = std::map<uint32_t, Vector2>;                   // camera -> measurement
struct FrameModel { double t; std::map<uint32_t, Obs> seen; };

// Everything the managers say, against the model's frames (oldest first).
static void compare(const FrameManager &fmc, const FeatureManager &fec, const std::deque<FrameModel> &w, uint32_t cams, Case &c) {
    auto &fm = const_cast<FrameManager &>(fmc); auto &fe = const_cast<FeatureManager &>(fec);
    c.expect(fm.frames.size() == w.size(), "window-size", "window holds " + std::to_string(fm.frames.size()) + " frames, expected " + std::to_string(w.size()));
    std::map<uint32_t, std::map<size_t, const Obs *>> feats;
    for (size_t i = 0; i < w.size(); ++i) {
        c.expect(fm.frames[i] != nullptr && fm.frames[i]->timeStamp == w[i].t, "window-order", "frame " + std::to_string(i) + " of the window is not the expected one");
        if (i) { c.expect(fm.frames[i]->id == fm.frames[i - 1]->id + 1, "frame-ids", "frame ids of the window are not consecutive"); }
        c.expect(fm.GetFrame(fm.frames[i]->id) == fm.frames[i], "get-frame", "frame lookup by id returns another frame");
        for (auto &e : w[i].seen) { feats[e.first][i] = &e.second; }
        c.expect(fm.frames[i]->features.size() == w[i].seen.size(), "frame-links", "frame " + std::to_string(i) + " links " + std::to_string(fm.frames[i]->features.size()) +
                 " features, its message observed " + std::to_string(w[i].seen.size()));
        for (auto &e : w[i].seen) {
            auto it = fm.frames[i]->features.find(e.first);
            c.expect(it != fm.frames[i]->features.end() && it->second && it->second->id == e.first, "frame-links", "frame does not link feature " + std::to_string(e.first));
            auto jt = fe.features.find(e.first);
            c.expect(jt != fe.features.end() && jt->second == it->second, "frame-links", "frame and window disagree about feature " + std::to_string(e.first));
        }
    }
    if (!w.empty()) {
        uint32_t a = fm.frames.front()->id, b = fm.frames.back()->id;
        c.expect(fm.GetFrame(a - 1) == nullptr && fm.GetFrame(b + 1) == nullptr, "get-frame", "frame lookup outside the window returns a frame");
        c.expect(fm.GetMaxFrameID() == b, "max-id", "largest frame id is not the newest frame's");
    }
    c.expect(fe.features.size() == feats.size(), "features", std::to_string(fe.features.size()) + " features kept, " + std::to_string(feats.size()) + " observed in the window");
    for (auto &e : feats) {
        auto it = fe.features.find(e.first);
        c.expect(it != fe.features.end(), "feature-lost", "feature " + std::to_string(e.first) + " is observed in the window but not kept");
        auto &f = *it->second;
        c.expect(f.id == e.first, "feature-id", "feature kept under a wrong id");
        size_t total = 0;
        for (size_t i = 0; i < w.size(); ++i) {
            auto k = e.second.find(i);
            for (uint32_t cam = 0; cam < cams; ++cam) {
                Vector2 n(0, 0);
                bool got = f.GetNorm(fm.frames[i]->id, cam, n);
                bool want = k != e.second.end() && k->second->count(cam);
                c.expect(got == want, want ? "observation-lost" : "observation-invented", "feature " + std::to_string(e.first) + ", frame " + std::to_string(i) + " of the window, camera " +
                         std::to_string(cam) + (want ? ": observation missing" : ": observation nobody made"));
                if (want) { ++total; c.expect(n == k->second->at(cam), "observation-value", "feature " + std::to_string(e.first) + " has another frame's or camera's measurement"); }
            }
        }
        c.expect(f.observeNum == total, "observe-count", "feature " + std::to_string(e.first) + " counts " + std::to_string(f.observeNum) + " observations, " + std::to_string(total) + " were made");
        Vector2 n;
        c.expect(!f.GetNorm(fm.frames.front()->id - 1, 0, n) && !f.GetNorm(fm.frames.back()->id + 1, 0, n), "observation-outside", "feature observed outside the window");
        c.expect(f.firstFrameID >= fm.frames.front()->id && f.FinalFrameID() <= fm.frames.back()->id, "feature-range", "feature range leaves the window");
        c.count("observations checked", double(total));
    }
}

static void direct(Rng &r, Case &c) {
    FrameManager fm; FeatureManager fe;
    std::deque<FrameModel> w;
    uint32_t cams = uint32_t(r.range(1, 4));
    std::map<uint32_t, int> life; uint32_t nextId = uint32_t(r.range(0, 1000)), stepId = r.chance(0.5) ? 1 : r.pick(std::vector<uint32_t>{3, 255, 256, 65536, 1u << 20, (1u << 24) + 1, 0x9E3779B1u});
    std::vector<uint32_t> lost;
    double t = r.chance(0.3) ? std::pow(10.0, r.uni(3, 6.5)) : r.uni(0, 10);
    int maxW = r.chance(0.1) ? r.range(20, 45) : r.range(2, 10), steps = maxW > 10 ? maxW + r.range(5, 20) : r.range(10, 60);
    double dropout = r.chance(0.5) ? 0.0 : r.uni(0, 0.4), dirty = r.chance(0.5) ? 0.0 : 0.15;
    long margs[4] = {0, 0, 0, 0};
    for (int s = 0; s < steps; ++s) {
        // a new camera frame
        std::vector<uint32_t> ids; std::vector<std::shared_ptr<FeatureObserve>> obs;
        FrameModel m; m.t = (t += r.uni(0.01, 0.2));
        auto observe = [&](uint32_t id) {
            auto o = std::make_shared<FeatureObserve>();
            for (uint32_t cam = 0; cam < cams; ++cam) { if (r.chance(0.8) || (cam + 1 == cams && o->norms.empty())) { o->norms[cam] = Vector2(Scalar(r.uni(-1, 1)), Scalar(r.uni(-1, 1))); } }
            ids.push_back(id); obs.push_back(o);
            if (!m.seen.count(id)) { for (auto &e : o->norms) { m.seen[id][e.first] = e.second; } }       // the first of duplicates counts
        };
        for (int k = r.range(0, 6); k > 0; --k) { life[nextId] = r.range(1, 15); nextId += stepId; }
        if (r.chance(0.2)) { for (int k = 0; k < 3 && !lost.empty(); ++k) { life[lost.back()] = r.range(1, 5); lost.pop_back(); } }    // re-acquired
        std::vector<uint32_t> now;
        for (auto it = life.begin(); it != life.end();) {
            if (it->second-- <= 0) { lost.push_back(it->first); it = life.erase(it); continue; }
            if (!r.chance(dropout)) { now.push_back(it->first); }
            ++it;
        }
        r.shuffle(now);
        for (uint32_t id : now) {
            if (r.chance(dirty)) {
                int kind = r.range(0, 2);
                if (kind == 0) { ids.push_back(id); obs.push_back(nullptr); c.count("null observations"); continue; }
                if (kind == 1) { ids.push_back(id); obs.push_back(std::make_shared<FeatureObserve>()); c.count("empty observations"); continue; }
                observe(id); c.count("duplicated ids");
            }
            observe(id);
        }
        auto f = std::make_shared<Frame>(m.t);
        c.expect(fm.AddNewFrame(f), "add-frame", "the window refuses a new frame");
        std::vector<std::shared_ptr<Feature>> changed;
        c.expect(fe.AddNewFeatures(ids, obs, f->id, changed), "add-features", "well-formed observations refused");
        std::set<uint32_t> ch, want; for (auto &x : changed) { ch.insert(x->id); } for (auto &e : m.seen) { want.insert(e.first); }
        c.expect(ch == want && changed.size() == want.size(), "changed-set", "the features reported as changed are not the observed ones");
        f->AddFeatures(changed);
        w.push_back(m);
        c.hash(m.seen.size()); c.trace << "frame with " << m.seen.size() << " features, window " << w.size() << "\n";
        if (r.chance(0.1)) {
            std::vector<uint32_t> two{1, 2}; std::vector<std::shared_ptr<Feature>> none;
            c.expect(!fe.AddNewFeatures(two, {std::make_shared<FeatureObserve>()}, f->id, none), "mismatch", "mismatched id and observation lists accepted");
        }
        compare(fm, fe, w, cams, c);
        // marginalise as the backend does
        while (w.size() > 1 && (int(w.size()) > maxW || r.chance(maxW > 10 ? 0.02 : 0.15))) {
            int kind = r.range(0, 2);
            if (kind == 1 && w.size() < 3) { kind = 0; }       // the backend removes the oldest then: it is always a key frame
            if (kind == 0) {
                fe.RemoveByFrameID(fm.frames.front()->id, false); c.expect(fm.RemoveFrame(0), "remove", "removal of the oldest frame refused"); w.pop_front();
            } else if (kind == 1) {
                fe.RemoveByFrameID(fm.frames.back()->id - 1, true); c.expect(fm.RemoveFrame(uint32_t(fm.frames.size() - 2)), "remove", "removal of the second newest frame refused"); w.erase(w.end() - 2);
            } else {
                fe.RemoveByFrameID(fm.frames.back()->id, true); c.expect(fm.RemoveFrame(uint32_t(fm.frames.size() - 1)), "remove", "removal of the newest frame refused"); w.pop_back();
            }
            ++margs[kind]; c.hash(uint64_t(kind)); c.trace << "marg " << (kind == 0 ? "oldest" : kind == 1 ? "second newest" : "newest") << "\n";
            compare(fm, fe, w, cams, c);
        }
        c.expect(!fm.RemoveFrame(uint32_t(fm.frames.size())), "remove", "removal of a frame outside the window accepted");
        fm.maxWindowSize = uint32_t(r.chance(0.5) ? r.range(1, 12) : std::max(1, int(w.size()) + r.range(-1, 1)));
        c.expect(fm.NeedMarginalize() == (w.size() > fm.maxWindowSize), "need-marg", "the window misjudges whether it is full");
        if (w.size() > 1) {
            size_t a = size_t(r.range(0, int(w.size()) - 1)), b = size_t(r.range(0, int(w.size()) - 1));
            auto cov = fm.frames[a]->GetCovisibleFeatures(fm.frames[b]);
            std::set<uint32_t> got, both; for (auto &x : cov) { got.insert(x->id); } for (auto &e : w[a].seen) { if (w[b].seen.count(e.first)) { both.insert(e.first); } }
            c.expect(got == both, "covisible", "co-visible features of two frames are wrong");
        }
    }
    c.count("oldest removed", double(margs[0])); c.count("second newest removed", double(margs[1])); c.count("newest removed", double(margs[2]));
    c.count("frames added", steps);
    if (margs[0] && margs[1]) { c.nontrivial(); }
    c.sample = std::to_string(steps) + " frames, removed oldest/second/newest " + std::to_string(margs[0]) + "/" + std::to_string(margs[1]) + "/" + std::to_string(margs[2]);
}

// The running backend: whatever frames are in its window, the observations must be those of their messages.
static void live(Rng &r, Case &c, bool policy) {
    vf::Sim s; s.duration = r.uni(3.0, 5.0); s.random(r);
    s.camEvery = 10; s.maxTracks = r.range(12, 28);
    if (!policy && r.chance(0.15)) { s.maxTracks = r.range(150, 320); s.duration = 2.5; s.landmarks(r, 900, 2.0, 10.0); c.count("runs with hundreds of tracks"); }
    if (r.chance(0.3)) { s.tr.amp *= 0.02; }
    if (r.chance(0.3)) { s.fov = r.uni(1.2, 3); c.count("runs with wide cameras"); }
    s.generate(r);
    double dropout = r.chance(0.5) ? 0.0 : 0.15;
    for (auto &f : s.frames) {
        for (size_t i = f.ids.size(); i-- > 0;) {
            if (r.chance(dropout) && f.ids.size() > 12) { f.ids.erase(f.ids.begin() + long(i)); f.obs.erase(f.obs.begin() + long(i)); f.pt.erase(f.pt.begin() + long(i)); }
        }
    }
    vf::Sim::Config cfg; cfg.window = r.chance(0.2) ? r.range(11, 30) : r.range(2, 10); cfg.minTracked = r.range(0, 1) ? r.range(8, 26) : 0; cfg.maxTrans = r.chance(0.3) ? 100.0 : r.uni(0.02, 0.4);
    vf::Rig rig(s, cfg);
    std::map<double, size_t> byTime;
    double origin = s.imu[0].t;
    for (size_t i = 0; i < s.frames.size(); ++i) { byTime[s.frames[i].t - origin] = i; }
    const auto &fm = rig.b->MonitorFrameManager();
    long oldest = 0, subnew = 0;
    // an alien camera now and then: its measurements have no place in the window
    long k = 0; size_t lastFrame = 0;
    auto alien = [&](std::shared_ptr<FeaturesMessage> m) { for (auto &o : m->observes) { o->norms[uint32_t(s.cams.size())] = Vector2(0.1f, 0.1f); } return m; };
    bool aliens = !policy && r.chance(0.3);
    // tracks listed without a measurement, or without a place for one
    double hollow = !policy && !aliens && r.chance(0.3) ? r.uni(0.02, 0.3) : 0; std::map<size_t, std::set<uint32_t>> no;
    if (hollow > 0) { for (size_t i = 12; i < s.frames.size(); ++i) { if (r.chance(0.1)) { auto &f = s.frames[i]; size_t n = std::min<size_t>(f.ids.size(), size_t(r.range(0, 4))); f.ids.resize(n); f.obs.resize(n); f.pt.resize(n); } } }
    auto holes = [&](size_t i) { auto m = s.featMsg(i); for (size_t k = 0; k < m->ids.size(); ++k) { if (r.chance(hollow)) { no[i].insert(m->ids[k]); m->observes[k] = r.chance(0.5) ? nullptr : std::make_shared<FeatureObserve>(); c.count("measurements left out of messages"); } } return m; };
    while (rig.nextImu < s.imu.size()) {
        if (aliens) {
            while (rig.nextFrame < s.frames.size() && s.frames[rig.nextFrame].t <= s.imu[rig.nextImu].t + 1e-9) { rig.b->GetFeaturesMessage(alien(s.featMsg(rig.nextFrame))); ++rig.nextFrame; }
        }
        if (hollow > 0) { while (rig.nextFrame < s.frames.size() && s.frames[rig.nextFrame].t <= s.imu[rig.nextImu].t + 1e-9) { rig.b->GetFeaturesMessage(holes(rig.nextFrame)); ++rig.nextFrame; } }
        rig.feed();
        bool hadFrame = rig.nextFrame != lastFrame; lastFrame = rig.nextFrame;
        std::vector<double> before; bool initBefore = rig.b->status == INITIALIZED;
        for (auto &f : fm.frames) { before.push_back(f->timeStamp); }
        // what the policy will look at: the newest frame so far (about to be second newest) and the one before
        uint32_t tracked = 0; double trans = 0; size_t nb = fm.frames.size();
        if (nb >= 2) {
            auto &a = s.frames[byTime.at(before[nb - 2])]; auto &b = s.frames[byTime.at(before[nb - 1])];
            for (size_t i = 0; i < b.ids.size(); ++i) {
                auto it = std::find(a.ids.begin(), a.ids.end(), b.ids[i]);
                if (it != a.ids.end() && b.obs[i].count(0) && a.obs[size_t(it - a.ids.begin())].count(0)) { ++tracked; }
            }
            trans = (fm.frames[nb - 1]->p_wb - fm.frames[nb - 2]->p_wb).norm();
        }
        while (rig.b->RunOnce()) {}
        if (!hadFrame) { continue; }
        std::deque<FrameModel> w;
        for (auto &f : fm.frames) {
            FrameModel m; m.t = f->timeStamp;
            auto it = byTime.find(f->timeStamp);
            c.expect(it != byTime.end(), "frame-stamp", "a frame of the window has a stamp no message had");
            auto &src = s.frames[it->second];
            for (size_t i = 0; i < src.ids.size(); ++i) { if (no.count(it->second) && no[it->second].count(src.ids[i])) { continue; } for (auto &e : src.obs[i]) { m.seen[src.ids[i]][e.first] = e.second.cast<float>(); } }
            w.push_back(m);
        }
        c.expect(!w.empty() && w.back().t == s.frames[rig.nextFrame - 1].t - origin, "newest-kept", "the newest camera frame is not at the end of the window");
        if (!policy) { compare(fm, rig.b->MonitorFeatureManager(), w, uint32_t(s.cams.size()) + 1, c); c.count("windows checked"); }
        else {
            c.expect(fm.frames.size() <= size_t(cfg.window), "window-bound", "window of " + std::to_string(fm.frames.size()) + " frames, at most " + std::to_string(cfg.window) + " configured");
            if (initBefore && rig.b->status == INITIALIZED) {
                std::vector<double> all = before; all.push_back(w.back().t);
                std::vector<double> now; for (auto &m : w) { now.push_back(m.t); }
                std::vector<double> want = all;
                std::string why = "a window that is not full";
                if (int(all.size()) > cfg.window) {
                    bool key = nb < 2 || tracked < uint32_t(cfg.minTracked) || trans > cfg.maxTrans;
                    bool close = nb >= 2 && std::fabs(trans - cfg.maxTrans) < 1e-4 * cfg.maxTrans && tracked >= uint32_t(cfg.minTracked);
                    if (close) { c.count("decisions too close to call"); continue; }
                    if (key) { want.erase(want.begin()); ++oldest; why = "a second newest key frame (tracked " + std::to_string(tracked) + ", moved " + std::to_string(trans) + ")"; }
                    else { want.erase(want.end() - 2); ++subnew; why = "a second newest frame that is no key frame (tracked " + std::to_string(tracked) + ", moved " + std::to_string(trans) + ")"; }
                }
                c.expect(now == want, "policy", "wrong frame removed for " + why);
                c.count("decisions checked");
            }
        }
        ++k;
        c.hashd(w.back().t + double(w.size()));
    }
    c.count("frames processed", double(k)); c.count("oldest removed", double(oldest)); c.count("second newest removed", double(subnew));
    c.hash(uint64_t(cfg.window)); c.hashd(cfg.maxTrans); c.hashd(s.tr.amp[0]);
    if (k > 20 && rig.b->status == INITIALIZED) { c.nontrivial(); }
    c.sample = "backend run of " + std::to_string(k) + " frames, window " + std::to_string(cfg.window) + ", oldest/second newest removed " + std::to_string(oldest) + "/" + std::to_string(subnew);
}

// The key frame test alone, with thresholds hit exactly.
static void keyframe(Rng &r, Case &c) {
    FrameManager fm; FeatureManager fe; std::deque<FrameModel> w;
    bool many = r.chance(0.03); int n = many ? 3 : r.range(2, 6); uint32_t cams = uint32_t(r.range(1, 3)), pool = many ? uint32_t(r.range(100, 600)) : 12; double t = 0;
    std::vector<std::map<uint32_t, bool>> cam0; cam0.resize(size_t(n));
    for (int i = 0; i < n; ++i) {
        std::vector<uint32_t> ids; std::vector<std::shared_ptr<FeatureObserve>> obs;
        for (uint32_t id = 0; id < pool; ++id) {
            if (!r.chance(0.7)) { continue; }
            auto o = std::make_shared<FeatureObserve>();
            for (uint32_t cam = 0; cam < cams; ++cam) { if (r.chance(0.75)) { o->norms[cam] = Vector2(Scalar(r.uni(-1, 1)), Scalar(r.uni(-1, 1))); } }
            if (o->norms.empty()) { continue; }
            ids.push_back(id); obs.push_back(o); if (o->norms.count(0)) { cam0[size_t(i)][id] = true; }
        }
        auto f = std::make_shared<Frame>(t += 0.1);
        fm.AddNewFrame(f);
        std::vector<std::shared_ptr<Feature>> ch; fe.AddNewFeatures(ids, obs, f->id, ch); f->AddFeatures(ch);
        f->p_wb = Vector3(Scalar(r.range(0, 8)) / 8, 0, 0);
        c.hash(ids.size());
    }
    for (int rep = 0; rep < 6; ++rep) {
        int i = r.range(0, n - 1);
        uint32_t tracked = 0; double moved = 0;
        if (i > 0) { for (auto &e : cam0[size_t(i)]) { tracked += uint32_t(cam0[size_t(i) - 1].count(e.first)); } moved = std::fabs(fm.frames[size_t(i)]->p_wb.x() - fm.frames[size_t(i) - 1]->p_wb.x()); }
        fm.minKeyframeTrackedFeatureNum = r.chance(0.5) ? uint32_t(std::max(0, int(tracked) + r.range(-1, 1))) : uint32_t(r.range(0, int(pool)));
        fm.maxKeyframeTranslation = r.chance(0.5) ? Scalar(std::max(0.0, moved + r.range(-1, 1) / 8.0)) : Scalar(r.range(0, 8)) / 8;
        bool want = i == 0 || tracked < fm.minKeyframeTrackedFeatureNum || moved > double(fm.maxKeyframeTranslation);
        bool got = fm.IsKeyFrame(fm.frames[size_t(i)]);
        std::ostringstream m; m << "frame " << i << ": tracked " << tracked << " of at least " << fm.minKeyframeTrackedFeatureNum << ", moved " << moved << " of at most " << fm.maxKeyframeTranslation << ": judged " << got;
        c.expect(got == want, "key-frame", m.str());
        c.count(want ? "key frames judged" : "other frames judged");
        c.hash(uint64_t(rep * 100 + i)); c.hash(fm.minKeyframeTrackedFeatureNum);
    }
    c.nontrivial();
    c.sample = "key frame test over a window of " + std::to_string(n);
}

int main(int argc, char **argv) {
    vf::Runner run; run.init(argc, argv);
    if (run.prop == "C04") {
        run.rule = "direct: random histories of frames (tracks that start, drop out, return, repeat, come empty or null) and removals of the oldest, second newest and newest frame, the whole window compared to the model after every step; live: a simulated run of the backend, its window compared to the messages of the frames in it; non-trivial when oldest and second newest were removed (direct) or the backend ran over 20 frames (live); distinct by frame sizes, removals and stamps";
        run.family("direct", run.n(6000, 60000), direct);
        run.family("live", run.n(48, 400), [](Rng &r, Case &c) { live(r, c, false); });
    } else {
        run.rule = "live: simulated runs with random window size and key frame thresholds, the frame removed at every update predicted from the messages and poses before it; key: the key frame test alone with thresholds at and around the exact counts and distances; distinct by stamps, sizes and thresholds";
        run.family("live", run.n(96, 800), [](Rng &r, Case &c) { live(r, c, true); });
        run.family("key", run.n(20000, 100000), keyframe);
    }
    return run.finish();
}
