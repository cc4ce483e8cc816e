// C28: backends in several threads, under the race detector; and the same states as in one thread.
#define VF_MAIN
#include "common.hpp"
#include "rig.hpp"
#include <thread>
#include <atomic>
using namespace ESKF_VIO_BACKEND;
using vf::Case; using vf::Rng; using vf::Sim; using vf::Rig; using vf::publish;
// The format state of std::cout is the process's, and the library prints its estimates through it: not part of the claim.
extern "C" const char *__tsan_default_suppressions() { return "race:Eigen::internal::print_matrix\nrace:std::ios_base\nrace:std::basic_ostream\nrace:std::operator<<\n"; }
struct Out { bool ok; double t; Eigen::Matrix<float, 16, 1> u, p; };
static Out take(Backend &b) { auto u = publish(b, true), p = publish(b, false); Out o{p.ok, p.ok ? p.t : 0, {}, {}}; o.u.setZero(); o.p.setZero(); if (p.ok) { o.u = u.raw; o.p = p.raw; } return o; }
static void runAll(Rig &rig, uint64_t stream, std::vector<Out> &out, Rng pace, bool yields, size_t resetAt) {
    vf::randState = stream;
    while (rig.feed()) { if (out.size() == resetAt) { rig.b->Reset(); } while (rig.b->RunOnce()) {} out.push_back(take(*rig.b)); if (yields && pace.chance(0.05)) { std::this_thread::yield(); } if (yields && pace.chance(0.01)) { usleep(useconds_t(pace.range(1, 300))); } }
}
static void threads(Rng &r, Case &c) {
    int n = r.range(2, 6); std::vector<Sim> sims; std::vector<Sim::Config> cfgs; std::vector<uint64_t> st; std::vector<std::vector<Out>> want(static_cast<size_t>(n)), got(static_cast<size_t>(n));
    std::vector<size_t> resets; for (int i = 0; i < n; ++i) { resets.push_back(r.chance(0.3) ? size_t(r.range(60, 120)) : size_t(-1)); }
    bool twins = r.chance(0.3);                 // the same messages' content for all
    for (int i = 0; i < n; ++i) {
        if (twins && i) { sims.push_back(sims[0]); cfgs.push_back(cfgs[0]); st.push_back(st[0]); continue; }
        Sim s; s.random(r); s.duration = r.uni(1.2, 2.0); s.imuHz = 100; s.camEvery = 10; s.pixNoise = 1e-3; s.gyroNoise = 2e-3; s.accelNoise = 0.03; s.maxTracks = r.range(14, 40); if (r.chance(0.5)) { s.tr.t0 = 0.2; s.tr.ramp = 0.5; } s.generate(r); sims.push_back(s);
        Sim::Config k; k.window = r.range(3, 8); k.sigma = r.uni(1e-3, 4e-3); if (r.chance(0.6)) { k.minTracked = 1000; k.window = r.range(3, 5); c.count("backends with key frames only"); } cfgs.push_back(k); st.push_back(r.next() | 1);
    }
    for (int i = 0; i < n; ++i) { Rig rig(sims[size_t(i)], cfgs[size_t(i)]); runAll(rig, st[size_t(i)], want[size_t(i)], Rng(1), false, resets[size_t(i)]); }
    std::vector<std::unique_ptr<Rig>> rigs; for (int i = 0; i < n; ++i) { rigs.push_back(std::make_unique<Rig>(sims[size_t(i)], cfgs[size_t(i)])); }      // configured before the threads start
    std::vector<std::thread> ts; std::atomic<int> ready{0};
    for (int i = 0; i < n; ++i) { Rng pace(r.next()); ts.emplace_back([&, i, pace] { ++ready; while (ready < n) {} runAll(*rigs[size_t(i)], st[size_t(i)], got[size_t(i)], pace, true, resets[size_t(i)]); }); }
    for (auto &t : ts) { t.join(); }
    size_t inits = 0;
    for (int i = 0; i < n; ++i) {
        auto &a = want[size_t(i)], &b = got[size_t(i)]; c.expect(a.size() == b.size(), "length", "different numbers of states"); inits += a.back().ok;
        for (size_t k = 0; k < a.size(); ++k) { c.expect(a[k].ok == b[k].ok && a[k].t == b[k].t && a[k].u == b[k].u && a[k].p == b[k].p, "threads", "backend " + std::to_string(i) + " of " + std::to_string(n) + " in a thread of its own differs from its run alone after " + std::to_string(k) + " samples"); c.count("states compared"); }
    }
    c.count("threads", n); c.count("initialised at the end", double(inits)); if (inits > 1) { c.nontrivial(); } c.hash(st[0]); c.hash(uint64_t(n));
    c.sample = std::to_string(n) + " threads" + (twins ? " with the same input" : "");
}
int main(int argc, char **argv) {
    vf::Runner run; run.init(argc, argv);
    run.rule = "two to six backends, each in its own thread with random pauses, under ThreadSanitizer; every state against the run alone; distinct by stream and number of threads; non-trivial when two were initialised";
    run.family("threads", run.n(15, 400), threads, 600);
    return run.finish();
}
