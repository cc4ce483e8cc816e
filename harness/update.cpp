// C11 C12 C13: one vision update, against a Kalman update in double precision that derives its
// measurement equation by differentiating the camera model numerically.
#define VF_MAIN
#include "common.hpp"
#include "strapdown.hpp"
#include <multi_view_vision_update.hpp>
using namespace ESKF_VIO_BACKEND;
using vf::Case; using vf::Rng; using vf::V3; using vf::Q4; using vf::Nom; using vf::ImuD;
using Eigen::MatrixXd; using Eigen::VectorXd;

// Features are chosen by random scores; a counter keeps the scores distinct.
static V3 vec(Rng &r, double s) { return V3(r.gauss(), r.gauss(), r.gauss()) * s; }
static Q4 randomQ(Rng &r) { return Q4(r.gauss(), r.gauss(), r.gauss(), r.gauss()).normalized(); }
static Q4 fq(const Q4 &q) { Eigen::Quaternionf f = q.cast<float>().normalized(); return f.cast<double>(); }
static V3 fv(const V3 &v) { return v.cast<float>().cast<double>(); }

struct PoseD { V3 p; Q4 q; };
struct StateD { Nom x; V3 ba, bg; std::vector<PoseD> ext, frames; };       // frames: all but the newest
static Eigen::Vector2d predict(const StateD &s, const V3 &pw, int cam, int frame, double *z = nullptr) {
    PoseD b = frame < int(s.frames.size()) ? s.frames[size_t(frame)] : PoseD{s.x.p, s.x.q};
    V3 c = s.ext[size_t(cam)].q.conjugate() * (b.q.conjugate() * (pw - b.p) - s.ext[size_t(cam)].p);
    if (z) { *z = c.z(); }
    return c.head<2>() / c.z();
}
static StateD plus(const StateD &s, const VectorXd &d) {
    StateD o = s;
    o.x.p += d.segment<3>(0); o.x.v += d.segment<3>(3); o.x.q = (o.x.q * vf::expq(d.segment<3>(6))).normalized(); o.ba += d.segment<3>(9); o.bg += d.segment<3>(12);
    long i = 15;
    for (auto &e : o.ext) { e.p += d.segment<3>(i); e.q = (e.q * vf::expq(d.segment<3>(i + 3))).normalized(); i += 6; }
    for (auto &e : o.frames) { e.p += d.segment<3>(i); e.q = (e.q * vf::expq(d.segment<3>(i + 3))).normalized(); i += 6; }
    return o;
}

struct Scene {
    // what is drawn
    size_t m = 1, n = 2; double sigma = 0.002, noise = 1, wide = 1, drift = 1; bool deep = false; uint32_t maxWindow = 8, minTracked = 0; double maxTrans = 100; uint32_t cap = 100;
    std::vector<PoseD> ext, frames; Nom start; V3 ba, bg, g{0, 0, 9.8};
    MatrixXd P; std::vector<ImuD> imu; double frameTime = 0; size_t frameItem = 0; double period = 0.005;
    struct Obs { size_t frame, cam; Eigen::Vector2f z; };
    struct Feat { uint32_t id; V3 p; std::vector<Obs> obs; int before = 0; V3 stale = V3::Zero(); };      // before: what an earlier update left in it
    std::vector<Feat> feats; uint64_t stream = 0x2545F4914F6CDD1Dull;   // of std::rand()
    // what is built
    FrameManager fm; FeatureManager fe; PropagateQueue q; Trianglator tri; PnPSolver pnp; MultiViewVisionUpdate up;

    void random(Rng &r, int nFeat, bool anyDirection = true) {
        m = size_t(r.chance(0.08) ? r.range(5, 6) : r.range(1, 4)); n = size_t(r.chance(0.04) ? r.range(9, 20) : r.range(2, 8)); sigma = std::pow(10.0, r.chance(0.2) ? r.uni(-4, -3.3) : r.uni(-3.3, -2.3));
        Q4 world = anyDirection ? randomQ(r) : Q4::Identity();
        V3 shift = vec(r, r.pick(std::vector<double>{0, 1, 10}));
        Eigen::Matrix3d Rf; Rf << 0, 0, 1, -1, 0, 0, 0, -1, 0;
        for (size_t i = 0; i < m; ++i) { ext.push_back({fv(V3(r.uni(-0.1, 0.1), 0.3 * (0.5 * double(m - 1) - double(i)), r.uni(-0.1, 0.1))), fq(Q4(Rf) * vf::expq(vec(r, 0.1)))}); }
        V3 v = world * V3(r.uni(-0.3, 1), r.uni(-1, 1), r.uni(-0.5, 0.5)) * 3;
        double gap = 0.1;
        for (size_t i = 0; i + 1 < n; ++i) { double back = gap * double(n - 1 - i); frames.push_back({fv(shift - v * back + vec(r, 0.02)), fq(world * vf::expq(vec(r, 0.06)))}); }
        ba = fv(vec(r, 0.1)); bg = fv(vec(r, 0.02));
        int before = r.range(0, 6), after = r.range(0, 12);
        double t = r.chance(0.3) ? std::pow(10.0, r.uni(3, 6.5)) : r.uni(0, 100); int total = before + 1 + after; frameItem = size_t(before);
        start = {fv(shift - v * (period * before)), fv(v), fq(world * vf::expq(vec(r, 0.05)))};
        for (int k = 0; k < total; ++k) { imu.push_back({t + k * period, fv(vec(r, 0.3)), fv(world.conjugate() * g + vec(r, 0.5))}); }
        frameTime = imu[frameItem].t + (r.chance(0.5) ? 0 : r.uni(-0.45, 0.45) * period);
        // prior covariance: correlated, each block with its own scale
        long N = 15 + 6 * long(m + n - 1);
        MatrixXd A(N, N); for (long i = 0; i < N; ++i) { for (long j = 0; j < N; ++j) { A(i, j) = r.gauss(); } }
        VectorXd d(N); double sp = std::pow(10.0, r.uni(-3.3, -2.0)), st = wide * std::pow(10.0, r.uni(-4.0, -2.7)), se = wide * std::pow(10.0, r.uni(-4.0, -2.7));
        for (long i = 0; i < 15; ++i) { d[i] = i < 3 ? sp : i < 6 ? r.uni(0.01, 0.1) : i < 9 ? st : i < 12 ? 0.02 * drift : 0.003 * drift; } if (drift > 1) { for (long i = 3; i < 6; ++i) { d[i] *= drift; } }
        for (long i = 15; i < N; ++i) { bool pos = (i - 15) % 6 < 3; d[i] = i < 15 + 6 * long(m) ? (pos ? se : se * 0.5) : (pos ? sp : st); }
        P = d.asDiagonal() * (A * A.transpose() / double(N) + 0.05 * MatrixXd::Identity(N, N)) * d.asDiagonal();
        P = P.cast<float>().cast<double>(); P = 0.5 * (P + P.transpose()); P = P.cast<float>().cast<double>();
        // the truth is off the estimate by a draw from the prior; features are seen from the truth
        StateD s; s.x = {shift, v, start.q}; s.ba = ba; s.bg = bg; s.ext = ext; s.frames = frames;
        Eigen::LLT<MatrixXd> llt(P); VectorXd e(N); for (long i = 0; i < N; ++i) { e[i] = r.gauss(); }
        StateD truth = plus(s, llt.matrixL() * e);
        uint32_t id = uint32_t(r.range(0, 1000));
        bool gaps = r.chance(0.5), oneCam = r.chance(0.2);
        for (int k = 0; k < nFeat; ++k) {
            Feat f; f.id = id; id += uint32_t(r.range(1, 50)); f.p = shift + world * V3(r.uni(3, 8), r.uni(-2.5, 2.5), r.uni(-2, 2));
            if (deep && r.chance(0.7)) { double z = std::pow(10.0, r.uni(-0.6, 2)); f.p = shift + world * V3(z, z * r.uni(-0.5, 0.5), z * r.uni(-0.4, 0.4)); }          // close to the cameras, and far away
            bool behind = r.chance(0.06); if (behind) { f.p = shift + world * V3(-r.uni(4, 8), r.uni(-2.5, 2.5), r.uni(-2, 2)); }       // seen where only a point behind the cameras explains it
            f.before = r.range(0, 2); f.stale = shift + world * V3(r.uni(3, 8), r.uni(-2.5, 2.5), r.uni(-2, 2));
            size_t first = size_t(r.range(0, int(n) - 1)), last = r.chance(0.75) ? n - 1 : size_t(r.range(int(first), int(n) - 1));
            for (size_t i = first; i <= last; ++i) {
                if (gaps && i != first && i != last && r.chance(0.2)) { continue; }
                for (size_t c = 0; c < m; ++c) {
                    if (r.chance(oneCam ? 0.6 : 0.15)) { continue; }
                    double z; Eigen::Vector2d uv = predict(truth, f.p, int(c), int(i), &z);
                    if ((behind ? -z : z) < (deep ? 0.15 : 1.0) || uv.norm() > 1.5) { continue; }
                    f.obs.push_back({i, c, (uv + Eigen::Vector2d(r.gauss(), r.gauss()) * sigma * noise).cast<float>()});
                }
            }
            if (!f.obs.empty()) { feats.push_back(f); }
        }
    }
    void build() {
        vf::randState = stream;
        for (auto &e : ext) { fm.extrinsics.emplace_back(e.q.cast<float>(), e.p.cast<float>()); }
        fm.maxWindowSize = maxWindow; fm.minKeyframeTrackedFeatureNum = minTracked; fm.maxKeyframeTranslation = float(maxTrans);
        q.propagator = &fm; q.bias_a = ba.cast<float>(); q.bias_g = bg.cast<float>(); q.InitializeProcessNoiseMatrix(0.02f, 0.01f, 1e-3f, 1e-4f);
        IMUFullState::SetGravityNorm(float(g.z()));
        for (size_t i = 0; i < n; ++i) {
            auto f = std::make_shared<Frame>(i + 1 < n ? frameTime - 0.1 * double(n - 1 - i) : frameTime);
            fm.AddNewFrame(f);
            if (i + 1 < n) { f->p_wb = frames[i].p.cast<float>(); f->q_wb = frames[i].q.cast<float>(); }
            std::vector<uint32_t> ids; std::vector<std::shared_ptr<FeatureObserve>> obs; std::vector<std::shared_ptr<Feature>> ch;
            for (auto &ft : feats) {
                std::shared_ptr<FeatureObserve> o;
                for (auto &b : ft.obs) { if (b.frame == i) { if (!o) { o = std::make_shared<FeatureObserve>(); } o->norms[uint32_t(b.cam)] = b.z; } }
                if (o) { ids.push_back(ft.id); obs.push_back(o); }
            }
            fe.AddNewFeatures(ids, obs, f->id, ch); f->AddFeatures(ch);
        }
        for (auto &ft : feats) {
            auto x = fe.features.find(ft.id); if (x == fe.features.end() || !ft.before) { continue; }
            x->second->status = ft.before == 1 ? Feature::SOLVED : Feature::UNSOLVED; x->second->p_w = ft.stale.cast<float>();
        }
        q.initState = IMUMotionState(start.p.cast<float>(), start.v.cast<float>(), start.q.cast<float>());
        long ex = 6 * long(m + n - 1);
        for (size_t k = 0; k < imu.size(); ++k) {
            q.Propagate(imu[k].accel.cast<float>(), imu[k].gyro.cast<float>(), imu[k].t);
            if (k == 0) { q.items[0]->imuCov = P.topLeftCorner(15, 15).cast<float>(); q.items[0]->imuExCamCov = P.topRightCorner(15, ex).cast<float>(); q.exCamCov = P.bottomRightCorner(ex, ex).cast<float>(); }
        }
        up.propagator = &q; up.featureManager = &fe; up.frameManager = &fm; up.trianglator = &tri; up.pnpSolver = &pnp;
        up.measureNoise = float(sigma); up.maxUsedFeatures = cap;
    }
    // the state before the update, at the sample of the frame
    StateD prior(MatrixXd &C) const {
        auto &it = *q.items[frameItem];
        StateD s; s.x = {it.nominalState.p_wb.cast<double>(), it.nominalState.v_wb.cast<double>(), it.nominalState.q_wb.cast<double>().normalized()};
        s.ba = q.bias_a.cast<double>(); s.bg = q.bias_g.cast<double>();
        for (auto &e : fm.extrinsics) { s.ext.push_back({e.p_bc.cast<double>(), e.q_bc.cast<double>().normalized()}); }
        for (size_t i = 0; i + 1 < n; ++i) { s.frames.push_back({fm.frames[i]->p_wb.cast<double>(), fm.frames[i]->q_wb.cast<double>().normalized()}); }
        long N = 15 + 6 * long(m + n - 1), ex = N - 15; C.resize(N, N);
        C.topLeftCorner(15, 15) = it.imuCov.cast<double>(); C.topRightCorner(15, ex) = it.imuExCamCov.cast<double>(); C.bottomLeftCorner(ex, 15) = it.imuExCamCov.cast<double>().transpose(); C.bottomRightCorner(ex, ex) = q.exCamCov.cast<double>();
        return s;
    }
    StateD posterior() const {
        auto &it = *q.items.front();
        StateD s; s.x = {it.nominalState.p_wb.cast<double>(), it.nominalState.v_wb.cast<double>(), it.nominalState.q_wb.cast<double>().normalized()};
        s.ba = q.bias_a.cast<double>(); s.bg = q.bias_g.cast<double>();
        for (auto &e : fm.extrinsics) { s.ext.push_back({e.p_bc.cast<double>(), e.q_bc.cast<double>().normalized()}); }
        for (size_t i = 0; i + 1 < n; ++i) { s.frames.push_back({fm.frames[i]->p_wb.cast<double>(), fm.frames[i]->q_wb.cast<double>().normalized()}); }
        return s;
    }
};
static VectorXd minus(const StateD &a, const StateD &b) {
    VectorXd d(15 + 6 * long(a.ext.size() + a.frames.size()));
    d.segment<3>(0) = a.x.p - b.x.p; d.segment<3>(3) = a.x.v - b.x.v; d.segment<3>(6) = vf::logq(b.x.q.conjugate() * a.x.q); d.segment<3>(9) = a.ba - b.ba; d.segment<3>(12) = a.bg - b.bg;
    long i = 15;
    for (size_t k = 0; k < a.ext.size(); ++k, i += 6) { d.segment<3>(i) = a.ext[k].p - b.ext[k].p; d.segment<3>(i + 3) = vf::logq(b.ext[k].q.conjugate() * a.ext[k].q); }
    for (size_t k = 0; k < a.frames.size(); ++k, i += 6) { d.segment<3>(i) = a.frames[k].p - b.frames[k].p; d.segment<3>(i + 3) = vf::logq(b.frames[k].q.conjugate() * a.frames[k].q); }
    return d;
}

// Linear triangulation in double precision. `quality`: smallest over second smallest singular value gap etc.
static bool triangulate(const StateD &s, const std::vector<Scene::Obs> &obs, V3 &p, double &margin) {
    if (obs.size() < 2) { margin = 1; return false; }
    MatrixXd A(2 * long(obs.size()), 4);
    for (size_t i = 0; i < obs.size(); ++i) {
        PoseD b = obs[i].frame < s.frames.size() ? s.frames[obs[i].frame] : PoseD{s.x.p, s.x.q};
        Q4 qc = b.q * s.ext[obs[i].cam].q; V3 pc = b.q * s.ext[obs[i].cam].p + b.p;
        Eigen::Matrix<double, 3, 4> T; T.leftCols<3>() = qc.conjugate().toRotationMatrix(); T.col(3) = -(qc.conjugate() * pc);
        A.row(2 * long(i)) = double(obs[i].z.x()) * T.row(2) - T.row(0); A.row(2 * long(i) + 1) = double(obs[i].z.y()) * T.row(2) - T.row(1);
    }
    Eigen::JacobiSVD<MatrixXd> svd(A, Eigen::ComputeFullV);
    Eigen::Vector4d x = svd.matrixV().col(3);
    double gap = svd.singularValues()(2) - (svd.singularValues().size() > 3 ? svd.singularValues()(3) : 0);
    margin = gap / svd.singularValues()(0);               // how far single precision may turn the solution
    p = x.head<3>() / x(3);
    bool ok = std::fabs(x(3)) >= 1e-6; double zmin = 1e300;
    for (auto &o : obs) { double z; predict(s, p, int(o.cam), int(o.frame), &z); zmin = std::min(zmin, std::fabs(z)); if (z < 0) { ok = false; } }
    double spread = 3e-6 / std::max(1e-12, margin) * (1 + p.squaredNorm());
    margin = std::min(zmin / std::max(1e-9, spread), std::fabs(std::fabs(x(3)) - 1e-6) / 2e-7) > 3 ? spread : INFINITY;       // too close to call
    return ok;
}

// The Kalman update by the book.
static void kalman(const StateD &s, const MatrixXd &P, const std::vector<std::pair<V3, const Scene::Feat *>> &used, double sigma, VectorXd &dx, MatrixXd &Pn, long &rows, double &cond) {
    long N = P.rows(); MatrixXd H(0, N); VectorXd r(0);
    for (auto &u : used) {
        auto &obs = u.second->obs; long k = long(obs.size());
        MatrixXd Hx(2 * k, N), Hf(2 * k, 3); VectorXd rr(2 * k); Hx.setZero();
        for (long i = 0; i < k; ++i) {
            auto &o = obs[size_t(i)];
            rr.segment<2>(2 * i) = o.z.cast<double>() - predict(s, u.first, int(o.cam), int(o.frame));
            const double h = 1e-5;
            std::vector<long> cols; long fb = o.frame < s.frames.size() ? 15 + 6 * long(s.ext.size() + o.frame) : -1;
            for (long j = 0; j < 3; ++j) { cols.push_back(fb < 0 ? j : fb + j); cols.push_back(fb < 0 ? 6 + j : fb + 3 + j); }
            for (long j = 0; j < 6; ++j) { cols.push_back(15 + 6 * long(o.cam) + j); }
            for (long j : cols) { VectorXd d = VectorXd::Zero(N); d[j] = h; Hx.block<2, 1>(2 * i, j) = (predict(plus(s, d), u.first, int(o.cam), int(o.frame)) - predict(plus(s, -d), u.first, int(o.cam), int(o.frame))) / (2 * h); }
            for (long j = 0; j < 3; ++j) { V3 d = V3::Zero(); d[j] = h; Hf.block<2, 1>(2 * i, j) = (predict(s, u.first + d, int(o.cam), int(o.frame)) - predict(s, u.first - d, int(o.cam), int(o.frame))) / (2 * h); }
        }
        Eigen::JacobiSVD<MatrixXd> svd(Hf, Eigen::ComputeFullU);
        MatrixXd nul = svd.matrixU().rightCols(2 * k - 3);
        MatrixXd A = nul.transpose() * Hx; VectorXd b = nul.transpose() * rr;
        H.conservativeResize(H.rows() + A.rows(), N); H.bottomRows(A.rows()) = A; r.conservativeResize(r.size() + b.size()); r.tail(b.size()) = b;
    }
    rows = H.rows();
    MatrixXd S = H * P * H.transpose() + sigma * sigma * MatrixXd::Identity(rows, rows);
    VectorXd ev = Eigen::SelfAdjointEigenSolver<MatrixXd>(S, Eigen::EigenvaluesOnly).eigenvalues(); cond = ev.tail<1>()(0) / (sigma * sigma);
    MatrixXd K = S.ldlt().solve(H * P).transpose();
    dx = K * r;
    MatrixXd IKH = MatrixXd::Identity(N, N) - K * H;
    Pn = IKH * P * IKH.transpose() + sigma * sigma * K * K.transpose();
}

// Covariance after the newest pose is cloned and the window reduced.
static MatrixXd reshape(const MatrixXd &P, size_t m, size_t n, MargPolicy policy) {
    long N = P.rows(); MatrixXd J = MatrixXd::Zero(N + 6, N); J.topRows(N).setIdentity();
    J.block<3, 3>(N, 0).setIdentity(); J.block<3, 3>(N + 3, 6).setIdentity();
    MatrixXd F = J * P * J.transpose();
    long drop = policy == MARG_OLDEST ? 0 : policy == MARG_SUBNEW ? long(n) - 2 : policy == MARG_NEWEST ? long(n) - 1 : -1;
    std::vector<long> keep;
    for (long i = 0; i < N + 6; ++i) { if (drop >= 0 && i >= 15 + 6 * (long(m) + drop) && i < 15 + 6 * (long(m) + drop) + 6) { continue; } keep.push_back(i); }
    MatrixXd R(long(keep.size()), long(keep.size()));
    for (size_t i = 0; i < keep.size(); ++i) { for (size_t j = 0; j < keep.size(); ++j) { R(long(i), long(j)) = F(keep[i], keep[j]); } }
    return R;
}
static MatrixXd covarianceAfter(const Scene &s) {
    auto &it = *s.q.items.front(); long ex = s.q.exCamCov.rows(); MatrixXd C(15 + ex, 15 + ex);
    C.topLeftCorner(15, 15) = it.imuCov.cast<double>(); C.topRightCorner(15, ex) = it.imuExCamCov.cast<double>(); C.bottomLeftCorner(ex, 15) = it.imuExCamCov.cast<double>().transpose(); C.bottomRightCorner(ex, ex) = s.q.exCamCov.cast<double>();
    return C;
}
static void expectSizes(const Scene &s, long ex, Case &c) {
    c.expect(s.q.exCamCov.rows() == ex && s.q.exCamCov.cols() == ex, "dimension", "camera covariance has " + std::to_string(s.q.exCamCov.rows()) + " rows, expected " + std::to_string(ex));
    for (auto &i : s.q.items) { c.expect(i->imuExCamCov.cols() == ex, "dimension", "a sample's covariance with the cameras has " + std::to_string(i->imuExCamCov.cols()) + " columns, expected " + std::to_string(ex)); }
}
static std::unique_ptr<Scene> copy(const Scene &b) {
    auto s = std::make_unique<Scene>();
    s->m = b.m; s->n = b.n; s->sigma = b.sigma; s->deep = b.deep; s->maxWindow = b.maxWindow; s->minTracked = b.minTracked; s->maxTrans = b.maxTrans; s->cap = b.cap; s->ext = b.ext; s->frames = b.frames; s->start = b.start; s->ba = b.ba; s->bg = b.bg;
    s->P = b.P; s->imu = b.imu; s->frameTime = b.frameTime; s->frameItem = b.frameItem; s->period = b.period; s->feats = b.feats; s->stream = b.stream;
    return s;
}
// Features whose estimate falls close to a camera make the update too ill-conditioned to be compared in single precision.
static void prune(Scene &s) {
    auto t = copy(s); t->build(); MatrixXd P; StateD x = t->prior(P);
    std::vector<Scene::Feat> keep;
    for (auto &f : s.feats) {
        V3 p; double margin, zmin = 1e300; bool ok = triangulate(x, f.obs, p, margin);
        if (ok) { for (auto &o : f.obs) { double z; predict(x, p, int(o.cam), int(o.frame), &z); zmin = std::min(zmin, z); } }
        if (f.obs.size() >= 2 && !std::isfinite(margin)) { continue; }          // too close to call
        if (!ok || (s.deep ? zmin > 0.15 && margin < 0.01 * zmin : zmin > 1.0 && margin < 0.01)) { keep.push_back(f); }
    }
    s.feats = keep;
}
static void choosePolicy(Rng &r, Scene &s) {
    switch (r.range(0, 3)) {
        case 0: case 1: s.maxWindow = uint32_t(s.n) + uint32_t(r.range(0, 3)); break;
        case 2: s.maxWindow = uint32_t(s.n) - 1; s.minTracked = 1000; break;                              // the second newest is a key frame
        default: s.maxWindow = uint32_t(s.n) - 1; s.minTracked = 0; s.maxTrans = 1e6;
    }
}
static void describe(const Scene &s, Case &c) {
    c.trace << s.m << " cameras, " << s.n << " frames, " << s.feats.size() << " features, sigma " << s.sigma << ", cap " << s.cap << ", window " << s.maxWindow << "\n";
    for (auto &f : s.feats) { c.trace << " feature " << f.id << ": "; for (auto &o : f.obs) { c.trace << o.frame << "/" << o.cam << " "; } c.trace << "\n"; }
}
// Which features an update may use, and whether that can be told.
static bool solvable(const Scene &s, const StateD &x, std::vector<size_t> &which, double &spread) {
    spread = 0;
    for (size_t k = 0; k < s.feats.size(); ++k) {
        bool newest = false; for (auto &o : s.feats[k].obs) { newest |= o.frame == s.n - 1; }
        if (!newest) { continue; }
        V3 p; double margin; bool ok = triangulate(x, s.feats[k].obs, p, margin);
        if (s.feats[k].obs.size() >= 2 && !std::isfinite(margin)) { return false; }
        if (ok) { which.push_back(k); spread = std::max(spread, margin); }
    }
    return true;
}

static void full(Rng &r, Case &c, bool shapes) {
    Scene s; if (r.chance(0.25)) { s.wide = std::pow(10.0, r.uni(0, 1.3)); c.count("scenes with wide priors"); }
    s.deep = r.chance(0.3);
    if (r.chance(0.2)) { s.drift = std::pow(10.0, r.uni(0, 1.7)); c.count("scenes with uncertain biases and velocity"); }
    s.random(r, r.chance(0.5) ? r.range(1, 6) : r.range(6, 30));
    choosePolicy(r, s); prune(s); describe(s, c);
    s.build();
    MatrixXd P; StateD x = s.prior(P);
    std::vector<size_t> which; double spread;
    if (!solvable(s, x, which, spread)) { c.count("scenes too close to call"); return; }
    auto later = s.q.items; std::vector<IMUPropagateQueueItem> samples; for (size_t k = s.frameItem; k < later.size(); ++k) { samples.push_back(*later[k]); }
    bool ok = s.up.Update(s.frameTime, s.period);
    c.expect(ok, "update", "a regular update fails");
    MargPolicy policy = s.up.margPolicy;
    c.expect(s.n > s.maxWindow ? policy == (s.minTracked || s.n == 2 ? MARG_OLDEST : MARG_SUBNEW) : policy == NO_MARG, "policy", "unexpected marginalisation " + std::to_string(policy));
    expectSizes(s, 6 * long(s.m + s.n - (policy == NO_MARG ? 0 : 1)), c);
    // the points the update linearised at
    std::vector<std::pair<V3, const Scene::Feat *>> used; bool fragile = false;
    for (size_t k : which) {
        auto &f = *s.fe.features.at(s.feats[k].id);
        c.expect(f.status == Feature::SOLVED, "not-solved", "feature " + std::to_string(f.id) + " is not triangulated");
        V3 p, want; double margin; triangulate(x, s.feats[k].obs, want, margin); p = f.p_w.cast<double>();
        c.near((p - want).norm(), 0, 10 * margin + 1e-4, "triangulation", "feature " + std::to_string(f.id) + " seen " + std::to_string(s.feats[k].obs.size()) + " times is triangulated elsewhere");
        double zmin = 1e300; for (auto &o : s.feats[k].obs) { double z; predict(x, p, int(o.cam), int(o.frame), &z); zmin = std::min(zmin, z); }
        if (margin > 0.02 * (s.deep ? zmin : 1.0)) { fragile = true; }
        if (zmin < 0.5) { c.count("points closer than 0.5 m"); } if (zmin > 20) { c.count("points beyond 20 m"); }
        used.push_back({p, &s.feats[k]});
    }
    VectorXd dx; MatrixXd Pn; long rows = 0; double cond = 1;
    if (used.empty()) { dx = VectorXd::Zero(P.rows()); Pn = P; } else { kalman(x, P, used, double(float(s.sigma)), dx, Pn, rows, cond); }
    if (fragile || cond > 2e5) { c.count("scenes too close to call"); return; }
    StateD got = s.posterior(); VectorXd d = minus(got, x), prior = P.diagonal().cwiseSqrt();
    // the state moves by dx; tolerance relative to the prior deviation and the size of the correction
    double jump = 0; for (long i = 0; i < d.size(); ++i) { jump = std::max(jump, std::fabs(dx[i]) / prior[i]); }
    c.peak("condition of the innovation", cond);
    { double e = 0; for (size_t k = 0; k < s.m; ++k) { e = std::max(e, dx.segment<3>(15 + 6 * long(k)).norm()); } c.peak("largest correction of a camera's place (m)", e); c.peak("smallest noise", -s.sigma); } c.peak("largest correction of the velocity", dx.segment<3>(3).norm()); c.peak("largest correction of the accelerometer bias", dx.segment<3>(9).norm());
    double part = 3e-4 + 3e-8 * cond, scale = part * (1 + jump) + 3e-8 * (3 + x.x.p.norm()) / s.sigma;       // the last: rounding of the residuals, in terms of the noise
    if (!shapes) {
        for (long i = 0; i < d.size(); ++i) {
            bool rot = (i >= 6 && i < 9) || (i >= 15 && (i - 15) % 6 >= 3);
            double tol = scale * prior[i] + (rot ? std::pow(dx.segment<3>(i < 9 ? 6 : i - (i - 15) % 3).norm(), 3) * 0.2 + 6e-7 : 5e-7 * (1 + (i < 3 ? x.x.p.norm() : i < 6 ? x.x.v.norm() : 10)));
            std::ostringstream w; w << "correction of state " << i << " (" << s.m << " cameras, " << s.n << " frames, " << used.size() << " features, " << rows << " rows)";
            c.peak("correction error / bound", std::fabs(d[i] - dx[i]) / tol);
            c.near(d[i], dx[i], tol, "correction", w.str());
        }
        // the newest frame is the IMU pose; later samples restart from the corrected state
        auto &nf = *s.fm.frames.back(); auto &front = *s.q.items.front();
        c.expect(nf.p_wb == front.nominalState.p_wb && nf.q_wb.coeffs() == front.nominalState.q_wb.coeffs() && nf.v_wb == front.nominalState.v_wb, "newest-pose", "the newest frame does not take the corrected pose");
        c.expect(s.q.items.size() == samples.size(), "samples", "the sequence does not keep the samples from the frame on");
        Nom y = got.x; vf::Bounds b;
        for (size_t k = 0; k < samples.size(); ++k) {
            auto &it = *s.q.items[k];
            c.expect(it.timeStamp == samples[k].timeStamp && it.accel == samples[k].accel && it.gyro == samples[k].gyro, "samples", "a sample after the frame changed");
            if (!k) { continue; }
            auto &a = samples[k - 1]; auto &e = samples[k];
            vf::strapdown(y, {a.timeStamp, a.gyro.cast<double>(), a.accel.cast<double>()}, {e.timeStamp, e.gyro.cast<double>(), e.accel.cast<double>()}, got.ba, got.bg, IMUFullState::gravity_w.cast<double>(), &b);
            c.near((it.nominalState.p_wb.cast<double>() - y.p).norm(), 0, b.p, "later-samples", "position after the frame does not follow from the corrected state");
            c.near((it.nominalState.v_wb.cast<double>() - y.v).norm(), 0, b.v, "later-samples", "velocity after the frame does not follow from the corrected state");
            c.near(vf::angle(it.nominalState.q_wb.cast<double>(), y.q), 0, b.q, "later-samples", "attitude after the frame does not follow from the corrected state");
        }
        auto unit = [&](const Quaternion &q) { c.near(q.norm(), 1, 2e-6, "not-unit", "norm of a corrected rotation"); };
        unit(front.nominalState.q_wb); for (auto &e : s.fm.extrinsics) { unit(e.q_bc); } for (auto &f : s.fm.frames) { unit(f->q_wb); }
        c.count(rows > P.rows() ? "updates with compression" : used.empty() ? "updates without features" : "updates without compression");
        c.count("features used", double(used.size())); c.count("states compared", double(d.size()));
    }
    // covariance, with the clone and without the removed frame
    MatrixXd want = reshape(Pn, s.m, s.n, policy), before = reshape(P, s.m, s.n, policy), have = covarianceAfter(s);
    for (long i = 0; i < want.rows(); ++i) {
        for (long j = 0; j < want.cols(); ++j) {
            double dev = std::sqrt(before(i, i) * before(j, j)), tol = (used.empty() ? 1e-6 : part) * dev;
            c.peak(used.empty() ? "covariance error / bound, no features" : "covariance error / bound", std::fabs(have(i, j) - want(i, j)) / tol);
            if (!(std::fabs(have(i, j) - want(i, j)) <= tol)) { std::ostringstream w; w << "covariance " << i << "," << j << " of " << want.rows() << " after the update (" << s.m << " cameras, " << s.n << " frames, " << used.size() << " features, removal " << policy << "): " << have(i, j) << ", expected " << want(i, j) << ", before " << before(i, j); c.fail("covariance", w.str()); }
        }
    }
    c.count("covariance entries compared", double(want.size())); c.count("removal policy " + std::to_string(policy));
    if (!used.empty() || shapes) { c.nontrivial(); }
    c.hashd(P(0, 0)); c.hash(which.size()); c.hash(rows);
    std::ostringstream m; m << s.m << " cameras, " << s.n << " frames, " << used.size() << " of " << s.feats.size() << " features, " << rows << " rows for " << P.rows() << " states, removal " << policy; c.sample = m.str();
}

// Cloning and removal alone: nothing is observed, so every entry must survive exactly.
static void exact(Rng &r, Case &c) {
    Scene s; s.random(r, 0); choosePolicy(r, s); s.build();
    MatrixXd P; StateD x = s.prior(P);
    c.expect(s.up.Update(s.frameTime, s.period), "update", "an update without features fails");
    expectSizes(s, 6 * long(s.m + s.n - (s.up.margPolicy == NO_MARG ? 0 : 1)), c);
    MatrixXd want = reshape(P, s.m, s.n, s.up.margPolicy), have = covarianceAfter(s);
    for (long i = 0; i < want.rows(); ++i) { for (long j = 0; j < want.cols(); ++j) { if (!(std::fabs(have(i, j) - want(i, j)) <= 3e-6 * std::sqrt(want(i, i) * want(j, j)))) { std::ostringstream w; w.precision(9); w << "covariance " << i << "," << j << " of " << want.rows() << " (" << s.m << " cameras, " << s.n << " frames, removal " << s.up.margPolicy << "): " << have(i, j) << ", expected " << want(i, j); c.fail("covariance-exact", w.str()); } } }
    VectorXd d = minus(s.posterior(), x);
    c.expect(d.isZero(0), "state-moved", "an update without features moved the state");
    // and the samples after the frame carry the new shape on
    c.count("covariance entries compared", double(want.size())); c.count("removal policy " + std::to_string(s.up.margPolicy));
    c.nontrivial(); c.hashd(P(0, 0)); c.hash(s.n * 10 + s.m); c.sample = std::to_string(s.m) + " cameras, " + std::to_string(s.n) + " frames, removal " + std::to_string(s.up.margPolicy);
}

// C13: which observations influence the update. Each feature is nudged in turn; the update moves if and only if it was used.
static void choice(Rng &r, Case &c) {
    Scene base; bool crowd = r.chance(0.003); base.random(r, crowd ? r.range(220, 280) : r.range(1, 14)); if (crowd) { c.count("scenes with over a hundred tracks"); }
    // some features behind the cameras or seen once only, some not in the newest frame
    double dead = crowd ? r.uni(0.1, 0.6) : 0.12;
    for (auto &f : base.feats) {
        if (r.chance(dead)) { for (auto &o : f.obs) { o.z = -o.z * 3; } }
        if (r.chance(0.1)) { f.obs.resize(1); }
        if (r.chance(0.15)) { std::vector<Scene::Obs> k; for (auto &o : f.obs) { if (o.frame != base.n - 1) { k.push_back(o); } } if (k.size() > 1) { f.obs = k; } }
    }
    base.cap = r.chance(0.3) ? (crowd ? 1000 : 100) : uint32_t(r.range(0, int(base.feats.size())));
    choosePolicy(r, base); prune(base); describe(base, c);
    base.stream = r.next() | 1;
    if (r.chance(0.3)) { vf::randMask = 0x3f; c.count("cases with equal random scores"); }      // draws that coincide, as any stream has
    auto ref = copy(base); ref->build();
    MatrixXd P; StateD x = ref->prior(P);
    std::vector<size_t> which; double spread;
    if (!solvable(*ref, x, which, spread)) { c.count("scenes too close to call"); return; }
    c.expect(ref->up.Update(ref->frameTime, ref->period), "update", "a regular update fails");
    StateD got = ref->posterior(); MatrixXd cov = covarianceAfter(*ref);
    std::set<size_t> can(which.begin(), which.end()), did;
    for (size_t k = 0; k < base.feats.size(); ++k) {
        auto t = copy(base);
        auto &o = t->feats[k].obs[size_t(r.range(0, int(t->feats[k].obs.size()) - 1))]; o.z += Eigen::Vector2f(float(t->sigma) * 0.7f, -float(t->sigma) * 0.9f);
        t->build();
        MatrixXd P2; StateD x2 = t->prior(P2); std::vector<size_t> w2; double sp2;
        if (!solvable(*t, x2, w2, sp2) || w2 != which) { c.count("scenes too close to call"); return; }
        c.expect(t->up.Update(t->frameTime, t->period), "update", "a regular update fails");
        VectorXd d = minus(t->posterior(), got);
        bool moved = !d.isZero(0) || covarianceAfter(*t) != cov;
        if (moved) { did.insert(k); }
        c.expect(!moved || can.count(k), "unusable-used", "feature " + std::to_string(base.feats[k].id) + " influences the update, but it is " +
                 (base.feats[k].obs.size() < 2 ? "seen once" : "not in the newest frame or not in front of the cameras"));
    }
    size_t want = std::min<size_t>(base.cap, can.size());
    c.expect(did.size() == want, "how-many", std::to_string(did.size()) + " features influence the update, " + std::to_string(can.size()) + " can, at most " + std::to_string(base.cap) + " may");
    if (want == 0) {
        c.expect(minus(got, x).isZero(0), "state-moved", "an update without features moved the state");
        MatrixXd e = reshape(P, base.m, base.n, ref->up.margPolicy); c.expect((cov - e).norm() <= 3e-6 * e.norm(), "covariance-exact", "an update without features changed the covariance");
        c.count("updates without features");
    }
    c.count("features nudged", double(base.feats.size())); c.count("features that can be used", double(can.size())); c.count("features used", double(did.size())); if (base.cap < can.size()) { c.count("updates with more features than allowed"); }
    if (base.feats.size() > 2) { c.nontrivial(); }
    c.hashd(P(0, 0)); c.hash(want); c.hash(can.size());
    c.sample = std::to_string(did.size()) + " used of " + std::to_string(can.size()) + " usable of " + std::to_string(base.feats.size()) + " features, cap " + std::to_string(base.cap);
}

// Corrections of degrees, as after a long gap: whatever their size, rotations stay rotations.
static void large(Rng &r, Case &c) {
    Scene s; s.wide = std::pow(10, r.uni(1, 1.8)); s.random(r, r.range(6, 30)); choosePolicy(r, s); describe(s, c); s.build();
    std::vector<Quaternion> before; for (auto &f : s.fm.frames) { before.push_back(f->q_wb); }
    if (!s.up.Update(s.frameTime, s.period)) { c.count("updates refused"); return; }
    double most = 0; size_t k = 0; for (auto &f : s.fm.frames) { if (++k < s.n) { most = std::max(most, vf::angle(f->q_wb.cast<double>().normalized(), before[k - 1].cast<double>().normalized())); } }
    auto unit = [&](const Quaternion &q, const char *of) { c.near(q.norm(), 1, 2e-6, "not-unit", std::string("norm of a rotation of ") + of + " after corrections of " + std::to_string(most) + " rad"); };
    for (auto &i : s.q.items) { unit(i->nominalState.q_wb, "the sequence"); }
    for (auto &e : s.fm.extrinsics) { unit(e.q_bc, "the cameras"); }
    for (auto &f : s.fm.frames) { unit(f->q_wb, "the window"); }
    c.peak("largest correction of a past rotation", most); c.count("large updates"); if (most > 0.01) { c.count("corrections over 0.01 rad"); c.nontrivial(); }
    c.hashd(most); c.sample = std::to_string(most) + " rad";
}

int main(int argc, char **argv) {
    vf::Runner run; run.init(argc, argv);
    if (run.prop == "C11") {
        run.rule = "one update of a random window (1-4 cameras, 2-8 frames, random correlated prior, features with gaps and missing cameras) against a double precision Kalman update with numerical derivatives; distinct by prior, features and rows; non-trivial when features were used";
        run.family("full", run.n(5000, 25000), [](Rng &r, Case &c) { full(r, c, false); });
    } else if (run.prop == "C29") {
        run.rule = "updates which turn a past pose by more than 0.01 rad, distinct by the turn";
        run.family("large", run.n(1500, 20000), large);
    } else if (run.prop == "C12") {
        run.rule = "exact: cloning and each removal with nothing observed, every entry equal up to rounding; shapes: the same after an update with features, against the double precision posterior; distinct by prior and window";
        run.family("exact", run.n(16000, 60000), exact);
        run.family("shapes", run.n(3000, 10000), [](Rng &r, Case &c) { full(r, c, true); });
    } else {
        run.rule = "each feature of a random scene nudged in turn and the update repeated with the same random scores: a feature is used when its nudge moves the result; distinct by prior and numbers of features";
        run.family("choice", run.n(6000, 16000), choice);
    }
    return run.finish();
}
