// Shared part of every harness: random cases, monitors' verdicts, result files.
// A harness is called as:  BIN --prop C01 --seed 1 --tier quick --out DIR [--only FAMILY:INDEX]
// It writes DIR/result.json; DIR/status holds the case being run, for the driver to name after a crash.
#pragma once
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

// The library draws from std::rand(). The harness replaces it, so that runs repeat and each backend
// (or thread) can have a stream of its own.
namespace vf { inline thread_local uint64_t randState = 88172645463325252ull; inline thread_local int randMask = 0x7fffffff; }
extern "C" inline int vf_rand_impl() {
    uint64_t &x = vf::randState;
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    return static_cast<int>(x >> 20) & vf::randMask;
}
#ifdef VF_MAIN
extern "C" int rand(void) noexcept { return vf_rand_impl(); }
#endif

namespace vf {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { for (int i = 0; i < 4; ++i) { next(); } }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    double uni() { return double(next() >> 11) * (1.0 / 9007199254740992.0); }
    double uni(double a, double b) { return a + (b - a) * uni(); }
    int range(int a, int b) { return a + int(next() % uint64_t(b - a + 1)); }     // inclusive
    bool chance(double p) { return uni() < p; }
    double gauss() {
        double u = uni(), v = uni();
        if (u < 1e-300) { u = 1e-300; }
        return std::sqrt(-2.0 * std::log(u)) * std::cos(6.283185307179586 * v);
    }
    template <class T> const T &pick(const std::vector<T> &v) { return v[next() % v.size()]; }
    template <class T> void shuffle(std::vector<T> &v) {
        for (size_t i = v.size(); i > 1; --i) { std::swap(v[i - 1], v[next() % i]); }
    }
};

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    return h * 0xff51afd7ed558ccdull;
}
inline uint64_t mixd(uint64_t h, double d) { uint64_t u; std::memcpy(&u, &d, 8); return mix(h, u); }

inline std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c == '\n') { r += "\\n"; }
        else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); r += b; }
        else { r += char(c); }
    }
    return r + "\"";
}

struct Violation { std::string family; long index; std::string sig, what, trace; };

// Thrown by Case::fail to leave the case at the first violation.
struct Stop {};

struct Case {
    std::string family;
    long index = 0;
    uint64_t digest = 0;
    bool interesting = false;
    std::ostringstream trace;
    std::string sample;
    std::map<std::string, double> &stats;
    std::map<std::string, double> &maxima;
    std::vector<Violation> &out;
    Case(const std::string &f, long i, std::map<std::string, double> &s, std::map<std::string, double> &m,
         std::vector<Violation> &o) : family(f), index(i), stats(s), maxima(m), out(o) { trace.precision(9); }
    void hash(uint64_t v) { digest = mix(digest, v); }
    void hashd(double v) { digest = mixd(digest, v); }
    void nontrivial() { interesting = true; }
    void count(const std::string &k, double n = 1) { stats[k] += n; }
    void peak(const std::string &k, double v) { auto it = maxima.find(k); if (it == maxima.end() || !(v <= it->second)) { maxima[k] = v; } }
    [[noreturn]] void fail(const std::string &sig, const std::string &what) {
        std::string t = trace.str();
        if (t.size() > 20000) { t = t.substr(0, 4000) + "\n...\n" + t.substr(t.size() - 15000); }
        out.push_back({family, index, sig, what, t});
        throw Stop();
    }
    void expect(bool ok, const std::string &sig, const std::string &what) { if (!ok) { fail(sig, what); } }
    // |got - want| <= tol, NaN fails
    void near(double got, double want, double tol, const std::string &sig, const std::string &what) {
        if (!(std::fabs(got - want) <= tol)) {
            std::ostringstream s; s.precision(10);
            s << what << ": got " << got << ", expected " << want << " +- " << tol;
            fail(sig, s.str());
        }
    }
};

struct Runner {
    std::string prop, tier = "quick", outDir = ".", rule;
    uint64_t seed = 1;
    std::string onlyFamily; long onlyIndex = -1;
    int statusFd = -1;
    long evaluations = 0;
    std::set<uint64_t> distinct;
    std::vector<std::string> samples;
    std::map<std::string, double> stats, maxima;
    std::vector<Violation> violations;
    long shard = 0, shards = 1;                  // this process takes every shards-th case
    struct Ratio { std::string num, den, sig, what; double max, least; };
    std::vector<Ratio> ratios;
    // A claim on the whole run: num <= max * den, once den has reached `least`. check.py adds up the shards and judges.
    void ratio(const std::string &num, const std::string &den, double max, double least, const std::string &sig, const std::string &what) {
        if (onlyFamily.empty()) { ratios.push_back({num, den, sig, what, max, least}); }
    }

    bool thorough() const { return tier == "thorough"; }
    long n(long quick, long deep) const { return thorough() ? deep : quick; }

    void init(int argc, char **argv) {
        for (int i = 1; i + 1 < argc; i += 2) {
            std::string k = argv[i], v = argv[i + 1];
            if (k == "--prop") { prop = v; }
            else if (k == "--seed") { seed = std::strtoull(v.c_str(), nullptr, 10); }
            else if (k == "--tier") { tier = v; }
            else if (k == "--shard") { shard = std::atol(v.c_str()); }
            else if (k == "--shards") { shards = std::atol(v.c_str()); }
            else if (k == "--out") { outDir = v; }
            else if (k == "--only") { auto p = v.rfind(':'); onlyFamily = v.substr(0, p); onlyIndex = std::atol(v.c_str() + p + 1); }
        }
        statusFd = open((outDir + "/status").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
        std::cout.setstate(std::ios::failbit);      // the library logs every step
    }
    void status(const std::string &s) {
        std::string t = s + std::string(s.size() < 100 ? 100 - s.size() : 0, ' ');
        if (statusFd >= 0) { (void)!pwrite(statusFd, t.c_str(), t.size(), 0); }
    }
    // Runs `body` for `count` cases; each has its own generator, so a case can be replayed alone.
    void family(const std::string &name, long count, const std::function<void(Rng &, Case &)> &body, unsigned seconds = 120) {
        if (!onlyFamily.empty() && onlyFamily != name) { return; }
        long failures = 0;
        uint64_t fh = 0; for (char c : name) { fh = mix(fh, uint64_t(c)); }
        for (long i = 0; i < count && failures < 3; ++i) {
            if (onlyIndex >= 0 ? onlyIndex != i : i % shards != shard) { continue; }
            status(name + ":" + std::to_string(i));
            Rng rng(mix(mix(seed, fh), uint64_t(i)));
            randState = rng.next() | 1; randMask = 0x7fffffff;
            Case c(name, i, stats, maxima, violations);
            alarm(seconds);
            try { body(rng, c); } catch (const Stop &) { ++failures; }
            alarm(0);
            ++evaluations;
            if (c.interesting) {
                if (distinct.insert(mix(c.digest, fh)).second && samples.size() < 6 && !c.sample.empty() &&
                    (i < 2 || i == count / 2)) { samples.push_back(name + ":" + std::to_string(i) + " " + c.sample); }
            }
        }
    }
    int finish() {
        std::ofstream o(outDir + "/result.json");
        o.precision(9);
        o << "{\n \"evaluations\": " << evaluations << ",\n \"distinct_nontrivial\": " << distinct.size()
          << ",\n \"rule\": " << jstr(rule) << ",\n \"samples\": [";
        for (size_t i = 0; i < samples.size(); ++i) { o << (i ? ", " : "") << jstr(samples[i]); }
        auto dump = [&](const char *k, const std::map<std::string, double> &m) {
            o << ",\n \"" << k << "\": {";
            bool first = true;
            for (auto &e : m) {
                o << (first ? "" : ", ") << jstr(e.first) << ": ";
                if (std::isfinite(e.second)) { o << e.second; } else { o << "null"; }
                first = false;
            }
            o << "}";
        };
        o << "]"; dump("events", stats); dump("peaks", maxima);
        o << ",\n \"violations\": [";
        for (size_t i = 0; i < violations.size(); ++i) {
            auto &v = violations[i];
            o << (i ? ", " : "") << "{\"case\": " << jstr(v.family + ":" + std::to_string(v.index)) << ", \"sig\": " << jstr(v.sig)
              << ", \"what\": " << jstr(v.what) << ", \"trace\": " << jstr(v.trace) << "}";
        }
        o << "],\n \"ratios\": [";
        for (size_t i = 0; i < ratios.size(); ++i) {
            auto &q = ratios[i];
            o << (i ? ", " : "") << "{\"num\": " << jstr(q.num) << ", \"den\": " << jstr(q.den) << ", \"sig\": " << jstr(q.sig)
              << ", \"what\": " << jstr(q.what) << ", \"max\": " << q.max << ", \"least\": " << q.least << "}";
        }
        o << "]\n}\n";
        o.close();
        std::ofstream d(outDir + "/distinct");
        for (uint64_t h : distinct) { d << h << "\n"; }
        status("done");
        return violations.empty() ? 0 : 3;
    }
};

}  // namespace vf
