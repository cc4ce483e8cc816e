#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough] [--only FAMILY:INDEX] [--seed N]

Builds the harness of PROPERTY from the working tree of /repo (with -DESKF_VIO_MONITOR), runs it, and
judges what its monitors saw. Exit 0: held; exit 1 and a VIOLATION line: broken; exit 2: no answer."""
import concurrent.futures, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
LIB = REPO + "/eskf_vio_backend"
sys.path.insert(0, HERE)
from properties_table import PROPS, FLAGS, LIBS  # noqa: E402


def sources():
    """Library sources: every .cpp under src, as its CMakeLists collects them."""
    out = []
    for d, _, names in sorted(os.walk(LIB + "/src")):
        out += [os.path.join(d, n) for n in sorted(names) if n.endswith(".cpp")]
    return out


def includes():
    dirs = [d for d, _, names in sorted(os.walk(LIB + "/include")) if any(n.endswith((".hpp", ".h")) for n in names)]
    return ["-I" + d for d in dirs] + ["-isystem", "/usr/include/eigen3", "-I" + HERE + "/harness"]


def compile_one(src, flags, work):
    """Compiles src, from a cache keyed by the flags and the preprocessed text when one is there."""
    cmd = ["clang++", "-std=c++17", "-DESKF_VIO_MONITOR", "-w"] + flags + includes()
    cache = os.path.join(HERE, ".cache")
    obj = os.path.join(work, hashlib.sha256(src.encode()).hexdigest()[:12] + ".o")
    pre = subprocess.run(cmd + ["-E", src], capture_output=True)
    if pre.returncode:
        return None, pre.stderr.decode(errors="replace")
    key = hashlib.sha256(" ".join(flags).encode() + b"\0" + pre.stdout).hexdigest()
    kept = os.path.join(cache, key + ".o")
    if os.path.exists(kept):
        os.utime(kept)
        return kept, ""
    r = subprocess.run(cmd + ["-c", src, "-o", obj], capture_output=True)
    if r.returncode:
        return None, r.stderr.decode(errors="replace")
    try:
        os.makedirs(cache, exist_ok=True)
        tmp = kept + ".%d" % os.getpid()
        shutil.copy(obj, tmp)
        os.replace(tmp, kept)
    except OSError:
        pass
    return obj, ""


def prune_cache():
    cache = os.path.join(HERE, ".cache")
    try:
        files = sorted((os.path.join(cache, f) for f in os.listdir(cache)), key=os.path.getmtime)
        for f in files[:-400]:
            os.unlink(f)
    except OSError:
        pass


def build(harness, flags, libs, work):
    srcs = [HERE + "/harness/" + harness + ".cpp"]
    want = LIBS[libs]
    for s in sources():
        rel = os.path.relpath(s, LIB + "/src")
        if want is None or any(rel.startswith(w) for w in want):
            srcs.append(s)
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda s: compile_one(s, flags, work), srcs))
    bad = [(s, e) for s, (o, e) in zip(srcs, res) if o is None]
    if bad:
        return None, "\n".join("cannot compile %s:\n%s" % (s, e[:3000]) for s, e in bad)
    exe = os.path.join(work, harness)
    r = subprocess.run(["clang++"] + flags + [o for o, _ in res] + ["-o", exe, "-lpthread"], capture_output=True)
    if r.returncode:
        return None, "cannot link: " + r.stderr.decode(errors="replace")[:3000]
    return exe, ""


def run_shards(exe, prop, tier, seed, only, work, limit, shards):
    """Runs the harness in `shards` processes, each with every shards-th case. One dict per process."""
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1:allocator_may_return_null=0:handle_abort=1"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=77"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=77:second_deadlock_stack=1"
    if only:
        shards = 1

    def one(k):
        out = os.path.join(work, "out%d" % k)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        cmd = [exe, "--prop", prop, "--seed", str(seed), "--tier", tier, "--out", out, "--shard", str(k), "--shards", str(shards)]
        if only:
            cmd += ["--only", only]
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=env, cwd=out)
        late = False
        try:
            _, err = p.communicate(timeout=limit)
        except subprocess.TimeoutExpired:
            p.kill()
            _, err = p.communicate()
            late = True
        status, result, distinct = "", None, []
        try:
            status = open(out + "/status").read().strip()
            result = json.load(open(out + "/result.json"))
            distinct = open(out + "/distinct").read().split()
        except (OSError, ValueError):
            pass
        shutil.rmtree(out, ignore_errors=True)
        return {"rc": p.returncode, "late": late, "err": err.decode(errors="replace"), "status": status, "result": result, "distinct": distinct}
    with concurrent.futures.ThreadPoolExecutor(shards) as ex:
        return list(ex.map(one, range(shards)))


def hung(r):
    return r["rc"] != 3 and (r["late"] or r["rc"] == -signal.SIGALRM)


def judge(r):
    """Violations of one process that did not end as it should."""
    if r["rc"] in (0, 3):
        return [] if r["result"] is not None else [{"case": r["status"], "sig": "no-result", "what": "the harness wrote no result", "trace": r["err"][-6000:]}]
    m = re.search(r"(SUMMARY: .*|Assertion .*|.*runtime error: .*|terminate called.*)", r["err"])
    return [{"case": r["status"], "sig": "crash", "what": "the run ended with code %s in case %s: %s" % (r["rc"], r["status"], m.group(1) if m else r["err"][-300:].strip()), "trace": r["err"][-12000:]}]


def merge(results):
    out = {"events": {}, "peaks": {}, "samples": [], "evaluations": 0, "ratios": [], "rule": "", "violations": []}
    for r in results:
        out["evaluations"] += r["evaluations"]
        out["rule"] = r["rule"]
        out["samples"] += r["samples"]
        out["violations"] += r["violations"]
        out["ratios"] = r["ratios"]
        for k, v in r["events"].items():
            out["events"][k] = (out["events"].get(k, 0) + v) if v is not None else None
        for k, v in r["peaks"].items():
            out["peaks"][k] = v if v is None or out["peaks"].get(k, v) is None else max(v, out["peaks"].get(k, v))
    return out


def known_findings(prop):
    """Lines 'known: property=<id> sig=<signature> case=<family> <what fails>' of known_findings.txt."""
    out = []
    try:
        for line in open(HERE + "/known_findings.txt"):
            m = re.match(r"known: property=(\S+) family=(\S+) sig=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3), m.group(4).strip()))
    except OSError:
        pass
    return out


def main():
    args = sys.argv[1:]
    only = None
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if "--only" in args:
        i = args.index("--only"); only = args[i + 1]; del args[i:i + 2]
    if "--seed" in args:
        i = args.index("--seed"); seed = int(args[i + 1]); del args[i:i + 2]
    prop = args[0]
    tier = args[1] if len(args) > 1 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    spec = PROPS[prop]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vf-")
    try:
        code = decide(prop, tier, seed, only, spec, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
        prune_cache()
    sys.exit(code)


def decide(prop, tier, seed, only, spec, work, t0):
    parts, violations, distinct, inconclusive = [], [], set(), False
    for harness, flagset, libs in spec["runs"]:
        exe, err = build(harness, FLAGS[flagset], libs, work)
        if exe is None:
            print("check %s: %s" % (prop, err), file=sys.stderr)
            return 2
        built = time.time() - t0
        limit = spec.get("limit", 400) if tier == "quick" else spec.get("deep_limit", 7200)
        runs = run_shards(exe, prop, tier, seed, only, work, limit, spec.get("shards", 8))
        for k, r in enumerate(runs):
            if hung(r):
                # a hang has to show twice: the machine may have been busy
                again = run_shards(exe, prop, tier, seed, r["status"] if r["status"] else None, work, limit, 1)[0]
                if hung(again):
                    violations.append({"case": r["status"], "sig": "hang", "what": "no end of case %s within its time" % r["status"], "trace": again["err"][-6000:]})
                else:
                    print("check %s: case %s took too long once, not again" % (prop, r["status"]), file=sys.stderr)
                    inconclusive = True
            else:
                violations += judge(r)
        done = [r["result"] for r in runs if r["result"] is not None]
        if done:
            part = merge(done)
            distinct |= {(len(parts), h) for r in runs for h in r["distinct"]}
            violations += part["violations"]
            if len(done) == len(runs):
                for q in part["ratios"]:
                    num, den = part["events"].get(q["num"], 0) or 0, part["events"].get(q["den"], 0) or 0
                    if den >= q["least"] and not num <= q["max"] * den:
                        violations.append({"case": "whole run", "sig": q["sig"], "what": "%s: %.4g, limit %.4g" % (q["what"], num / den, q["max"]), "trace": json.dumps(part["events"], indent=1)})
            part["flags"] = flagset
            part["build_s"] = round(built, 1)
            parts.append(part)
    known = known_findings(prop)
    seen_known, fresh = [], []
    for v in violations:
        fam = v["case"].split(":")[0]
        hit = [k for k in known if k[0] == fam and k[1] == v["sig"]]
        (seen_known if hit else fresh).append(v)
    cov = {
        "evaluations": sum(p["evaluations"] for p in parts),
        "distinct_nontrivial": len(distinct),
        "rule": " / ".join(dict.fromkeys(p["rule"] for p in parts)) or "the run ended before it could report",
        "samples": [s for p in parts for s in p["samples"]][:12],
        "events": {k: v for p in parts for k, v in p["events"].items()},
        "peaks": {k: v for p in parts for k, v in p["peaks"].items()},
        "builds": [{"flags": p["flags"], "build_s": p["build_s"]} for p in parts],
    }
    if len(parts) > 1:
        cov["per_build"] = [{"flags": p["flags"], "evaluations": p["evaluations"], "events": p["events"]} for p in parts]
    if not only:
        os.makedirs(HERE + "/evidence", exist_ok=True)
        json.dump({"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
                   "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
                   "violations": len(fresh)}, open(HERE + "/evidence/%s.json" % prop, "w"), indent=1)
    for fam, sig, what in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, what))
    for i, v in enumerate(fresh):
        os.makedirs(HERE + "/replays", exist_ok=True)
        path = HERE + "/replays/%s-%d.txt" % (prop, i + 1)
        with open(path, "w") as f:
            f.write("property %s\ncase %s\nreplay: python3 check.py %s %s --seed %d --only %s\nsignature %s\n%s\n\n%s\n" %
                    (prop, v["case"], prop, tier, seed, v["case"].split()[0] if v["case"] else "none", v["sig"], v["what"], v["trace"]))
        print("%s [%s] %s" % (v["case"], v["sig"], v["what"]))
        if i < 3:
            print("VIOLATION property=%s replay=%s" % (prop, path))
    if not fresh and not only and (inconclusive or not distinct):
        print("check %s: no answer, %s" % (prop, "a case did not end in time" if inconclusive else "nothing observed"), file=sys.stderr)
        return 2
    if not fresh:
        print("%s held: %d cases, %d distinct non-trivial, %.1f s" % (prop, cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0))
    return 1 if fresh else 0


if __name__ == "__main__":
    main()
