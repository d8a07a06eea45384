#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property by symbolic execution of /repo's current source
   check.py --setup                       build everything
   check.py --replay FILE                 run a recorded counterexample against the real code"""
import fcntl, glob, hashlib, json, os, queue, random, subprocess, sys, threading, time

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(ROOT, ".build")
sys.path.insert(0, ROOT)
import jobs as jobtable

TOOLCHAIN = "stable"
FLAGS = "--emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp"
FEATURES = {"simd": "simd", "nosimd": "", "par": "parallel", "parsimd": "parallel,simd", "dual": "", "dualsimd": "simd"}
CRATES = ["imgproc_rs", "imgproc_rs_par", "rulinalg", "matrixmultiply", "image", "num_traits", "rayon"]


class CheckError(Exception):
    pass


def env(target):
    e = dict(os.environ)
    for k in ("RUSTC", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS"):
        e.pop(k, None)
    e.update(CARGO_TARGET_DIR=target, RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never")
    return e


def cargo(d, target, extra, flags):
    e = env(target)
    e["RUSTFLAGS"] = flags
    r = subprocess.run(["cargo", "build", "--release", "--offline", "--locked"] + extra, cwd=d, env=e, capture_output=True, text=True)
    return r.returncode, r.stdout + r.stderr


def build_engine():
    rc, out = cargo(os.path.join(ROOT, "engine"), os.path.join(BUILD, "engine"), [], "-A warnings")
    if rc:
        raise CheckError("engine does not build\n" + out[-4000:])
    return os.path.join(BUILD, "engine", "release", "engine")


def build_harness(cfg):
    """compile /repo and the harness: LLVM IR for the engine, and the native replayer, from one compilation"""
    t = os.path.join(BUILD, "h-" + cfg)
    # the IR files carry a hash in their name: remove the stale ones of earlier builds of changed sources
    extra = ["--no-default-features"]
    if FEATURES[cfg]:
        extra += ["--features", FEATURES[cfg]]
    src = "harness-dual" if cfg.startswith("dual") else "harness"
    if cfg.startswith("dual"):
        second_crate()
    force_rebuild(t)
    force_rebuild(t + "-real")
    rc, out = cargo(os.path.join(ROOT, src), t, extra, FLAGS + " -A warnings")
    if rc and cfg in ("simd", "nosimd"):
        # the code uses more of the image crate than the stand-in offers: use the real crate
        src = "harness-real"
        t += "-real"
        extra = ["--no-default-features", "--features", ("realimage," + FEATURES[cfg]).rstrip(",")]
        rc2, out2 = cargo(os.path.join(ROOT, src), t, extra, FLAGS + " -A warnings")
        if rc2:
            raise CheckError("build failed (%s)\n%s" % (cfg, out[-4000:]))
    elif rc:
        raise CheckError("build failed (%s)\n%s" % (cfg, out[-4000:]))
    deps = os.path.join(t, "release", "deps")
    newest = {}
    for f in glob.glob(deps + "/*.ll"):
        b = os.path.basename(f).rsplit("-", 1)[0]
        if b not in newest or os.path.getmtime(f) > os.path.getmtime(newest[b]):
            newest[b] = f
    lls = [newest["vh"]] + [newest[c] for c in CRATES if c in newest]
    return {"cfg": cfg, "lls": lls, "replay": os.path.join(t, "release", "replay"), "real": src == "harness-real"}


def second_crate():
    """/repo under a second name, so that two feature sets of it fit in one program"""
    d = os.path.join(BUILD, "repo-par")
    os.makedirs(d, exist_ok=True)
    out, skip = [], False
    for l in open(os.path.join(REPO, "Cargo.toml")):
        if l.startswith("["):
            skip = l.startswith(("[dev-dependencies", "[[", "[lib"))
        if skip or l.startswith(("readme", "build", "autobenches", "autotests")):
            continue
        out.append(l.replace('name = "imgproc-rs"', 'name = "imgproc-rs-par"') if l.startswith("name") else l)
    text = "".join(out) + "\n[workspace]\n"
    f = os.path.join(d, "Cargo.toml")
    if not os.path.exists(f) or open(f).read() != text:
        open(f, "w").write(text)
    ln = os.path.join(d, "src")
    if not os.path.islink(ln) or os.readlink(ln) != os.path.join(REPO, "src"):
        if os.path.islink(ln):
            os.unlink(ln)
        os.symlink(os.path.join(REPO, "src"), ln)


def force_rebuild(t):
    """cargo compares time stamps; make sure that a change of content is enough"""
    h = hashlib.sha256()
    for d in (REPO, os.path.join(ROOT, "harness"), os.path.join(ROOT, "harness-dual"), os.path.join(ROOT, "shim")):
        for r, ds, fs in sorted(os.walk(d)):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    h.update(os.path.join(r, f).encode())
                    h.update(open(os.path.join(r, f), "rb").read())
    m = os.path.join(t, "source-hash")
    if not os.path.isdir(t):
        if t.endswith("-real"):
            return
        os.makedirs(t)
    if not os.path.exists(m) or open(m).read() != h.hexdigest():
        for f in glob.glob(t + "/release/.fingerprint/imgproc-rs*") + glob.glob(t + "/release/.fingerprint/vh-*") \
                + glob.glob(t + "/release/deps/imgproc_rs*.ll") + glob.glob(t + "/release/deps/vh-*.ll"):
            subprocess.run(["rm", "-rf", f])
        open(m, "w").write(h.hexdigest())


LOCK = threading.Lock()


class Worker(threading.Thread):
    """one engine process, restarted when a job kills it"""

    FIRST = 25  # seconds of the first attempt; jobs that need more are repeated after all others

    def __init__(self, engine, b, q, res, stop, pending, found):
        super().__init__(daemon=True)
        self.engine, self.b, self.q, self.res, self.stop, self.pending, self.found = engine, b, q, res, stop, pending, found
        self.p = None

    def start_proc(self):
        self.p = subprocess.Popen([self.engine] + self.b["lls"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)

    def one(self, j, secs, slack):
        if self.p is None or self.p.poll() is not None:
            self.start_proc()
        line = "%s %d %g %d %d %s\n" % (j["h"], j["avx2"], secs, j["paths"], j["trace"], ",".join(map(str, j["cfg"])))
        timer = threading.Timer(slack, self.p.kill)
        timer.start()
        try:
            self.p.stdin.write(line)
            self.p.stdin.flush()
            out = self.p.stdout.readline()
        except (BrokenPipeError, OSError):
            out = ""
        timer.cancel()
        if not out:
            try:
                self.p.kill()
            except OSError:
                pass
            self.p.wait()
            self.p = None
            return {"error": "the engine process ended (time, memory or a crash)", "viol": None}
        return json.loads(out)

    def run(self):
        while not self.stop.is_set() and self.pending[0] > 0:
            try:
                j, first = self.q.get(timeout=0.05)
            except queue.Empty:
                continue
            try:
                r = self.one(j, self.FIRST, self.FIRST * 1.5) if first else self.one(j, j["secs"], j["secs"] * 1.5 + 60)
            except Exception as e:
                r = {"error": "driver: %s" % e, "viol": None}
            if first and r.get("error") and not r.get("viol") and j["secs"] > self.FIRST and not self.stop.is_set():
                self.q.put((j, False))
                continue
            self.res.append((j, r, self.b))
            with LOCK:
                self.pending[0] -= 1
            if r.get("viol") and self.found(j, r, self.b):
                self.stop.set()
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.wait(timeout=5)
            except Exception:
                self.p.kill()


def native(b, j, inputs, fill=None, low=False):
    e = dict(os.environ)
    if fill is not None:
        e["VF_FILL"] = str(fill)
    if low:
        e["VF_LOW"] = "1"
    e["RUST_BACKTRACE"] = "0"
    try:
        r = subprocess.run([b["replay"], j["h"], ",".join(map(str, j["cfg"])), ",".join(str(x) for x in inputs), str(j["avx2"])],
                           env=e, capture_output=True, text=True, timeout=120)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return -999, "TIMEOUT"


def obs(out):
    return [l.split()[1] for l in out.splitlines() if l.startswith("OBS ")]


def reproduce(b, j, inputs):
    """runs the counterexample against the real code; returns (reproduced, description)"""
    outs = []
    for fill, low in ((0xA5, False), (0x5A, False), (0xA5, True)):
        rc, out = native(b, j, inputs, fill, low)
        if rc == 4:
            return False, "the harness assumption is false natively"
        if rc == 1:
            f = [l for l in out.splitlines() if l.startswith(("FAIL", "PANIC"))]
            return True, "; ".join(f[:4])
        if rc != 0:
            return True, "the process was killed: status %d (invalid memory access or no termination)" % rc
        outs.append(obs(out))
    if outs[0] != outs[1]:
        return True, "the result depends on uninitialised memory"
    return False, "the real code passes on this input"


def load_known():
    kf = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                head, _, text = l[len("finding:"):].partition("::")
                d = dict(x.split("=", 1) for x in head.split())
                d["text"] = text.strip()
                kf.append(d)
    return kf


def known(kf, prop, j, label):
    for k in kf:
        if k["property"] == prop and k["harness"] == j["h"] and k.get("build", j["build"]) == j["build"] \
                and k.get("cfg", ",".join(map(str, j["cfg"]))) == ",".join(map(str, j["cfg"])) \
                and k["label"].replace("_", " ") in label:
            return k
    return None


def run(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    jl = jobtable.jobs(prop, tier)
    if not jl:
        raise CheckError("no jobs for " + prop)
    only = os.environ.get("VF_ONLY")
    if only:
        jl = [j for j in jl if only in j["h"]]
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        engine = build_engine()
        builds = {c: build_harness(c) for c in sorted({j["build"] for j in jl})}
        tb = time.time() - t0
        results, errors = [], []
        stop = threading.Event()
        ncpu = min(8, os.cpu_count() or 4)
        kf = load_known()
        confirmed = {}

        def found(j, r, b):
            """confirms a counterexample; an unlisted violation ends the run"""
            confirmed[id(r)] = reproduce(b, j, r["viol"]["inputs"])
            return confirmed[id(r)][0] and known(kf, prop, j, r["viol"]["label"]) is None and not os.environ.get("VF_ALL")

        # jobs of a config run in engine processes of that config; split the cores by load
        per = {c: [j for j in jl if j["build"] == c] for c in builds}
        ws = []
        for c, l in per.items():
            q = queue.Queue()
            if builds[c]["real"]:
                l = [j for j in l if not j["h"].startswith("h_p38")]
                if not l:
                    raise CheckError("the image crate stand-in does not fit the code")
            for j in sorted(l, key=lambda j: -j["weight"]):
                q.put((j, True))
            n = max(1, min(len(l), round(ncpu * len(l) / len(jl))))
            pending = [len(l)]
            ws += [Worker(engine, builds[c], q, results, stop, pending, found) for _ in range(n)]
        for w in ws:
            w.start()
        limit = t0 + (800 if tier == "quick" else 1e9)
        while any(w.is_alive() for w in ws):
            if stop.is_set() or time.time() > limit:
                stop.set()
                for w in ws:
                    try:
                        w.p.kill()
                    except (AttributeError, OSError):
                        pass
            for w in ws:
                w.join(0.05)
                if w.is_alive():
                    break

        viol, findings, samples = [], [], []
        traces_ok = 0
        for j, r, b in results:
            name = "%s[%s] avx2=%d %s" % (j["h"], ",".join(map(str, j["cfg"])), j["avx2"], j["build"])
            if r.get("viol"):
                v = r["viol"]
                ok, how = confirmed.get(id(r)) or reproduce(b, j, v["inputs"])
                if ok:
                    k = known(kf, prop, j, v["label"])
                    if k:
                        findings.append((k, how))
                    else:
                        d = os.path.join(BUILD, "replays")
                        os.makedirs(d, exist_ok=True)
                        f = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha1((name + v["label"]).encode()).hexdigest()[:10]))
                        json.dump({"property": prop, "job": j, "label": v["label"], "inputs": v["inputs"], "native": how,
                                   "run": "python3 %s --replay %s" % (os.path.join(ROOT, "check.py"), f)}, open(f, "w"), indent=1)
                        viol.append((f, name, v["label"], how))
                else:
                    errors.append("%s: counterexample to '%s' does not reproduce (%s): inputs %s" % (name, v["label"], how, v["inputs"][:40]))
                continue
            if r.get("error"):
                errors.append("%s: %s" % (name, r["error"]))
                continue
            if r["asserting"] < 1 and r["panics_ok"] < 1:
                errors.append("%s: vacuous, no path reaches an assertion" % name)
                continue
        if len(results) < len(jl) - sum(len([j for j in per[c] if j["h"].startswith("h_p38")]) for c in builds if builds[c]["real"]) and not viol:
            errors.append("%d jobs were not finished in time" % (len(jl) - len(results)))
        # traces: replay engine-derived inputs natively and compare every observed value
        todo = []
        for j, r, b in results:
            if viol or r.get("viol") or r.get("error"):
                continue
            tr = [t for t in r["traces"] if t["o"]]
            random.Random(seed).shuffle(tr)
            for t in tr[:3]:
                todo.append((j, t, b))
        lock = threading.Lock()

        # the sign of a floating-point zero is not modelled in sums
        def nz(x):
            return "0" if x in ("2147483648", "9223372036854775808") else x

        def val(items):
            nonlocal traces_ok
            for j, t, b in items:
                rc, out = native(b, j, t["i"])
                o = obs(out)
                with lock:
                    if rc == 0 and [nz(x) for x in o] == [nz(x) for x in t["o"]]:
                        traces_ok += 1
                    else:
                        errors.append("%s[%s] avx2=%d: trace mismatch, inputs %s: engine %s, real %s (status %d)" % (j["h"], j["cfg"], j["avx2"], t["i"][:30], t["o"][:20], o[:20], rc))

        th = [threading.Thread(target=val, args=(todo[i::ncpu],)) for i in range(ncpu)]
        for x in th:
            x.start()
        for x in th:
            x.join()

    good = [(j, r) for j, r, b in results if not r.get("error") and not r.get("viol")]
    tot = lambda k: sum(r.get(k, 0) for j, r in good)
    funcs = sorted({f for j, r in good for f in r["funcs"]})
    for j, r in good[:: max(1, len(good) // 6)][:6]:
        samples.append({"harness": j["h"], "parameters": j["cfg"], "avx2": j["avx2"], "build": j["build"], "paths": r["paths"], "assertions": r["asserts"],
                        "queries": r["queries"], "solver_s": r["solver_s"], "trace": (r["traces"] or [None])[0]})
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": round(time.time() - t0, 2),
        "violations": len(viol),
        "coverage": {
            "states": tot("paths"), "transitions": tot("instrs"), "traces_validated_against_impl": traces_ok, "samples": samples,
            "jobs": len(jl), "jobs_decided": len(good), "paths_asserting": tot("asserting"), "paths_ending_in_specified_panic": tot("panics_ok"),
            "assertions": tot("asserts"), "assertions_discharged_by_rewriting": tot("rewritten"),
            "solver_queries": tot("queries"), "assertion_queries": tot("verdicts"), "solver_unknown": tot("unknown"),
            "solver_s": round(tot("solver_s"), 2), "max_query_s": max([r["max_query_s"] for j, r in good] or [0]), "terms": tot("terms"),
            "build_s": round(tb, 2), "functions_encoded": [f for f in funcs if "imgproc" in f][:200], "functions_encoded_total": len(funcs),
            "bounds": jobtable.bounds(prop), "harnesses": {h: sum(1 for j in jl if j["h"] == h) for h in sorted({j["h"] for j in jl})},
        },
        "assumptions": jobtable.ASSUMPTIONS,
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(ROOT, "evidence", prop + ".json"), "w"), indent=1)
    for k, how in findings:
        print("KNOWN-FINDING: property=%s %s (%s)" % (prop, k["text"], how))
    for e in errors[:20]:
        print("ERROR " + e)
    for f, name, label, how in viol[:20]:
        print("  %s: '%s' fails: %s" % (name, label, how))
    if viol:
        print("VIOLATION property=%s replay=%s" % (prop, viol[0][0]))
        return 1
    if errors:
        print("UNDECIDED property=%s: %d of %d jobs" % (prop, len(errors), len(jl)))
        return 2
    print("HOLDS property=%s tier=%s jobs=%d paths=%d assertions=%d queries=%d traces=%d wall=%.1fs (build %.1fs)" % (
        prop, tier, len(jl), tot("paths"), tot("asserts"), tot("queries"), traces_ok, time.time() - t0, tb))
    if os.environ.get("VF_SLOW"):
        for j, r in sorted(good, key=lambda x: -x[1]["wall_s"])[:int(os.environ["VF_SLOW"])]:
            print("   %6.2fs solver %6.2f paths %5d asserts %6d rew %6d q %5d %s%s %d %s" % (r["wall_s"], r["solver_s"], r["paths"], r["asserts"], r["rewritten"], r["queries"], j["h"], j["cfg"], j["avx2"], j["build"]))
    return 0


def main():
    if sys.argv[1] == "--setup":
        os.makedirs(BUILD, exist_ok=True)
        build_engine()
        for c in ("simd", "nosimd", "par", "dual"):
            build_harness(c)
        print("setup done")
        return 0
    if sys.argv[1] == "--replay":
        d = json.load(open(sys.argv[2]))
        b = build_harness(d["job"]["build"])
        rc, out = native(b, d["job"], d["inputs"], 0xA5, False)
        print(out)
        ok, how = reproduce(b, d["job"], d["inputs"])
        print("reproduced: %s (%s)" % (ok, how))
        return 1 if ok else 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return run(sys.argv[1], tier)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as e:
        print("ERROR %s" % e)
        sys.exit(2)
