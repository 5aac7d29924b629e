#!/usr/bin/env python3
"""Builds the runtime from /repo's working tree, runs the monitors of one property, writes evidence.

  run.py setup                 build every variant
  run.py check C01             tier from VERIF_TIER (quick|thorough), seed from VERIF_SEED
  run.py replay FILE           re-run one recorded case
"""
import sys, os, json, hashlib, subprocess, threading, time, shutil, tempfile, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VH_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
WORK = os.path.join(VERIF, "work")
HARNESS = os.path.join(VERIF, "harness")
sys.path.insert(0, os.path.join(VERIF, "tools"))
SHM = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"

# variant -> (toolchain, extra cargo args, rustflags)
HOOK = "--cfg chiwawa_verif"
ASAN = HOOK + " --cfg vh_asan -Zsanitizer=address -Zub-checks=yes -Cforce-frame-pointers=yes"
NATIVE = {
    "loop": ("1.99.1", [], HOOK),
    "tco": ("1.99.1", ["--features", "tco"], HOOK),
    "loop-inst": ("1.99.1", ["--features", "stats,trace"], HOOK),
    "tco-inst": ("1.99.1", ["--features", "tco,stats,trace"], HOOK),
    "asan": ("nightly", ["--target", "x86_64-unknown-linux-gnu"], ASAN),
    "miri": ("nightly", [], HOOK),
    "miri-tco": ("nightly", ["--features", "tco"], HOOK),
}
MIRIFLAGS = "-Zmiri-disable-isolation"
WASM = {"wasm-tco": "tco", "wasm-loop": "legacy", "wasm-tco-inst": "tco", "wasm-loop-inst": "legacy"}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def repo_hash():
    h = hashlib.sha256()
    for root, dirs, files in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "target", "node_modules"))
        for f in sorted(files):
            p = os.path.join(root, f)
            if root == REPO and not f.endswith((".toml", ".lock", ".rs")):
                continue
            if root != REPO and not (f.endswith((".rs", ".toml", ".lock"))):
                continue
            try:
                with open(p, "rb") as fh:
                    d = fh.read()
            except OSError:
                continue
            h.update(os.path.relpath(p, REPO).encode() + b"\0" + d)
    return h.hexdigest()


def toolchain(want):
    """an installed toolchain name for the wanted version"""
    try:
        out = subprocess.run(["rustup", "toolchain", "list"], capture_output=True, text=True).stdout.split("\n")
        names = [l.split()[0] for l in out if l.strip()]
    except Exception:
        return None
    if want == "1.99.1":
        for n in names:
            if n.startswith("stable"):
                return n
    for n in names:
        if n.startswith(want):
            return n
    return None


def binary(v):
    t = os.path.join(TARGET, v)
    if v in WASM:
        return os.path.join(t, "wasm32-wasip1", "release", "chiwawa.wasm")
    if v == "asan":
        return os.path.join(t, "x86_64-unknown-linux-gnu", "release", "vh")
    if v.startswith("miri"):
        return os.path.join(t, "miri", "x86_64-unknown-linux-gnu", "debug", "vh")
    return os.path.join(t, "release", "vh")


def build(v, stamp):
    tdir = os.path.join(TARGET, v)
    os.makedirs(tdir, exist_ok=True)
    sf = os.path.join(tdir, "repo-stamp")
    old = open(sf).read() if os.path.exists(sf) else ""
    if old != stamp:
        # freshness by content, not by time stamps
        for base in ("release", "x86_64-unknown-linux-gnu/release", "wasm32-wasip1/release", "miri/debug", "miri/x86_64-unknown-linux-gnu/debug"):
            fp = os.path.join(tdir, base, ".fingerprint")
            if os.path.isdir(fp):
                for d in os.listdir(fp):
                    if d.startswith("chiwawa-") or d.startswith("vh-"):
                        shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        if os.path.exists(sf):
            os.remove(sf)
    env = dict(os.environ)
    env.pop("RUSTFLAGS", None)
    if v in WASM:
        env["RUSTUP_TOOLCHAIN"] = "1.97.0"
        env["CARGO_PROFILE_RELEASE_LTO"] = "off"
        env["CARGO_PROFILE_RELEASE_CODEGEN_UNITS"] = "16"
        feats = "wasmtime" + (",tco" if WASM[v] == "tco" else "") + (",stats,trace" if v.endswith("-inst") else "")
        cmd = ["cargo", "build", "--release", "--locked", "--offline", "--target", "wasm32-wasip1", "--features", feats,
               "--config", ".cargo/config-wasmtime-%s.toml" % WASM[v], "--target-dir", tdir]
        cwd = REPO
    else:
        tc, args, flags = NATIVE[v]
        t = toolchain(tc)
        if t:
            env["RUSTUP_TOOLCHAIN"] = t
        env["RUSTFLAGS"] = flags
        cmd = ["cargo", "build", "--release", "--locked", "--offline", "--target-dir", tdir] + args
        if v.startswith("miri"):
            cmd, env = miri(v, ["version"])
        cwd = HARNESS
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        return "build of %s failed:\n%s" % (v, p.stdout[-4000:])
    if not os.path.exists(binary(v)):
        return "build of %s left no %s" % (v, binary(v))
    with open(sf, "w") as f:
        f.write(stamp)
    return None


def miri(v, args):
    tc, xargs, flags = NATIVE[v]
    env = dict(os.environ, RUSTFLAGS=flags, MIRIFLAGS=MIRIFLAGS)
    t = toolchain(tc)
    if t:
        env["RUSTUP_TOOLCHAIN"] = t
    return ["cargo", "miri", "run", "--quiet", "--locked", "--offline", "--target-dir", os.path.join(TARGET, v)] + xargs + ["--"] + args, env


def build_all(vs):
    stamp = repo_hash()
    errs = {}
    ths = []
    for v in vs:
        def go(v=v):
            e = build(v, stamp)
            if e:
                errs[v] = e
        t = threading.Thread(target=go)
        t.start()
        ths.append(t)
    for t in ths:
        t.join()
    return errs


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.dir = tempfile.mkdtemp(prefix="vh-%s-" % prop, dir=SHM)
        self.replays = os.path.join(WORK, "replay", prop)
        if os.path.isdir(self.replays):
            shutil.rmtree(self.replays)
        os.makedirs(self.replays)
        self.violations = []
        self.reports = []
        self.notes = []
        self.nviol = 0

    def violation(self, what, info, files=()):
        self.nviol += 1
        rp = os.path.join(self.replays, "%d.json" % self.nviol)
        kept = []
        for f in files:
            if f and os.path.exists(f):
                d = os.path.join(self.replays, "%d%s" % (self.nviol, os.path.splitext(f)[1]))
                shutil.copy(f, d)
                kept.append(d)
        info = dict(info, property=self.prop, what=what, files=kept, seed=self.seed, tier=self.tier)
        with open(rp, "w") as f:
            json.dump(info, f, indent=1)
        self.violations.append((what, rp, info))


def asan_env(v, env):
    if v == "asan":
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:detect_stack_use_after_return=0:quarantine_size_mb=64"
    return env


def run_workers(cx, prop, plan, cap, scale=1.0, extra=()):
    """plan: list of (variant, build number, number of parts[, extra environment])"""
    jobs = []
    for e in plan:
        for i in range(e[2]):
            jobs.append((e[0], e[1], i, e[2], e[3] if len(e) > 3 else {}))
    procs = []
    for v, b, i, n, xenv in jobs:
        tag = "%s-%d" % (v, i)
        out = os.path.join(cx.dir, tag + ".json")
        cmd = [binary(v), "check", "--prop", prop, "--seed", str(cx.seed), "--part", "%d/%d" % (i, n), "--build", str(b), "--tier", cx.tier,
               "--out", out, "--cap", str(cap), "--scale", str(scale), "--dir", os.path.join(cx.dir, "cwd-" + tag)] + list(extra)
        env = asan_env(v, dict(os.environ, **xenv))
        err = open(os.path.join(cx.dir, tag + ".err"), "wb")
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, env=env, stdin=subprocess.DEVNULL)
        procs.append((v, b, i, n, out, p, tag, xenv))
    hard = time.time() + cap + 200
    inconclusive = []
    for v, b, i, n, out, p, tag, xenv in procs:
        try:
            rc = p.wait(timeout=max(1, hard - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = -9
        rep = None
        if rc in (0, 1) and os.path.exists(out):
            rep = json.load(open(out))
            rep["variant"] = v
            cx.reports.append(rep)
            for vi in rep["violations"]:
                confirm(cx, prop, v, b, vi["family"], vi["idx"], vi["what"], vi, extra, xenv)
        else:
            cur = ""
            try:
                cur = open(out + ".cur").read()
            except OSError:
                pass
            fam, idx = (cur.split() + ["?", "?"])[:2]
            log("worker %s ended with %s at %s:%s" % (tag, rc, fam, idx))
            tail = open(os.path.join(cx.dir, tag + ".err"), "rb").read()[-3000:].decode("utf8", "replace")
            if rc == 97 and prop == "C27":
                cx.notes.append("%s:%s does not finish" % (fam, idx))
            elif rc == -9 or fam == "?":
                inconclusive.append("%s ended with %s at %s:%s %s" % (tag, rc, fam, idx, tail[-500:]))
            else:
                what = describe(rc, tail)
                if not confirm(cx, prop, v, b, fam, int(idx), what, {"stderr": tail}, extra, xenv):
                    inconclusive.append("%s ended with %s at %s:%s, not reproduced" % (tag, rc, fam, idx))
    return inconclusive


def describe(rc, tail):
    if rc == 97:
        return "the interpreter does not finish (CPU time limit of the case)"
    if "AddressSanitizer" in tail:
        k = tail.find("ERROR: AddressSanitizer")
        return "AddressSanitizer: " + tail[k:k + 400].replace("\n", " | ")
    return "the interpreter process died (status %s) %s" % (rc, tail[-300:].replace("\n", " | "))


def confirm(cx, prop, v, b, fam, idx, what, info, extra=(), xenv={}):
    if len(cx.violations) >= 5:
        return True
    for k in range(3):
        out = os.path.join(cx.dir, "confirm.json")
        for f in (out,):
            if os.path.exists(f):
                os.remove(f)
        cmd = [binary(v), "check", "--prop", prop, "--seed", str(cx.seed), "--build", str(b), "--tier", cx.tier, "--out", out,
               "--dir", os.path.join(cx.dir, "cwd-confirm"), "--only", "%s:%d" % (fam, idx)] + list(extra)
        try:
            p = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, env=asan_env(v, dict(os.environ, **xenv)), timeout=200, stdin=subprocess.DEVNULL)
        except subprocess.TimeoutExpired:
            continue
        rc = p.returncode
        tail = p.stderr.decode("utf8", "replace")[-3000:]
        if rc == 0 or rc == -9:
            continue
        files = []
        if rc == 1 and os.path.exists(out):
            j = json.load(open(out))
            if not j["violations"]:
                continue
            what = j["violations"][0]["what"]
            w = j["violations"][0].get("wasm")
            if w:
                files = [w, w[:-5] + ".txt"]
        else:
            what = describe(rc, tail)
        cx.violation(what, {"variant": v, "build": b, "family": fam, "idx": idx, "detail": info, "cmd": cmd, "env": xenv}, files)
        return True
    cx.notes.append("not reproduced: %s:%s %s" % (fam, idx, what[:300]))
    return False


def merge(cx):
    m = {"evals": 0, "discards": 0, "nontrivial": 0, "ops": {}, "n": {}, "fams": {}, "samples": [], "distinct": set(), "capped": False, "planned": 0, "builds": {}}
    for r in cx.reports:
        for k in ("evals", "discards", "nontrivial", "planned"):
            m[k] += r[k]
        m["capped"] |= r["capped"]
        for k in ("ops", "n"):
            for a, b in r[k].items():
                m[k][a] = m[k].get(a, 0) + b
        for a, b in r["fams"].items():
            e = m["fams"].setdefault(a, [0, 0])
            e[0] += b[0]
            e[1] += b[1]
        m["samples"] += r["samples"]
        m["distinct"].update(r["distinct"])
        m["builds"][r["variant"]] = m["builds"].get(r["variant"], 0) + r["evals"]
    return m


def evidence(cx, spec, m, t0, extra=None):
    cov = {
        "evaluations": m["evals"],
        "distinct_nontrivial": len(m["distinct"]),
        "rule": spec["rule"],
        "samples": m["samples"][:8],
        "discarded_cases": m["discards"],
        "cases_by_family": {k: {"run": v[0], "discarded": v[1]} for k, v in sorted(m["fams"].items())},
        "cases_by_build": m["builds"],
        "observed": dict(sorted(m["n"].items())),
        "distinct_operators_executed": len(m["ops"]),
        "operator_histogram": dict(sorted(m["ops"].items(), key=lambda x: -x[1])[:60]),
        "stopped_by_time_cap": m["capped"],
        "not_reproduced": cx.notes,
    }
    if extra:
        cov.update(extra)
    e = {"property": cx.prop, "tier": cx.tier, "seed": cx.seed, "level": "exploration", "coverage": cov,
         "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 1), "violations": len(cx.violations)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", cx.prop + ".json"), "w") as f:
        json.dump(e, f, indent=1)


def known(prop):
    """known findings of a property: (key, text)"""
    out = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            l = l.strip()
            if l.startswith("known: property=%s " % prop):
                rest = l.split(" ", 2)[2]
                key, _, text = rest.partition(" ")
                out.append(((key[4:] if key.startswith("key=") else key).replace("_", " "), text))
    except OSError:
        pass
    return out


def check(prop):
    import specs
    spec = specs.SPECS[prop]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    errs = build_all(spec["builds"])
    if errs:
        for e in errs.values():
            log(e)
        return 2
    tb = time.time()
    cx = Ctx(prop, tier, seed)
    try:
        cap = 400 if tier == "quick" else int(os.environ.get("VERIF_CAP", "2400"))
        incon = []
        if spec.get("plan"):
            incon = run_workers(cx, prop, spec["plan"], cap, extra=spec.get("extra", ()))
            if incon and not cx.violations:
                log("inconclusive, trying again: %s" % incon)
                cx.reports = []
                incon = run_workers(cx, prop, spec["plan"], cap, extra=spec.get("extra", ()))
        extra = None
        if spec.get("custom"):
            extra = spec["custom"](cx, sys.modules[__name__])
            incon += (extra or {}).pop("_incon", [])
        m = merge(cx)
        if extra and extra.get("_merge"):
            x = extra.pop("_merge")
            for k in ("evals", "discards", "nontrivial", "planned"):
                m[k] += x.get(k, 0)
            m["distinct"].update(x.get("distinct", ()))
            m["samples"] = x.get("samples", []) + m["samples"]
            for a, b in x.get("n", {}).items():
                m["n"][a] = m["n"].get(a, 0) + b
            for a, b in x.get("fams", {}).items():
                e = m["fams"].setdefault(a, [0, 0])
                e[0] += b
        if extra is None:
            extra = {}
        extra["build_s"] = round(tb - t0, 1)
        evidence(cx, spec, m, t0, extra)
        kn = known(prop)
        bad = 0
        for what, rp, info in cx.violations:
            hit = [k for k in kn if k[0] and k[0] in what.replace("_", " ")]
            if hit:
                continue
            bad += 1
            print("  %s" % what[:600])
            print("VIOLATION property=%s replay=%s" % (prop, rp))
        for k, text in kn:
            print("KNOWN-FINDING: property=%s %s" % (prop, text))
        if bad:
            return 1
        if incon:
            log("inconclusive: %s" % incon)
            return 2
        print("%s: held on %d cases (%d distinct non-trivial, %d discarded) in %.0f s (build %.0f s)" % (prop, m["evals"], len(m["distinct"]), m["discards"], time.time() - t0, tb - t0))
        return 0
    finally:
        shutil.rmtree(cx.dir, ignore_errors=True)


def replay(path):
    j = json.load(open(path))
    if "cmd" not in j:
        print(json.dumps(j, indent=1))
        return 0
    errs = build_all([j["variant"]])
    if errs:
        log(errs)
        return 2
    d = tempfile.mkdtemp(prefix="vh-replay-", dir=SHM)
    try:
        cmd = list(j["cmd"])
        cmd[cmd.index("--out") + 1] = os.path.join(d, "out.json")
        cmd[cmd.index("--dir") + 1] = os.path.join(d, "cwd")
        xenv = dict(j.get("env", {}))
        if "VH_XDIR" in xenv:
            xenv["VH_XDIR"] = os.path.join(d, "x")
            os.makedirs(xenv["VH_XDIR"])
            if xenv.get("VH_PHASE") == "read":
                w = list(cmd)
                o = "tco" if j["variant"] == "loop" else "loop"
                w[0] = binary(o)
                build_all([o])
                subprocess.run(w, env=dict(os.environ, **dict(xenv, VH_PHASE="write")))
        p = subprocess.run(cmd, env=asan_env(j["variant"], dict(os.environ, **xenv)))
        print("exit", p.returncode)
        o = os.path.join(d, "out.json")
        if os.path.exists(o):
            for v in json.load(open(o))["violations"]:
                print(v["what"])
        return p.returncode
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    a = sys.argv[1:]
    if a[:1] == ["setup"]:
        errs = build_all(list(NATIVE) + list(WASM))
        for e in errs.values():
            log(e)
        return 1 if errs else 0
    if a[:1] == ["check"] and len(a) > 1:
        return check(a[1])
    if a[:1] == ["replay"] and len(a) > 1:
        return replay(a[1])
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
