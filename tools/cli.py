"""Runs cases of the built command-line program (wasm32-wasip1) under wasmtime and judges what the process does."""
import os, json, subprocess, hashlib, random, shutil, struct
from concurrent.futures import ThreadPoolExecutor

WT = os.environ.get("VH_WASMTIME") or shutil.which("wasmtime") or "/opt/wasmtime/bin/wasmtime"
VARIANTS = ["wasm-tco", "wasm-loop"]
INST = ["wasm-tco-inst", "wasm-loop-inst"]
OVERFLOW = b"call stack exhausted"


def precompile(R, d, inst=False):
    out = {}
    for v in INST if inst else VARIANTS:
        o = os.path.join(d, v + ".cwasm")
        subprocess.run([WT, "compile", "-o", o, R.binary(v)], check=True, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=300)
        out[v] = o
    return out


def run(cw, scratch, case, extra=(), timeout=150):
    cmd = [WT, "run", "--allow-precompiled", "--dir", scratch + "::."]
    for e in case.get("env") or []:
        cmd += ["--env", e]
    if case.get("maxmem"):
        cmd += ["-W", "max-memory-size=%d" % case["maxmem"]]
    cmd += [cw, case.get("file") or "case.wasm"] + list(extra) + case["args"]
    if case.get("cr"):
        cmd.append("--cr")
    env = {"PATH": "/usr/bin:/bin", "HOME": scratch, "WASMTIME_BACKTRACE_DETAILS": "0", "RUST_BACKTRACE": "0"}
    try:
        p = subprocess.run(cmd, input=bytes.fromhex(case.get("stdin") or ""), stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=scratch, timeout=timeout)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        return None, e.stdout or b"", e.stderr or b""


def cut(b, n=300):
    return repr(b[:n]) + ("…(%d bytes)" % len(b) if len(b) > n else "")


def judge_expect(e, rc, out, err, st):
    bad = []
    if "out" in e and out != bytes.fromhex(e["out"]):
        bad.append("standard output is %s and should be %s" % (cut(out), cut(bytes.fromhex(e["out"]))))
    if "err" in e and err != bytes.fromhex(e["err"]):
        bad.append("standard error is %s and should be %s" % (cut(err), cut(bytes.fromhex(e["err"]))))
    if "errpre" in e and not err.startswith(bytes.fromhex(e["errpre"])):
        bad.append("standard error is %s and should start with %s" % (cut(err), cut(bytes.fromhex(e["errpre"]))))
    if "code" in e and rc != e["code"]:
        bad.append("the process ends with %s and should end with %d (standard error %s)" % (rc, e["code"], cut(err)))
    if e.get("noresult") and b"Result:" in out:
        bad.append("a result is printed for a failing run: %s" % cut(out))
    if e.get("message") and len(err) <= len(bytes.fromhex(e.get("errpre", ""))):
        bad.append("a failing run says nothing")
    if "without" in e and bytes.fromhex(e["without"]) in out:
        bad.append("the guest ran")
    if OVERFLOW in err:
        bad.append("the interpreter exhausts the host stack")
    if e.get("code") == 0 and b"Result:" in out:
        st["results printed"] = st.get("results printed", 0) + 1
    if e.get("message"):
        st["failures reported"] = st.get("failures reported", 0) + 1
    if e.get("code"):
        st["non-zero exit codes"] = st.get("non-zero exit codes", 0) + 1
    return bad


def judge_deliver(c, rc, out, err, st):
    d = c["deliver"]
    tail = b"Result: Num(I32(0))\n"
    n = d["len"]
    if not out.endswith(tail) or len(out) != n + len(tail):
        return ["the dump is missing: status %s, standard output %s, standard error %s" % (rc, cut(out[-200:]), cut(err))]
    m = out[:n]
    free = bytearray(b"\1") * n
    bad = []

    def word(a):
        free[a:a + 4] = b"\0" * 4
        return struct.unpack_from("<I", m, a)[0]

    for what, want, (p, q, v, b) in (("arguments", d["argv"], d["args"]), ("environment", d["env"], d["environ"])):
        want = [w.encode() for w in want]
        cnt, size = word(p), word(q)
        if cnt != len(want):
            bad.append("%s: %d reported, %d given" % (what, cnt, len(want)))
            continue
        tot = sum(len(w) + 1 for w in want)
        if size != tot:
            bad.append("%s: size %d reported, %d needed" % (what, size, tot))
            continue
        at = []
        for i, w in enumerate(want):
            a = word(v + 4 * i)
            if not (b <= a and a + len(w) + 1 <= b + size):
                bad.append("%s: pointer %d is %d, outside the buffer %d+%d" % (what, i, a, b, size))
                break
            got = m[a:a + len(w) + 1]
            if got != w + b"\0":
                bad.append("%s: string %d is %s and should be %s" % (what, i, cut(got), cut(w)))
                break
            at.append((a, len(w) + 1))
            free[a:a + len(w) + 1] = b"\0" * (len(w) + 1)
        if not bad and sum(x[1] for x in at) != size or len(set(x[0] for x in at)) != len(at):
            bad.append("%s: strings overlap" % what)
        st["strings delivered"] = st.get("strings delivered", 0) + len(at)
        st["bytes delivered"] = st.get("bytes delivered", 0) + tot
    if not bad:
        for i in range(n):
            if free[i] and m[i] != 0xa5:
                bad.append("byte %d outside the outputs was changed to %#x" % (i, m[i]))
                break
    return bad


def resume(cws, v, scratch, c, st):
    """checkpoint, resume, checkpoint, … alternating between the builds"""
    r = c["resume"]
    k = VARIANTS.index(v) ^ r["first"]
    trig, img = os.path.join(scratch, "checkpoint.trigger"), os.path.join(scratch, "checkpoint.bin")
    want = r["result"].encode()
    extra = []
    for hop in range(r["hops"] + 1):
        last = hop == r["hops"]
        if not last:
            open(trig, "wb").close()
        elif os.path.exists(trig):
            os.remove(trig)
        c2 = dict(c, cr=not last)
        rc, out, err = run(cws[VARIANTS[k]], scratch, c2, extra)
        k ^= 1
        if rc is None:
            return None
        stopped = b"Execution stopped for checkpoint." in out + err
        if stopped and last:
            return ["a checkpoint is made without a request (hop %d)" % hop]
        if not stopped:
            if not out.endswith(want) or out.count(b"Result:") != 1:
                return ["after %d checkpoints the run ends with status %s and %s (standard error %s), should print %s" % (hop, rc, cut(out[-300:]), cut(err), want)]
            st["resumed runs finished"] = st.get("resumed runs finished", 0) + (1 if hop else 0)
            return []
        if b"Result:" in out:
            return ["a stopped run prints a result: %s" % cut(out)]
        st["checkpoints taken"] = st.get("checkpoints taken", 0) + 1
        if not os.path.exists(img):
            return ["no image was written (status %s, %s)" % (rc, cut(out + err))]
        if "refuse" in c:
            return refuse(cws, VARIANTS[k], scratch, c, st)
        if r.get("damage"):
            b = open(img, "rb").read()
            h = hashlib.sha256(b).digest()
            t = int.from_bytes(h[:4], "little")
            if t & 1:
                b = b[:t % max(1, len(b))]
            else:
                j = t % len(b)
                b = b[:j] + bytes([b[j] ^ (1 + h[5] % 255)]) + b[j + 1:]
            open(img, "wb").write(b)
            if os.path.exists(trig):
                os.remove(trig)
            rc, out, err = run(cws[VARIANTS[k]], scratch, dict(c, cr=False), ["--restore", "checkpoint.bin"])
            if rc is None:
                return None
            st["damaged images offered"] = st.get("damaged images offered", 0) + 1
            if b"Result:" in out or not err:
                return ["a damaged image is resumed: status %s, %s (standard error %s)" % (rc, cut(out), cut(err))]
            return []
        extra = ["--restore", "checkpoint.bin"]
    return []


def refuse(cws, v, scratch, c, st):
    """a damaged or foreign image ends in an error before anything runs; the genuine one still works"""
    rnd = random.Random(c["refuse"])
    trig, img = os.path.join(scratch, "checkpoint.trigger"), os.path.join(scratch, "checkpoint.bin")
    if os.path.exists(trig):
        os.remove(trig)
    good = open(img, "rb").read()
    own = open(os.path.join(scratch, "case.wasm"), "rb").read()
    n = len(good)
    kinds = ["missing", "empty", "cut", "flip", "zero", "noise", "insert", "other", "text"]
    rnd.shuffle(kinds)
    for kind in kinds[:5]:
        b, at = bytearray(good), rnd.randrange(n)
        if rnd.random() < .5:
            at = rnd.randrange(min(n, 300))
        if kind == "cut":
            b = b[:rnd.choice([at, n - 1, n - 2, 1, 8])]
        elif kind == "flip":
            b[at] ^= 1 << rnd.randrange(8)
        elif kind == "zero":
            m = min(n - at, rnd.choice([1, 4, 64, n]))
            if not any(b[at:at + m]):
                b[0] ^= 255
            b[at:at + m] = bytes(m)
        elif kind == "noise":
            b = bytearray(rnd.randbytes(rnd.choice([1, 40, n])))
        elif kind == "insert":
            b[at:at] = rnd.randbytes(rnd.choice([1, 8]))
        elif kind == "text":
            b = bytearray(b"not an image\n")
        elif kind == "empty":
            b = bytearray()
        elif kind == "other":
            shutil.copy(c["other"], os.path.join(scratch, "case.wasm"))
        if kind == "missing":
            os.remove(img)
        else:
            open(img, "wb").write(b)
        rc, out, err = run(cws[v], scratch, dict(c, cr=rnd.random() < .5), ["--restore", "checkpoint.bin"])
        open(os.path.join(scratch, "case.wasm"), "wb").write(own)
        if rc is None:
            return None
        st["images refused by the program"] = st.get("images refused by the program", 0) + 1
        if b"Result:" in out or b"Execution stopped" in out or not err or rc == 0:
            return ["an image (%s, byte %d of %d) is not refused: status %s, %s (standard error %s)" % (kind, at, n, rc, cut(out), cut(err))]
    open(img, "wb").write(good)
    rc, out, err = run(cws[v], scratch, dict(c, cr=False), ["--restore", "checkpoint.bin"])
    if rc is None:
        return None
    if not out.endswith(c["resume"]["result"].encode()):
        return ["the genuine image no longer works: status %s, %s (standard error %s)" % (rc, cut(out), cut(err))]
    st["genuine images resumed"] = st.get("genuine images resumed", 0) + 1
    return []


# bookkeeping the translation may fuse or drop
FUSED = {"localget", "localset", "localtee", "i32const", "i64const", "f32const", "f64const", "block", "loop", "end", "else", "drop", "nop", "return", "refnull"}


def canon(n):
    c = "".join(x for x in n if x.isalnum()).lower()
    return {"callwasi": "call", "typedselect": "select"}.get(c, c)


def in_class(n, k):
    return {"load": n[3:7] == "load", "store": n[3:8] == "store", "call": n in ("call", "callindirect"), "branch": n in ("br", "brif", "brtable"), "all": True}[k]


def read_trace(t):
    """[(name, parts shown)], or a complaint"""
    v = []
    for l in t.splitlines():
        if not (l.startswith("[") and l.endswith("]")):
            return "malformed trace line %s" % cut(l)
        d = dict(p.split(":", 1) for p in l[1:-1].split(" | "))
        if "Instr" not in d or set(d) - {"PC", "Instr", "Regs", "Locals", "Globals"}:
            return "malformed trace line %s" % cut(l)
        v.append((canon(d.pop("Instr")), frozenset(d)))
    return v


def instr(cw, scratch, c, st):
    """one program with statistics and tracing switched on and off"""
    rnd = random.Random(c["instr"])
    e = c["expect"]
    rc0, out0, err0 = run(cw, scratch, c)
    if rc0 is None:
        return None
    bad = judge_expect(e, rc0, out0, err0, st)
    if bad:
        return bad
    if rnd.random() < .2 and (b"Trace" in err0 or b"PC:" in err0 or b"Total instructions" in err0):
        return ["instrumentation is on by default: %s" % cut(err0)]
    full = None
    for mode in ("file", "stats", "select"):
        a, evs, res = [], None, None
        dest = None
        if mode != "stats":
            a.append("--trace")
        if mode == "select":
            evs = rnd.sample(["store", "load", "call", "branch", "all"], rnd.choice([1, 1, 2, 3]))
            res = rnd.sample(["pc", "regs", "locals", "globals", "memory"], rnd.choice([1, 2, 3]))
            sp = lambda x: x.upper() if rnd.random() < .2 else x
            for flag, l in (("--trace-events", evs), ("--trace-resource", res)):
                l = [sp(x) for x in l]
                k = rnd.randrange(3)
                a += [flag, ",".join(l)] if k == 0 else ["%s=%s" % (flag, ",".join(l))] if k == 1 else [flag] + l
        if mode == "file" or mode == "select" and rnd.random() < .5:
            dest = "trace-%s.txt" % mode
            a += ["--trace-output", dest]
        if mode == "stats" or rnd.random() < .3:
            a.append("--stats")
        rc, out, err = run(cw, scratch, dict(c, args=c["args"] + a, cr=rnd.random() < .2))
        if rc is None:
            return None
        tag = " ".join(a)
        if (rc, out) != (rc0, out0):
            return ["with %s the run ends with %s, %s (standard error %s), without with %s, %s" % (tag, rc, cut(out), cut(err[-300:]), rc0, cut(out0))]
        err = err.decode("utf-8", "replace")
        if "--trace" in a:
            if dest:
                try:
                    t = open(os.path.join(scratch, dest), errors="replace").read()
                except OSError:
                    return ["with %s no trace is written" % tag]
                if any(l.startswith("[PC:") or l.startswith("[Instr:") for l in err.splitlines()):
                    return ["with %s trace lines go to standard error" % tag]
            else:
                t = "".join(l + "\n" for l in err.splitlines() if l.startswith("[PC:") or l.startswith("[Instr:"))
            v = read_trace(t)
            if isinstance(v, str):
                return ["with %s: %s" % (tag, v)]
            st["trace lines read"] = st.get("trace lines read", 0) + len(v)
            shown = frozenset({"pc": "PC", "regs": "Regs", "locals": "Locals", "globals": "Globals"}[r] for r in res if r != "memory") if res else frozenset(["PC", "Regs", "Locals", "Globals"])
            if any(x[1] != shown for x in v):
                return ["with %s a trace line shows %s" % (tag, sorted([x[1] for x in v if x[1] != shown][0]))]
            got = [x[0] for x in v]
            if evs and "all" not in evs:
                want = [n for n in c["trace"] if any(in_class(n, k) for k in evs)]
            else:
                want = c["trace"]
                got = [n for n in got if n not in FUSED]
                full = len(v)
            if got != want:
                i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
                return ["with %s the trace lists %s at %d where %s is executed (%d and %d in all)" % (tag, got[i:i + 3], i, want[i:i + 3], len(got), len(want))]
        if "--stats" in a:
            n = [l.split(":")[1].split() for l in err.splitlines() if l.strip().startswith("Total instructions executed:")]
            if not n and e.get("noresult"):
                pass  # a trap that ends the process leaves no report
            elif len(n) != 1 or full is not None and n[0] != [str(full)]:
                return ["with %s the statistics report %s instructions, the trace %s (standard error %s)" % (tag, n, full, cut(err[-300:]))]
            st["statistics reports compared"] = st.get("statistics reports compared", 0) + 1
        elif "Total instructions executed" in err:
            return ["with %s statistics are printed" % tag]
    return []


JOURNEY = {"C15": ["outcome", "again"], "C16": ["prompt", "request"], "C18": ["silent"], "C24": ["outcome", "prompt", "request", "silent"]}
POLL = 1024  # interpreter instructions between two looks at the trigger
SLACK = 512


def journey(cws, v, scratch, c, st, cats, alternate):
    """A run is stopped, on request only, and resumed until it ends; its lines of output say where it was.
    cats: which kinds of findings count: outcome, prompt, again (promptness after a resume), request, silent."""
    j = c["journey"]
    rnd = random.Random(j["seed"])
    trig, img = os.path.join(scratch, "checkpoint.trigger"), os.path.join(scratch, "checkpoint.bin")
    lines, asks, total, end = j["lines"], j["asks"], j["total"], j["end"]
    k = VARIANTS.index(v)
    pos, extra, hops = 0, [], rnd.choice([1, 2, 3, 5, 8])
    hop = 0
    while True:
        cr, want = rnd.random() < .85, rnd.random() < .6
        if hop >= hops:
            cr = want = False
        if os.path.exists(trig):
            os.remove(trig)
        if want:
            with open(trig, "wb") as f:
                f.write(b"x" * rnd.choice([0, 0, 1, 5000]))
        old = open(img, "rb").read() if os.path.exists(img) else None
        rc, out, err = run(cws[VARIANTS[k]], scratch, dict(c, cr=cr), extra)
        if alternate:
            k ^= 1
        if rc is None:
            return None
        st["processes"] = st.get("processes", 0) + 1
        f = {}

        def say(cat, what):
            f.setdefault(cat, "hop %d%s%s%s from line %d: %s" % (hop, " with --cr" if cr else "", " with a trigger" if want else "", " resumed" if hop else "", pos, what))

        got = [l[1:].decode("latin1") for l in out.split(b"\n") if len(l) == 12 and l[:1] == b"#"]
        stopped = b"Execution stopped for checkpoint." in out
        exp = [l[0] for l in lines[pos:pos + len(got)]]
        to = pos + len(got)
        good = got == exp
        if not good:
            i = next((i for i, (a, b) in enumerate(zip(got, exp + [None] * len(got))) if a != b))
            say("outcome", "line %d is %s and should be %s (status %s, %s)" % (pos + i, got[i:i + 1], lines[pos + i][0] if pos + i < len(lines) else "the end", rc, cut(err)))
        elif stopped:
            if b"Result:" in out:
                say("outcome", "a stopped run prints a result")
        else:
            # it must have ended as it should
            if to != len(lines):
                say("outcome", "the run ends after line %d of %d: status %s, %s (standard error %s)" % (to, len(lines), rc, cut(out[-200:]), cut(err)))
            elif "result" in end and (rc != 0 or not out.endswith(b"\n" + end["result"].encode()) and out != end["result"].encode() or (b"Result:" in out) != bool(end["result"]) or out.count(b"Result:") > 1):
                say("outcome", "the run ends with status %s, %s (standard error %s), should print %s" % (rc, cut(out[-200:]), cut(err), end["result"]))
            elif "trap" in end and (b"Result:" in out or not err):
                say("outcome", "a trapping run ends with status %s, %s (standard error %s)" % (rc, cut(out[-200:]), cut(err)))
            elif "exit" in end and (rc != end["exit"] or b"Result:" in out):
                say("outcome", "the run ends with status %s and %s, should exit with %d" % (rc, cut(out[-200:]), end["exit"]))
        if good:
            # requests: (earliest moment they were certainly there, in operators)
            sure = [lines[pos][1]] if want and got else []
            sure += [at for a, at in asks if a >= pos and a + 1 < to]
            maybe = want or any(pos - 1 <= a < to for a, at in asks)
            if cr and sure:
                last = lines[to - 1][1] if stopped else total
                st["requests timed"] = st.get("requests timed", 0) + 1
                st["operators between request and stop, most"] = max(st.get("operators between request and stop, most", 0), last - sure[0])
                if last - sure[0] > POLL + SLACK:
                    say("prompt", "%d operators run after the request%s" % (last - sure[0], "" if stopped else " and the run ends without stopping"))
                    if hop:
                        say("again", f["prompt"])
            now = open(img, "rb").read() if os.path.exists(img) else None
            if stopped:
                if not cr:
                    say("silent", "it stops")
                elif not maybe:
                    say("silent", "it stops unasked")
                if os.path.exists(trig):
                    say("request", "the request is left behind")
                if now is None:
                    say("request", "there is no image")
            else:
                if now != old:
                    say("silent", "an image is written by a run that goes on")
                if not cr and os.path.exists(trig) != bool(want or any(pos <= a and a + 1 < to for a, at in asks)) and not any(a == pos - 1 for a, at in asks):
                    say("silent", "the trigger is %s afterwards" % ("there" if os.path.exists(trig) else "gone"))
            extras = set(os.listdir(scratch)) - {"case.wasm", "checkpoint.bin", "checkpoint.trigger", ".cache"}  # (wasmtime keeps a cache)
            if extras:
                say("request", "files are left behind: %s" % sorted(extras))
                say("silent", "files are left behind: %s" % sorted(extras))
        bad = [f[x] for x in cats if x in f]
        if bad or f:
            st["runs given up for another property"] = st.get("runs given up for another property", 0) + (not bad)
            return bad
        st["lines compared"] = st.get("lines compared", 0) + len(got)
        if not stopped:
            st["journeys finished"] = st.get("journeys finished", 0) + 1
            if hop:
                st["journeys finished after resuming"] = st.get("journeys finished after resuming", 0) + 1
            return []
        st["checkpoints taken"] = st.get("checkpoints taken", 0) + 1
        if not want:
            st["checkpoints the guest asked for"] = st.get("checkpoints the guest asked for", 0) + 1
        pos = to
        extra = ["--restore", "checkpoint.bin"]
        hop += 1
        if hop > hops + 60:
            return ["no progress: %d stops" % hop] if "outcome" in cats else []


def judge_long(c, outs):
    bad = []
    for v, (rc, out, err) in outs.items():
        if OVERFLOW in err:
            bad.append("%s: the interpreter exhausts the host stack" % v)
        elif rc not in (0, 1):
            bad.append("%s: the process ends with %s: %s" % (v, rc, cut(err)))
    if not bad and len(set((o[0], o[1]) for o in outs.values())) > 1:
        bad.append("the builds end differently: %s" % {v: (o[0], cut(o[1])) for v, o in outs.items()})
    return bad


def cli(cx, R, what, extra_ok=True):
    """what: {kind: (quick count, thorough count)}"""
    d = os.path.join(cx.dir, "cli")
    os.makedirs(d)
    t = 0 if cx.tier == "quick" else 1
    p = subprocess.run([R.binary("loop"), "cligen", d, str(cx.seed)] + ["%s=%d" % (k, n[t]) for k, n in what.items()], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
    if p.returncode:
        return {"_incon": ["case generation failed: %s" % p.stderr[-500:]]}
    cases = json.load(open(os.path.join(d, "cases.json")))
    try:
        inst = any("instr" in c for c in cases)
        cws = precompile(R, d, inst)
    except (subprocess.SubprocessError, OSError) as e:
        return {"_incon": ["wasmtime cannot compile the program: %s" % e]}
    st, inc = {}, []
    ref = [c for c in cases if c["kind"] == "refuse"]
    for i, c in enumerate(ref):
        c["other"] = os.path.join(d, "%d.wasm" % ref[(i + 1) % len(ref)]["id"])

    def one(c, att=0):
        """(findings or None for no answer, stats)"""
        s = {}
        bad = []
        outs = {}
        for v in INST if inst else VARIANTS:
            scratch = os.path.join(d, "s%d-%s-%d" % (c["id"], v, att))
            os.makedirs(scratch)
            shutil.copy(os.path.join(d, "%d.wasm" % c["id"]), os.path.join(scratch, "case.wasm"))
            try:
                if "instr" in c:
                    b = instr(cws[v], scratch, c, s)
                    if b is None:
                        return None, s
                    bad += ["%s: %s" % (v, x) for x in b]
                    continue
                if "journey" in c:
                    b = journey(cws, v, scratch, c, s, JOURNEY.get(cx.prop, ["outcome"]), cx.prop == "C28")
                    if b is None:
                        return None, s
                    bad += ["%s: %s" % (v, x) for x in b]
                    continue
                if "resume" in c:
                    b = resume(cws, v, scratch, c, s)
                    if b is None:
                        return None, s
                    bad += ["%s: %s" % (v, x) for x in b]
                    continue
                o = run(cws[v], scratch, c)
                s["processes"] = s.get("processes", 0) + 1
                if o[0] is None:
                    return None, s
                outs[v] = o
                if "expect" in c:
                    bad += ["%s: %s" % (v, x) for x in judge_expect(c["expect"], *o, s)]
                elif "deliver" in c:
                    bad += ["%s: %s" % (v, x) for x in judge_deliver(c, *o, s)]
            finally:
                shutil.rmtree(scratch, ignore_errors=True)
        if "long" in c:
            bad += judge_long(c, outs)
            if all(b"Result:" in o[1] for o in outs.values()):
                s["long runs that finish with a result"] = 1
            s["repetitions"] = s.get("repetitions", 0) + c["long"]["functions"] * c["long"]["times"]
        return bad, s

    fams, distinct, samples = {}, [], []
    ev = 0
    with ThreadPoolExecutor(8) as ex:
        for c, (bad, s) in zip(cases, ex.map(one, cases)):
            ev += 1
            f = fams.setdefault(c["kind"], [0, 0])
            f[0] += 1
            for a, b in s.items():
                st[a] = max(st.get(a, 0), b) if a.endswith("most") else st.get(a, 0) + b
            if bad is None:
                # once more, alone
                bad, _ = one(c, 1)
                if bad is None:
                    bad = ["the process does not end"]
            elif bad and len(cx.violations) < 5:
                b2, _ = one(c, 2)
                if not b2:
                    cx.notes.append("not reproduced: %s %d %s" % (c["kind"], c["id"], bad[0][:300]))
                    bad = []
            if bad and len(cx.violations) < 5:
                cf = os.path.join(d, "case-%d.json" % c["id"])
                json.dump(c, open(cf, "w"))
                cx.violation("%s %d: %s" % (c["kind"], c["id"], "; ".join(bad)[:2000]), {"case": {k: x for k, x in c.items() if len(str(x)) < 4000}},
                             [os.path.join(d, "%d.wasm" % c["id"]), cf])
            w = open(os.path.join(d, "%d.wasm" % c["id"]), "rb").read()
            distinct.append(int.from_bytes(hashlib.sha256(w + json.dumps([c["args"], c.get("env"), c.get("stdin"), c.get("file")]).encode()).digest()[:8], "little"))
            if f[0] == 1:
                samples.append("%s: %s" % (c["kind"], json.dumps({k: (x if len(str(x)) < 200 else str(x)[:200]) for k, x in c.items()})[:700]))
    return {"_incon": inc, "_merge": {"evals": ev, "nontrivial": ev, "planned": ev, "distinct": distinct, "samples": samples, "n": st, "fams": {k: x[0] for k, x in fams.items()}}}
