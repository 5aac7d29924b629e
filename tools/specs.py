"""What each property's check builds and runs."""
import os

BOTH = [("loop", 0, 4), ("tco", 1, 4)]
NB = ["loop", "tco"]
GEN = ("A case is a generated WebAssembly module with a list of calls, run by the real interpreter and by an independent reference "
       "interpreter of the specification; results, traps, final memory, globals, tables and the host call log are compared. ")


def plain(rule, **k):
    return dict({"builds": NB, "plan": BOTH, "rule": GEN + rule}, **k)


SPECS = {
    "C01": plain("Non-trivial: executes at least one instruction; sweep cases pack 40 (instruction, operand forms, consumer) combinations."),
    "C02": plain("Non-trivial: executes at least one instruction. Cases whose outcome depends on NaN bits the specification leaves open are discarded."),
    "C03": plain("Non-trivial: executes at least one instruction."),
    "C04": plain("Non-trivial: executes a branch, if, loop or return."),
    "C05": plain("Non-trivial: executes a call."),
    "C06": plain("Non-trivial: executes a load, store or bulk memory instruction."),
    "C07": plain("Non-trivial: executes a load, store or bulk memory instruction."),
    "C08": plain("Non-trivial: executes memory.grow or memory.size."),
    "C09": plain("Non-trivial: executes global.get or global.set."),
    "C10": plain("Non-trivial: executes a table, reference or call_indirect instruction."),
    "C11": plain("Non-trivial: executes at least one instruction."),
    "C14": plain("One checkpoint per run, at every instruction boundary of short runs and sampled ones of longer runs; the image is restored into a freshly parsed and instantiated module. Non-trivial: (program, checkpoint position)."),
    "C15": plain("Chains of up to 40 checkpoints per run. Non-trivial: (program, positions)."),
    "C17": plain("Programs that mutate tables, move references and drop segments before the checkpoint. Non-trivial: executes such an instruction; (program, position)."),
    "C12": plain("Non-trivial: executes at least one instruction."),
}

SPECS["C16"] = plain("Programs that count their own instructions in memory are asked to checkpoint through the trigger file at random moments (before the start, from inside a host call, after a restore); the number of guest instructions until the image exists is measured. Non-trivial: executes at least one instruction.")
SPECS["C18"] = plain("Each program runs with checkpointing enabled and no request, and disabled with a trigger file present; directory listings are compared. Non-trivial: executes at least one instruction.")


def cross(cx, R):
    """images of each build are resumed in the other"""
    dl, dt = os.path.join(cx.dir, "imgL"), os.path.join(cx.dir, "imgT")
    os.makedirs(dl)
    os.makedirs(dt)
    cap = 250 if cx.tier == "quick" else 1800
    inc = R.run_workers(cx, cx.prop, [("loop", 0, 4, {"VH_XDIR": dl, "VH_PHASE": "write"}), ("tco", 1, 4, {"VH_XDIR": dt, "VH_PHASE": "write"})], cap)
    w = len(os.listdir(dl)) + len(os.listdir(dt))
    same = diff = 0
    for f in sorted(os.listdir(dl)):
        if f.endswith(".img") and os.path.exists(os.path.join(dt, f)):
            a = open(os.path.join(dl, f), "rb").read()
            b = open(os.path.join(dt, f), "rb").read()
            if a == b:
                same += 1
            else:
                diff += 1
    if not cx.violations:
        inc += R.run_workers(cx, cx.prop, [("loop", 0, 4, {"VH_XDIR": dt, "VH_PHASE": "read"}), ("tco", 1, 4, {"VH_XDIR": dl, "VH_PHASE": "read"})], cap)
    return {"image_files": w, "byte_identical_images": same, "images_that_differ": diff, "_incon": inc}


SPECS["C28"] = {"builds": NB, "custom": cross, "rule": GEN + "Images written by the loop build are resumed by the tail-call build and the other way round. Non-trivial: executes at least one instruction."}

SPECS["C21"] = plain("Every supported WASI function with valid arguments through wrappers of several operand shapes, directly and through a table; the stand-in host records names, scalars, input bytes and capacities and fills outputs; import declarations with right and wrong signatures. Non-trivial: the module, or the import declaration.")
SPECS["C22"] = {"builds": NB + ["asan"], "plan": [("loop", 0, 3), ("tco", 1, 2), ("asan", 2, 3)], "rule": GEN + "WASI calls whose pointers, lengths and counts reach outside the memory, wrap or are huge; the stand-in host touches every byte it is offered, also under AddressSanitizer. Non-trivial: the module."}

def twins(cx, R):
    """every case leaves a digest in both builds; they must agree"""
    import subprocess, json
    ds = {}
    for r in cx.reports:
        d = ds.setdefault(r["variant"], {})
        for f, i, h in r.get("digests") or []:
            d[(f, i)] = h
    a, b = ds.get("loop", {}), ds.get("tco", {})
    both = [k for k in a if k in b]
    diff = [k for k in both if a[k] != b[k]]
    for f, i in diff[:8]:
        got = {}
        for v in ("loop", "tco"):
            out = os.path.join(cx.dir, "twin-%s.json" % v)
            subprocess.run([R.binary(v), "check", "--prop", cx.prop, "--seed", str(cx.seed), "--tier", cx.tier, "--out", out, "--dir", os.path.join(cx.dir, "cwd-twin"),
                            "--only", "%s:%d" % (f, i), "--digests"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, stdin=subprocess.DEVNULL, timeout=300)
            try:
                got[v] = json.load(open(out))["digests"]
            except OSError:
                got[v] = "no outcome"
        if got["loop"] != got["tco"]:
            cx.violation("%s:%d: the two builds end differently (digests %s and %s)" % (f, i, got["loop"], got["tco"]), {"family": f, "idx": i},
                         [out + ".case.wasm", out + ".case.txt"])
        else:
            cx.notes.append("not reproduced: %s:%d" % (f, i))
    return {"digests_compared": len(both), "digests_that_differ": len(diff)}


SPECS["C20"] = {"builds": NB, "plan": BOTH, "extra": ["--digests"], "custom": twins,
                "rule": GEN + "The same cases run in both builds, each compared with the reference; digests of outcomes, trap kinds, memory, globals, tables, host log and of whether a checkpoint at a chosen poll happened must agree; long integer programs (many calls on one instance) are compared between the builds only. Non-trivial: executes at least one instruction."}

SPECS["C13"] = plain("Modules with every kind of section content: table and memory limits, global initialisers, active, passive, declared and overlapping segments at edge offsets, start functions, exports of every kind; the state right after instantiation, the export list and what probes see are compared; unsatisfied imports. Non-trivial: the module.")
SPECS["C25"] = {"builds": NB + ["asan"], "plan": [("loop", 0, 3), ("tco", 1, 3), ("asan", 2, 2)], "rule": "A case is a byte string: a generated valid module after byte, section or instruction level mutation, every truncation of a module, or a hand-written module using one feature. The wasmparser validator (restricted to the supported features) and the list of implemented instructions say whether it must be refused or accepted; accepted ones also run against the reference interpreter. Non-trivial: the byte string."}

SPECS["C26"] = {"builds": ["loop-inst", "tco-inst"], "plan": [("loop-inst", 0, 4), ("tco-inst", 1, 4)], "rule": GEN + "Builds with statistics and tracing compiled in, under random event and resource selections: the same comparison, equal numbers of checkpoint polls and identical images with and without instrumentation; the trace file of every call (also across checkpoints) against the operators the reference executes, with locals and globals; statistics against the trace. Non-trivial: executes at least one instruction."}

SPECS["C29"] = plain("Several instances linked through function imports (two instances of one module, chains, re-exported imports, imports called directly and through tables), calls on all of them interleaved; every instance's state is compared; imports that are missing or differ in type must be refused. Non-trivial: the modules and calls.")


def miri(cx, R):
    """prepared cases under Miri, both dispatchers"""
    import subprocess, json, re, time
    quick = cx.tier == "quick"
    secs = 60 if quick else 1500
    n = 400 if quick else 8000
    inc, tot, ops, ncases = [], {}, set(), 0
    stats = {}
    procs = []
    for v, seed, parts in (("miri", cx.seed * 2, 5), ("miri-tco", cx.seed * 2 + 1, 3)):
        d = os.path.join(cx.dir, "pre-" + v)
        os.makedirs(d)
        subprocess.run([R.binary("loop"), "pregen", d, str(seed), str(n), str(parts)], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, check=True)
        for k in range(parts):
            w = os.path.join(d, "cwd%d" % k)
            os.makedirs(w)
            procs.append([v, d, k, w, 0, None, time.time() + secs])

    def start(p):
        cmd, env = R.miri(p[0], ["rerun", p[3], os.path.join(p[1], "%d.bin" % p[2]), str(max(1, int(p[6] - time.time()))), str(p[4])])
        p[5] = subprocess.Popen(cmd, cwd=R.HARNESS, env=env, stdout=open(os.path.join(p[3], "out"), "wb"), stderr=open(os.path.join(p[3], "err"), "wb"), stdin=subprocess.DEVNULL)

    for p in procs:
        start(p)
    live = list(procs)
    while live:
        p = live.pop(0)
        try:
            rc = p[5].wait(timeout=secs + 400)
        except subprocess.TimeoutExpired:
            p[5].kill()
            p[5].wait()
            inc.append("Miri did not end on %s %d" % (p[0], p[2]))
            continue
        out = open(os.path.join(p[3], "out")).read()
        err = open(os.path.join(p[3], "err"), errors="replace").read()
        at = re.findall(r"^case (\d+)$", err, re.M)
        last = int(at[-1]) if at else p[4]
        cases = json.load(open(os.path.join(p[1], "%d.json" % p[2])))
        for i in range(p[4], min(last + 1, len(cases)) if at else p[4]):
            ops.update(cases[i]["ops"])
            ncases += 1
        stats[p[0]] = stats.get(p[0], 0) + (last + 1 - p[4] if at else 0)
        for m in re.findall(r'"(calls|checkpoints|traps)": (\d+)', out):
            tot[m[0]] = tot.get(m[0], 0) + int(m[1])
        if rc == 0:
            continue
        m = re.search(r"^error: (.*)$", err, re.M)
        what = m.group(1) if m else "ended with %s" % rc
        j = err.find("error:")
        detail = err[j:j + 4000]
        # the border between the runtime and the stand-in host is the harness's business
        if "calling a function" in what and "host.rs" in detail or what.startswith("unsupported operation") or what.startswith("memory exhausted") or not m or not at:
            cx.notes.append("Miri skipped %s %d case %d: %s" % (p[0], p[2], last, what[:200]))
            if at and time.time() < p[6] and len([x for x in cx.notes if x.startswith("Miri skipped")]) < 40:
                p[4] = last + 1
                if p[4] < len(cases):
                    start(p)
                    live.append(p)
            elif not at:
                inc.append("Miri did not start: %s" % err[-600:])
            continue
        fr = [x.strip() for x in re.findall(r"^\s+\d+: (.*)$", detail, re.M)][:6]
        wf = os.path.join(cx.dir, "miri-case.wasm")
        with open(wf, "wb") as f:
            f.write(bytes(cases[last]["wasm"]))
        cx.violation("Miri (%s build): %s | %s" % ("tail-call" if p[0] == "miri-tco" else "loop", what, " < ".join(fr)),
                     {"case": {k: cases[last][k] for k in ("calls", "host", "polls")}, "detail": detail}, [wf])
    return {"miri_cases": ncases, "miri_cases_by_build": stats, "miri_distinct_operators": len(ops), "miri_observed": tot, "_incon": inc}


SPECS["C27"] = {"builds": ["loop", "asan", "miri", "miri-tco"], "plan": [("asan", 0, 8)], "custom": miri,
                "rule": "The cases of 22 other properties, chosen at random, in a build with AddressSanitizer and the library's unsafe-precondition checks (out-of-range unchecked indexing, unreachable_unchecked, invalid raw slices and copies); only memory errors count here, not wrong results. Prepared small cases covering the operators, with checkpoints, under Miri in both dispatchers. Non-trivial: as in the property a case is taken from."}


def cliuse(**what):
    import cli
    return lambda cx, R: cli.cli(cx, R, what)


WASM = ["loop", "wasm-tco", "wasm-loop"]
SPECS["C23"] = {"builds": NB + ["wasm-tco", "wasm-loop"], "plan": BOTH, "custom": cliuse(args=(900, 12000)),
                "rule": "Native: generated guests fetch argument and environment lists of generated sizes into generated places, from a stand-in host; the whole memory is compared. "
                        "Process: the built chiwawa.wasm runs under wasmtime with generated --app-args and environments; the guest dumps its whole memory and every byte is judged. Non-trivial: every case."}
SPECS["C24"] = {"builds": WASM, "custom": cliuse(program=(600, 6000), call=(900, 9000), streams=(400, 4000), stdin=(60, 600), which=(400, 3000), misfit=(400, 3000), file=(150, 1500), resume=(150, 1500), large=(54, 900)),
                "rule": "A case is a module, a command line, standard input and environment for the built chiwawa.wasm under wasmtime, run in both builds; standard output, standard error and exit status "
                        "are compared with what the reference interpreter and the generator say. Non-trivial: every case (each starts the real process)."}
SPECS["C19"] = plain("A genuine image is damaged (truncation, bit flips, overwrites, deletions, extension, other module) and offered to a fresh instance. The built chiwawa.wasm is offered missing, empty, cut, altered, random and foreign files with --restore: error status, a message, no result. Non-trivial: (image bytes, damage).")
SPECS["C19"].update(builds=NB + ["wasm-tco", "wasm-loop"], custom=cliuse(refuse=(120, 2500)))
SPECS["C30"] = {"builds": WASM, "custom": cliuse(repeat=(110, 1500), loops=(120, 2500), longprog=(60, 1000), recursion=(60, 800), endless=(4, 40)),
                "rule": "The built chiwawa.wasm (both dispatchers) under wasmtime with its 512 KiB native stack limit runs loops of 20,000 to 200,000 iterations around every kind of instruction in every operand form, calls, branches, "
                        "host calls and long random programs; recursion to 300,000 frames against closed forms; endless recursion under a memory limit. A stack overflow of the interpreter, a crash, or builds that disagree violate. "
                        "Non-trivial: every case."}



def then(a, b):
    def f(cx, R):
        x = a(cx, R)
        if cx.violations:
            return x
        y = b(cx, R)
        y["_incon"] = x.pop("_incon", []) + y.get("_incon", [])
        return dict(x, **y)
    return f


SPECS["C26"]["builds"] = ["loop", "loop-inst", "tco-inst", "wasm-tco-inst", "wasm-loop-inst"]
SPECS["C26"]["custom"] = cliuse(instr=(120, 2500))
SPECS["C26"]["rule"] += " The built chiwawa.wasm with statistics and tracing compiled in runs generated programs under wasmtime with --stats, --trace, --trace-events, --trace-resource and --trace-output: same output and status, and the trace (file or standard error) lists what the reference executes."

# the two builds as programs
SPECS["C28"]["builds"] = NB + ["wasm-tco", "wasm-loop"]
SPECS["C28"]["custom"] = then(cross, cliuse(**{"resume": (150, 2000), "large-resume": (36, 600)}))
SPECS["C28"]["rule"] += " The built chiwawa.wasm of both kinds takes turns at stopping and resuming one run under wasmtime."
SPECS["C20"]["builds"] = NB + ["wasm-tco", "wasm-loop"]
SPECS["C20"]["custom"] = then(twins, cliuse(program=(300, 4000), loops=(60, 1000), large=(36, 600)))
SPECS["C20"]["rule"] += " The built chiwawa.wasm of both kinds runs generated programs under wasmtime and must print the same."

# whole processes, stopped and resumed
J = (" The built chiwawa.wasm of both kinds runs guests that print a numbered trail of their state, is stopped by trigger files (present at the start, or created by the guest) and resumed in new processes until it ends: ")
for p, kinds, t in (
        ("C14", dict(journey=(60, 2000)), "every line and the end must be the reference's."),
        ("C15", dict(journey=(60, 2000)), "every line and the end must be the reference's, and a resumed process must stop again when asked."),
        ("C16", dict(journey=(150, 4000)), "the operators the reference executes between the request and the stop are bounded, the request is consumed, an image exists and nothing else is left behind."),
        ("C17", {"journey-refs": (80, 2500)}, "every line and the end must be the reference's, in guests that keep moving references and using and dropping segments."),
        ("C18", dict(journey=(150, 4000)), "without --cr or without a request the process never stops, writes no file and leaves the trigger alone.")):
    SPECS[p]["builds"] = NB + ["wasm-tco", "wasm-loop"]
    SPECS[p]["custom"] = cliuse(**kinds)
    SPECS[p]["rule"] += J + t
SPECS["C20"]["custom"] = then(twins, cliuse(program=(300, 4000), loops=(60, 1000), large=(36, 600), journey=(60, 1500)))
SPECS["C20"]["rule"] += " It is also stopped and resumed, with the reference's output in each."
SPECS["C28"]["custom"] = then(cross, cliuse(**{"resume": (150, 2000), "large-resume": (36, 600), "journey": (60, 1500)}))
SPECS["C08"]["builds"] = NB + ["wasm-tco", "wasm-loop"]
SPECS["C08"]["custom"] = cliuse(growth=(120, 3000))
SPECS["C08"]["rule"] += " Processes: guests that grow by up to 2^32-1 pages while the host limits memory to 60 to 300 MB under wasmtime; a grow happens completely or fails without effect, and the guest goes on."
SPECS["C24"]["custom"] = cliuse(program=(600, 6000), call=(900, 9000), streams=(400, 4000), stdin=(60, 600), which=(400, 3000), misfit=(400, 3000), file=(150, 1500), resume=(150, 1500), large=(54, 900), journey=(120, 2000))

NOTE = ("Exploration: holds on the executions observed. Trusts the reference interpreter in harness/src/refi.rs, the wasmparser decoder and "
        "validator, and that native builds of the runtime with stand-in WASI host functions behave as the wasm32 build.")
NOT_YET = {}
