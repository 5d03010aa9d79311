#!/usr/bin/env python3
"""Decides one property:  check.py ID [--tier quick|thorough] | --replay FILE | --build-all

Builds the harnesses of the property from /repo's working tree, runs their exhaustive explorations, re-executes any
counterexample in a fresh process before reporting it, and writes evidence/ID.json."""
import argparse, concurrent.futures as cf, hashlib, json, os, re, subprocess, sys, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(V, "build")
INC = ["-I" + REPO, "-I" + V + "/mc", "-I" + V + "/harness", "-I" + V + "/seq"]
WORKERS = max(2, os.cpu_count() or 8)

# memory errors and the kinds of undefined behaviour that give wrong results or traps on some machine
UB = "alignment,signed-integer-overflow,shift,bool,enum,integer-divide-by-zero,bounds,return,unreachable"
SAN = ["-fsanitize=address," + UB, "-fno-sanitize-recover=" + UB]

# property -> list of runs (binary, arguments)
SCHED = "schedule exploration of the real code: every interleaving of the listed client programs (sleep-set reduction where unbounded)"
SEQ = "explicit-state exploration of the real code: every operation sequence to the stated depth from every listed initial state, against a reference model"
CHECKS = {
    "C01": ("sched", [("c01_simplequeue", []), ("c01_bools", [])]),
    "C02": ("sched", [("c02_bq", ["--tags", "1"]), ("c02_bools", ["--tags", "1"])]),
    "C03": ("sched", [("c02_bq", ["--tags", "2"]), ("c02_bools", ["--tags", "2"])]),
    "C04": ("sched", [("c04_bpq", ["--tags", "1"]), ("c04_bools", ["--tags", "1"])]),
    "C05": ("sched", [("c04_bpq", ["--tags", "2"]), ("c04_bools", ["--tags", "2"])]),
    "C06": ("sched", [("c06_airlock", [])]),
    "C07": ("sched", [("c07_workqueue", ["--tags", "1"])]),
    "C08": ("sched", [("c07_workqueue", ["--tags", "2"])]),
    "C09": ("sched", [(b, ["--tags", "8", "--races-only"]) for b in
                      ("c01_simplequeue", "c02_bq", "c04_bpq", "c06_airlock", "c07_workqueue", "c02_bools", "c04_bools")]),
}
SEQ_CHECKS = {}
try:
    exec(open(os.path.join(V, "seq", "checks.tbl")).read())
except FileNotFoundError:
    pass
CHECKS.update(SEQ_CHECKS)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


def die(msg, code=3):
    print("ERROR: " + msg)
    sys.exit(code)


def compile_obj(src, flags, tag):
    """compile with a cache keyed by the preprocessed text, so that any change in /repo or here is seen"""
    r = sh(["g++", "-std=c++17", "-E", "-P"] + flags + INC + [src])
    if r.returncode:
        die("preprocessing %s failed:\n%s" % (src, r.stderr[-4000:]))
    h = hashlib.sha256((r.stdout + " ".join(flags) + tag).encode()).hexdigest()[:24]
    # line numbers matter only for messages; key on the text alone
    obj = os.path.join(BUILD, "obj", "%s-%s.o" % (os.path.basename(src).split(".")[0], h))
    if not os.path.exists(obj):
        os.makedirs(os.path.dirname(obj), exist_ok=True)
        tmp = obj + ".%d.%d.tmp" % (os.getpid(), threading.get_ident())
        r = sh(["g++", "-std=c++17"] + flags + INC + ["-c", src, "-o", tmp])
        if r.returncode:
            die("compiling %s failed:\n%s" % (src, r.stderr[-6000:]))
        os.rename(tmp, obj)
    return obj, h


def build(kind, name):
    exe_dir = os.path.join(BUILD, "bin")
    os.makedirs(exe_dir, exist_ok=True)
    if kind == "sched":
        with cf.ThreadPoolExecutor(2) as ex:
            a = ex.submit(compile_obj, V + "/mc/sched.cpp", ["-O2", "-g"], "e")
            b = ex.submit(compile_obj, V + "/harness/%s.cpp" % name, ["-O1", "-g", "-fsanitize=thread"], "h")
            (eo, eh), (ho, hh) = a.result(), b.result()
        exe = os.path.join(exe_dir, "%s-%s%s" % (name, eh[:10], hh[:10]))
        if not os.path.exists(exe):
            tmp = exe + ".%d.%d" % (os.getpid(), threading.get_ident())
            r = sh(["g++", "-o", tmp, ho, eo, "-Wl,--wrap=memcpy,--wrap=memmove,--wrap=memset", "-rdynamic", "-lpthread"])
            if r.returncode:
                die("linking %s failed:\n%s" % (name, r.stderr[-4000:]))
            os.rename(tmp, exe)
        return exe
    o, h = compile_obj(V + "/seq/%s.cpp" % name, ["-O1", "-g", "-fno-omit-frame-pointer", "-fno-lifetime-dse"] + SAN, "s")
    exe = os.path.join(exe_dir, "%s-%s" % (name, h))
    if not os.path.exists(exe):
        tmp = exe + ".%d.%d" % (os.getpid(), threading.get_ident())
        r = sh(["g++", "-o", tmp, o, "-lpthread"] + SAN)
        if r.returncode:
            die("linking %s failed:\n%s" % (name, r.stderr[-4000:]))
        os.rename(tmp, exe)
    return exe


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0")


def run_replay(kind, exe, path, races_only):
    r = sh([exe, "--replay", path] + (["--races-only"] if races_only else []), env=ENV, timeout=300)
    out = r.stdout + r.stderr
    m = re.search(r"REPLAY-VIOLATION (.*)", out)
    return r.returncode, (m.group(1) if m else ""), out


def known(pid):
    out = []
    p = os.path.join(V, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) harness=(\S+) match=(\S+) (.*)", l)
            if m and m.group(1) == pid:
                out.append(m.groups())
    return out


def check(pid, tier):
    t0 = time.time()
    kind, runs = CHECKS[pid][0], [(r + (CHECKS[pid][0],))[:3] for r in CHECKS[pid][1]]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    with cf.ThreadPoolExecutor(8) as ex:
        exes = list(ex.map(lambda r: build(r[2], r[0]), runs))
    t_build = time.time() - t0
    budget = 700.0 if tier == "quick" else float(os.environ.get("VERIF_THOROUGH_SECONDS", "7200"))
    rows, viol = [], None
    rdir = os.path.join(V, "replays", pid)
    os.makedirs(rdir, exist_ok=True)
    for k, ((name, args, rkind), exe) in enumerate(zip(runs, exes)):
        rp = os.path.join(rdir, name + ".replay")
        if os.path.exists(rp):
            os.unlink(rp)
        # a harness may use half of the time that is left, the last one all of it
        left = max(10.0, (budget - (time.time() - t0)) / (1 if k == len(runs) - 1 else 2))
        cmd = [exe, "--tier", tier, "--workers", str(WORKERS), "--replay-out", rp, "--max-seconds", str(left)] + args
        try:
            r = sh(cmd, env=ENV, timeout=left + 180)
        except subprocess.TimeoutExpired:
            die("%s did not finish in time" % name)
        for l in r.stdout.splitlines():
            if l.startswith("{"):
                d = json.loads(l)
                d["harness"] = name
                d["engine"] = rkind
                rows.append(d)
        if r.returncode == 1:
            if not os.path.exists(rp):
                die("%s reported a violation without a replay file\n%s" % (name, r.stdout[-2000:] + r.stderr[-2000:]))
            text = open(rp).read()
            open(rp, "w").write("# %s %s %s\n" % (pid, rkind, " ".join([name] + args)) + text)
            rc, msg, out = run_replay(rkind, exe, rp, "--races-only" in args)
            if rc != 1:
                rc, msg, out = run_replay(rkind, exe, rp, "--races-only" in args)
            if rc != 1:
                die("the counterexample of %s did not reproduce (exit %d)\n%s" % (name, rc, out[-3000:]))
            viol = (rp, msg or rows[-1].get("message", ""), name)
            break
        if r.returncode != 0:
            die("%s failed (exit %d)\n%s" % (name, r.returncode, (r.stdout + r.stderr)[-4000:]))
    if not rows:
        die("nothing was explored")
    write_evidence(pid, kind, tier, seed, rows, viol, time.time() - t0, t_build)
    for k in known(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k[3]))
    for d in rows:
        if d["engine"] == "sched":
            print("%-18s %-28s %-22s programs=%-7d schedules=%-9d complete=%-9d histories=%-8d exhausted=%s %.1fs" % (
                d["harness"], d["scenario"], d["mode"] + ("(%d)" % d["pb"] if d["pb"] >= 0 else ""), d["programs"], d["schedules"],
                d["complete_runs"], d["distinct_histories"], d["exhausted"], d["wall"]))
        else:
            print("%-18s %-28s depth=%-3s inits=%-4s sequences=%-9d steps=%-10d states=%-9d exhausted=%s %.1fs" % (
                d["harness"], d["scenario"], d["depth"], d["inits"], d["sequences"], d["steps"], d["states"], d["exhausted"], d["wall"]))
    if viol:
        print("counterexample: " + viol[1])
        print("VIOLATION property=%s replay=%s" % (pid, viol[0]))
        return 1
    print("OK property=%s tier=%s wall=%.1fs" % (pid, tier, time.time() - t0))
    return 0


def write_evidence(pid, kind, tier, seed, rows, viol, wall, t_build):
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    srows, qrows = [d for d in rows if d["engine"] == "sched"], [d for d in rows if d["engine"] == "seq"]
    cov = {
        "states": sum(d["distinct_histories"] for d in srows) + sum(d["states"] for d in qrows),
        "transitions": sum(d["transitions"] for d in srows) + sum(d["steps"] for d in qrows),
        "traces_validated_against_impl": sum(d["complete_runs"] for d in srows) + sum(d["sequences"] for d in qrows),
        "exhaustive": all(d["exhausted"] for d in rows),
        "samples": [d for d in rows],
        "explanation": "",
    }
    assumptions = []
    if srows:
        cov.update({
            "schedules": sum(d["schedules"] for d in srows),
            "programs": sum(d["programs"] for d in srows),
            "explanation": SCHED + ". states = distinct call/return histories observed; transitions = scheduling steps executed; every trace is an execution "
                           "of the implementation itself (there is no separate model). ",
        })
        assumptions += ["sequentially consistent atomics (weaker orders are covered only through happens-before race detection)",
                       "bounds: threads, calls per thread and preemptions as listed per scenario",
                       "mutexes, condition variables, thread creation and the clock are the explorer's"]
    if qrows:
        cov["explanation"] += (SEQ + ". states = distinct (initial state, sequence) prefixes or, for the state search, distinct memory states; "
                               "every sequence is executed on the implementation itself.")
        assumptions += ["bounds: depth, alphabet and initial states as listed per scenario", "AddressSanitizer for memory errors"]
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": assumptions,
          "wall_s": round(wall, 2), "violations": 1 if viol else 0}
    if viol:
        ev["coverage"]["counterexample"] = viol[1]
    p = os.path.join(V, "evidence", pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(p + ".tmp", p)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--build-all", action="store_true")
    a = ap.parse_args()
    if a.build_all:
        todo = sorted({((r + (k,))[2], r[0]) for k, rs in CHECKS.values() for r in rs})
        with cf.ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda t: build(*t), todo))
        print("built %d harnesses" % len(todo))
        return 0
    if a.replay:
        head = open(a.replay).readline().split()
        pid, kind, name = head[1], head[2], head[3]
        rc, msg, out = run_replay(kind, build(kind, name), a.replay, "--races-only" in head)
        print(out)
        return rc
    if a.id not in CHECKS:
        die("unknown property %s" % a.id, 2)
    return check(a.id, a.tier)


sys.exit(main())
