#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the check table of check.py."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.argv = ["check.py"]
src = open(V + "/check.py").read().replace("sys.exit(main())", "")
ns = {"__file__": V + "/check.py", "__name__": "x"}
exec(compile(src, "check.py", "exec"), ns)
C = ns["CHECKS"]
NOTE = {
 "sched": ("Exhaustive within bounds: every interleaving (sequentially consistent scheduling points at every mutex, condition variable, atomic and thread "
           "operation of the real header compiled with -fsanitize=thread instrumentation against our own runtime) of every client program in the listed families; "
           "wake-ups, spurious wake-ups and timeouts are scheduler choices. Some larger families are preemption-bounded, as printed. Trusts the explorer (mc/sched.cpp), "
           "the compiler's instrumentation and the sequential specification in the harness."),
 "seq": ("Exhaustive within bounds: every operation sequence of the alphabet up to the printed depth from every initial layout, executed on the real header under "
         "AddressSanitizer and compared after each step with a reference model. Trusts the reference model and the explorer (seq/seq.hpp); values outside the alphabet and "
         "longer histories than the depth from the chosen initial states are not covered."),
}
TECH = {"sched": "stateless model checking of the implementation (controlled scheduler, sleep sets / preemption bound, linearizability oracle)",
        "seq": "explicit-state exploration of the implementation (all operation sequences to a depth / all reachable states, reference-model oracle)"}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in C:
        k = C[i][0]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": TECH[k], "level": "model_checking", "level_note": NOTE[k]})
    else:
        na.append({"property": i, "reason": "no check built yet (work in progress)"})
m = {"version": 1, "setup_cmd": "g++ --version >/dev/null && python3 --version >/dev/null && mkdir -p build evidence replays", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
