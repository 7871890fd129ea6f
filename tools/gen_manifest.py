#!/usr/bin/env python3
"""Writes MANIFEST.json: claimed checks and their techniques; everything else goes under not_applicable."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
INPUT = ("Bounded-exhaustive: every choice vector within the stated bounds is executed on the real code and compared with a "
         "reference model of the MQTT wire format written from the specification. Trusts the reference model (mc/ref) and the accessors "
         "used to observe packets (mc/obs); inputs beyond the bounds are not covered.")
HIST = ("Bounded-exhaustive: every operation history up to the stated depth over the stated operation alphabet is executed on the real "
        "packet and compared step by step with a reference state machine. Longer histories and other argument values are not covered.")
SCHED = ("Every interleaving of the stated small programs within the preemption bound is executed on the real code, instrumented from "
         "the current source (a scheduling point at every statement and shared access; sequentially consistent). Weak-memory effects and larger programs are not covered.")
T_IN = "explicit-state exploration of the real codec: exhaustive enumeration of packets, bytes and mutations against a reference model"
T_HI = "stateless model checking: exhaustive enumeration of operation histories on the real code against a reference state machine"
T_SC = "stateless model checking: exhaustive schedule exploration of the instrumented real code under a controlled scheduler"
C = {i: (T_IN, INPUT) for i in ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C13", "C14", "C15", "C17", "C19", "C25", "C26", "C27", "C29"]}
C.update({i: (T_HI, HIST) for i in ["C12", "C16", "C18", "C23", "C24"]})
C.update({i: (T_SC, SCHED) for i in ["C20", "C21", "C22"]})
COST = ("Bounded-exhaustive: every way of making a packet long and every false announcement within the stated bounds is executed on the real code, with "
        "statements counted by instrumentation of the current source and allocations by the runtime. Statements inside the standard library are not counted; the factors of proportionality are fixed, about eight times what the library needs.")
C["C28"] = ("explicit-state exploration of the real codec: exhaustive enumeration of packet shapes and sizes with counted statements and allocations", COST)
claimed = os.environ.get("CLAIM", "").split() or open(root + "/tools/claimed.txt").read().split()
m = {"version": 1, "setup_cmd": "./tools/setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in claimed:
        m["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick ./run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
                            "technique": C[i][0], "level": "model_checking", "level_note": C[i][1]})
    else:
        m["not_applicable"].append({"property": i, "reason": "no check yet (machinery under construction); the technique applies"})
m["notes"] = ("No hooks are committed in /repo: schedule exploration instruments the current source at build time through 'go build -overlay'. "
              "Repairs are the 'fix:' commits, listed in known_findings.txt.")
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
