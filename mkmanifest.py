#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks the harness has."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
PBT = "property-based testing (rapid: generated, shrunk, replayable cases) "
T = {
 "C01": PBT + "with exhaustive small payloads; reference encoder and round-trip",
 "C02": PBT + "and mutation of valid frames (every position and value); reference acceptance test",
 "C03": PBT + "over replies and fragmentations, on an in-memory line in virtual time; reference codec",
 "C04": PBT + "with injected line faults, in virtual time; two reference readers as oracle",
 "C05": PBT + "with injected line faults, in virtual time; ACK-prefix oracle",
 "C06": PBT + "and exhaustive arguments; reference encoding of each request",
 "C07": PBT + "and exhaustive byte positions; reference decoder",
 "C08": "stateful model-based testing (rapid histories) against a model unit",
 "C09": "generated concurrent schedules in virtual time; invariants over the line's history",
 "C10": "generated concurrent schedules in virtual time; search over all sequential orders",
 "C11": "stateful fault-injection testing (rapid histories) in virtual time",
 "C12": PBT + "with injected latencies and floods, in virtual time",
 "C13": "stateful fault-injection testing (rapid histories); goroutine count",
 "C14": PBT + "of unit states through the service in both encodings; reference decoder",
 "C15": "stateful model-based testing (rapid histories with line faults, virtual time) against a model of the caches",
 "C16": "stateful model-based testing (rapid histories, faults, concurrent flushes, virtual time) against a model unit",
 "C17": "stateful model-based testing (rapid histories with faults, virtual time); pure-function oracle per call",
 "C18": PBT + "over fan responses and faults, in virtual time; oracle over the fan reads the unit saw",
 "C19": "stateful model-based testing (rapid histories with faults, virtual time); pure-function oracle per call",
 "C20": "stateful model-based testing (rapid histories with faults, virtual time); pure-function oracle per call",
 "C21": "generated concurrent schedules in virtual time; linearizability search over all sequential orders",
 "C22": "stateful fault-injection testing (rapid histories of outages) in virtual time; invariants over the line's history",
 "C23": PBT + "over start-up faults, in virtual time; model of the caches",
 "C25": "property-based end-to-end testing (rapid) of the built program over loopback TCP and pseudo-terminals; reference unit and decoder",
 "C26": "structured fuzzing of HTTP requests (rapid) against the real handler; status-class oracle plus a valid call after each",
 "C27": "generated configuration matrix (rapid) over flags and environment of the built program; precedence-function oracle",
 "C28": "stateful property-based testing (Hypothesis) of the Python client against a recording service; reference expectation per call",
 "C29": "generated concurrent schedules over several connections in virtual time; per-unit request and value oracle, weak pointers",
 "C30": "generated schedules with contexts that end at random moments, in virtual time; model unit and pure-function oracle",
 "C31": "stateful fault-injection testing (rapid histories with a broken line) in virtual time; pure-function oracle, request pace invariant",
 "C32": PBT + "of client calls against a recording service; round-trip and error-mapping oracle",
 "C33": "generated schedules with a slow or silent unit, in virtual time; duration bound and model of the readings",
 "C35": "stateful property-based testing in virtual time of the exported cache objects: random histories and concurrent updates with faults, model of each object's value and age, oracle over the line's log",
 "C34": "stateful property-based end-to-end testing (Hypothesis histories) of Python client, built program and a model unit; reference outcome per call",
 "C24": "generated concurrent schedules under Go's race detector in virtual time; stamp invariant on replies",
}
L = {}
NOTE = ("Searches generated cases only; it does not prove the property. Trusts the reference unit and codec in "
        "harness/fu, rapid, and (where time matters) Go's faketime runtime, whose virtual clock makes every timing exact.")
N = {}
exec(open(os.path.join(V, "manifest_more.py")).read()) if os.path.exists(os.path.join(V, "manifest_more.py")) else None
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "./check build", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in T:
        m["checks"].append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
                            "evidence_file": f"evidence/{i}.json", "technique": T[i], "level": L.get(i, "exploration"),
                            "level_note": N.get(i, NOTE)})
    else:
        m["not_applicable"].append({"property": i, "reason": "check under construction"})
m["notes"] = "See DESIGN.md. `./check replay FILE` re-executes a saved case. Findings, all repaired, are in KNOWN_FINDINGS.txt."
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
