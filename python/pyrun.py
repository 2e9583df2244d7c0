"""Runs a property's cases: enumerated ones, then those of a Hypothesis strategy, in parallel processes."""
import hashlib
import json
import multiprocessing
import os
import queue
import sys
import time
import traceback


class Inconclusive(Exception):
    """The case could not be decided."""


def shard(q, spec, idx, count, seed_):
    res = {"cases": 0, "evals": 0, "labels": {}, "hashes": [], "samples": [], "viol": None, "case": None, "err": None}
    t0 = time.time()
    try:
        from hypothesis import HealthCheck, Phase, given, seed, settings

        def account(case, labels, ev):
            res["cases"] += 1
            res["evals"] += ev
            for l in labels:
                res["labels"][l] = res["labels"].get(l, 0) + 1
            b = json.dumps(case, sort_keys=True)
            res["hashes"].append(hashlib.sha256(b.encode()).hexdigest()[:16])
            if len(res["samples"]) < 2 and 300 < len(b) < 3000:
                res["samples"].append({"check": spec["check"], "case": case, "labels": labels})

        for i, case in enumerate(spec["fixed"]()):
            if i % spec["spread"] != idx % spec["spread"] or idx >= spec["spread"]:
                continue
            v, labels, ev = spec["execute"](case)
            account(case, labels, ev)
            if v:
                res["viol"], res["case"] = v, case
                break
        if not res["viol"]:
            done, stop = [False], [0.0]

            @seed(seed_ * 1000 + idx)
            @settings(max_examples=count, database=None, deadline=None, print_blob=False, report_multiple_bugs=False,
                      suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.target, Phase.shrink])
            @given(spec["strategy"]())
            def test(case):
                if time.time() - t0 > spec["budget"] and not done[0] or done[0] and time.time() > stop[0]:
                    return  # out of time
                v, labels, ev = spec["execute"](case)
                if not done[0]:
                    account(case, labels, ev)
                if v:
                    if not done[0]:
                        done[0], stop[0] = True, time.time() + 60
                    if not res["viol"] or len(json.dumps(case)) <= len(json.dumps(res["case"])):
                        res["viol"], res["case"] = v, case
                    raise AssertionError("violation")
            try:
                test()
            except BaseException:
                if not res["viol"]:
                    raise
    except BaseException:  # noqa: BLE001
        res["err"] = traceback.format_exc()
    res["wall"] = time.time() - t0
    q.put(res)


def run(spec, tier, evidence, replays):
    t0 = time.time()
    try:
        sd = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        sd = 1
    prop = spec["prop"]
    total = spec["counts"].get(tier, spec["counts"]["quick"])
    n = 8
    ctx = multiprocessing.get_context("fork")
    q = ctx.Queue()
    ps = [ctx.Process(target=shard, args=(q, spec, i, max(1, total // n), sd), daemon=True) for i in range(n)]
    for p in ps:
        p.start()
    rs = []
    while len(rs) < n:
        try:
            rs.append(q.get(timeout=5))
        except queue.Empty:
            if not any(p.is_alive() for p in ps):
                break
        if rs and rs[-1]["viol"] and len(rs) < n:
            # The others are not waited for when one has found and shrunk a violation.
            end = time.time() + 5
            while len(rs) < n and time.time() < end:
                try:
                    rs.append(q.get(timeout=1))
                except queue.Empty:
                    pass
            for p in ps:
                p.terminate()
            break
    for p in ps:
        p.join(10)
    hashes, labels, samples = set(), {}, []
    cases = evals = 0
    viol = None
    errs = ["a process ended without a result"] if len(rs) < n else []
    for r in rs:
        cases += r["cases"]
        evals += r["evals"]
        hashes |= set(r["hashes"])
        for k, v in r["labels"].items():
            labels[k] = labels.get(k, 0) + v
        samples += r["samples"]
        if r["viol"] and (viol is None or len(json.dumps(r["case"])) < len(json.dumps(viol["case"]))):
            viol = r
        if r["err"]:
            errs.append(r["err"])
    per = {"cases": cases, "evaluations": evals, "distinct_nontrivial": len(hashes), "labels": labels,
           "longest_shard_s": max([r["wall"] for r in rs] or [0]), "mode": "python"}
    ev = {"property": prop, "tier": tier, "seed": sd, "level": "exploration",
          "coverage": {"evaluations": evals, "distinct_nontrivial": len(hashes), "rule": spec["rule"], "samples": samples[:3],
                       "per_check": {spec["check"]: per}},
          "wall_s": time.time() - t0, "violations": 1 if viol else 0}
    with open(evidence, "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %.1fs" % (prop, tier, sd, evals, len(hashes), time.time() - t0))
    print("  " + spec["check"], json.dumps(per))
    if viol:
        b = json.dumps({"check": spec["check"], "violation": viol["viol"], "case": viol["case"]}, indent=1)
        path = os.path.join(replays, "%s-%s.json" % (spec["check"].replace("/", "-"), hashlib.sha256(b.encode()).hexdigest()[:12]))
        with open(path, "w") as f:
            f.write(b + "\n")
        print("violated: %s\ncase: %s" % (viol["viol"], json.dumps(viol["case"])))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errs:
        print(errs[0], file=sys.stderr)
        return 2
    return 0


def replay(spec, path):
    with open(path) as f:
        rp = json.load(f)
    v, labels, _ = spec["execute"](rp["case"])
    print(v, labels)
    if v:
        print("VIOLATION property=%s replay=%s" % (spec["prop"], path))
        return 1
    return 0


def main(spec):
    sys.exit(run(spec, *sys.argv[2:5]) if sys.argv[1] == "run" else replay(spec, sys.argv[2]))
