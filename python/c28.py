#!/usr/bin/env python3-vt
"""C28: the Python client, by generated histories of calls against a scripted service.

c28.py run TIER EVIDENCE REPLAYDIR | c28.py replay FILE
"""
import sys
sys.dont_write_bytecode = True
import asyncio
import os
import struct
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import pyrun  # noqa: E402
import shims  # noqa: E402

shims.install()
REPO = os.environ.get("COMFO_VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(REPO, "python"))

# The interface as documented (comfo.proto): own tables. u uint32, b bool, s string, f float
MSG = {
    "BootInfo": [("MajorVersion", "u"), ("MinorVersion", "u"), ("BetaVersion", "u"), ("DeviceName", "s")],
    "Bypass": [("Factor", "u"), ("Level", "u"), ("Correction", "u"), ("SummerMode", "b")],
    "Errors": [("Filter", "b")],
    "Fans": [("InPercent", "u"), ("OutPercent", "u"), ("InSpeed", "u"), ("OutSpeed", "u")],
    "Temps": [(n, "f") for n in ("Comfort", "OutsideAir", "SupplyAir", "InsideAir", "ExhaustAir", "GeoHeat", "Reheating", "KitchenHood")],
    "FanProfiles": [("OutAway", "u"), ("OutLow", "u"), ("OutMid", "u"), ("OutHigh", "u"), ("InFanActive", "b"), ("InAway", "u"), ("InLow", "u"),
                    ("InMid", "u"), ("InHigh", "u"), ("CurrentOut", "u"), ("CurrentIn", "u"), ("CurrentMode", "u")],
    "Modified": [("Modified", "b"), ("Original", "u"), ("Target", "u"), ("ReqTime", "s")],
}
GET = {"get_bootinfo": ("GetBootInfo", "BootInfo"), "get_bypass": ("GetBypass", "Bypass"), "get_temps": ("GetTemps", "Temps"),
       "get_fans": ("GetFans", "Fans"), "get_fan_profiles": ("GetFanProfiles", "FanProfiles"), "get_errors": ("GetErrors", "Errors"),
       "ping": ("GetBootInfo", "BootInfo")}
SET = {"set_fan_speed": "SetFanSpeed", "increase_fan_speed": "SetFanSpeed", "decrease_fan_speed": "SetFanSpeed",
       "set_comfort_temperature": "SetComfortTemp", "configure_fan_profile": "SetFanProfile"}
CODES = ["canceled", "unknown", "invalid_argument", "deadline_exceeded", "not_found", "bad_route", "permission_denied", "unauthenticated",
         "resource_exhausted", "failed_precondition", "aborted", "out_of_range", "unimplemented", "internal", "unavailable", "malformed"]


def f32(v):
    return struct.unpack("<f", struct.pack("<f", v))[0]


def encode(msg, vals):
    """Encodes a reply."""
    out = b""
    for i, (n, k) in enumerate(MSG[msg], 1):
        v = vals[n]
        if k == "f":
            if v:
                out += shims.enc(i << 3 | 5) + struct.pack("<f", v)
        elif k == "s":
            if v:
                out += shims.enc(i << 3 | 2) + shims.enc(len(v.encode())) + v.encode()
        elif v:
            out += shims.enc(i << 3) + shims.enc(int(v))
    return out


def wanted(op):
    """What a call must do: (exception name or None, service method, request fields)."""
    a, name = op["a"], op["op"]
    if name in GET:
        return None, GET[name][0], {}
    if name == "set_fan_speed":
        if not 1 <= a[0] <= 4:
            return "InvalidFanSpeed", None, None
        return None, "SetFanSpeed", {1: a[0]}
    if name == "increase_fan_speed":
        return None, "SetFanSpeed", {2: 1}
    if name == "decrease_fan_speed":
        return None, "SetFanSpeed", {}
    if name == "set_comfort_temperature":
        if a[0] is None or not 0 <= a[0] <= 255:
            return "InvalidTemperature", None, None
        return None, "SetComfortTemp", {1: a[0]} if a[0] else {}
    bad = []
    if not 1 <= a[0] <= 4:
        bad.append("InvalidFanSpeed")
    if not 15 <= a[1] <= 100:
        bad.append("InvalidDutyPercent")
    if bad:
        return "|".join(bad), None, None
    return None, "SetFanProfile", {1: a[0], 2: a[1]}


class Service:
    """The scripted service: records requests, answers by thread-local script."""

    def __init__(self):
        self.lock = threading.Lock()
        self.log = []
        self.replies = {}  # method -> list of (want fields, reply op)

    def __call__(self, address, url, body):
        body = dict((n, v) for n, _, v in shims.fields(body))
        body = {k: v for k, v in body.items() if v not in (0, b"")}
        method = url.rsplit("/", 1)[-1]
        with self.lock:
            self.log.append((address, url, body))
            op = None
            for x in self.replies.get(method, []):
                if wanted(x)[2] == body:
                    op = x
                    break
            if op is None and self.replies.get(method):
                op = self.replies[method][0]
            if op is None:
                raise shims.TwirpServerException(code="bad_route", message="no such call is under way: " + url)
            self.replies[method].remove(op)
        if op.get("ms"):
            time.sleep(op["ms"] / 1000)
        if op.get("err"):
            raise shims.TwirpServerException(code=op["err"], message="scripted")
        return encode(GET[op["op"]][1] if op["op"] in GET else "Modified", op["r"])


def judge(op, kind, value):
    """Compares a call's outcome with what it must be; gives a text if it is wrong."""
    exc, _, _ = wanted(op)
    d = "%s(%s) answered with %s" % (op["op"], ", ".join(map(repr, op["a"])), op.get("err") or op.get("r"))
    if exc:
        if kind != "raise" or type(value).__name__ not in exc.split("|") or type(value).__module__ != "comfo.exceptions":
            return "%s: must raise %s, but: %s %r" % (d, exc, kind, value)
        return None
    if op.get("err"):
        if op["err"] == "invalid_argument" and op["op"] in ("increase_fan_speed", "decrease_fan_speed"):
            if kind != "return" or value is not False:
                return "%s: must return False, but: %s %r" % (d, kind, value)
            return None
        if kind != "raise" or not isinstance(value, shims.TwirpServerException) or value.code.value != op["err"]:
            return "%s: must propagate the error, but: %s %r" % (d, kind, value)
        return None
    if kind != "return":
        return "%s: raised %r\n%s" % (d, value, "".join(traceback.format_exception(value)))
    if op["op"] == "ping":
        return None if value is True else "%s: returned %r" % (d, value)
    if op["op"] in SET:
        if value is not op["r"]["Modified"] and value != op["r"]["Modified"]:
            return "%s: returned %r" % (d, value)
        return None
    name = GET[op["op"]][1]
    if type(value).__name__ != name:
        return "%s: returned a %s" % (d, type(value).__name__)
    for n, k in MSG[name]:
        got = getattr(value, n, "missing")
        w = op["r"][n]
        if k == "f":
            w = f32(w)
        if type(got) is not type(w) or got != w:
            return "%s: field %s is %r, must be %r" % (d, n, got, w)
    return None


def execute(case):
    """Runs a case; returns (violation or None, labels, evaluations)."""
    import comfo
    labels = set()
    svc = Service()
    shims.TwirpClient.transport = svc
    viol = []

    def expect(ops, start):
        want = [wanted(o) for o in ops]
        got = svc.log[start:]
        reqs = sorted(("http://%s:3094" % case["host"], "/twirp/comfo.api.Comfo/" + m, sorted(f.items())) for e, m, f in want if e is None)
        have = sorted((a, u, sorted(b.items())) for a, u, b in got)
        if reqs != have and not viol:
            viol.append("calls %s: must send exactly %s, sent %s" % ([(o["op"], o["a"]) for o in ops], reqs, have))

    def note(op, kind, value):
        t = judge(op, kind, value)
        if t and not viol:
            viol.append(t)
        exc, _, _ = wanted(op)
        labels.add("refused" if exc else "error" if op.get("err") else "setter" if op["op"] in SET else "getter")

    def ready(ops):
        svc.replies = {}
        for o in ops:
            e, m, _ = wanted(o)
            if e is None:
                svc.replies.setdefault(m, []).append(o)

    def sync(c, op):
        ready([op])
        n = len(svc.log)
        try:
            r = ("return", getattr(c, op["op"])(*op["a"]))
        except Exception as e:  # noqa: BLE001
            r = ("raise", e)
        note(op, *r)
        expect([op], n)

    async def one(c, op):
        try:
            r = ("return", await asyncio.wait_for(getattr(c, "async_" + op["op"])(*op["a"]), 60))
        except Exception as e:  # noqa: BLE001
            r = ("raise", e)
        return op, r

    async def steps(c):
        for step in case["s"]:
            if viol:
                return
            if step["how"] == "sync":
                for op in step["ops"]:
                    sync(c, op)
            else:  # all at once
                ready(step["ops"])
                n = len(svc.log)
                labels.add("async")
                if len(step["ops"]) > 1:
                    labels.add("concurrent")
                rs = await asyncio.gather(*[one(c, op) for op in step["ops"]])
                # Getters with one method may get each other's replies; they are made equal by the generator.
                for op, r in rs:
                    note(op, *r)
                expect(step["ops"], n)

    loop = asyncio.new_event_loop()
    try:
        if case["loop"] == "inside":
            async def main():
                await steps(comfo.Comfo(case["host"]))
            loop.run_until_complete(main())
        elif case["loop"] == "given inside":
            async def main2():
                await steps(comfo.Comfo(case["host"], loop=loop))
            loop.run_until_complete(main2())
        else:  # made outside of any running loop
            c = comfo.Comfo(case["host"], loop)
            loop.run_until_complete(steps(c))
    except Exception as e:  # noqa: BLE001
        viol.append("".join(traceback.format_exception(e)))
    finally:
        loop.run_until_complete(loop.shutdown_default_executor())
        loop.close()
    n = sum(len(s["ops"]) for s in case["s"])
    return (viol[0] if viol else None), sorted(labels), n


def strategy():
    from hypothesis import strategies as st
    u32 = st.one_of(st.integers(0, 255), st.integers(0, 2**32 - 1))
    kinds = {"u": u32, "b": st.booleans(), "f": st.one_of(st.integers(-20, 107).map(float), st.floats(width=32, allow_nan=False)),
             "s": st.one_of(st.text(max_size=12).filter(lambda s: all(not 0xD800 <= ord(c) < 0xE000 for c in s)), st.just("CA350"))}

    def reply(msg):
        return st.fixed_dictionaries({n: kinds[k] for n, k in MSG[msg]})

    edge = st.sampled_from([-1, 0, 1, 4, 5, 14, 15, 100, 101, 255, 256, 257, 260, 271, 2**31, 2**32 + 2, -255, -2**40])

    def ints(lo, hi):
        return st.one_of(st.integers(lo, hi), st.integers(lo, hi), edge, st.integers(-2**40, 2**40), st.integers(lo, hi).map(lambda v: v + 256))

    args = {"set_fan_speed": st.tuples(ints(1, 4)), "increase_fan_speed": st.just(()), "decrease_fan_speed": st.just(()),
            "set_comfort_temperature": st.tuples(st.one_of(ints(0, 255), st.none())),
            "configure_fan_profile": st.tuples(ints(1, 4), ints(15, 100))}
    err = st.one_of(st.none(), st.none(), st.none(), st.sampled_from(CODES), st.just("invalid_argument"))

    @st.composite
    def op(draw):
        name = draw(st.sampled_from(sorted(GET) + sorted(SET) * 2))
        o = {"op": name, "a": list(draw(args.get(name, st.just(())))), "r": draw(reply(GET[name][1] if name in GET else "Modified"))}
        e = draw(err)
        if e:
            o["err"] = e
        return o

    @st.composite
    def group(draw):
        """Concurrent calls: equal requests get equal replies, since nobody can tell them apart."""
        ops = draw(st.lists(op(), min_size=1, max_size=6))
        seen = {}
        for o in ops:
            e, m, f = wanted(o)
            if e is None:
                k = (m, tuple(sorted(f.items())))
                if k in seen:
                    o["r"] = seen[k]["r"]
                    o.pop("err", None)
                    if seen[k].get("err"):
                        o["err"] = seen[k]["err"]
                else:
                    seen[k] = o
                o["ms"] = draw(st.sampled_from([0, 0, 0, 1, 2]))
        return ops

    step = st.one_of(st.fixed_dictionaries({"how": st.just("sync"), "ops": st.lists(op(), min_size=1, max_size=4)}),
                     st.fixed_dictionaries({"how": st.just("async"), "ops": group()}))
    return st.fixed_dictionaries({
        "host": st.sampled_from(["localhost", "127.0.0.1", "comfo.example", "10.1.2.3"]),
        "loop": st.sampled_from(["inside", "given inside", "outside"]),
        "s": st.lists(step, min_size=1, max_size=5)})


RULE = ("C28/client: histories of sync and (concurrent) async calls of all client methods, on clients made inside or outside of a running loop; "
        "arguments valid, at the bounds, aliased modulo 256 or any; replies with any field values and all Twirp error codes. Oracle: own tables of the "
        "interface (requests by field number, replies decoded by the client's own descriptors). Also: every speed, profile, percentage and temperature "
        "from -300 to 600, each getter with each field set alone. Non-trivial: all")


def fixed():
    """Enumerated cases."""
    def mod(v):
        return {"Modified": v % 2 == 0, "Original": v % 7, "Target": 9, "ReqTime": "1ms"}
    out = []
    for lo in range(-300, 600, 50):
        ops = []
        for v in range(lo, lo + 50):
            ops.append({"op": "set_fan_speed", "a": [v], "r": mod(v)})
            ops.append({"op": "set_comfort_temperature", "a": [v], "r": mod(v)})
            ops.append({"op": "configure_fan_profile", "a": [v, 50], "r": mod(v)})
            for p in range(1, 5):
                ops.append({"op": "configure_fan_profile", "a": [p, v], "r": mod(v)})
        out.append({"host": "h", "loop": "inside", "s": [{"how": "sync", "ops": ops}]})
    ops = []
    for g, (_, m) in GET.items():
        for n, k in MSG[m]:
            for v in {"u": [1, 255, 2**32 - 1], "b": [True], "s": ["x", "é"], "f": [-20.0, 21.0, 0.5]}[k]:
                r = {x: {"u": 0, "b": False, "s": "", "f": 0.0}[y] for x, y in MSG[m]}
                r[n] = v
                ops.append({"op": g, "a": [], "r": r})
    for c in CODES:
        for name in ("increase_fan_speed", "decrease_fan_speed", "get_temps"):
            r = mod(0) if name in SET else {x: 0.0 for x, _ in MSG["Temps"]}
            ops.append({"op": name, "a": [], "r": r, "err": c})
    out.append({"host": "h", "loop": "inside", "s": [{"how": "sync", "ops": ops}]})
    out += [{"host": "h", "loop": l, "s": [{"how": "async", "ops": [o]} for o in ops]} for l in ("inside", "outside", "given inside")]
    return out


SPEC = {"prop": "C28", "check": "C28/client", "rule": RULE, "fixed": fixed, "strategy": strategy, "execute": execute, "spread": 1,
        "budget": 800, "counts": {"quick": 2400, "thorough": 60000}}

if __name__ == "__main__":
    pyrun.main(SPEC)
