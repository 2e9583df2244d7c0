#!/usr/bin/env python3-vt
"""C34: the whole chain, Python client - built program - unit, by generated histories.

c34.py run TIER EVIDENCE REPLAYDIR | c34.py replay FILE       (COMFO_VERIF_BIN names the program)
"""
import sys
sys.dont_write_bytecode = True
import asyncio
import ctypes
import http.client
import json
import os
import signal
import socket
import subprocess
import tempfile
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import c28  # noqa: E402  (the interface's tables; installs the stand-ins of the protobuf and twirp packages)
import pyrun  # noqa: E402
import shims  # noqa: E402

# Read commands and the sizes of their answers.
SIZES = {0x0B: 6, 0x67: 13, 0xCD: 14, 0xD1: 9, 0xD9: 17, 0xDF: 7}
NAMES = {0x0B: "fans", 0x67: "boot", 0xCD: "prof", 0xD1: "temps", 0xD9: "errs", 0xDF: "bypass"}
CMDS = {v: k for k, v in NAMES.items()}
OUT, IN = (0, 1, 2, 10), (3, 4, 5, 11)  # positions of the percentages of the profiles 1-4


def reading(cmd, p):
    """The documented meaning of an answer, by the names of the interface."""
    if cmd == 0x0B:
        return {"InPercent": p[0], "OutPercent": p[1], "InSpeed": 1875000 // (p[2] << 8 | p[3]), "OutSpeed": 1875000 // (p[4] << 8 | p[5])}
    if cmd == 0x67:
        return {"MajorVersion": p[0], "MinorVersion": p[1], "BetaVersion": p[2], "DeviceName": bytes(p[3:]).decode().strip(" \t\n\v\f\r")}
    if cmd == 0xCD:
        r = {"InFanActive": p[9] == 1, "CurrentOut": p[6], "CurrentIn": p[7], "CurrentMode": p[8]}
        for i, n in enumerate(("Away", "Low", "Mid", "High")):
            r["Out" + n], r["In" + n] = p[OUT[i]], p[IN[i]]
        return r
    if cmd == 0xD1:
        return {n: float(p[i] // 2 - 20) for n, i in (("Comfort", 0), ("OutsideAir", 1), ("SupplyAir", 2), ("InsideAir", 3), ("ExhaustAir", 4),
                                                      ("GeoHeat", 6), ("Reheating", 7), ("KitchenHood", 8))}
    if cmd == 0xD9:
        return {"Filter": p[8] == 1}
    return {"Factor": p[2], "Level": p[3], "Correction": p[4], "SummerMode": p[6] == 1}


OF = {"BootInfo": 0x67, "Bypass": 0xDF, "Temps": 0xD1, "Fans": 0x0B, "FanProfiles": 0xCD, "Errors": 0xD9}


def frame(cmd, data):
    s = (cmd + len(data) + sum(data) + 173) & 255
    return b"\x07\xF0\x00" + bytes([cmd, len(data)]) + bytes(data).replace(b"\x07", b"\x07\x07") + bytes([s]) + b"\x07\x0F"


def parse(b):
    """Takes one thing off the received bytes: (its size, unescaped frame or None, complaint or None), or None if incomplete."""
    if len(b) < 2:
        return None
    if b[:2] == b"\x07\xF3":
        return 2, None, None
    if b[:2] != b"\x07\xF0":
        return 1, None, "byte %02x outside of a frame" % b[0]
    if len(b) < 5:
        return None
    f, i, left = bytearray(b[2:5]), 5, b[4]
    while left:
        if i >= len(b) or b[i] == 7 and i + 1 >= len(b):
            return None
        if b[i] == 7:
            i += 1
            if b[i] != 7:
                return i, None, "07%02x within a frame" % b[i]
        f.append(b[i])
        i += 1
        left -= 1
    if len(b) < i + 3:
        return None
    f.append(b[i])
    return i + 3, bytes(f), None if b[i + 1:i + 3] == b"\x07\x0F" else "no end of frame after %s" % f.hex()


class Unit:
    """The unit, on loopback TCP."""

    def __init__(self, state, cut, lag):
        self.lock = threading.Lock()
        self.state = {k: bytearray(v) for k, v in state.items()}
        self.sets = []
        self.bad = []
        self.cut, self.lag, self.wait, self.pend = cut, lag, 0, None
        self.srv = socket.create_server(("127.0.0.1", 0))
        self.addr = "127.0.0.1:%d" % self.srv.getsockname()[1]
        self.conns = []
        threading.Thread(target=self.accept, daemon=True).start()

    def accept(self):
        while True:
            try:
                c, _ = self.srv.accept()
            except OSError:
                return
            c.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            self.conns.append(c)
            threading.Thread(target=self.serve, args=(c,), daemon=True).start()

    def close(self):
        self.srv.close()
        for c in self.conns:
            try:
                c.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
            c.close()

    def serve(self, c):
        buf = bytearray()
        while True:
            try:
                b = c.recv(4096)
            except OSError:
                return
            if not b:
                return
            buf += b
            while True:
                r = parse(buf)
                if r is None:
                    break
                k, f, bad = r
                del buf[:k]
                if bad:
                    self.bad.append(bad)
                if f:
                    try:
                        self.request(c, f)
                    except OSError:
                        return

    def request(self, c, f):
        if len(f) < 4 or f[0] != 0 or f[2] != len(f) - 4 or f[-1] != (f[1] + f[2] + sum(f[3:-1]) + 173) & 255:
            self.bad.append("malformed request " + f.hex())
            return
        cmd, d = f[1], f[3:-1]
        out = b"\x07\xF3"
        with self.lock:
            if cmd in self.state and not d:
                if cmd == 0x0B and self.pend:
                    if self.wait <= 0:
                        self.state[0x0B][0:2] = bytes(self.pend)
                        self.pend = None
                    self.wait -= 1
                out += frame(cmd + 1, self.state[cmd])
            elif not apply(self.state, cmd, d):
                self.bad.append("unknown request " + f.hex())
                return
            else:
                self.sets.append((cmd, d))
                if cmd == 0x99 and d[0]:
                    p = self.state[0xCD]
                    self.pend, self.wait = (p[IN[d[0] - 1]], p[OUT[d[0] - 1]]), self.lag
        if not self.cut:
            c.sendall(out)
        while self.cut and out:
            c.sendall(out[:self.cut])
            out = out[self.cut:]
            time.sleep(0.0005)


def apply(s, cmd, d):
    """What a set request does to the unit (the fans apart)."""
    if cmd == 0x99 and len(d) == 1 and d[0] <= 4:
        s[0xCD][8] = d[0]
        if d[0]:
            s[0xCD][6], s[0xCD][7] = s[0xCD][OUT[d[0] - 1]], s[0xCD][IN[d[0] - 1]]
    elif cmd == 0xD3 and len(d) == 1:
        s[0xD1][0] = d[0]
    elif cmd == 0xCF and len(d) == 8:
        for i, j in enumerate((0, 1, 2, 3, 4, 5, 10, 11)):
            s[0xCD][j] = d[i]
    else:
        return False
    return True


def http_post(addr, path, ctype, body, timeout=60):
    h = http.client.HTTPConnection(addr, timeout=timeout)
    try:
        h.request("POST", path, body, {"Content-Type": ctype})
        r = h.getresponse()
        return r.status, r.read()
    finally:
        h.close()


def transport(address, url, body):
    """What the twirp package does: a POST; errors are JSON."""
    assert address.startswith("http://") and url.startswith("/"), (address, url)
    st, b = http_post(address[len("http://"):], url, "application/protobuf", body)
    if st != 200:
        try:
            e = json.loads(b)
        except ValueError:
            e = {"code": "unknown", "msg": "status %d: %r" % (st, b)}
        raise shims.TwirpServerException(code=e.get("code", "unknown"), message=e.get("msg", ""))
    return b


libc = ctypes.CDLL(None)


class Prog:
    def __init__(self, ip, unit):
        self.out = tempfile.TemporaryFile()
        env = {"PATH": os.environ.get("PATH", ""), "HOME": "/nonexistent"}
        self.p = subprocess.Popen([os.environ["COMFO_VERIF_BIN"], "--mode", "tcp", "--target", unit.addr, "--listen", ip + ":3094"], env=env,
                                  stdout=self.out, stderr=self.out, stdin=subprocess.DEVNULL,
                                  preexec_fn=lambda: libc.prctl(1, signal.SIGKILL))
        end = time.time() + 60
        while True:
            try:
                socket.create_connection((ip, 3094), 2).close()
                return
            except OSError:
                if self.p.poll() is not None or time.time() > end:
                    t = self.text()
                    self.stop()
                    if "address already in use" in t:
                        raise pyrun.Inconclusive("port 3094 is in use")
                    raise Failed("the program must serve on %s:3094, but does not: %s" % (ip, t))
            time.sleep(0.005)

    def text(self):
        self.out.seek(0)
        return self.out.read()[-3000:].decode("utf-8", "replace")

    def stop(self):
        self.p.kill()
        self.p.wait()
        self.out.close()


class Failed(Exception):
    pass


def expected(s, op):
    """The outcome of a call on a unit in state s, and the requests that change the unit: (kind, value, [requests])."""
    name, a = op["op"], op["a"]
    exc, _, _ = c28.wanted(op)
    if exc:
        return "exception", exc, []
    if name == "ping":
        return "value", True, []
    if name in c28.GET:
        cmd = OF[c28.GET[name][1]]
        return "object", (c28.GET[name][1], reading(cmd, s[cmd])), []
    if name == "set_comfort_temperature":
        if a[0] > 107:
            return "error", None, []
        if s[0xD1][0] // 2 - 20 == a[0]:
            return "value", False, []
        return "value", True, [(0xD3, bytes([(a[0] + 20) * 2]))]
    p = s[0xCD]
    if name == "configure_fan_profile":
        i = a[0] - 1
        if p[IN[i]] == a[1]:
            return "value", False, []
        n = bytearray(p)
        n[IN[i]] = n[OUT[i]] = a[1]
        return "value", True, [(0xCF, bytes(n[j] for j in (0, 1, 2, 3, 4, 5, 10, 11)))]
    if name == "set_fan_speed":
        t = a[0]
    else:
        t = p[8] + (1 if name == "increase_fan_speed" else -1)
        if not 1 <= t <= 4:
            return "value", False, []
    if t == p[8]:
        return "value", False, []
    return "value", True, [(0x99, bytes([t]))]


def compare(op, want, kind, value, d):
    k, w, _ = want
    d = "%s: %s(%s)" % (d, op["op"], ", ".join(map(repr, op["a"])))
    if k == "exception":
        if kind != "raise" or type(value).__name__ not in w.split("|") or type(value).__module__ != "comfo.exceptions":
            return "%s must raise %s, but: %s %r" % (d, w, kind, value)
    elif k == "error":
        if kind != "raise" or not isinstance(value, shims.TwirpServerException):
            return "%s must be refused by the service, but: %s %r" % (d, kind, value)
    elif kind != "return":
        return "%s raised %r\n%s" % (d, value, "".join(traceback.format_exception(value)))
    elif k == "value":
        if value is not w:
            return "%s returned %r, must return %r" % (d, value, w)
    else:
        if type(value).__name__ != w[0]:
            return "%s returned a %s, must be a %s" % (d, type(value).__name__, w[0])
        for n, x in w[1].items():
            if getattr(value, n, "missing") != x or type(getattr(value, n)) is not type(x):
                return "%s: field %s is %r, must be %r as the unit has it" % (d, n, getattr(value, n, "missing"), x)
    return None


def attempt(case):
    import comfo
    labels = set()
    shims.TwirpClient.transport = transport
    pid = os.getpid()
    ip = "127.%d.%d.%d" % (64 + (pid >> 16 & 0x3F), pid >> 8 & 255, 1 + (pid & 127))
    unit = Unit({CMDS[k]: bytes.fromhex(v) for k, v in case["unit"].items()}, case["cut"], case["lag"])
    prog = None
    loop = asyncio.new_event_loop()
    n = 0
    try:
        try:
            s = socket.create_server((ip, 3094))
            s.close()
        except OSError as e:
            raise pyrun.Inconclusive("port 3094 is in use") from e
        prog = Prog(ip, unit)
        clients = [comfo.Comfo(ip, loop), comfo.Comfo(ip, loop)]

        async def one(c, op):
            try:
                return "return", await getattr(c, "async_" + op["op"])(*op["a"])
            except Exception as e:  # noqa: BLE001
                return "raise", e

        async def together(ops):
            return await asyncio.gather(*[one(clients[i % 2], op) for i, op in enumerate(ops)])

        for i, st in enumerate(case["s"]):
            d = "step %d" % i
            if st["do"] == "restart":
                labels.add("restart")
                prog.stop()
                prog = Prog(ip, unit)
                continue
            if st["do"] == "unit":
                labels.add("unit changes")
                with unit.lock:
                    for k, v in st["set"].items():
                        unit.state[CMDS[k]] = bytearray.fromhex(v)
                        if k == "fans":
                            unit.pend = None
                if st["json"]:
                    r = http_post(ip + ":3094", "/twirp/comfo.api.Comfo/FlushCache", "application/json", b'{"Cache":"All"}')
                    ok = r[0] == 200 and (json.loads(r[1]).get("Success") or json.loads(r[1]).get("success"))
                else:
                    r = http_post(ip + ":3094", "/twirp/comfo.api.Comfo/FlushCache", "application/protobuf", b"\x08\x0a")
                    ok = r[0] == 200 and (1, 0, 1) in list(shims.fields(r[1]))
                if not ok:
                    return "%s: a flush of all failed with an answering unit: %r" % (d, r), labels, n
                continue
            with unit.lock:
                before = {k: bytearray(v) for k, v in unit.state.items()}
                sets = len(unit.sets)
            ops = st["ops"]
            n += len(ops)
            want = [expected(before, op) for op in ops]
            if st["do"] == "sync":
                ops, want = ops[:1], want[:1]
                try:
                    got = [("return", getattr(clients[i % 2], ops[0]["op"])(*ops[0]["a"]))]
                except Exception as e:  # noqa: BLE001
                    got = [("raise", e)]
            else:
                labels.add("concurrent" if len(ops) > 1 else "async")
                got = loop.run_until_complete(together(ops))
            reqs = []
            for op, w, (k, v) in zip(ops, want, got):
                t = compare(op, w, k, v, d)
                if t:
                    return t, labels, n
                reqs += w[2]
                labels.add("%s %s" % (op["op"], {"object": "", "exception": "refused"}.get(w[0], w[1])))
            with unit.lock:
                have = unit.sets[sets:]
                after = {k: bytearray(v) for k, v in unit.state.items()}
            if sorted(have) != sorted(reqs):
                return "%s: %s must send %s to the unit, sent %s" % (d, ops, reqs, have), labels, n
            s = {k: bytearray(v) for k, v in before.items()}
            for c, x in reqs:
                apply(s, c, x)
                if c == 0x99:
                    s[0x0B][0:2] = bytes((s[0xCD][IN[x[0] - 1]], s[0xCD][OUT[x[0] - 1]]))
            if s != after:
                return "%s: after %s the unit is in state %s, must be in %s" % (d, ops, after, s), labels, n
        # In the end every getter tells the unit's state.
        for g in sorted(c28.GET):
            op = {"op": g, "a": []}
            try:
                k, v = "return", getattr(clients[0], g)()
            except Exception as e:  # noqa: BLE001
                k, v = "raise", e
            t = compare(op, expected(unit.state, op), k, v, "in the end")
            if t:
                return t, labels, n
            n += 1
        if unit.bad:
            return "the unit was sent %s" % unit.bad[:3], labels, n
        if prog.p.poll() is not None:
            return "the program ended by itself: " + prog.text(), labels, n
        return None, labels, n
    except Failed as e:
        return str(e), labels, n
    finally:
        loop.run_until_complete(loop.shutdown_default_executor())
        loop.close()
        if prog:
            prog.stop()
        unit.close()


def execute(case):
    """A case is violated only if it is three times in a row: all of this takes place in real time."""
    t, labels, n = None, set(), 0
    for _ in range(3):
        try:
            t, l, k = attempt(case)
        except pyrun.Inconclusive as e:
            t, l, k = None, {"inconclusive: " + str(e)}, 0
            time.sleep(1)
            labels |= l
            continue
        except (OSError, http.client.HTTPException) as e:
            t, l, k = "".join(traceback.format_exception(e)), set(), 0
        labels |= l
        n += k
        if not t:
            return None, sorted(labels), n
        time.sleep(0.3)
    return t, sorted(labels), n


def strategy():
    from hypothesis import strategies as st
    byte = st.one_of(st.integers(0, 255), st.sampled_from([0, 1, 7, 15, 0xF0, 0xF3, 127, 128, 254, 255]))
    pct = st.one_of(st.integers(15, 100), st.sampled_from([7, 14, 15, 16, 50, 99, 100]), byte)

    def raw(*parts):
        return st.tuples(*parts).map(lambda t: bytes(t).hex())

    word = st.tuples(byte, byte).filter(lambda t: t != (0, 0))
    fans = st.tuples(pct, pct, word, word).map(lambda t: bytes((t[0], t[1]) + t[2] + t[3]).hex())
    name = st.one_of(st.sampled_from([b"CA350     ", b"CA550 \x07   ", b"          ", b"a\x07\x07\x0f0 c d "]),
                     st.lists(st.one_of(st.integers(33, 126), st.sampled_from([7, 32, 0])), min_size=10, max_size=10).map(bytes))
    boot = st.tuples(byte, byte, byte, name).map(lambda t: (bytes(t[:3]) + t[3]).hex())
    mode = st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(0, 5), byte)
    flag = st.one_of(st.sampled_from([0, 1]), byte)
    prof = raw(pct, pct, pct, pct, pct, pct, pct, pct, mode, flag, pct, pct, byte, byte)
    kinds = {"fans": fans, "boot": boot, "prof": prof, "temps": raw(*[byte] * 9), "errs": raw(*[byte] * 8, flag, *[byte] * 8),
             "bypass": raw(byte, byte, byte, byte, byte, byte, flag)}
    gets = st.sampled_from(sorted(c28.GET)).map(lambda g: {"op": g, "a": []})
    near = st.sampled_from([-1, 0, 5, 260, 14, 101, 256 + 50])
    comfort = st.one_of(st.integers(0, 107), st.integers(15, 25), st.sampled_from([0, 107, 108, 109, 128, 127, 235, 255, 256, -1, -256]))
    speed = st.one_of(st.integers(1, 4), st.integers(1, 4), st.integers(1, 4), near)
    percent = st.one_of(st.integers(15, 100), st.integers(15, 100), near)
    cop = st.builds(lambda t: {"op": "set_comfort_temperature", "a": [t]}, comfort)
    pop = st.builds(lambda m, v: {"op": "configure_fan_profile", "a": [m, v]}, speed, percent)
    sop = st.one_of(st.builds(lambda t: {"op": "set_fan_speed", "a": [t]}, speed),
                    st.sampled_from(["increase_fan_speed", "decrease_fan_speed"]).map(lambda o: {"op": o, "a": []}))
    sets = st.one_of(cop, pop, sop, sop)
    many = st.one_of(st.lists(gets, min_size=1, max_size=6), st.tuples(cop, st.one_of(pop, sop)).map(list), sets.map(lambda o: [o]))
    change = st.dictionaries(st.sampled_from(sorted(kinds)), st.none(), min_size=1, max_size=3).flatmap(
        lambda d: st.fixed_dictionaries({k: kinds[k] for k in sorted(d)}))
    step = st.one_of(
        sets.map(lambda o: {"do": "sync", "ops": [o]}), sets.map(lambda o: {"do": "sync", "ops": [o]}),
        sets.map(lambda o: {"do": "sync", "ops": [o]}), gets.map(lambda o: {"do": "sync", "ops": [o]}),
        many.map(lambda o: {"do": "async", "ops": o}),
        st.builds(lambda s, j: {"do": "unit", "set": s, "json": j}, change, st.booleans()))
    steps = st.tuples(st.lists(step, min_size=1, max_size=14), st.integers(0, 9), st.integers(0, 14)).map(
        lambda t: t[0][:t[2]] + [{"do": "restart"}] + t[0][t[2]:] if t[1] == 0 else t[0])
    return st.fixed_dictionaries({"unit": st.fixed_dictionaries(kinds), "cut": st.sampled_from([0, 0, 0, 1, 2, 3, 7]),
                                  "lag": st.sampled_from([0] * 9 + [1]), "s": steps})


def base():
    return {"fans": "3232" "03e8" "03e8", "boot": "030207" + b"CA350     ".hex(), "prof": "0f23320f23322323020146460000",
            "temps": "505a5b5c5d5e5f6061", "errs": "00" * 17, "bypass": "00000102030400"}


def fixed():
    """Enumerated: all temperatures, all percentages of each profile, all speeds from each; every byte of every answer."""
    out = []
    for lo in range(0, 256, 64):
        out.append({"unit": base(), "cut": 0, "lag": 0, "s": [{"do": "sync", "ops": [{"op": "set_comfort_temperature", "a": [t]}]} for t in range(lo, lo + 64)]})
    for p in range(1, 5):
        out.append({"unit": base(), "cut": 0, "lag": 0, "s": [{"do": "sync", "ops": [{"op": "configure_fan_profile", "a": [p, v]}]} for v in range(12, 104)]})
    ops = [{"op": "set_fan_speed", "a": [b]} for a in range(1, 5) for x in range(1, 5) for b in (a, x)]
    ops += [{"op": o, "a": []} for o in ["increase_fan_speed"] * 5 + ["decrease_fan_speed"] * 5]
    out.append({"unit": base(), "cut": 0, "lag": 0, "s": [{"do": "sync", "ops": [o]} for o in ops]})
    gets = [{"do": "async", "ops": [{"op": g, "a": []} for g in sorted(c28.GET)]}]
    for k, v in base().items():
        steps = []
        for i in range(len(v) // 2):
            if k == "boot" and i > 2:
                vals = "07", "5f"
            else:
                vals = "07", "80", "ff"
            for x in vals:
                steps.append({"do": "unit", "set": {k: v[:2 * i] + x + v[2 * i + 2:]}, "json": i % 2 == 0})
                steps += gets
        out.append({"unit": base(), "cut": 0, "lag": 0, "s": steps})
    return out


RULE = ("C34/chain: a fresh program per case on a loopback address, a model unit on TCP (own codec) in any state, histories of up to 14 steps: calls of all "
        "client methods on two clients, alone or concurrent, changes at the unit followed by a flush, a restart of the program. Oracle: the outcome of each "
        "call and the requests it must cause, computed from the unit's raw state; the unit's state after each step; all getters in the end. Violated only if "
        "three runs in a row are. Also: every temperature, every percentage of each profile, every change of speed, every byte of every answer. Non-trivial: all")

SPEC = {"prop": "C34", "check": "C34/chain", "rule": RULE, "fixed": fixed, "strategy": strategy, "execute": execute, "spread": 8,
        "budget": 120, "counts": {"quick": 2000, "thorough": 60000}}

if __name__ == "__main__":
    if "thorough" in sys.argv:
        SPEC["budget"] = 3000
    pyrun.main(SPEC)
