#!/usr/bin/env python3
"""C21: the real console program on a simulated event loop, terminal and network."""

import asyncio
import builtins
import importlib.util
import io
import json
import os
import random
import re
import signal
import sys
import types

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import check  # noqa: E402
from check import Conn, SEC, encode, le, make_control, make_data  # noqa: E402
from simloop import SimEnd, SimHang, SimLoop  # noqa: E402

check.PROP = "C21"
PYDIR = os.environ.get("VERIF_PICA_PY", "/repo/py/pica")
SLACK = 50_000
FILES = "/simulated/"
CUT = 1024


# ---------------------------------------------------------------- stubs
class Web:
    """Stands for the requests module: records, answers at once."""

    def __init__(self):
        self.run = None

    def module(self):
        m = types.ModuleType("requests")

        class RequestException(IOError):
            pass

        class ConnectionError_(RequestException):
            pass

        m.RequestException, m.ConnectionError = RequestException, ConnectionError_
        ex = types.ModuleType("requests.exceptions")
        ex.RequestException, ex.ConnectionError = RequestException, ConnectionError_
        m.exceptions = ex
        m.request = self.request
        for k in ("get", "post", "put", "delete"):
            setattr(m, k, lambda url, *a, k=k, **kw: self.request(k, url, *a, **kw))
        sys.modules["requests"] = m
        sys.modules["requests.exceptions"] = ex
        self.error = ConnectionError_

    def request(self, method, url, data=None, json=None, **kw):
        import json as J

        run = self.run
        body = json if json is not None else (J.loads(data) if data else None)
        run.event("http", [method.upper(), url, body])
        f = run.line.get("web") if run.line else None
        if f == "error":
            run.loop.fault("http_refused")
            raise self.error("Connection refused")

        class R:
            status_code = 500 if f == "bad" else 200
            ok = f != "bad"
            text = "" if f != "bad" else "oops"
            content = text.encode()

            def json(self):
                if f == "bad":
                    raise ValueError("no JSON")
                return {"devices": []}

            def raise_for_status(self):
                pass

        if f == "bad":
            run.loop.fault("http_bad_answer")
        return R()


WEB = Web()
RL = types.ModuleType("readline")
RL.get_line_buffer = lambda: ""
for _k in ("parse_and_bind", "set_completer", "set_completer_delims", "redisplay", "insert_text", "read_history_file", "write_history_file", "set_history_length"):
    setattr(RL, _k, lambda *a: None)
_module = None


def console():
    global _module
    if _module is None:
        WEB.module()
        sys.modules["readline"] = RL
        spec = importlib.util.spec_from_file_location("pica_console", os.path.join(PYDIR, "console.py"))
        _module = importlib.util.module_from_spec(spec)
        sys.modules["pica_console"] = _module
        spec.loader.exec_module(_module)
    return _module


class ConLoop(SimLoop):
    """Work given to the executor runs in the loop, when the user has typed."""

    run = None

    def run_in_executor(self, executor, func, *args):
        run = self.run
        fut = self.create_future()

        def go():
            if fut.done():
                return
            run.in_thread = True
            try:
                r = func(*args)
            except NoMoreInput:
                # the thread goes on waiting for a line
                run.asked += 1
                run.waiting = True
            except BaseException as e:  # noqa: B036
                fut.set_exception(e)
            else:
                fut.set_result(r)
            finally:
                run.in_thread = False

        inner = getattr(func, "args", ())
        if func is builtins.input or builtins.input in args or builtins.input in inner or run.next < len(run.plan["lines"]):
            run.prompted(go)
        else:
            self.call_soon(go)
        return fut


class NoMoreInput(BaseException):
    """The person types nothing more."""


class Out(io.TextIOBase):
    def __init__(self, run):
        self.run = run

    def write(self, s):
        self.run.printed(s)
        return len(s)

    def flush(self):
        pass


# ---------------------------------------------------------------- lines
def ctl(gid, oid, p):
    return bytes([0x20 | gid, oid, 0, len(p)]) + p


def content(n, k):
    return bytes((i * 131 + (i >> 8) * 7 + k) & 255 for i in range(n))


def messages(session, dst, b):
    """The file as data messages of at most 1024 bytes, the last one complete."""
    out = b""
    parts = [b[i:i + CUT] for i in range(0, len(b), CUT)] or [b""]
    for i, part in enumerate(parts):
        p = le(session, 4) + bytes(reversed(dst)) + bytes(8 - len(dst)) + le(i % 65535, 2) + le(len(part), 2) + part
        out += bytes([1 | (0x10 if i + 1 < len(parts) else 0), 0]) + le(len(p), 2) + p
    return out


def mac(r, n):
    return [r.randrange(256) for _ in range(n)]


def text(m):
    return ":".join("%02x" % b for b in m)


def params(r, spec):
    """Parameters by name or by position; a missing one has its default."""
    named = r.randrange(100) < 70
    out = []
    vals = {}
    keys = list(spec)
    if not named:
        keys = keys[: r.randrange(len(keys) + 1)]
    else:
        keys = [k for k in keys if r.randrange(100) < 80]
        if r.randrange(100) < 30:
            r.shuffle(keys)
    for k in keys:
        t, v = spec[k][1]
        out.append(f"{k}={t}" if named else t)
        vals[k] = v
    for k in spec:
        vals.setdefault(k, spec[k][0])
    if named and r.randrange(100) < 6:
        out.append("unknown=1")
    return (" " + (" " * r.randrange(2))).join(out), vals


def make_line(r):
    sid = r.choice([0, 1, 7, 255, 256, 0x01020304, 2**32 - 1])
    S = dict(session_id=(0, (str(sid), sid)))
    kind = r.randrange(24)
    line = {}
    uci = b""

    def simple(name, gid, oid, pre=b"", post=b"", p=True):
        ps, v = params(r, S if p else {})
        return name + (" " + ps if ps else ""), ctl(gid, oid, pre + (le(v["session_id"], 4) if p else b"") + post)

    if kind == 0:
        line["text"], uci = simple("device_reset", 0, 0, b"\0", p=False)
    elif kind == 1:
        line["text"], uci = simple("get_device_info", 0, 2, p=False)
    elif kind == 2:
        line["text"], uci = simple("get_caps_info", 0, 3, p=False)
    elif kind == 3:
        b = r.randrange(256)
        ps, v = params(r, dict(low_power_mode=(0, (str(b), b))))
        line["text"], uci = f"set_config {ps}".strip(), ctl(0, 4, bytes([1, 1, 1, v["low_power_mode"]]))
    elif kind == 4:
        line["text"], uci = simple("get_config", 0, 5, b"\2\1\0", p=False)
    elif kind == 5:
        line["text"], uci = simple("session_init", 1, 0, post=b"\1")
    elif kind == 6:
        line["text"], uci = simple("session_deinit", 1, 1)
    elif kind in (7, 8):
        iv = r.choice([0, 1, 200, 65535, 65536, 2**32 - 1])
        ext = r.randrange(100) < 30
        ms = [mac(r, 8 if ext and r.randrange(4) else 2) for _ in range(r.choice([0, 1, 1, 2, 5, 25]))]
        wide = any(len(m) > 2 for m in ms)
        n = 8 if wide else 2
        enc = b"".join(bytes(m) + bytes(n - len(m)) for m in ms)
        ps, v = params(r, dict(session_id=(0, (str(sid), sid)), ranging_interval=(200, (str(iv), iv)),
                               dst_mac_addresses=((b"", 0, False), (",".join(map(text, ms)), (enc, len(ms), wide)))))
        e, c, w = v["dst_mac_addresses"]
        p = le(v["session_id"], 4) + bytes([4, 0x26, 1, 2 if w else 0, 9, 4]) + le(v["ranging_interval"], 4) + bytes([5, 1, c, 7, len(e)]) + e
        line["text"], uci = f"session_set_app_config {ps}".strip(), ctl(1, 3, p)
    elif kind == 9:
        line["text"], uci = simple("session_get_app_config", 1, 4, post=b"\1\x09")
    elif kind == 10:
        line["text"], uci = simple("session_get_count", 1, 5, p=False)
    elif kind == 11:
        line["text"], uci = simple("session_get_state", 1, 6)
    elif kind in (12, 13):
        a, act = r.choice([("add", 0), ("remove", 1)])
        m, sub = r.randrange(65536), r.choice([0, 5, 2**32 - 1])
        ps, v = params(r, dict(session_id=(0, (str(sid), sid)), action=(0, (a, act)), mac_address=(0, (str(m), m)),
                               subsession_id=(0, (str(sub), sub))))
        p = le(v["session_id"], 4) + bytes([v["action"], 1]) + le(v["mac_address"], 2) + le(v["subsession_id"], 4)
        line["text"], uci = f"session_update_controller_multicast_list {ps}".strip(), ctl(1, 7, p)
    elif kind == 14:
        line["text"], uci = simple("range_start", 2, 0)
    elif kind == 15:
        line["text"], uci = simple("range_stop", 2, 1)
    elif kind == 16:
        line["text"], uci = simple("get_ranging_count", 2, 3)
    elif kind in (17, 18, 19):
        n = r.choice([0, 1, 500, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 5000, 30000])
        if r.randrange(100) < 2:
            n = r.choice([262_144, 270_000, 300_001])
        k = r.randrange(256)
        dst = mac(r, r.choice([2, 2, 8]))
        name = f"{FILES}{n}.{k}"
        f = r.randrange(100)
        uci = messages(0, dst, content(n, k))
        t = f"data_transfer {text(dst)} {name}"
        if r.randrange(100) < 70:
            uci = messages(sid, dst, content(n, k))
            t += r.choice([f" session_id={sid}", f" {sid}"])
        if f < 8:
            t, uci = t.replace(FILES, FILES + "none/"), b""
            line["bad"] = True
        elif f < 14:
            line["file"] = "eio"
            uci = b""
            line["bad"] = True
        line["text"] = t
    elif kind in (20, 21, 22):
        c = r.choice(["init_uci_device", "create_anchor", "set_position", "set_position", "destroy_anchor", "get_state"])
        path = c.replace("_", "-") if c != "init_uci_device" else "init-uci-device"
        m = text(mac(r, r.choice([2, 8])))
        if c == "get_state":
            line["text"], line["http"] = "pica_get_state", ["GET", "/get-state", None]
        elif c == "destroy_anchor":
            ps, v = params(r, dict(mac_address=("00:00", (m, m))))
            line["text"], line["http"] = f"pica_destroy_anchor {ps}".strip(), ["POST", f"/destroy-anchor/{v['mac_address']}", None]
        else:
            spec = dict(mac_address=("00:00", (m, m)))
            for k in ("x", "y", "z", "yaw", "pitch", "roll"):
                x = r.choice([0, 1, -1, r.randrange(-32768, 32768)])
                spec[k] = (0, (str(x), x))
            ps, v = params(r, spec)
            a = v.pop("mac_address")
            line["text"], line["http"] = f"pica_{c} {ps}".strip(), ["POST", f"/{path}/{a}", v]
        if r.randrange(100) < 20:
            line["web"] = r.choice(["error", "bad"])
    else:
        line["bad"] = True
        line["text"] = r.choice([
            "", "help", "session_inti 1", "Range_start", "session_init session_id=x", "range_start x1",
            "session_init 1 2 3", "session_deinit session_id=1=2", "range_start session_id=", "set_config low_power_mode=256",
            "session_update_controller_multicast_list action=move", "session_update_controller_multicast_list mac_address=01:02",
            "session_set_app_config dst_mac_addresses=zz:01", "session_set_app_config ranging_interval=fast", "data_transfer",
            "data_transfer 00:01", "data_transfer 00:zz /simulated/10.1", "pica_set_position x=up", "pica_create_anchor y=1.5",
            "session_set_app_config session_id=1 ranging_interval=4294967296",
            "session_set_app_config dst_mac_addresses=" + ",".join("%02x:00" % i for i in range(140)),
        ])
    line["uci"] = uci.hex()
    line["kind"] = line["text"].split(" ")[0] if not line.get("bad") else "invalid"
    return line


def gen(seed):
    r = random.Random(seed)
    plan = dict(seed=seed, loop_seed=r.randrange(2**32), io_percent=r.choice([0, 10, 50, 100]))
    plan["refuse"] = r.randrange(60) == 0
    plan["latency"] = r.choice([0, 50, 2000])
    span = r.choice([2_000, 2_000, 50_000, 50_000, 500_000, 500_000, 3 * SEC, 3 * SEC, 300 * SEC])
    seg = r.randrange(5)
    plan["seg"] = [["whole", 0, 0], ["fixed", r.choice([1, 2, 3, 4, 5, 7]), r.choice([0, 1, 30, 700])],
                   ["rand", r.choice([4, 16, 300, 3000]), r.choice([0, 20, 5000])],
                   ["coalesce", r.choice([40, 1000, 100000]), r.choice([500, 5000, 200000])],
                   ["head", r.choice([1, 2, 3, 4]), r.choice([0, 100, 40000])]][seg]
    acts = []
    t = r.choice([0, 500, 5000])
    burst = r.randrange(100) < 30
    for k in range(1, 1 + r.choice([0, 1, 3, 8, 20, 60, 150])):
        m = make_data(r, k, 20) if r.randrange(100) < 5 else make_control(r, k)
        if m[0] and r.randrange(100) < 8:
            # a known message that cannot be decoded
            m[3] = r.randbytes(r.choice([0, 1, 3, 9, 40])).hex()
        if not burst or r.randrange(100) < 20:
            t += r.randrange(max(1, span // 8))
        a = dict(do="msg", at=t, m=m)
        if r.randrange(100) < 25:
            a["frag"] = r.choice([1, 2, 7, 50, 254, 255])
            if len(m[3]) // 2 > 800 and a["frag"] < 50:
                del a["frag"]
        if r.randrange(100) < 20:
            a["after_rx"] = r.randrange(1, 6)
        acts.append(a)
    end = r.randrange(100)
    if end < 25:
        t += r.choice([0, 1, r.randrange(span)])
        if r.randrange(100) < 50:
            w = encode(make_control(r, 999), r.choice([0, 0, 1, 2, 50]))
            acts.append(dict(do="cut", at=t, hex=w[: r.randrange(1, len(w))].hex()))
        acts.append(dict(do="rst" if r.randrange(3) == 0 else "eof", at=t))
    plan["acts"] = acts
    lines = []
    at = 0
    for _ in range(r.choice([0, 1, 4, 12, 30])):
        at += r.choice([0, 0, 1000, r.randrange(span)])
        lines.append(dict(make_line(r), at=at))
    if r.randrange(100) < 40:
        at += r.randrange(span)
        lines.append(dict(text=r.choice(["quit", "q"]), kind="quit", uci="", at=at))
    plan["lines"] = lines
    plan["end"] = max([a["at"] for a in acts] + [at, span]) + 5 * SEC
    return plan


# ---------------------------------------------------------------- one run
class ConConn(Conn):
    def client_bytes(self, b):
        self.run.event("uci", b)
        super().client_bytes(b)


class Run:
    def __init__(self, plan):
        self.plan = plan
        self.bad = []
        self.events = []  # (time, kind, value)
        self.out = ""
        self.marks = []  # (offset in out, time)
        self.next = 0
        self.line = None
        self.log = []
        self.in_thread = False
        self.waiting = False
        self.asked = 0

    def fail(self, what, t=None):
        self.bad.append(dict(t_us=self.loop.now_us if t is None else t, what=what))

    def event(self, kind, v):
        self.events.append((self.loop.now_us, kind, v))

    def printed(self, s):
        self.marks.append((len(self.out), self.loop.now_us))
        self.out += s
        if len(self.out) > 30_000_000:
            raise SimHang("endless output")

    # -- the user
    def prompted(self, go):
        self.asked += 1
        self.waiting = True
        if self.next < len(self.plan["lines"]):
            at = max(self.plan["lines"][self.next]["at"], self.loop.now_us + 1000)
            self.loop.at_us(at, go)

    def input(self, prompt=""):
        if prompt:
            self.printed(str(prompt))
        if self.next >= len(self.plan["lines"]):
            if self.in_thread:
                raise NoMoreInput
            raise SimHang("input asked outside of the executor")
        self.line = self.plan["lines"][self.next]
        self.next += 1
        self.waiting = False
        self.event("line", self.next - 1)
        self.loop.note("line", self.next - 1)
        self.printed("\n")
        if self.line.get("file"):
            self.loop.fault("file_" + self.line["file"])
        return self.line["text"]

    def open(self, name, *a, **kw):
        if not str(name).startswith(FILES):
            return self.real_open(name, *a, **kw)
        m = re.fullmatch(r"(\d+)\.(\d+)", str(name)[len(FILES):])
        if not m:
            self.loop.fault("file_missing")
            raise FileNotFoundError(2, "No such file or directory", str(name))
        if self.line and self.line.get("file") == "eio":
            raise OSError(5, "Input/output error")
        return io.BytesIO(content(int(m[1]), int(m[2])))

    def run(self):
        con = console()
        WEB.run = self
        p = self.plan
        loop = ConLoop(p["loop_seed"], p["io_percent"], p["end"])
        loop.run = self
        self.loop = loop
        self.conn = ConConn(loop, 0, dict(refuse=p["refuse"], latency=p["latency"], seg=p["seg"], acts=p["acts"]), random.Random(p["loop_seed"] + 1))
        self.conn.run = self
        self.conns = [self.conn]
        loop.listeners[("pica", 7000)] = self.conn
        real_input, self.real_open = builtins.input, builtins.open
        out = sys.stdout
        RL.get_line_buffer = lambda: self.plan["lines"][self.next]["text"][:3] if self.next < len(self.plan["lines"]) else ""

        def alarm(*_):
            self.fail("hang: the event loop is blocked")
            raise SimHang("the event loop is blocked")

        builtins.input, builtins.open, io.open = self.input, self.open, self.open
        sys.stdout = Out(self)
        asyncio.set_event_loop(loop)
        old = signal.signal(signal.SIGALRM, alarm)
        signal.setitimer(signal.ITIMER_REAL, 20, 2)
        self.ended = None
        try:
            self.main = loop.create_task(self.top(con))
            loop.run_forever()
        except SimEnd:
            pass
        except SimHang as e:
            if not self.bad:
                self.fail(f"hang: {e}")
        except SystemExit as e:
            self.ended = ("exit", e.code, loop.now_us)
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
            builtins.input, builtins.open, io.open = real_input, self.real_open, self.real_open
            sys.stdout = out
        if not self.bad:
            self.judge()
        try:
            loop.set_exception_handler(lambda *a: None)
            sys.stdout = open(os.devnull, "w")
            for t in asyncio.all_tasks(loop):
                t.cancel()
                t._log_destroy_pending = False
            loop._ready.clear()
        except BaseException:
            pass
        finally:
            sys.stdout.close()
            sys.stdout = out
        asyncio.events._set_running_loop(None)
        asyncio.set_event_loop(None)
        loop._ready.clear()
        loop._scheduled.clear()
        loop.close()
        return self

    async def top(self, con):
        try:
            await con.run("pica", 7000, 3000)
            self.ended = ("done", 0, self.loop.now_us)
        except asyncio.CancelledError:
            raise
        except SystemExit as e:
            self.ended = ("exit", e.code, self.loop.now_us)
        except Exception as e:
            self.ended = ("error", repr(e), self.loop.now_us)
        self.loop.end_us = min(self.loop.end_us, self.loop.now_us + SEC)

    # ------------------------------------------------------------ oracle
    def judge(self):
        p = self.plan
        if p["refuse"]:
            if not self.ended or self.ended[0] != "exit" or not self.ended[1]:
                self.fail(f"the console did not exit with an error although the connection was refused: {self.ended}")
            elif self.next:
                self.fail("the console reads commands without a connection")
            return
        lines = p["lines"]
        quit_at = None
        # what each line caused
        acts = [[] for _ in lines]
        cur = -1
        for t, kind, v in self.events:
            if kind == "line":
                cur = v
                if lines[v]["kind"] == "quit":
                    quit_at = t
            elif cur < 0:
                self.fail(f"the console sent {v.hex() if kind == 'uci' else v} before anything was typed", t)
                return
            else:
                acts[cur].append((t, kind, v))
        typed = {v: t for t, k, v in self.events if k == "line"}
        gone = min([x for x in (self.conn.closed, self.conn.client_closed) if x is not None], default=None)
        for i, t in sorted(typed.items()):
            l = lines[i]
            want = bytes.fromhex(l["uci"])
            got = b"".join(v for _, k, v in acts[i] if k == "uci")
            if got != want and not (gone is not None and t >= gone and want.startswith(got)):
                n = next((k for k in range(min(len(got), len(want))) if got[k] != want[k]), min(len(got), len(want)))
                self.fail(f"the line {l['text'][:60]!r} sent {len(got)} bytes instead of {len(want)}, "
                          f"at {n}: {got[n:n + 12].hex()} instead of {want[n:n + 12].hex()}", t)
                return
            web = [v for _, k, v in acts[i] if k == "http"]
            exp = [[l["http"][0], "http://pica:3000" + l["http"][1], l["http"][2]]] if "http" in l else []
            if web != exp:
                self.fail(f"the line {l['text'][:60]!r} made the requests {web} instead of {exp}", t)
                return
            late = [x for x, _, _ in acts[i] if x > t + SLACK]
            if late:
                self.fail(f"the line {l['text'][:60]!r} was carried out {late[0] - t} us after it was typed", t)
                return
        if quit_at is not None:
            if not self.ended or self.ended[0] != "done" or self.ended[2] > quit_at + SLACK:
                self.fail(f"the console did not end when asked to: {self.ended}", quit_at)
                return
        elif self.ended:
            last = lines[self.next - 1]["text"][:60] if self.next else None
            self.fail(f"the console ended after the line {last!r}: {self.ended[0]} {self.ended[1]}", self.ended[2])
            return
        elif self.next < len(lines) or not self.waiting:
            self.fail(f"the console does not wait for the line {self.next} of {len(lines)}")
            return
        # what was shown
        shown = []
        for m in re.finditer(r"Received UCI packet \[(\d+)\]:\n((?:  (?:[0-9a-f]{2} )*[0-9a-f]{2}\n)*)", self.out):
            t = [x for o, x in self.marks if o <= m.start()][-1] if len(self.marks) < 2000 else self.when(m.start())
            shown.append((t, int(m[1]), bytes.fromhex(m[2].replace("\n", " "))))
        msgs = [m for m in self.conn.ctl if m[0] is not None]
        rst = self.conn.closed if any(a["do"] == "rst" for a in p["acts"]) else None
        for k, (t, n, b) in enumerate(shown):
            if k >= len(msgs):
                self.fail(f"{len(shown)} packets shown, {len(msgs)} received", t)
                return
            at, (mt, gid, oid, ph) = msgs[k]
            w = bytes.fromhex(ph)
            if n != len(b) or len(b) < 4 or b[0] & 0xEF != (mt << 5 | gid) or b[1] & 0x3F != oid or b[4:] != w:
                self.fail(f"packet {k} shown as [{n}] {b.hex()[:60]}, received {mt << 5 | gid:02x}{oid:02x} with {len(w)} bytes {w.hex()[:48]}", t)
                return
            if t < at or t > at + SLACK:
                self.fail(f"packet {k} received at {at} us, shown at {t} us", t)
                return
        rest = msgs[len(shown):]
        if rest and not (quit_at is not None and rest[0][0] >= quit_at) and not (rst is not None and rest[0][0] >= rst):
            self.fail(f"packet {len(shown)} of {len(msgs)}, received at {rest[0][0]} us, is never shown")

    def when(self, off):
        import bisect

        return self.marks[bisect.bisect_right(self.marks, (off, 1 << 62)) - 1][1]

    def stats(self):
        o = {}
        for i in range(self.next):
            k = "line_" + self.plan["lines"][i]["kind"]
            o[k] = o.get(k, 0) + 1
        o["lines"] = self.next
        o["messages"] = len([m for m in self.conn.ctl if m[0] is not None])
        o["bytes_sent"] = len(self.conn.rx)
        return dict(self.loop.faults), o


def execute(plan):
    r = Run(plan).run()
    for t, k, v in r.events:
        r.loop.note(t, k, v if not isinstance(v, bytes) else v.hex()[:200])
    r.loop.note(len(r.out))
    return r


def minimise(plan, secs):
    import time

    t0 = time.time()
    best = json.loads(json.dumps(plan))
    for key in ("lines", "acts"):
        n = max(1, len(best[key]) // 2)
        while n >= 1 and time.time() - t0 < secs:
            i = 0
            while i < len(best[key]) and time.time() - t0 < secs:
                c = json.loads(json.dumps(best))
                del c[key][i:i + n]
                if execute(c).bad:
                    best = c
                else:
                    i += n
            n //= 2
    c = json.loads(json.dumps(best))
    c["seg"] = ["whole", 0, 0]
    return c if execute(c).bad else best


check.gen, check.execute, check.minimise = gen, execute, minimise
check.nontrivial = lambda f, o: o["lines"] >= 2 and o["messages"] >= 2
check.RULE = ("One case = one simulated execution of the real console program under a plan generated from (VERIF_SEED, index): lines typed and "
              "their times, packets received, fragmentation, segmentation, delays, disconnects, failing files and HTTP requests. Non-trivial when at "
              "least two lines were typed and two packets received; distinct by the hash of all I/O events with their times.")
check.REAL = ["py/pica/console.py", "pica.Host", "pica.packets.uci", "asyncio streams, tasks and queues"]
check.STUB = ["asyncio selector, clock and TCP transport", "the terminal (input, readline, standard output)", "the requests module", "files",
              "the controller (scripted peer)"]

if __name__ == "__main__":
    sys.exit(check.main())
