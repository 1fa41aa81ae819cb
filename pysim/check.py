#!/usr/bin/env python3
"""C16: the real pica.Host class on a simulated event loop and network."""

import argparse
import asyncio
import json
import multiprocessing
import os
import random
import signal
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("VERIF_PICA_PY", "/repo/py/pica"))

from simloop import SimEnd, SimHang, SimLoop  # noqa: E402

PROP = "C16"
SEC = 1_000_000

# ---------------------------------------------------------------- messages
# (mt, gid, oid) -> class name in pica.packets.uci; written from the UCI tables
NAMES = {
    (2, 0, 0): "CoreDeviceResetRsp", (3, 0, 1): "CoreDeviceStatusNtf", (3, 0, 7): "CoreGenericErrorNtf",
    (2, 1, 0): "SessionInitRsp", (2, 1, 1): "SessionDeinitRsp", (3, 1, 2): "SessionStatusNtf",
    (2, 1, 3): "SessionSetAppConfigRsp", (2, 1, 4): "SessionGetAppConfigRsp", (2, 1, 5): "SessionGetCountRsp",
    (2, 1, 6): "SessionGetStateRsp", (2, 2, 0): "SessionStartRsp", (2, 2, 1): "SessionStopRsp",
    (3, 2, 0): "ShortMacTwoWaySessionInfoNtf", (3, 2, 4): "SessionDataCreditNtf",
    (3, 2, 5): "SessionDataTransferStatusNtf", (2, 2, 3): "SessionGetRangingCountRsp",
}


def le(v, n):
    return v.to_bytes(n, "little")


def measurement(r):
    return le(r.randrange(65536), 2) + bytes([0, 0]) + le(r.randrange(65536), 2) + le(r.randrange(65536), 2) + bytes(
        [100]) + le(r.randrange(65536), 2) + bytes([100]) + le(0, 2) + bytes([0]) + le(0, 2) + bytes([0, 0, 0]) + bytes(11)


def make_control(r, k):
    """One control message from the controller: [mt, gid, oid, payload hex]"""
    t = le(k, 4)
    kind = r.randrange(14)
    if kind == 0:
        m = (2, 0, 0, bytes([0]))
    elif kind == 1:
        m = (3, 0, 1, bytes([r.choice([1, 2])]))
    elif kind == 2:
        m = (2, 1, 0, bytes([r.choice([0, 0, 0x12])]))
    elif kind in (3, 4):
        m = (3, 1, 2, t + bytes([r.choice([0, 1, 2, 3]), r.choice([0, 1, 2])]))
    elif kind == 5:
        m = (2, 1, 3, bytes([0, 0]))
    elif kind == 6:
        n = r.randrange(0, 40)
        m = (2, 1, 4, bytes([0, n]) + b"".join(bytes([0x11, 4]) + le(k + i, 4) for i in range(n)))
    elif kind == 7:
        m = (2, 1, 5, bytes([0, k & 255]))
    elif kind in (8, 9):
        n = r.choice([0, 1, 1, 2, 5, 9, 12])
        m = (3, 2, 0, t + t + bytes([0]) + le(0, 4) + bytes([1, 0, 0]) + bytes(8) + bytes([n])
             + b"".join(measurement(r) for _ in range(n)))
    elif kind == 10:
        m = (3, 2, 4, t + bytes([1]))
    elif kind == 11:
        m = (2, 2, 3, bytes([0]) + t)
    elif kind == 12:
        m = (2, 2, r.choice([0, 1]), bytes([0]))
    else:
        # unknown to the library, or of arbitrary size
        n = r.choice([0, 1, 3, 254, 255, 256, 300, 509, 510, 511, 700, 1500])
        m = (r.choice([2, 3]), r.choice([0, 1, 2]), r.choice([0x1E, 0x3E, 0x2D]), (t + r.randbytes(n)) if r.randrange(8) else b"")
    return [m[0], m[1], m[2], m[3].hex()]


def make_data(r, k, small=0):
    n = r.randrange(small) if small else r.choice([0, 1, 7, 20, 100, 600, 1006, 1007, 1008, 1009, 2040, 3000, 5000, 20000, 65000])
    app = le(k, 4) + bytes((i * 7 + k) & 255 for i in range(n))
    p = le(1, 4) + bytes([0]) + le(0x1122, 8) + le(k & 0xFFFF, 2) + le(len(app), 2) + app
    return [0, 2, 0, p.hex()]


def encode(m, frag):
    """Wire bytes of a message of the controller, cut into UCI packets."""
    mt, gid, oid, ph = m
    p = bytes.fromhex(ph)
    top = 255 if mt else 1024
    n = min(frag or top, top)
    out = b""
    parts = [p[i:i + n] for i in range(0, len(p), n)] or [b""]
    for i, part in enumerate(parts):
        pbf = 0x10 if i + 1 < len(parts) else 0
        if mt:
            out += bytes([mt << 5 | pbf | gid, oid, 0, len(part)]) + part
        else:
            out += bytes([mt << 5 | pbf | gid, 0]) + le(len(part), 2) + part
    return out


COMMANDS = [
    ("CoreDeviceResetCmd", dict(reset_config="ResetConfig.UWBS_RESET"), (0, 0, "00")),
    ("CoreGetDeviceInfoCmd", {}, (0, 2, "")),
    ("SessionInitCmd", dict(session_id=0x01020304, session_type="SessionType.FIRA_RANGING_SESSION"), (1, 0, "0403020100")),
    ("SessionStartCmd", dict(session_id=7), (2, 0, "07000000")),
    ("SessionStopCmd", dict(session_id=0xFFFFFFFF), (2, 1, "ffffffff")),
    ("SessionGetCountCmd", {}, (1, 5, "")),
    ("SessionGetStateCmd", dict(session_token=3), (1, 6, "03000000")),
    ("SessionGetRangingCountCmd", dict(session_id=9), (2, 3, "09000000")),
]


# ---------------------------------------------------------------- plans
def gen(seed):
    r = random.Random(seed)
    plan = dict(seed=seed, loop_seed=r.randrange(2**32), io_percent=r.choice([0, 10, 50, 100]), hosts=[])
    nh = r.choice([1, 1, 1, 2, 3])
    span = r.choice([2_000, 2_000, 50_000, 50_000, 500_000, 500_000, 3 * SEC, 3 * SEC, 200 * SEC])
    k = 1
    for h in range(nh):
        host = dict(refuse=r.randrange(30) == 0, latency=r.choice([0, 50, 2000]), connect_at=r.choice([0, 0, r.randrange(span)]))
        seg = r.randrange(5)
        if seg == 0:
            host["seg"] = ["whole", 0, 0]
        elif seg == 1:
            host["seg"] = ["fixed", r.choice([1, 1, 2, 3, 4, 5, 7]), r.choice([0, 1, 30, 700])]
        elif seg == 2:
            host["seg"] = ["rand", r.choice([4, 16, 300, 3000]), r.choice([0, 20, 5000])]
        elif seg == 3:
            host["seg"] = ["coalesce", r.choice([40, 1000, 100000]), r.choice([500, 5000, 200000])]
        else:
            host["seg"] = ["head", r.choice([1, 2, 3, 4]), r.choice([0, 100, 40000])]
        acts = []
        t = host["connect_at"] + r.choice([0, 500, 5000])
        nm = r.choice([0, 1, 3, 8, 8, 20, 20, 60])
        burst = r.randrange(100) < 30
        datap = r.choice([0, 10, 30, 100])
        size = 0
        # many small messages of one kind, few of the other: consumers of one
        # kind must not depend on those of the other
        backlog = r.randrange(100) < 12
        if backlog:
            nm = r.choice([40, 150, 400, 1500])
            datap = r.choice([2, 50, 98])
            burst = True
        for _ in range(nm):
            m = make_data(r, k, 20 if backlog else 0) if r.randrange(100) < datap else make_control(r, k)
            while backlog and len(m[3]) > 120:
                m = make_control(r, k)
            k += 1
            size += len(m[3]) // 2
            if size > 150_000:
                break
            if not burst or r.randrange(100) < 20:
                t += r.randrange(max(1, span // 8))
            a = dict(do="msg", at=t, m=m)
            if r.randrange(100) < 25:
                a["frag"] = r.choice([1, 2, 7, 50, 254, 255, 1000, 1023])
                if len(m[3]) // 2 > 3000 and a["frag"] < 50:
                    del a["frag"]
            if r.randrange(100) < 10:
                a["after_rx"] = r.randrange(1, 4)
            acts.append(a)
        end = r.randrange(100)
        if end < 45:
            t += r.choice([0, 0, 1, r.randrange(span)])
            if r.randrange(100) < 50:
                m = make_data(r, k) if r.randrange(2) else make_control(r, k)
                k += 1
                w = encode(m, r.choice([0, 0, 1, 2, 50]) if len(m[3]) < 4000 else 0)
                acts.append(dict(do="cut", at=t, hex=w[: r.randrange(1, len(w))].hex()))
            acts.append(dict(do="rst" if r.randrange(3) == 0 else "eof", at=t))
        host["acts"] = acts
        if r.randrange(100) < 12:
            host["disconnect_at"] = host["connect_at"] + r.randrange(2 * span)
        # consumers
        host["tasks"] = []
        only = r.choice([0, 0, 100, 100, 10, 90])
        for c in range(r.choice([0, 1, 1, 2, 3]) or int(backlog)):
            ops = [["sleep", r.choice([0, 0, r.randrange(span)])]]
            for _ in range(r.choice([1, 4, 12, 30, 70])):
                o = r.randrange(100)
                if o < 15:
                    ops.append(["sleep", r.choice([0, 1, r.randrange(max(2, span // 4))])])
                elif o < 35:
                    ops.append(["send", r.randrange(len(COMMANDS))])
                elif o < 40:
                    ops.append(["send_data", r.choice([0, 1, 250, 300, 1004, 5000, 60000]), r.randrange(2**32)])
                else:
                    kind = "data" if r.randrange(100) < (only if backlog else datap) else "control"
                    to = r.choice([1, 1000, 20_000, SEC, SEC, 5 * SEC])
                    exp = "any"
                    e = r.randrange(100)
                    if kind == "control" and e < 15:
                        exp = r.choice(sorted(NAMES.values()))
                    elif kind == "control" and e < 30:
                        exp = ["value", r.choice([0, 0x12])]
                    elif kind == "control" and e < 40:
                        exp = ["status", r.choice([1, 2])]
                    op = ["expect", kind, to, exp]
                    if r.randrange(100) < 12:
                        op.append(r.choice([0, 1, 1000, 20_000, to]))
                    ops.append(op)
            host["tasks"].append(ops)
        plan["hosts"].append(host)
    plan["end"] = max([a["at"] for h in plan["hosts"] for a in h["acts"]] + [h.get("disconnect_at", 0) for h in plan["hosts"]] + [span]) + 25 * SEC
    return plan


# ---------------------------------------------------------------- one run
class Conn:
    """The controller's side of one simulated connection."""

    def __init__(self, loop, idx, plan, rng):
        self.loop, self.idx, self.plan, self.rng = loop, idx, plan, rng
        self.refuse = plan["refuse"]
        self.latency = plan["latency"]
        self.rx = b""
        self.msgs = 0
        self.waiting = []
        self.tr = None
        self.t_net = 0
        self.ctl, self.dat = [], []  # [arrival us, message], in the order sent
        self.closed = None  # when the peer's close reached the client
        self.client_closed = None
        self.held = b""
        self.queue = []

    def connected(self, tr):
        self.tr = tr
        self.t_net = self.loop.now_us
        self.queue = list(self.plan["acts"])
        self.pump()

    def pump(self):
        """Schedules the actions up to the first which waits for client data."""
        while self.queue:
            a = self.queue[0]
            if a.get("after_rx", 0) > self.msgs:
                # do not wait for ever for a client that sends too little
                self.loop.at_us(a["at"] + 400_000, self.force)
                return
            self.queue.pop(0)
            self.loop.at_us(max(a["at"], self.loop.now_us), lambda a=a: self.act(a))

    def force(self):
        if self.queue and self.queue[0].get("after_rx"):
            self.queue[0] = dict(self.queue[0], after_rx=0)
            self.pump()

    def act(self, a):
        now = self.loop.now_us + self.latency
        self.t_net = max(self.t_net, now)
        if a["do"] == "msg":
            self.send(encode(a["m"], a.get("frag", 0)), (self.dat if a["m"][0] == 0 else self.ctl, a["m"]))
        elif a["do"] == "cut":
            self.loop.fault("cut_in_packet")
            self.send(bytes.fromhex(a["hex"]), None)
        elif a["do"] == "eof":
            self.loop.fault("peer_eof")
            self.loop.at_us(self.t_net, self.eof)
        elif a["do"] == "rst":
            self.loop.fault("peer_reset")
            self.loop.at_us(self.t_net, self.rst)

    def eof(self):
        self.closed = self.closed or self.loop.now_us
        self.tr.peer_eof()

    def rst(self):
        self.closed = self.closed or self.loop.now_us
        self.tr.peer_reset(ConnectionResetError(104, "Connection reset by peer"))

    def send(self, b, rec):
        kind, size, gap = self.plan["seg"]
        if kind == "coalesce":
            self.held += b
            slot = []
            if rec:
                slot = [None, rec[1]]
                rec[0].append(slot)
            # flushed together at the next multiple of gap
            t = max(self.t_net, (self.t_net // gap + 1) * gap)
            self.t_net = t
            chunks = [self.held[i:i + size] for i in range(0, len(self.held), size)]
            self.held = b""
            self.schedule(chunks, slot, 0)
            return
        if kind == "whole":
            chunks = [b]
        elif kind == "fixed":
            if len(b) > 3000 and size < 50:
                size = 500
            chunks = [b[i:i + size] for i in range(0, len(b), size)]
        elif kind == "rand":
            chunks = []
            i = 0
            if len(b) > 3000 and size < 50:
                size = 1000
            while i < len(b):
                n = self.rng.randint(1, size)
                chunks.append(b[i:i + n])
                i += n
        else:
            chunks = [b[:size], b[size:]] if len(b) > size else [b]
        slot = []
        if rec:
            slot = [None, rec[1]]
            rec[0].append(slot)
        self.schedule(chunks, slot, gap)

    def schedule(self, chunks, slot, gap):
        if len(chunks) > 1:
            self.loop.fault("segmented")
        for i, c in enumerate(chunks):
            last = i + 1 == len(chunks)

            def go(c=c, last=last):
                if last and slot:
                    slot[0] = self.loop.now_us
                self.tr.data(c)

            self.loop.at_us(self.t_net, go)
            if not last:
                self.t_net += gap

    # called by the transport
    def client_bytes(self, b):
        self.rx += b
        n = 0
        i = 0
        while i + 4 <= len(self.rx):
            ln = self.rx[i + 3] if self.rx[i] >> 5 else int.from_bytes(self.rx[i + 2:i + 4], "little")
            if i + 4 + ln > len(self.rx):
                break
            i += 4 + ln
            n += 1
        self.msgs = n
        self.loop.call_soon(self.pump)

    def client_close(self, t):
        if self.client_closed is None:
            self.client_closed = self.loop.now_us


class Run:
    def __init__(self, plan):
        self.plan = plan
        self.bad = []
        self.log = []  # host, task, kind, start, end, outcome, value, timeout, cancel
        self.sent = {}
        self.ticks = 0
        self.reads_after = {}

    def fail(self, what, t=None):
        self.bad.append(dict(t_us=self.loop.now_us if t is None else t, what=what))

    def run(self):
        import pica
        from pica.packets import uci

        self.pica, self.uci = pica, uci
        p = self.plan
        loop = SimLoop(p["loop_seed"], p["io_percent"], p["end"])
        self.loop = loop
        rng = random.Random(p["loop_seed"] + 1)
        self.conns = [Conn(loop, i, h, rng) for i, h in enumerate(p["hosts"])]
        for i, c in enumerate(self.conns):
            loop.listeners[(f"pica{i}", 7000)] = c
        self.hosts = [None] * len(self.conns)
        out, sys.stdout = sys.stdout, open(os.devnull, "w")
        asyncio.set_event_loop(loop)
        reads = {}
        run = self
        real_read = asyncio.StreamReader.read

        def hang(what):
            run.fail(f"hang: {what}")
            raise SimHang(what)

        def read(self, *a):
            key = id(self)
            t, n, after = reads.get(key, (0, 0, 0))
            n = n + 1 if t == loop.now_us else 1
            after += self.at_eof()
            reads[key] = (loop.now_us, n, after)
            # recorded first: a task swallows what is raised in it
            if n > 200_000:
                hang(f"{n} reads without progress")
            if after > 2000:
                hang("the client keeps reading a closed connection")
            return real_read(self, *a)

        asyncio.StreamReader.read = read

        def alarm(*_):
            hang("the event loop is blocked")

        old = signal.signal(signal.SIGALRM, alarm)
        signal.setitimer(signal.ITIMER_REAL, 20, 2)
        try:
            self.main = loop.create_task(self.top())
            loop.run_forever()
        except SimEnd:
            pass
        except SimHang as e:
            if not self.bad:
                self.fail(f"hang: {e}")
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
            asyncio.StreamReader.read = real_read
            sys.stdout.close()
            sys.stdout = out
        if not self.bad:
            self.judge()
        try:
            signal.setitimer(signal.ITIMER_REAL, 10, 2)
            signal.signal(signal.SIGALRM, alarm)
            loop.set_exception_handler(lambda *a: None)
            for t in asyncio.all_tasks(loop):
                t.cancel()
                t._log_destroy_pending = False
            loop._ready.clear()
        except BaseException:
            pass
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        asyncio.events._set_running_loop(None)
        asyncio.set_event_loop(None)
        loop._ready.clear()
        loop._scheduled.clear()
        loop.close()
        return self

    async def top(self):
        loop = self.loop
        self.mine = [loop.create_task(self.heartbeat())]
        for i in range(len(self.conns)):
            self.mine.append(loop.create_task(self.host(i)))
        await asyncio.gather(*self.mine[1:])

    async def heartbeat(self):
        t = 0
        while True:
            await asyncio.sleep(0.25)
            t += 250_000
            self.ticks += 1
            if abs(self.loop.now_us - t) > 100:
                self.fail(f"a timer due at {t} us fired at {self.loop.now_us} us")

    async def host(self, i):
        loop = self.loop
        p = self.plan["hosts"][i]
        await asyncio.sleep(p["connect_at"] / 1e6)
        try:
            h = await self.pica.Host.connect(f"pica{i}", 7000, bytes([i, 0]))
        except OSError:
            if not p["refuse"]:
                self.fail(f"host {i}: connect failed")
            return
        if p["refuse"]:
            self.fail(f"host {i}: connected to a closed port")
            return
        self.hosts[i] = h
        self.sent[i] = b""
        if "disconnect_at" in p:
            loop.at_us(p["disconnect_at"], lambda: self.disconnect(i))
        tasks = [loop.create_task(self.client(i, j, ops)) for j, ops in enumerate(p["tasks"])]
        await asyncio.gather(*tasks)

    def disconnect(self, i):
        self.loop.fault("client_disconnect")
        try:
            self.hosts[i].disconnect()
        except Exception as e:
            self.fail(f"host {i}: disconnect raised {e!r}")

    async def client(self, i, j, ops):
        uci = self.uci
        h = self.hosts[i]
        loop = self.loop
        for op in ops:
            if op[0] == "sleep":
                await asyncio.sleep(op[1] / 1e6)
            elif op[0] == "send":
                name, args, (gid, oid, ph) = COMMANDS[op[1]]
                kw = {}
                for k, v in args.items():
                    if isinstance(v, str):
                        a, b = v.split(".")
                        v = getattr(getattr(uci, a), b)
                    kw[k] = v
                pl = bytes.fromhex(ph)
                if self.conns[i].client_closed is None and not self.conns[i].tr.is_closing():
                    self.sent[i] += bytes([0x20 | gid, oid, 0, len(pl)]) + pl
                try:
                    h.send_control(getattr(uci, name)(**kw))
                except Exception as e:
                    self.fail(f"host {i}: send_control({name}) raised {e!r}")
            elif op[0] == "send_data":
                app = bytes((x * 5 + op[1]) & 255 for x in range(op[1]))
                pl = le(op[2], 4) + le(0x2211, 8) + le(3, 2) + le(len(app), 2) + app
                if self.conns[i].client_closed is None and not self.conns[i].tr.is_closing():
                    self.sent[i] += bytes([0x01, 0]) + le(len(pl), 2) + pl
                try:
                    h.send_data(uci.DataMessageSnd(session_handle=op[2], destination_address=0x2211,
                                                   data_sequence_number=3, application_data=app))
                except Exception as e:
                    self.fail(f"host {i}: send_data raised {e!r}")
            else:
                _, kind, to, exp = op[:4]
                start = loop.now_us
                if kind == "data":
                    what = uci.DataPacket
                    co = h.expect_data(what, timeout=to / 1e6)
                else:
                    if exp == "any":
                        what = uci.ControlPacket
                    elif isinstance(exp, str):
                        what = getattr(uci, exp)
                    elif exp[0] == "value":
                        what = uci.SessionInitRsp(status=uci.Status(exp[1]))
                    else:
                        what = uci.CoreDeviceStatusNtf(device_state=uci.DeviceState(exp[1]))
                    co = h.expect_control(what, timeout=to / 1e6)
                cancel = op[4] if len(op) > 4 else None
                val = None
                if cancel is not None:
                    t = loop.create_task(co)
                    loop.call_later(cancel / 1e6, t.cancel)
                    co = t
                try:
                    val = await co
                    res = "ok"
                except asyncio.CancelledError:
                    if cancel is None:
                        raise
                    res = "cancel"
                except (asyncio.TimeoutError, TimeoutError):
                    res = "timeout"
                except ValueError as e:
                    res = "mismatch"
                except Exception as e:
                    res = f"error {e!r}"
                self.log.append((i, j, kind, start, loop.now_us, res, val, to, cancel, exp))

    # ------------------------------------------------------------ oracle
    def judge(self):
        for i, h in enumerate(self.hosts):
            if h is None:
                continue
            for kind in ("control", "data"):
                self.judge_stream(i, kind)
                if self.bad:
                    return
            rx = self.conns[i].rx
            if rx != self.sent[i]:
                n = next((k for k in range(min(len(rx), len(self.sent[i]))) if rx[k] != self.sent[i][k]),
                         min(len(rx), len(self.sent[i])))
                self.fail(f"host {i}: byte {n} of the packets sent is wrong: {rx[n:n+12].hex()} instead of {self.sent[i][n:n+12].hex()}")
                return
            if "disconnect_at" in self.plan["hosts"][i] and not self.conns[i].tr.is_closing():
                self.fail(f"host {i}: disconnect did not close the connection")
                return
        if self.ticks < self.plan["end"] // 250_000 - 1:
            self.fail(f"other coroutines stopped running: {self.ticks} ticks")

    def judge_stream(self, i, kind):
        conn = self.conns[i]
        gone = conn.client_closed
        msgs = [m for m in (conn.ctl if kind == "control" else conn.dat) if m[0] is not None]
        # a reset may discard what arrived at the same instant
        ev = [e for e in self.log if e[0] == i and e[2] == kind]
        ev.sort(key=lambda e: e[4])
        pos = 0  # messages consumed so far
        k = 0
        while k < len(ev):
            t = ev[k][4]
            grp = []
            while k < len(ev) and ev[k][4] == t:
                grp.append(ev[k])
                k += 1
            eat = [e for e in grp if e[5] in ("ok", "mismatch")]
            other = [e for e in grp if e[5] not in ("ok", "mismatch")]
            for e in other:
                if e[5].startswith("error"):
                    self.fail(f"host {i}: waiting for a {kind} message raised {e[5][6:]}", t)
                    return
            n = len(eat)
            if pos + n > len(msgs):
                self.fail(f"host {i}: {pos + n} {kind} messages received, {len(msgs)} were sent", t)
                return
            if not self.assign(eat, msgs[pos:pos + n], t):
                got = [self.raw(e[6]).hex()[:60] if e[6] is not None else e[5] for e in eat]
                want = ["%02x%02x %s" % (m[1][0] << 5 | m[1][1], m[1][2], m[1][3][:48]) for m in msgs[pos:pos + n]]
                self.fail(f"host {i}: {kind} messages {got} received, {want} expected", t)
                return
            for m in msgs[pos:pos + n]:
                if m[0] > t:
                    self.fail(f"host {i}: message received before it was sent", t)
                    return
            # promptness: an arrived message goes to a waiting consumer at once
            for x, e in enumerate(eat):
                if gone is None and not any(t == max(e[3], m[0]) or t == m[0] for m in msgs[pos:pos + n]) and t != e[3]:
                    self.fail(f"host {i}: {kind} message handed over at {t} us although it arrived at {msgs[pos + x][0]} us", t)
                    return
            pos += n
            for e in other:
                if e[5] == "timeout" and abs(t - (e[3] + e[7])) > 2:
                    self.fail(f"host {i}: timeout of {e[7]} us from {e[3]} us fired at {t} us", t)
                    return
                # nothing was available to the one that gave up
                if e[5] == "timeout" and pos < len(msgs) and msgs[pos][0] < t and not self.dropped(conn, msgs[pos][0]):
                    self.fail(f"host {i}: timeout at {t} us although a {kind} message arrived at {msgs[pos][0]} us", t)
                    return

    def dropped(self, conn, t):
        """Messages that arrive after, or with, the end of the connection may be lost."""
        ends = [x for x in (conn.client_closed, conn.closed if any(a["do"] == "rst" for a in conn.plan["acts"]) else None) if x is not None]
        return bool(ends) and t >= min(ends)

    def raw(self, v):
        return bytes(v.serialize())

    def same(self, e, m):
        """Is the outcome e explained by message m?"""
        mt, gid, oid, ph = m
        p = bytes.fromhex(ph)
        exp = e[9]
        fits = True
        if e[2] == "control":
            name = NAMES.get((mt, gid, oid))
            if isinstance(exp, list):
                if exp[0] == "value":
                    fits = name == "SessionInitRsp" and p == bytes([exp[1]])
                else:
                    fits = name == "CoreDeviceStatusNtf" and p == bytes([exp[1]])
            elif exp != "any":
                fits = name == exp
        if e[5] == "mismatch":
            return not fits
        if not fits:
            return False
        b = self.raw(e[6])
        if mt == 0:
            return b[0] & 0xEF == (mt << 5 | gid) and b[4:] == p
        return b[0] & 0xEF == (mt << 5 | gid) and b[1] & 0x3F == oid and b[4:] == p

    def assign(self, eat, msgs, t):
        """Consumers that finish at the same instant: some order must explain them."""
        if all(self.same(e, m[1]) for e, m in zip(eat, msgs)):
            return True
        n = len(eat)
        seen = set()

        def go(x, used):
            if x == n:
                return True
            if (x, used) in seen:
                return False
            seen.add((x, used))
            tasks = set()
            for y in range(n):
                if used >> y & 1 or eat[y][1] in tasks:
                    continue
                tasks.add(eat[y][1])
                if self.same(eat[y], msgs[x][1]) and go(x + 1, used | 1 << y):
                    return True
            return False

        return go(0, 0)

    def stats(self):
        s = dict(self.loop.faults)
        o = {}
        for e in self.log:
            key = f"{e[2]}_{e[5].split()[0]}"
            o[key] = o.get(key, 0) + 1
        o["bytes_sent"] = sum(len(c.rx) for c in self.conns)
        o["messages"] = sum(len([m for m in c.ctl + c.dat if m[0] is not None]) for c in self.conns)
        return s, o


def execute(plan):
    r = Run(plan).run()
    for e in r.log:
        r.loop.note(e[0], e[1], e[2], e[3], e[4], e[5])
    return r


# ---------------------------------------------------------------- driver
def mix(seed, i):
    x = (seed * 0x9E3779B97F4A7C15 + i * 0xD6E8FEB86659FD93 + 0x1234567) & (2**64 - 1)
    x ^= x >> 32
    x = (x * 0xD6E8FEB86659FD93) & (2**64 - 1)
    return x ^ (x >> 32)


def nontrivial(f, o):
    return o["messages"] >= 2 and (f.get("segmented") or f.get("peer_eof") or f.get("peer_reset") or f.get("client_disconnect"))


RULE = ("One case = one simulated execution of the real Host class under a plan generated from (VERIF_SEED, index): "
        "messages, fragmentation, segmentation, delays, disconnects, consumers, timeouts and cancellations. Non-trivial when at least "
        "two messages arrived and segmentation or the end of a connection was injected; distinct by the hash of all I/O events and outcomes with their times.")
REAL = ["pica.Host", "pica.packets.uci", "asyncio streams, tasks, queues and timers"]
STUB = ["asyncio selector, clock and TCP transport", "the controller (scripted peer)"]


def work(job):
    seed, lo, hi = job
    res = dict(runs=0, hashes=[], faults={}, work={}, sim=0, steps=0, bad=None, sample=None, nontrivial=0)
    for i in range(lo, hi):
        sd = mix(seed, i)
        plan = gen(sd)
        try:
            r = execute(plan)
        except Exception as e:
            import traceback

            res["error"] = f"seed {sd}: {traceback.format_exc()}"
            return res
        res["runs"] += 1
        f, o = r.stats()
        for k, v in f.items():
            res["faults"][k] = res["faults"].get(k, 0) + v
        for k, v in o.items():
            res["work"][k] = res["work"].get(k, 0) + v
        res["sim"] += r.loop.now_us
        res["steps"] += r.loop.steps
        if nontrivial(f, o):
            res["hashes"].append(r.loop.trace)
            if res["sample"] is None:
                res["sample"] = dict(seed=sd, plan=plan, trace_hash=r.loop.trace, faults=f, observed=o)
        if r.bad and res["bad"] is None:
            res["bad"] = [i, sd, r.bad[0]]
            return res
    return res


def norm(s):
    import re

    return re.sub(r"[0-9a-f]{6,}|\d+", "#", s)[:60]


def minimise(plan, secs):
    t0 = time.time()

    def bad(p):
        r = execute(p)
        return r.bad[0] if r.bad else None

    def shrink(lst, put):
        n = max(1, len(lst) // 2)
        while n >= 1 and time.time() - t0 < secs:
            i = 0
            while i < len(lst) and time.time() - t0 < secs:
                cand = lst[:i] + lst[i + n:]
                if put(cand):
                    lst = cand
                else:
                    i += n
            n //= 2
        return lst

    best = json.loads(json.dumps(plan))

    def attempt(f):
        nonlocal best
        c = json.loads(json.dumps(best))
        f(c)
        if bad(c):
            best = c
            return True
        return False

    for i in range(len(best["hosts"]) - 1, -1, -1):
        if len(best["hosts"]) > 1:
            attempt(lambda c: c["hosts"].pop(i))
    for i in range(len(best["hosts"])):
        shrink(best["hosts"][i]["acts"], lambda l: attempt(lambda c: c["hosts"][i].__setitem__("acts", l)))
        shrink(best["hosts"][i]["tasks"], lambda l: attempt(lambda c: c["hosts"][i].__setitem__("tasks", l)))
        for j in range(len(best["hosts"][i]["tasks"])):
            shrink(best["hosts"][i]["tasks"][j], lambda l: attempt(lambda c: c["hosts"][i]["tasks"].__setitem__(j, l)))
        attempt(lambda c: c["hosts"][i].__setitem__("seg", ["whole", 0, 0]))
    return best


def known(path):
    import re

    out = []
    try:
        for l in open(path):
            m = re.match(r'finding: property=(\w+) match="([^"]*)" (.*)', l)
            if m and m.group(1) == PROP:
                out.append((m.group(2), m.group(3)))
    except OSError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--evidence", default="")
    ap.add_argument("--known", default="")
    ap.add_argument("--replays", default=os.path.join(HERE, "..", "replays"))
    ap.add_argument("--secs", type=float, default=0)
    ap.add_argument("--count", type=int, default=0)
    ap.add_argument("--one", type=int)
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        rep = json.load(open(a.replay))
        r = execute(rep["plan"])
        if r.bad:
            v = r.bad[0]
            print(f"at {v['t_us']} us: {v['what']}")
            print("reproduced exactly" if r.loop.trace == rep["trace_hash"] and v == rep["violation"] else "reproduced, but differently")
            print(f"VIOLATION property={PROP} replay={a.replay}")
            return 1
        print("not reproduced")
        return 0
    if a.one is not None:
        plan = gen(a.one)
        r = execute(plan)
        r2 = execute(plan)
        print(json.dumps(dict(plan=plan, bad=r.bad, stats=r.stats(), same=r.loop.trace == r2.loop.trace,
                              log=[[str(x)[:80] for x in e] for e in r.log],
                              ctl=[[(m[0], m[1][:3], m[1][3][:40]) for m in c.ctl] for c in r.conns],
                              dat=[[(m[0], m[1][3][:40]) for m in c.dat] for c in r.conns])))
        return 0
    secs = a.secs or (45 if a.tier == "quick" else 780)
    count = a.count or (40_000 if a.tier == "quick" else 10**9)
    t0 = time.time()
    tot = dict(runs=0, faults={}, work={}, sim=0, steps=0)
    hashes = set()
    samples = []
    bad = None
    kf = known(a.known)
    kfn = 0
    batch = 100

    def jobs():
        for i in range(0, count, batch):
            if time.time() - t0 > secs or bad:
                return
            yield (a.seed, i, min(count, i + batch))

    err = None
    with multiprocessing.Pool(os.cpu_count()) as pool:
        it = jobs()
        pend = []
        done = False
        while True:
            while not done and len(pend) < 2 * os.cpu_count():
                j = next(it, None)
                if j is None:
                    done = True
                    break
                pend.append(pool.apply_async(work, (j,)))
            if not pend:
                break
            res = pend.pop(0).get(timeout=600)
            if "error" in res:
                err = res["error"]
                break
            tot["runs"] += res["runs"]
            tot["sim"] += res["sim"]
            tot["steps"] += res["steps"]
            for f in ("faults", "work"):
                for k, v in res[f].items():
                    tot[f][k] = tot[f].get(k, 0) + v
            hashes.update(res["hashes"])
            if res["sample"] and len(samples) < 3:
                samples.append(res["sample"])
            if res["bad"] and not bad:
                k = next((x for x in kf if x[0] in res["bad"][2]["what"]), None)
                if k:
                    kfn += 1
                    print(f"KNOWN-FINDING: property={PROP} {k[1]}")
                else:
                    bad = res["bad"]
        pool.terminate()
    if err:
        print(err, file=sys.stderr)
        return 2
    wall = time.time() - t0
    code = 0
    if bad:
        plan = minimise(gen(bad[1]), 40)
        r = execute(plan)
        v = r.bad[0]
        os.makedirs(a.replays, exist_ok=True)
        path = os.path.abspath(os.path.join(a.replays, f"{PROP}-{bad[1]:016x}.json"))
        json.dump(dict(property=PROP, seed=bad[1], violation=v, trace_hash=r.loop.trace, plan=plan), open(path, "w"), indent=1)
        print(f"seed {bad[1]}: at {v['t_us']} us: {v['what']}")
        print(f"VIOLATION property={PROP} replay={path}")
        code = 1
    if a.evidence:
        os.makedirs(os.path.dirname(a.evidence), exist_ok=True)
        json.dump(dict(
            property=PROP, tier=a.tier, seed=a.seed, level="exploration", wall_s=time.time() - t0, violations=int(bad is not None),
            assumptions=["the simulated loop orders callbacks as asyncio's base event loop does (it runs its code); transports behave as asyncio's selector transports"],
            coverage=dict(
                evaluations=tot["runs"], distinct_nontrivial=len(hashes),
                rule=RULE,
                samples=samples, simulated_seconds=tot["sim"] / 1e6, seeds_per_hour=int(tot["runs"] / max(wall, 0.01) * 3600),
                loop_iterations=tot["steps"], faults_injected=tot["faults"], workload=tot["work"], known_findings_seen=kfn,
                real_components=REAL, stub_components=STUB)),
            open(a.evidence, "w"), indent=1)
    print(f"{PROP}: {tot['runs']} runs, {len(hashes)} distinct non-trivial, {tot['sim']/1e6:.1f} simulated s, {wall:.1f} s wall")
    return code


if __name__ == "__main__":
    sys.exit(main())
