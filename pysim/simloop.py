"""A deterministic asyncio event loop: simulated time, simulated TCP.

Only the selector, the clock and the transports are replaced; futures, tasks,
timers, streams and queues are the real asyncio ones.  Simulated time moves only
when no callback is ready.  All choices come from one seeded PRNG.
"""

import asyncio
import heapq
import random


class SimHang(BaseException):
    """The program under test does not give control back, or spins."""


class SimEnd(BaseException):
    pass


class SimTransport(asyncio.Transport):
    def __init__(self, loop, conn, protocol):
        super().__init__()
        self.loop, self.conn, self.protocol = loop, conn, protocol
        self.closing = False
        self.lost = False
        self.paused = False
        self.pending = []
        self.eof = False
        self._extra = {"peername": ("sim", 7000), "sockname": ("sim", 1)}

    # -- interface used by asyncio streams
    def get_extra_info(self, name, default=None):
        return self._extra.get(name, default)

    def is_closing(self):
        return self.closing

    def set_protocol(self, protocol):
        self.protocol = protocol

    def get_protocol(self):
        return self.protocol

    def is_reading(self):
        return not self.paused and not self.closing

    def pause_reading(self):
        if not self.paused:
            self.loop.fault("reading_paused")
        self.paused = True

    def resume_reading(self):
        self.paused = False
        if self.pending:
            self.loop.call_soon(self.flush)

    def write(self, data):
        if self.closing or self.lost:
            self.loop.fault("write_after_close")
            return
        self.conn.client_bytes(bytes(data))

    def writelines(self, lines):
        self.write(b"".join(lines))

    def can_write_eof(self):
        return True

    def write_eof(self):
        self.conn.client_close(self.loop.time())

    def close(self):
        if self.closing:
            return
        self.closing = True
        self.conn.client_close(self.loop.time())
        self.loop.call_soon(self.connection_lost, None)

    def abort(self):
        self.close()

    def get_write_buffer_size(self):
        return 0

    def set_write_buffer_limits(self, high=None, low=None):
        pass

    # -- simulated network side
    def flush(self):
        while self.pending and not self.paused and not self.closing:
            self.pending.pop(0)()

    def arrive(self, fn):
        if self.closing or self.lost:
            return
        if self.paused or self.pending:
            self.pending.append(fn)
        else:
            fn()

    def data(self, b):
        def f():
            self.loop.note("data", self.conn.idx, len(b))
            self.protocol.data_received(b)

        self.arrive(f)

    def peer_eof(self):
        def f():
            self.loop.note("eof", self.conn.idx)
            if not self.protocol.eof_received():
                self.close()

        self.arrive(f)

    def peer_reset(self, exc):
        def f():
            self.loop.note("reset", self.conn.idx)
            self.closing = True
            self.connection_lost(exc)

        # a reset discards what was not read
        self.pending.clear()
        if not self.closing and not self.lost:
            f()

    def connection_lost(self, exc):
        if not self.lost:
            self.lost = True
            self.protocol.connection_lost(exc)


class _Selector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout=None):
        return self.loop.sim_select(timeout)

    def close(self):
        pass


class SimLoop(asyncio.BaseEventLoop):
    def __init__(self, seed, io_percent, end_us, max_steps=60000):
        self.now_us = 0
        super().__init__()
        self._selector = _Selector(self)
        self.rng = random.Random(seed)
        self.io_percent = io_percent
        self.end_us = end_us
        self.events = []
        self.nev = 0
        self.steps = 0
        self.same = 0
        self.max_steps = max_steps
        self.faults = {}
        self.trace = 0xCBF29CE484222325
        self.listeners = {}
        self.bad = []
        self.set_exception_handler(lambda loop, ctx: self.bad.append(str(ctx.get("message"))))

    def fault(self, name):
        self.faults[name] = self.faults.get(name, 0) + 1

    def note(self, *a):
        h = self.trace
        for c in repr((self.now_us, a)).encode():
            h = ((h ^ c) * 0x100000001B3) & (2**64 - 1)
        self.trace = h

    # -- clock
    def time(self):
        return self.now_us / 1e6

    # -- events of the simulated world
    def at_us(self, t, fn):
        heapq.heappush(self.events, (max(int(t), self.now_us), self.nev, fn))
        self.nev += 1

    def deliver(self):
        n = 0
        while self.events and self.events[0][0] <= self.now_us:
            _, _, fn = heapq.heappop(self.events)
            self.call_soon(fn)
            n += 1
            # one readiness event at a time, or several
            if self.rng.randrange(100) < 50:
                break
        return n

    def sim_select(self, timeout):
        self.steps += 1
        self.same += 1
        if self.same > self.max_steps:
            raise SimHang(f"the event loop spins: {self.same} iterations at {self.now_us} us")
        if timeout is not None and timeout <= 0:
            if self.rng.randrange(100) < self.io_percent:
                self.deliver()
            return []
        # idle: move the clock to the next event or timer
        target = self.end_us
        if timeout is not None:
            target = min(target, self.now_us + max(1, round(timeout * 1e6)))
        if self.events:
            target = min(target, self.events[0][0])
        if target > self.now_us:
            self.now_us = target
            self.same = 0
        if self.deliver() == 0 and self.now_us >= self.end_us:
            raise SimEnd()
        return []

    def _process_events(self, events):
        pass

    def _write_to_self(self):
        pass

    async def create_connection(self, protocol_factory, host=None, port=None, **kw):
        conn = self.listeners.get((host, port))
        if conn is None or conn.refuse:
            self.fault("connect_refused")
            fut = self.create_future()
            self.at_us(self.now_us + 100, lambda: fut.done() or fut.set_result(None))
            await fut
            raise ConnectionRefusedError(111, "Connect call failed")
        fut = self.create_future()
        self.at_us(self.now_us + conn.latency, lambda: fut.done() or fut.set_result(None))
        await fut
        protocol = protocol_factory()
        tr = SimTransport(self, conn, protocol)
        protocol.connection_made(tr)
        conn.connected(tr)
        return tr, protocol
