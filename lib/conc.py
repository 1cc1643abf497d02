"""Concurrent bursts: every connection gets its whole sequence of statements at once, so that the server executes the sequences
in parallel without waiting for this (much slower) client; the responses of one connection arrive in its program order."""
import select, socket, time
from sky import *


class Burst:
    """Statements of one connection: encoded queries, then the parsed responses."""

    def __init__(self, conn):
        self.conn, self.out, self.n, self.got = conn, [], 0, []

    def add(self, query, *params):
        self.out.append(enc_query(query, params))
        self.n += 1


def fire(bursts, limit=60.0, stop=None):
    """Sends all bursts as simultaneously as possible and collects the responses (burst.got).
    A closed connection ends its burst early when `stop` is given (a callable that is called once everything was handed to the kernel)."""
    live = [b for b in bursts if b.n]
    pend = {b: memoryview(b"".join(b.out)) for b in live}
    off = {b: 0 for b in live}
    for b in live:
        b.conn.s.setblocking(False)
        b.closed = False
    fds = {b.conn.s.fileno(): b for b in live}
    t0 = time.time()
    last = t0
    stopped = False
    try:
        poll = select.poll()
        for fd in fds:
            poll.register(fd, select.POLLIN | select.POLLOUT)
        left = set(live)
        raw = {b: [] for b in live}
        counts = {b: Scan(b.conn) for b in live}
        while left:
            if stop is not None and not stopped and all(off[b] == len(pend[b]) for b in left):
                stop()
                stopped = True
            if time.time() - last > limit:
                raise Timeout(f"{sum(b.n - counts[b].done for b in left)} responses of a concurrent burst are missing after {limit:.0f} s")
            for fd, ev in poll.poll(1000):
                b = fds[fd]
                if b not in left:
                    continue
                if ev & select.POLLOUT and off[b] < len(pend[b]):
                    try:
                        off[b] += b.conn.s.send(pend[b][off[b]:off[b] + (1 << 17)])
                        last = time.time()
                    except BlockingIOError:
                        pass
                    except OSError:
                        off[b] = len(pend[b])
                    if off[b] == len(pend[b]):
                        poll.modify(fd, select.POLLIN)
                if ev & (select.POLLIN | select.POLLHUP | select.POLLERR):
                    try:
                        d = b.conn.s.recv(1 << 18)
                    except BlockingIOError:
                        continue
                    except OSError:
                        d = b""
                    if not d:
                        b.closed = True
                        left.discard(b)
                        poll.unregister(fd)
                        if stop is None:
                            raise Closed("during a concurrent burst")
                        continue
                    last = time.time()
                    counts[b].feed(d)
                    if counts[b].done >= b.n:
                        left.discard(b)
                        poll.unregister(fd)
    finally:
        for b in live:
            try:
                b.conn.s.setblocking(True)
                b.conn.s.settimeout(b.conn.timeout)
            except OSError:
                pass
    for b in live:
        b.got = counts[b].got


class More(Exception):
    pass


class Scan:
    """Incremental response parser over a connection's buffer (the connection must be idle)."""

    def __init__(self, conn):
        self.c = conn
        self.p = _Mem()
        self.got, self.done = [], 0

    def feed(self, d):
        p = self.p
        if p.pos:
            p.buf = p.buf[p.pos:]
            p.pos = 0
        p.buf += d
        while p.pos < len(p.buf):
            at = p.pos
            try:
                r = p.response()
            except More:
                p.pos = at
                return
            self.got.append(r)
            self.done += 1


class _Mem(Conn):
    def __init__(self):
        self.buf, self.pos, self.keep = b"", 0, True

    def _fill(self):
        raise More


def sync_all(conns):
    """Every earlier statement of these connections is complete (a trivial query on each)."""
    for c in conns:
        c.q("sysctl report status")


def ticks(srv):
    with open(f"/proc/{srv.p.pid}/stat") as f:
        x = f.read().rsplit(")", 1)[1].split()
    return int(x[11]) + int(x[12])


def fire_alive(srv, bursts, limit=20.0, total=90.0):
    """fire(), but a server that owes responses while it does not use any CPU time for seconds is deadlocked (and not just slow)."""
    from harness import Violation
    st = {"t": ticks(srv), "at": time.time()}
    try:
        fire(bursts, limit)
    except Timeout as e:
        if not srv.alive():
            raise
        idle = 0
        for _ in range(6):
            a = ticks(srv)
            time.sleep(1.0)
            idle += ticks(srv) - a <= 1
        if idle >= 5:
            raise Violation(f"the server is deadlocked: {e}, all statements were sent, and the server is idle")
        raise
