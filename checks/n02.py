import select as _select
import socket
import ssl
import time
import n03
from hist import *


def quick_ack(s):
    try:
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_QUICKACK, 1)
    except OSError:
        pass


def cuts(r, stream, bounds):
    """Segment boundaries: lists of (end offset, pause in seconds)."""
    n = len(stream)
    k = r.choice(["one", "random", "random", "bytes", "around", "around", "blocks", "two", "headers"])
    if k == "one":
        c = []
    elif k == "two":
        c = [r.randrange(1, n)]
    elif k == "random":
        c = [r.randrange(1, n) for _ in range(r.choice([1, 3, 10, 40]))]
    elif k == "bytes":
        # single bytes over a window, the rest in one piece
        w = r.choice([8, 40, 150])
        a = r.choice([0, r.randrange(n), max(0, r.choice(bounds) - w // 2)])
        c = list(range(max(1, a), min(n, a + w)))
    elif k == "around":
        # next to packet boundaries
        c = [b + r.choice([-2, -1, 0, 1, 2, 3, 4, 5]) for b in bounds if r.random() < 0.7]
    elif k == "headers":
        c = [b + x for b in bounds for x in range(r.choice([3, 6, 9])) if r.random() < 0.6]
    else:
        w = r.choice([1, 2, 3, 7, 64, 1000, 1448, 4096])
        c = list(range(w, n, w))
        if len(c) > 400:
            c = c[:400]
    c = sorted({x for x in c if 0 < x < n})
    p = r.choice([0, 0.3, 1.0])
    return k, [(x, r.choice([0.0002, 0.0005, 0.001]) if r.random() < p and len(c) < 200 else 0) for x in c] + [(n, 0)]


def drive(addr, stream, segs, want, limit=30.0, tls=None):
    """Sends the stream in the given segments, reading all the while; returns what was received until `want` bytes arrived (or eof, or the limit)."""
    s = socket.create_connection(addr, timeout=20)
    s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
    if tls is not None:
        s = tls.wrap_socket(s, server_hostname=addr[0])
    s.setblocking(False)
    got, pos, i, end, resume = bytearray(), 0, 0, time.time() + limit, 0.0
    note = None
    try:
        while True:
            now = time.time()
            if now > end:
                note = "timeout"
                break
            sending = i < len(segs) and now >= resume
            pend = getattr(s, "pending", lambda: 0)()
            if not sending and i >= len(segs) and len(got) >= want:
                # anything more?
                rd, _, _ = _select.select([s], [], [], 0.002)
                if rd:
                    try:
                        d = s.recv(65536)
                    except OSError:
                        d = b""
                    got += d
                break
            rd, wr, _ = _select.select([s], [s] if sending else [], [], 0 if pend else max(0.0, resume - now) if i < len(segs) and not sending else 0.5)
            if rd or pend:
                try:
                    d = s.recv(65536)
                    quick_ack(s)
                    if not d:
                        note = "closed"
                        break
                    got += d
                except (BlockingIOError, ssl.SSLWantReadError, ssl.SSLWantWriteError):
                    pass
                except OSError as e:
                    note = f"reset ({e})"
                    break
            if wr and sending:
                e_, pause = segs[i]
                try:
                    pos += s.send(stream[pos:e_])
                except (BlockingIOError, ssl.SSLWantReadError, ssl.SSLWantWriteError):
                    pass
                except OSError as e:
                    note = f"reset while sending ({e})"
                    break
                if pos >= e_:
                    i += 1
                    resume = time.time() + pause
    finally:
        s.close()
    return bytes(got), note


def script(r, s, users):
    """Packets of one session: (bytes, final?)."""
    u, p = r.choice(users)
    out = [b"H\0\0\0\0\0%d\n%d\n" % (len(u), len(p)) + u + p]
    if (u, p) not in users[:2]:
        return out, True
    Q = lambda q, *ps: out.append(enc_query(q, ps))
    Q(f"create space {s}")
    Q(f"create model {s}.m(k: uint64, v: string, l: list {{ type: uint64 }}, null f: float64)")
    Q(f"create model {s}.t(name: string, b: binary)")
    for _ in range(r.choice([4, 10, 25])):
        k = r.random()
        key = P("uint", r.randrange(3))
        if k < 0.25:
            v = P("str", gen_text(r)) if r.random() < 0.8 else P("str", "z" * r.choice([300, 1500, 5000, 70000]))
            Q(f"insert into {s}.m(?, ?, [{', '.join('?' * r.randrange(3))}], null)".replace("[, ", "["), key, v, P("uint", 5), P("uint", 6))
        elif k < 0.4:
            Q(f"select * from {s}.m where k = ?", key)
        elif k < 0.5:
            Q(f"update {s}.m set v += ?, f = ? where k = ?", P("str", gen_text(r)), P("float", 1.25), key)
        elif k < 0.55:
            Q(f"delete from {s}.m where k = ?", key)
        elif k < 0.6:
            Q("sysctl report status")
        elif k < 0.65:
            Q(r.choice([f"use {s}", "use null", "use $current"]))
        elif k < 0.7:
            Q(f"select v from m where k = ?", key)
        elif k < 0.78:
            Q(f"insert into {s}.t(?, ?)", P("str", "a"), P("bin", gen_bytes(r)))
        elif k < 0.83:
            Q(f"select all * from {s}.t limit ?", P("uint", 5))   # at most one row is ever stored
        else:
            t, ps = r.choice([x for x in n03.TEMPLATES if "uuid" not in x[0] and "all" not in x[0] and "inspect" not in x[0] and "{x}" not in x[0] and "{t}" not in x[0] and "sysctl" not in x[0]])
            toks, params, _ = n03.mutate(r, t.replace("{m}", s + ".m").replace("{s}", s).split(" "), [n03.rand_param(r, x) for x in ps])
            q = " ".join(toks)
            if any(x in q for x in (" all ", "inspect", "uuid", "timesec", "create", "drop", "alter", "sysctl")):
                q, params = "select", []
            out.append(enc_query(q.encode("latin-1"), params))
    fatal = False
    if u == b"root" and r.random() < 0.3:
        out.append(r.choice([b"X0\n0\nabcd", b"S3\n9\na", b"S1x\n0\n", b"SS\n\n\n\n", b"S3\n1a", b"S99999999999999999999", b"S0\n0\n00", b"\0\0\0\0\0\0\0", b"H\0\0\0\0\0\0"]))
        fatal = True
    return out, fatal


class C(Check):
    pid = "N02"
    technique = "metamorphic testing: one byte stream, many segmentations, byte-identical responses"
    rule = ("a case is a session byte stream (login, sometimes refused; DDL, DML, broken statements, parameters up to 70 KB; sometimes an illegal packet at the end) that is first sent packet by packet, waiting for each response, and then five more times in other "
            "segmentations: all at once, split at random offsets, byte by byte over a window, in blocks of 1 to 4096 bytes, around the packet boundaries and inside the headers, with and without pauses between the segments. "
            "The bytes received must be identical each time. Non-trivial: at least 6 responses and 4 kinds of segmentation")
    quick = 2000
    thorough = 40000
    shrink_keys = ("segs",)

    def gen(self, r, i, tier):
        return {"s": r.getrandbits(32), "segs": [r.getrandbits(32) for _ in range(5)]}

    def users(self, srv):
        return [(b"root", srv.pw.encode()), (b"root", srv.pw.encode()), (b"root", b"wrong"), (b"nobody", b"x")]

    def run(self, env, case):
        srv = env.server()
        root = env.conn()
        s = env.name("s")
        r = Random(case["s"])
        us = self.users(srv)
        packets, fatal = script(r, s, us if r.random() < 0.1 else us[:2])
        # reference: one packet at a time
        c = Conn(srv.addr, login=False)
        c.keep = True
        try:
            c.send(packets[0])
            code = c.read_hs()
            for p in packets[1:]:
                c.send(p)
                c.response()
            ref = c.buf
            if c.pos != len(c.buf):
                raise Violation(f"extra bytes {c.buf[c.pos:][:60]!r} after the last response")
        finally:
            c.close()
        stream = b"".join(packets)
        kinds = set()
        offs, pos = [], 0
        for p in packets:
            offs.append(pos)
            pos += len(p)
        for seed in case["segs"]:
            root.q(f"drop space allow not empty {s}")
            rr = Random(seed)
            kind, segs = cuts(rr, stream, offs)
            got, note = drive(srv.addr, stream, segs, len(ref))
            kinds.add(kind)
            env.count("split:" + kind)
            if note == "timeout" and ref.startswith(got):
                raise Timeout(f"only {len(got)} of {len(ref)} response bytes arrived when the stream {short(repr(stream), 300)} was cut at {[x for x, _ in segs][:40]}")
            if got != ref:
                k = next((i for i, (a, b) in enumerate(zip(got, ref)) if a != b), min(len(got), len(ref)))
                raise Violation(f"{len(packets)} packets cut at {[x for x, _ in segs][:40]} ({kind}) got {len(got)} response bytes ({note}) where packet by packet gives {len(ref)}; first difference at {k}: "
                                f"{got[k:k+60]!r} instead of {ref[k:k+60]!r}\n    stream: {short(repr(stream), 1500)}")
        root.q(f"drop space allow not empty {s}")
        env.count("sessions:refused" if code is not None else "sessions:illegal-end" if fatal else "sessions:plain")
        return len(packets) >= 6 and len(kinds) >= 3

    def sample(self, case):
        class S:
            pw = ROOT_PW
        packets, _ = script(Random(case["s"]), "s", self.users(S)[:2])
        stream = b"".join(packets)
        return {"bytes": len(stream), "packets": len(packets), "cuts": [cuts(Random(x), stream, [0])[0] for x in case["segs"]]}


CHECK = C()
