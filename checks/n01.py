import select as _select
import socket
import struct
import time
import n03
from hist import *

LENS = [b"0", b"1", b"2", b"5", b"9", b"10", b"255", b"256", b"65535", b"65536", b"1048576", b"2147483647", b"2147483648", b"4294967295", b"4294967296", b"9223372036854775807", b"9223372036854775808",
        b"18446744073709551612", b"18446744073709551614", b"18446744073709551615", b"18446744073709551616", b"99999999999999999999999", b"-1", b"+1", b" 1", b"1 ", b"", b"x", b"0x10", b"00000000000000000001", b"\xff", b"1.5"]


def num(r, n):
    k = r.random()
    if k < 0.4:
        return b"%d" % max(0, n + r.choice([-3, -2, -1, 0, 0, 1, 2, 3]))
    return r.choice(LENS)


def hello(r, user=b"root", pw=ROOT_PW.encode()):
    """A handshake, mostly damaged."""
    k = r.random()
    u, p = user, pw
    if k < 0.2:
        u, p = gen_bytes(r), gen_bytes(r)
    head = bytearray(b"H\0\0\0\0\0")
    if r.random() < 0.3:
        for _ in range(r.randrange(1, 4)):
            head[r.randrange(6)] = r.randrange(256)
    b = bytes(head) + num(r, len(u)) + b"\n" + num(r, len(p)) + b"\n" + u + p
    return damage(r, b) if r.random() < 0.3 else b


def damage(r, b):
    b = bytearray(b)
    for _ in range(r.choice([1, 1, 2, 5])):
        if not b:
            break
        i = r.randrange(len(b))
        m = r.randrange(6)
        if m == 0:
            del b[i:]
        elif m == 1:
            b[i] ^= 1 << r.randrange(8)
        elif m == 2:
            b[i:i] = r.randbytes(r.choice([1, 2, 8]))
        elif m == 3:
            del b[i:i + r.choice([1, 2, 8])]
        elif m == 4:
            b[i] = r.choice([0, 10, 255, 48, 57])
        else:
            b += b[i:i + 30]
    return bytes(b)


def packet(r, s):
    """A query packet, mostly damaged in its framing, text or parameters."""
    k = r.random()
    if k < 0.12:
        return r.randbytes(r.choice([1, 5, 6, 30, 300, 5000]))
    if k < 0.2:
        # nesting and length
        n = r.choice([50, 200, 1000, 20000])
        q = r.choice([f"insert into {s}.m(?, " + "[" * n, f"insert into {s}.m(" + "[" * n + "]" * n + ")", "create space zz with " + "{a: " * n, f"create model {s}.zz(k: string, l: " + "list { type: " * n,
                      "(" * n, "?" * n, "a." * n, "a" * n, "select " + ", ".join("a" for _ in range(n)) + f" from {s}.m where k = ?", "@" * n, f"insert into {s}.m(" + "null, " * n + ")",
                      f"select * from {s}.m where " + " and ".join("k = ?" for _ in range(n)), "\n" * n, f"update {s}.m set " + ", ".join("v = ?" for _ in range(n)) + " where k = ?"])
        return enc_query(q, [n03.rand_param(r) for _ in range(r.randrange(3))])
    t, ps = r.choice(n03.TEMPLATES)
    q = t.replace("{m}", s + ".m").replace("{t}", s + ".t").replace("{s}", s).replace("{x}", s + "x").encode()
    if r.random() < 0.4:
        toks, params, _ = n03.mutate(r, q.decode().split(" "), [n03.rand_param(r, x) for x in ps])
        q = " ".join(toks).encode("latin-1")
        ps = params
    else:
        ps = [n03.rand_param(r, x) for x in ps]
    if r.random() < 0.1:
        q = damage(r, q)
    ps = b"".join(enc_param(p) for p in ps)
    if r.random() < 0.35:
        return enc_query(q) if not ps else b"S%d\n" % (len(b"%d\n" % len(q)) + len(q) + len(ps)) + b"%d\n" % len(q) + q + ps
    win = num(r, len(q)) + b"\n"
    b = b"S" + num(r, len(win) + len(q) + len(ps)) + b"\n" + win + q + ps
    return damage(r, b) if r.random() < 0.3 else b


class C(Check):
    pid = "N01"
    technique = "structure-aware fuzzing of live connections with health, memory, descriptor and bystander-session oracles"
    rule = ("a case opens 30 hostile connections (up to 12 at a time) to a live server, before and after login as root or as a plain user: random bytes, damaged handshakes with overflowing or contradictory lengths, query packets damaged in framing, text or parameters, "
            "20000-fold nesting, declared sizes up to 2^64, up to 1 MB of junk, requests for a large result that is never read; each ends by closing, resetting, half-closing, or staying silent. Between the steps a bystander session reads and writes "
            "its rows and new logins are made. The server must answer them correctly, must not log a panic or exit, must keep rows of a protected space unchanged, and must release descriptors and memory when the clients are gone. Non-trivial: at least 8 connections got an answer and all kinds of ending occurred")
    quick = 500
    thorough = 15000
    shrink_keys = ("conns",)
    assumptions = ["memory: RSS 3 s after the last client is gone may exceed the baseline of the worker by at most 160 MB at any time"]

    def gen(self, r, i, tier):
        return {"conns": [{"s": r.getrandbits(32), "k": r.choice(["raw", "hello", "hello", "root", "root", "root", "user", "flood", "unread"]), "e": r.choice(["close", "close", "rst", "half", "silent", "mid"])} for _ in range(30)]}

    def prep(self, env):
        srv = env.server()
        d = env.data.get("n01")
        if d and d["srv"] is srv:
            return d
        c = env.conn()
        for q in ("create space keep", "create model keep.m(k: uint64, v: string)", "create model keep.big(k: uint64, v: string)", "sysctl create user plain with { password: ? }"):
            expect(c.q(q, *([P("str", "plain-password-123")] if "?" in q else [])), EMPTY, q)
        for i in range(40):
            expect(c.q("insert into keep.m(?, ?)", P("uint", i), P("str", f"value {i}")), EMPTY, "insert")
        for i in range(1500):
            c.send(enc_query("insert into keep.big(?, ?)", [P("uint", i), P("str", "z" * 1000)]))
            if i % 50 == 49:
                for _ in range(50):
                    expect(c.response(), EMPTY, "insert")
        d = {"srv": srv, "n": 0, "log": 0}
        d["rss"] = self.rss(srv)
        d["fd"] = self.fds(srv)
        env.data["n01"] = d
        return d

    def rss(self, srv):
        for l in open(f"/proc/{srv.p.pid}/status"):
            if l.startswith("VmRSS"):
                return int(l.split()[1]) // 1024
        return 0

    def fds(self, srv):
        n = 0
        for x in os.listdir(f"/proc/{srv.p.pid}/fd"):
            try:
                n += os.readlink(f"/proc/{srv.p.pid}/fd/{x}").startswith("socket:")
            except OSError:
                pass
        return n

    def run(self, env, case):
        d = self.prep(env)
        srv, c = d["srv"], env.conn()
        s = env.name("h")
        for q in (f"create space {s}", f"create model {s}.m(k: uint64, v: string, l: list {{ type: uint64 }}, null f: float64)", f"create model {s}.t(name: string, ll: list {{ type: list {{ type: binary }} }}, b: bool, s: sint32)"):
            expect(c.q(q), EMPTY, q)
        own = {}
        live, answered, ends = [], 0, set()

        def drain(x):
            nonlocal answered
            try:
                if x.recv(65536):
                    answered += 1
            except OSError:
                pass

        for n, op in enumerate(case["conns"]):
            r = Random(op["s"])
            x = socket.create_connection(srv.addr, timeout=10)
            x.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            x.settimeout(0.02)
            k = op["k"]
            if k == "raw":
                data = [r.randbytes(r.choice([1, 5, 6, 7, 50, 1000])) for _ in range(r.choice([1, 2]))]
            elif k == "hello":
                data = [hello(r) for _ in range(r.choice([1, 1, 2]))]
            else:
                u, p = (b"root", srv.pw.encode()) if k != "user" else (b"plain", b"plain-password-123")
                data = [b"H\0\0\0\0\0%d\n%d\n" % (len(u), len(p)) + u + p]
                if k == "flood":
                    data += [r.choice([b"S18446744073709551615\n3\n", b"S1000000000\n500000000\n", b"S", b""]) + r.choice([b"1", b"A", b"\0", b"?", b"["]) * r.choice([1000, 100000, 1000000])]
                elif k == "unread":
                    data += [enc_query("select all * from keep.big limit ?", [P("uint", 100000)]) * r.choice([1, 3])]
                else:
                    data += [packet(r, s) for _ in range(r.choice([1, 3, 8]))]
            if op["e"] == "mid" and data[-1]:
                data[-1] = data[-1][:r.randrange(len(data[-1]))]
            try:
                for b in data:
                    if k == "flood" or len(b) > 20000:
                        x.settimeout(2)
                    x.sendall(b)
                    x.settimeout(0.02)
                    if k != "unread" and r.random() < 0.6:
                        drain(x)
                    if r.random() < 0.3:
                        self.bystander(c, r, own)
            except OSError:
                pass
            ends.add(op["e"])
            env.count(f"{k}:{op['e']}")
            try:
                if op["e"] == "rst":
                    x.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
                    x.close()
                elif op["e"] == "half":
                    x.shutdown(socket.SHUT_WR)
                    live.append(x)
                elif op["e"] in ("silent", "mid"):
                    live.append(x)
                else:
                    x.close()
            except OSError:
                pass
            while len(live) > 12:
                live.pop(0).close()
            if n % 6 == 5:
                self.bystander(c, r, own)
                srv.conn().close()
        for x in live:
            drain(x)
        self.bystander(c, Random(1), own, full=True)
        for x in live:
            x.close()
        if not srv.alive():
            raise Violation(f"the server exited with {srv.p.poll()}")
        log = srv.log(d["log"])
        if "panicked at" in log:
            i = log.index("panicked at")
            raise Violation(f"the server panicked: {log[max(0, i - 60):i + 300]}")
        d["log"] += max(0, len(log.encode()) - 200)
        # everything the clients held is released
        end = time.time() + 10
        while self.fds(srv) > d["fd"] and time.time() < end:
            time.sleep(0.005)
        if self.fds(srv) > d["fd"]:
            raise Violation(f"10 s after all hostile connections were closed the server still holds {self.fds(srv)} sockets, {d['fd']} before")
        d["n"] += 1
        if self.rss(srv) > d["rss"] + 160:
            time.sleep(3)
            if self.rss(srv) > d["rss"] + 160:
                raise Violation(f"the server's memory grew from {d['rss']} MB to {self.rss(srv)} MB over {d['n']} cases and stays there")
        for q in (f"drop space allow not empty {s}", f"drop space allow not empty {s}x"):
            c.q(q)
        return answered >= 8 and len(ends) >= 4

    def bystander(self, c, r, own, full=False):
        k = r.randrange(40)
        g = c.q("select v from keep.m where k = ?", P("uint", k))
        if g != ("row", [V("string", b"value %d" % k)]):
            raise Violation(f"a bystander session read {g!r} instead of the row {k} of keep.m")
        if full:
            g = c.q("select all * from keep.m limit ?", P("uint", 1000))
            if g[0] != "rows" or sorted((a.v, b.v) for a, b in g[1]) != sorted((i, b"value %d" % i) for i in range(40)):
                raise Violation(f"the protected rows changed: {g!r}")
            g = c.q("inspect model keep.big")
            if b'"rows":1500' not in g[1].v:
                raise Violation(f"the protected model changed: {g!r}")
            g = c.q("inspect global")
            if b'"keep"' not in g[1].v or b'"plain"' not in g[1].v:
                raise Violation(f"the catalogue changed: {g!r}")

    def sample(self, case):
        r = Random(case["conns"][0]["s"])
        return [f"{o['k']}:{o['e']}" for o in case["conns"][:8]] + [short(repr(packet(r, "s")), 150)]


CHECK = C()
