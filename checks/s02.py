"""S02: memory and descriptors depend on what is stored, not on how much was done."""
import socket
from random import Random
from conc import *
from faults import *
from harness import *
from refdb import EMPTY

FLOOR = 0.06    # MB; smaller growth of a segment is not looked at
ROUGH = 1.6     # the same where only the resident memory can be seen
KEYS = {"uint64": lambda n, w: P("uint", n), "sint64": lambda n, w: P("sint", -n), "string": lambda n, w: P("str", f"key-{n}-" + "k" * w), "binary": lambda n, w: P("bin", b"key-%d-" % n + b"k" * w)}
TYPES = ["string", "binary", "uint64", "float64", "list { type: string }", "list { type: uint64 }", "list { type: list { type: binary } }"]


def value(r, t):
    n = r.choice([0, 5, 40, 900, 4000])
    return {"string": ("?", [P("str", "v" * n)]), "binary": ("?", [P("bin", b"v" * n)]), "uint64": ("?", [P("uint", n)]), "float64": ("?", [P("float", n + 0.5)]),
            "list { type: string }": ("[" + ", ".join("?" for _ in range(n % 7)) + "]", [P("str", "e" * n) for _ in range(n % 7)]),
            "list { type: uint64 }": ("[" + ", ".join("?" for _ in range(n % 37)) + "]", [P("uint", n) for _ in range(n % 37)]),
            "list { type: list { type: binary } }": ("[[?], [], [?, ?]]", [P("bin", b"n" * (n // 3))] * 3)}[t]


class Lap:
    """The statements of one session that leave everything as it was, with the kinds of answers that they may get."""

    def __init__(self, r, who, srv):
        self.r, self.who, self.srv = r, who, srv
        self.st = []
        self.setup = []
        self.sock = []
        self.kinds = []

    def add(self, q, *ps):
        self.st.append((q, ps))

    def b_rows(self, m):
        r = self.r
        kt, w, n = r.choice(sorted(KEYS)), r.choice([0, 8, 600]), r.choice([1, 20, 150])
        vt = [r.choice(TYPES) for _ in range(r.choice([1, 2, 4]))]
        self.setup.append(f"create model {m}(k: {kt}, {', '.join(f'null v{i}: {t}' for i, t in enumerate(vt))})")
        key = KEYS[kt]
        for j in range(n):
            vs = [value(r, t) for t in vt]
            self.add(f"insert into {m}(?, {', '.join(v[0] for v in vs)})", key(j, w), *sum((v[1] for v in vs), []))
        for j in range(n):
            for _ in range(r.choice([0, 1, 2])):
                i = r.randrange(len(vt))
                if vt[i] == "string" and r.random() < 0.5:
                    self.add(f"update {m} set v{i} += ? where k = ?", P("str", "+" * r.choice([1, 300])), key(j, w))
                elif vt[i] == "list { type: string }" and r.random() < 0.7:
                    self.add(f"update {m} set v{i} += ? where k = ?", P("str", "+" * r.choice([1, 300])), key(j, w))
                elif vt[i] in ("string", "binary", "uint64", "float64"):
                    x = value(r, vt[i])
                    self.add(f"update {m} set v{i} = {x[0]} where k = ?", *x[1], key(j, w))
                else:
                    self.add(f"update {m} set v{i} += ? where k = ?", P("bool", True), key(j, w))   # refused
            if r.random() < 0.5:
                self.add(f"select * from {m} where k = ?", key(j, w))
            if r.random() < 0.3:
                self.add(f"insert into {m}(?, {', '.join('null' for _ in vt)})", key(j, w))          # refused
        if r.random() < 0.5:
            self.add(f"select all * from {m} limit ?", P("uint", 1000))
        order = list(range(n))
        r.shuffle(order)
        for j in order:
            self.add(f"delete from {m} where k = ?", key(j, w))

    def b_refused(self, m):
        r = self.r
        self.setup.append(f"create model {m}(k: string, v: string, l: list {{ type: string }})")
        text = "b" * r.choice([10, 3000])
        big, bin_ = P("str", text), P("bin", text.encode())
        pool = [(f"insert into {m}(?, ?, [?, ?])", big, big, big, P("uint", 1)), (f"insert into {m} {{ k: ?, v: ?, l: [?, ?], x: ? }}", big, big, big, big, big), (f"insert into {m}(?, ?)", big, big),
                (f"update {m} set v = ?, l += ? where k = ?", big, big, big), (f"update {m} set v = ?, z = ? where k = ?", big, big, big), (f"select v, zz from {m} where k = ?", big),
                (f"select * from {m} where v = ?", big), (f"delete from {m} where k = ?", big), (f"delete from {m} where k = ?", bin_), (f"inspect model {m}x",), ("inspect space nospace",),
                ("frobnicate " + "a" * len(text),), (f"create model {m}(k: string, v: string)",), (f"create model {m}y(k: string, k: string, v: " + "list { type: " * 4 + "string" + " }" * 4 + ")",),
                (f"create model {m}y(k: list {{ type: string }}, v: string)",), (f"create space {m.split('.')[0]}",), (f"create space {m.split('.')[0]}q with {{ env: {{ a: ? }}, b: {{ c: ? }} }}", big, big),
                (f"alter model {m} add (n1 {{ type: string }}, v {{ type: string }})",), (f"alter model {m} update v {{ type: uint8 }}",), (f"alter model {m} remove (l, nn)",), (f"drop model {m}x",),
                (f"drop space {m.split('.')[0]}",), (f"insert into {m}(?, ?, [[?]])", big, big, big), (f"insert into {m}(?, ?, [?", big, big, big), ("sysctl create user root with { password: ? }", big),
                ("sysctl drop user nobodyhere",), ("sysctl alter user nobodyhere with { password: ? }", big), (f"create space {m.split('.')[0]}q with {{ env: {{ a: {{ b: ?, c: [?] }} }} }}", big, big)]
        for st in r.sample(pool, r.choice([3, 8])) * r.choice([4, 20]):
            self.add(*st)

    def b_models(self, m):
        r = self.r
        v = P("str", "m" * r.choice([1, 4000]))
        for _ in range(r.choice([2, 12])):
            self.add(f"create model {m}(k: string, {'f' * r.choice([1, 60])}a: string, b: list {{ type: list {{ type: string }} }})")
            for j in range(r.choice([0, 1, 5])):
                self.add(f"insert into {m}(?, ?, [[?]])", P("str", f"{j}" + "k" * r.choice([0, 500])), v, v)
            if r.random() < 0.4:
                self.add(f"alter model {m} add n {{ type: string, nullable: true }}")
            if r.random() < 0.4:
                self.add(f"alter model {m} remove b")
            self.add(f"inspect model {m}")
            self.add(f"drop model allow not empty {m}")

    def b_spaces(self, m):
        r = self.r
        s = m.replace(".", "x")
        v = P("str", "p" * r.choice([1, 3000]))
        for _ in range(r.choice([2, 15])):
            self.add(f"create space {s} with {{ env: {{ a: ?, b: {{ c: ? }} }} }}", v, v)
            if r.random() < 0.6:
                self.add(f"alter space {s} with {{ env: {{ a: ?, d: ? }} }}", P("uint", 7), v)
            if r.random() < 0.3:
                self.add(f"alter space {s} with {{ env: {{ b: null, a: ? }} }}", v)
            if r.random() < 0.6:
                self.add(f"use {s}")
                self.add("inspect space $current")
            if r.random() < 0.4:
                self.add(f"create model {s}.m(k: string, v: string)")
                self.add(f"insert into {s}.m(?, ?)", v, v)
            self.add("use null")
            self.add(f"drop space allow not empty {s}")
        self.add("inspect global")

    def b_users(self, m):
        u = "u" + m.replace(".", "x")
        for _ in range(self.r.choice([1, 4])):
            self.add(f"sysctl create user {u} with {{ password: ? }}", P("str", "p" * self.r.choice([1, 60])))
            self.add(f"sysctl alter user {u} with {{ password: ? }}", P("str", "q" * self.r.choice([1, 60])))
            self.add(f"sysctl drop user {u}")

    def b_alter(self, m):
        r = self.r
        self.add(f"create model {m}(k: uint64, v: string)")          # and dropped at the end: a model remembers its former fields for its life
        self.add(f"insert into {m}(?, ?)", P("uint", 1), P("str", "a"))
        v = P("str", "w" * 2000)
        for _ in range(r.choice([1, 3])):
            self.add(f"alter model {m} add (w {{ type: string, nullable: true }}, x {{ type: list {{ type: string }}, nullable: true }})")
            self.add(f"update {m} set w = ? where k = ?", v, P("uint", 1))
            self.add(f"select * from {m} where k = ?", P("uint", 1))
            self.add(f"alter model {m} remove (w, x)")
        self.add(f"delete from {m} where k = ?", P("uint", 1))
        self.add(f"drop model {m}")

    def b_lists(self, m):
        """Lists of all sizes that grow, are emptied and replaced, in statements that apply and in ones that are undone half way."""
        r = self.r
        cols = r.choice([1, 3, 12])
        self.setup.append(f"create model {m}(k: uint64, u: uint8, {', '.join(f'null v{i}: list {{ type: string }}' for i in range(cols))})")
        e = lambda: P("str", "e" * r.choice([0, 1, 30, 400]))
        for j in range(r.choice([1, 30, 100])):
            ls = [r.choice([0, 0, 0, 1, 5]) for _ in range(cols)]
            if r.random() < 0.1:
                self.add(f"insert into {m}(?, ?, {', '.join('null' for _ in ls)})", P("uint", j), P("uint", 200))
            else:
                self.add(f"insert into {m}(?, ?, {', '.join('[' + ', '.join('?' * n) + ']' for n in ls)})", P("uint", j), P("uint", 200), *[e() for n in ls for _ in range(n)])
            for _ in range(r.choice([0, 1, 1, 3])):
                some = r.sample(range(cols), r.randint(1, cols))
                sets, ps = [], []
                for i in some:
                    sets.append(f"v{i} += ?")
                    ps.append(e())
                if r.random() < 0.6:
                    sets.append("u += ?")           # out of range
                    ps.append(P("uint", 255))
                self.add(f"update {m} set {', '.join(sets)} where k = ?", *ps, P("uint", j))
            self.add(f"delete from {m} where k = ?", P("uint", j))

    def b_sessions(self, m):
        k = self.r.choice(["good", "bad password", "bad user", "closed early", "no login", "junk"])
        self.sock += [k] * self.r.choice([2, 10])
        self.kinds.append(k)

    def connect(self, k):
        srv = self.srv
        if k == "good":
            srv.conn().close()
            return
        x = socket.create_connection(srv.addr, timeout=20)
        x.settimeout(20)
        try:
            pw = srv.pw.encode()
            if k == "no login":
                return
            if k == "closed early":
                x.sendall(b"H\0\0\0\0\0" + b"4\n%d\nro" % len(pw))
                return
            if k == "junk":
                x.sendall(b"H\0\0\0\0\0" + b"4\n%d\nroot" % len(pw) + pw + b"S99999999999999999999\nxx")
                x.recv(100)
                return
            u, p = (b"root", b"x" * 2000) if k == "bad password" else (b"n" * 3000, pw)
            x.sendall(b"H\0\0\0\0\0" + b"%d\n%d\n" % (len(u), len(p)) + u + p)
            x.recv(100)
        finally:
            x.close()


class C(Check):
    pid = "S02"
    technique = "generated cyclic workloads that leave the database as it was, with growth of memory and descriptors over laps of doubling number as the oracle"
    rule = ("a case is a server (windows that pass quickly) and 1 to 4 sessions; each repeats its own generated lap of statements that leaves the database as it was: rows of any key and column types inserted, updated, pushed to, read and deleted again, models, spaces and users "
            "created, altered and dropped, fields added and removed, refused statements of all kinds, sessions that log in, are refused, or break off. The laps run concurrently, first n times to warm up, then n, 2n and 4n times (n is as many as take about half a second). "
            "What the allocator has handed out, measured after the work in flight has drained, must not grow by ever larger amounts as the number of laps doubles (growth below 60 KB in a segment is not looked at; a suspicion is confirmed by 8n and 16n more laps), the number of descriptors and threads must be the same after each segment, "
            "and each lap must be answered like the first one. Non-trivial: at least 1500 statements were accepted and 3 kinds of blocks occurred")
    quick = 24
    thorough = 800
    workers = 6
    cap = {"quick": 300, "thorough": 3000}
    tries = 2
    deterministic = False
    shrink_keys = ()
    BLOCKS = {"rows": 6, "lists": 2.5, "refused": 2, "models": 2, "spaces": 1.5, "users": 0.5, "alter": 0.5, "sessions": 1}
    assumptions = ["leaks of less than about 60 KB in all the laps of a case are not seen", "a model remembers the fields that it once had (about 90 bytes for each ALTER), so laps drop the models that they alter", "the journals on disk grow with the work, which is not looked at"]

    def gen(self, r, i, tier):
        return {"sessions": [{"s": r.getrandbits(32), "b": r.choices(list(self.BLOCKS), list(self.BLOCKS.values()), k=r.choice([1, 2, 3]))} for _ in range(r.choice([1, 2, 3, 4]))],
                "speed": r.choice([10, 40])}

    def memory(self, srv, conns, prev=None):
        """MB in use once what is in flight (rows to be flushed, garbage that waits for readers) has been dealt with."""
        best = None
        for i in range(25):
            bs = []
            for n, x in enumerate(conns):
                b = Burst(x)
                for j in range(120):
                    b.add("insert into s0.nudge(?, ?)", P("str", f"{n}-{j}"), P("uint", 1))
                    b.add("delete from s0.nudge where k = ?", P("str", f"{n}-{j}"))
                bs.append(b)
            fire_alive(srv, bs)
            time.sleep(0.12)
            now = self.heap.bytes()
            if now is None:
                self.floor = ROUGH
                for l in open(f"/proc/{srv.p.pid}/status"):
                    if l.startswith("VmRSS"):
                        now = int(l.split()[1]) * 1024
            best = now if best is None else min(best, now)
            if i >= 3 and (prev is None or best / 1048576 <= prev + FLOOR / 4) or i >= 6 and self.floor == ROUGH:
                break
        return best / 1048576

    def fds(self, srv):
        """Open files, sockets excluded, and threads."""
        n = 0
        for f in os.listdir(f"/proc/{srv.p.pid}/fd"):
            try:
                t = os.readlink(f"/proc/{srv.p.pid}/fd/{f}")
                n += not t.startswith("socket:")
            except OSError:
                pass
        return n, len(os.listdir(f"/proc/{srv.p.pid}/task"))

    def run(self, env, case):
        env.reset()
        heap = Heap(env.exe)
        srv = env.server(window=1, env=dict(flushing(case["speed"], 0).get("env", {}), **heap.env()))
        self.heap, self.floor = heap, FLOOR
        c = srv.conn()
        laps, conns, pend = [], [], []
        try:
            for n, s in enumerate(case["sessions"]):
                l = Lap(Random(s["s"]), n, srv)
                expect(c.q(f"create space s{n}"), EMPTY, "create space")
                for j, b in enumerate(s["b"]):
                    getattr(l, "b_" + b)(f"s{n}.m{j}")
                for q in l.setup:
                    expect(c.q(q), EMPTY, q)
                laps.append(l)
                conns.append(srv.conn())
            expect(c.q("create model s0.nudge(k: string, v: uint64)"), EMPTY, "create model")
            first = [None] * len(laps)
            blobs = [[enc_query(q, ps) for q, ps in l.st] for l in laps]
            done = 0

            def go(k):
                nonlocal done
                while k > 0:
                    bs = []
                    rep = min(k, max(1, 3000 // max(1, max(map(len, blobs)))))
                    for l, x, blob in zip(laps, conns, blobs):
                        b = Burst(x)
                        b.out, b.n = blob * rep, len(blob) * rep
                        bs.append(b)
                    fire_alive(srv, bs)
                    for _ in range(rep):
                        for l in laps:
                            for kind in l.sock:
                                l.connect(kind)
                    for i, (b, blob) in enumerate(zip(bs, blobs)):
                        if not blob:
                            continue
                        got = [b.got[j:j + len(blob)] for j in range(0, len(b.got), len(blob))]
                        sig = [[(g[0], g[1]) if g[0] == "err" else g[0] for g in lap] for lap in got]
                        if first[i] is None:
                            first[i] = sig[0]
                            done_ok[0] += sum(isinstance(g, str) for g in sig[0])
                        for lap in sig:
                            if lap != first[i]:
                                j = next(j for j in range(len(lap)) if lap[j] != first[i][j])
                                raise Violation(f"a lap that leaves everything as it was is answered differently the next time: {short(laps[i].st[j][0], 200)}: {first[i][j]}, then {lap[j]}")
                    k -= rep
                    done += rep
            done_ok = [0]
            t0 = time.time()
            n = 0
            while time.time() - t0 < 0.5:
                go(max(1, n))
                n = done
            marks = [self.memory(srv, conns)]
            base = self.fds(srv)
            trail = [(0, round(marks[0], 2))]
            grow = []
            k = n
            while True:
                go(k)
                marks.append(self.memory(srv, conns, marks[-1]))
                trail.append((k, round(marks[-1], 2)))
                grow.append(marks[-1] - marks[-2])
                now = self.fds(srv)
                end = time.time() + 20
                while now[0] > base[0] and time.time() < end:
                    time.sleep(0.2)
                    now = self.fds(srv)
                if now[0] > base[0]:
                    raise Violation(f"the server has {now[0]} open files after {done} laps, {base[0]} after the first {n}; laps: {self.describe(case)}")
                bad = len(grow) > 1 and grow[-1] > self.floor and grow[-2] > self.floor / 3 and grow[-1] > 1.35 * grow[-2]
                if len(grow) >= 3 and not bad:
                    break
                if len(grow) >= 5:
                    raise Violation(f"memory grows with the number of laps: (laps, MB in use) {trail}; {sum(map(len, blobs))} statements per lap, of {self.describe(case)}")
                k *= 2
            env.count(*(f"block:{b}" for s in case["sessions"] for b in s["b"]))
            env.count("laps", *["suspicion"] * (len(grow) > 3))
            if os.environ.get("S02_SHOW"):
                print([round(x, 2) for x in marks], n, sum(map(len, blobs)), self.describe(case), now, flush=True)
            return done_ok[0] * done >= 1500 and len({b for s in case["sessions"] for b in s["b"]}) >= 3
        finally:
            for x in conns:
                x.close()
            c.close()
            env.reset()
            heap.close()

    def describe(self, case):
        return [s["b"] for s in case["sessions"]]

    def sample(self, case):
        return self.describe(case)


CHECK = C()
