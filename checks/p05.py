import errno, shutil, threading, time
from dbfiles import *
from faults import *

LIMIT = 10.0    # seconds; a window takes 0.2


class Log(dict):
    """The rows of a model, with every state each row had: key -> [(time, row or None)]."""

    def __init__(self, clock):
        dict.__init__(self)
        self.clock, self.hist = clock, {}

    def note(self, k, row):
        self.clock[0] += 1
        h = self.hist.setdefault(k, [(0, None)])
        h.append((self.clock[0], row and {n: V(v.t, list(v.v)) if v.t == "list" else v for n, v in row.items()}))

    def __setitem__(self, k, row):
        dict.__setitem__(self, k, row)
        self.note(k, row)

    def __delitem__(self, k):
        dict.__delitem__(self, k)
        self.note(k, None)


class W5(World):
    def __init__(self, *a):
        World.__init__(self, *a)
        self.clock = [0]

    def do(self, op):
        World.do(self, op)
        for m in self.models.values():
            if not isinstance(m.rows, Log):
                assert not m.rows
                m.rows = Log(self.clock)

    def after_alter(self, r, m):
        names = {f["name"] for f in m.fields}
        for k, h in m.rows.hist.items():
            h[:] = [(t, row and {n: v for n, v in row.items() if n in names}) for t, row in h]
        World.after_alter(self, r, m)

    # -- what a crash now would leave
    def persisted(self):
        """{model: {key: row as cells}} from a server started on what has been synchronised."""
        snap = None
        while snap is None:
            snap = synced_files(self.env.server().dir, self.ctl)
        d = new_dir("skyv-snap-")
        srv = Server(self.env.exe, dir=d, start=False)
        self.env.servers.append(srv)
        c0 = self.c
        try:
            put_files(d, crashed(snap))
            bad = try_start(srv)
            if bad:
                self.fail(f"a server started on what had been written does not start ({bad[0]}): {bad[1][-500:]}")
            self.c = srv.conn()
            out = {}
            for m in self.models.values():
                names = [f["name"] for f in m.fields]
                q, rows = self.all_rows(m, None, 1 << 40)
                out[m] = {}
                for row in rows:
                    key = kv(row[names.index(m.pk)])
                    if key in out[m]:
                        self.fail(f"what had been written to the files holds the row {key} of {m.full} twice")
                    out[m][key] = dict(zip(names, row))
            return out
        finally:
            if self.c is not c0:
                self.c.close()
            self.c = c0
            self.env.servers.remove(srv)
            srv.kill()
            shutil.rmtree(d, ignore_errors=True)

    def judge(self, at):
        """Every written row is a state the row had. Returns what was not written of the states at time `at`."""
        late = []
        for m, rows in self.persisted().items():
            for k in rows:
                if k not in m.rows.hist:
                    self.fail(f"what had been written to the files holds the row {k} of {m.full}, which never existed")
            for k, h in m.rows.hist.items():
                got = rows.get(k)
                low = self.low.get((m, k), 0)
                fit = [i for i, (t, row) in enumerate(h) if self.fits(m, row, got)]
                if not fit:
                    self.fail(f"what had been written to the files holds {short(got, 300)} as row {k} of {m.full}; its states were {short([x for _, x in h[-8:]], 600)}")
                if fit[-1] < low:
                    self.fail(f"row {k} of {m.full} went back on disk: it is now in its state {fit[-1]}, was in state {low}; {short(h, 500)}")
                self.low[(m, k)] = next(i for i in fit if i >= low)
                i = fit[-1]
                if i + 1 < len(h) and h[i + 1][0] <= at:
                    late.append((m.full, k, short(got, 200), short([x for x in h[i:i + 3]], 400)))
        return late

    low = None

    def fits(self, m, row, got):
        if row is None or got is None:
            return row is None and got is None
        for f in m.fields:
            n = f["name"]
            if n == m.pk:
                continue
            if not same(row.get(n, NULL), got[n], f):
                return False
        return True

    def reached(self, how, step=None):
        """Everything acknowledged so far is written in time (while `step` goes on)."""
        at, t0 = self.clock[0], time.time()
        while True:
            late = self.judge(at)
            if not late:
                break
            if time.time() - t0 > LIMIT:
                self.fail(f"{how}: {len(late)} rows were not written {LIMIT:.0f} s ({LIMIT / 0.2:.0f} service windows) after they were acknowledged: {late[:3]}")
            if step:
                step()
            else:
                time.sleep(0.05)
        self.hit("reached-" + how)


class Noise(threading.Thread):
    """Statements of other sessions while the check watches."""

    def __init__(self, srv, kinds, seed):
        threading.Thread.__init__(self, daemon=True)
        self.srv, self.kinds, self.seed, self.end, self.bad = srv, kinds, seed, threading.Event(), None
        self.start()

    def run(self):
        r = Random(self.seed)
        try:
            c = self.srv.conn()
            c.q("create space noise")
            c.q("create model noise.hot(k: uint64, v: string)")
            n = 0
            while not self.end.is_set():
                n += 1
                if "ddl" in self.kinds:
                    expect(c.q(f"create model noise.m{n}(k: uint64, v: string)"), ("empty",), "create model")
                    for _ in range(r.choice([0, 0, 2])):
                        c.q(f"insert into noise.m{n}(?, ?)", P("uint", r.getrandbits(30)), P("str", "x"))
                    expect(c.q(f"drop model allow not empty noise.m{n}"), ("empty",), "drop model")
                if "dml" in self.kinds:
                    for _ in range(20):
                        c.q("insert into noise.hot(?, ?)", P("uint", n), P("str", "x" * 50))
                        c.q("update noise.hot set v += ? where k = ?", P("str", "y"), P("uint", n))
                        c.q("delete from noise.hot where k = ?", P("uint", n))
                self.end.wait(r.choice([0.005, 0.02, 0.05]))
            c.close()
        except BaseException as e:
            self.bad = e

    def stop(self):
        self.end.set()
        self.join(60)
        if self.bad:
            raise self.bad


class C(Hist):
    pid = "P05"
    technique = ("stateful model-based testing with a faster clock (LD_PRELOAD shim); what has been synchronised at a moment is rebuilt into a database and each row compared with every state it had")
    rule = ("a case is a server with a service window of 1-3600 s, sped up so that a window takes 0.2 s, up to 12 models, and 2-5 rounds of generated inserts, updates, deletes, re-inserts, bulk inserts and ALTERs; after each round the check waits, idle or while its own and "
            "other sessions go on (DML, models created and dropped, the removal of their files failing, little memory so that queues fill up early), and rebuilds databases from what had been synchronised: each row must be in a state "
            "it really had, never go back, and within 50 windows reach its acknowledged state. Non-trivial: at least two rounds were reached with rows in two models")
    assumptions = ["50 service windows (10 s) is the 'small multiple' used as the limit"]
    quick = 120
    thorough = 3000
    workers = 12
    tries = 4
    MIX = {"ins": 10, "upd": 9, "del": 4, "reinsert": 3, "bulk": 0.5, "add": 0.4, "remove": 0.3, "widen": 0.3, "cmodel": 0.3, "dmodel": 0.2}

    def gen(self, r, i, tier):
        w = dict(self.MIX)
        for k in w:
            if r.random() < 0.2:
                w[k] *= r.choice([0, 0.2, 4])
        win = r.choice([1, 1, 2, 30, 300, 3600])
        noise = r.choice([[], [], ["ddl"], ["ddl"], ["dml"], ["ddl", "dml"], ["ddl", "unlink"]])
        ops = [{"o": o, "s": r.getrandbits(32)} for o in ["cspace"] + ["cmodel"] * r.choice([1, 2, 4, 12])]
        for _ in range(r.choice([2, 3, 5])):
            ops += gen_ops(r, r.choice([3, 15, 40]), w)
            ops.append({"o": r.choice(["idle", "idle", "busy"]), "s": r.getrandbits(32)})
        return {"ops": ops, "window": win, "noise": noise, "seed": r.getrandbits(32), "ram": r.choice([None, None, 20000, 200000])}

    def run(self, env, case):
        env.reset()
        ctl = Ctl()
        noise = None
        try:
            srv = env.server(window=case["window"], env=ctl.env(5 * case["window"], case["ram"]))
            w = W5(env, env.conn(), "t")
            w.ctl, w.low = ctl, {}
            if "unlink" in case["noise"]:
                ctl.arm([{"ops": ["unlink"], "count": 1000000, "err": errno.EACCES}])
            if case["noise"]:
                noise = Noise(srv, case["noise"], case["seed"])
            r = Random(case["seed"] ^ 1)
            rounds = 0
            for op in case["ops"]:
                if op["o"] == "idle":
                    w.reached("idle")
                    rounds += 1
                elif op["o"] == "busy":
                    w.reached("busy", lambda: [w.do(x) for x in gen_ops(r, 8, {"ins": 3, "upd": 3, "del": 1})])
                    rounds += 1
                else:
                    w.do(op)
            env.count(f"window-{case['window']}", "noise-" + "+".join(case["noise"]) if case["noise"] else "quiet")
            if noise:
                n, noise = noise, None
                n.stop()
            return rounds >= 2 and sum(1 for m in w.models.values() if m.rows) >= 2
        finally:
            if noise:
                noise.end.set()
                noise.join(60)
            ctl.heal()
            try:
                env.reset()
            finally:
                ctl.close()


CHECK = C()
