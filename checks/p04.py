import shutil, threading
from faultworld import *

DDLWORDS = ("create ", "alter ", "drop ", "sysctl create", "sysctl alter", "sysctl drop")


class W4(W):
    """Captures the durable part of the files at the moment each accepted DDL statement is answered."""
    snap = None
    clean = True

    def ask(self, q, params=()):
        got = super().ask(q, params)
        if q.startswith(DDLWORDS) and got[0] != "err" and got != TRUE(False):
            self.snap = synced_files(self.env.server().dir, self.ctl)   # verify() leaves env.server() alone: other threads use it
            self.snap_q = q
        return got

    def do(self, op):
        self.snap = None
        super().do(op)
        if self.snap is not None:
            self.hit("acknowledged")
            if Random(op["s"] ^ 0x77).random() < self.rate:
                self.verify(self.snap, self.snap_q)
            self.last = (self.snap, self.snap_q)

    last = None
    rate = 0.4

    def verify(self, snap, q):
        """A start on the durable files shows the state after the statement."""
        env = self.env
        d = new_dir("skyv-snap-")
        what = f"rebuilt from what was on disk when `{short(q, 120)}` was acknowledged"
        try:
            put_files(d, crashed(snap))
            srv = Server(env.exe, dir=d, start=False)
            env.servers.append(srv)
            try:
                bad = try_start(srv)
                if bad:
                    self.fail(f"{what}: the server does not start ({bad[0]}): {bad[1][-500:]}")
                old = self.c, self.trace
                self.c, self.trace = srv.conn(), list(self.trace)
                self.trace.append(f"({what}:)")
                armed = self.base
                self.base = self.ctl.hits()   # this server meets no faults
                try:
                    self.op_inspect_mine()
                    if self.users is not None:
                        self.check_users(srv)
                finally:
                    self.c.close()
                    (self.c, self.trace), self.base = old, armed
                self.hit("rebuilt")
            finally:
                env.servers.remove(srv)
                srv.kill()
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def op_inspect_mine(self):
        self.op_inspect(Random(0))
        for m in self.models.values():
            self.check_model(m)

    def op_cwide(self, r):
        """A record of more than the 8 KiB that are buffered."""
        if not self.spaces:
            return self.op_cspace(r)
        n = r.choice([130, 400, 900])
        names = [f"column_with_a_long_name_{'x' * r.choice([0, 30])}{i}" for i in range(n)]
        fields = [{"name": "pk", "type": "string", "depth": 0, "null": False}]
        fields += [{"name": x, "type": r.choice(TYPES), "depth": 0, "null": False} for x in names]
        clause = ", ".join(f"{f['name']}: {type_text(f)}" for f in fields)
        self.mk_model(r, r.choice(sorted(self.spaces)), None, (fields, "pk", clause))
        self.hit("large-record")

    def op_burst(self, r):
        """Several connections issue DDL statements at the same time; each verifies its own at a random acknowledgement."""
        srv = self.env.server()
        errs, lock = [], threading.Lock()
        self.heal()

        def one(i, seed):
            rr = Random(seed)
            c = None
            try:
                c = srv.conn()
                w = W4(self.env, c, f"{self.tag}b{i}n{self.n}")
                w.ctl, w.base, w.users, w.choice = self.ctl, self.base, None, Always()
                w.rate = 0
                w.hit = lambda *a: None
                ops = [{"o": o, "s": rr.getrandbits(32)} for o in ("cspace", "cmodel")] + gen_ops(rr, rr.choice([3, 8, 15]), C.BURST)
                stop = rr.randrange(1, len(ops) + 1)
                for k, op in enumerate(ops):
                    w.do(op)
                    if k + 1 >= stop and w.snap is not None:
                        with lock:
                            if not errs:
                                w.verify(w.snap, w.snap_q)
                        break
                for op in gen_ops(rr, 3, C.BURST):
                    w.do(op)
            except BaseException as e:
                errs.append(e)
            finally:
                if c:
                    c.close()
        self.n += 1
        th = [threading.Thread(target=one, args=(i, r.getrandbits(32))) for i in range(r.choice([2, 4, 6]))]
        for t in th:
            t.start()
        for t in th:
            t.join()
        if errs:
            raise errs[0]
        for s in [s for s in json.loads(self.c.q("inspect global")[1].v)["spaces"] if s not in self.spaces]:
            self.must(EMPTY, f"drop space allow not empty {s}")
        self.snap = None
        self.hit("burst")


class C(Hist):
    pid = "P04"
    technique = "stateful model-based testing; at acknowledgements the database is rebuilt from what had been synchronised (LD_PRELOAD shim) and compared with the model"
    rule = ("a case is a fresh server and a history of 10-40 DDL/ALTER/user statements (records up to 50 kB, if [not] exists, several in a row, after "
            "restarts, from up to 6 connections at once, with failing file operations in between); for about 40% of the acknowledged statements the "
            "files are captured up to their last synchronised byte at the moment of the acknowledgement, every journal is closed after its last "
            "complete event, and a server started on them must show exactly the state of the reference model, including logins. Non-trivial: at least three states were rebuilt "
            "and compared")
    assumptions = ["directory entries of created files count as durable at once", "bytes count as durable when an fsync/fdatasync that began after their write succeeded"]
    quick = 150
    thorough = 6000
    workers = 16
    tries = 5
    need = ("rebuilt",)
    MIX = {"cspace": 3, "aspace": 1.5, "dspace": 1.5, "cmodel": 6, "dmodel": 3, "cwide": 0.7, "add": 4, "remove": 2, "widen": 2, "alter_bad": 0.5,
           "cspace_dup": 0.3, "cmodel_dup": 0.3, "cuser": 3, "auser": 2, "duser": 1.5, "restart": 0.5, "burst": 0.4, "fault": 0, "heal": 0}
    BURST = {"cspace": 2, "dspace": 1, "cmodel": 4, "dmodel": 2, "add": 3, "remove": 2, "widen": 1, "aspace": 1}

    def gen(self, r, i, tier):
        w = dict(self.MIX)
        for k in w:
            if r.random() < 0.25:
                w[k] *= r.choice([0, 0, 4])
        if r.random() < 0.3:
            w["fault"], w["heal"] = 3, 2
        return {"ops": [{"o": o, "s": r.getrandbits(32)} for o in self.prologue] + gen_ops(r, r.choice([8, 15, 15, 40]), w)}

    def run(self, env, case):
        env.reset()
        ctl = Ctl()
        try:
            srv = env.server(window=3600, env=ctl.env(SPEED))
            env.server_started = srv.start
            w = W4(env, env.conn(), "t")
            w.ctl, w.users = ctl, {}
            for op in case["ops"]:
                w.do(op)
            if w.last:
                w.verify(*w.last)
            return w.nontriv.get("rebuilt", 0) >= 3
        finally:
            ctl.heal()
            try:
                env.reset()
            finally:
                ctl.close()


CHECK = C()
