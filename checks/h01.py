"""H01: faults stay where they are, and the status report tells the truth."""
import errno, time
from harness import *
from refdb import *
from faults import *
from sky import *

SPEED = 60
LIMIT = 40.0
REPORT = "sysctl report status"


class Sys:
    """Models with one known row set each, and what is broken at the moment."""

    def __init__(self, env, srv, ctl, case):
        self.env, self.srv, self.ctl = env, srv, ctl
        self.r = Random(case["seed"])
        self.c = srv.conn()
        self.trace = []
        self.n = 0
        self.broken = set()      # full names of models whose file can not be written
        self.gns = False
        self.rows = {}           # full name -> {key: value}
        self.spaces = set()
        self.user = None
        self.labels = set()

    def hit(self, l):
        self.env.count(l)
        self.labels.add(l)

    def fail(self, msg):
        raise Violation(msg + "\n  last steps:\n    " + "\n    ".join(self.trace[-16:]))

    def q(self, c, text, *ps):
        got = c.q(text, *ps)
        self.trace.append(f"{text} {list(ps) if ps else ''} => {short(repr(got), 100)}")
        return got

    def must(self, want, text, *ps):
        got = self.q(self.c, text, *ps)
        if got != want:
            self.fail(f"{text}: expected {want}, got {short(repr(got), 200)} (unwritable: {sorted(self.broken)}{', catalogue' if self.gns else ''})")

    # -- faults
    def arm(self):
        rules = [{"ops": ["write", "fsync", "trunc", "seek"], "sub": "mdl_" + m.split(".")[1] + "-", "count": 10**6, "err": self.r.choice([errno.EIO, errno.ENOSPC])} for m in sorted(self.broken)]
        if self.gns:
            rules.append({"ops": ["write", "fsync", "trunc", "seek"], "sub": "gns", "count": 10**6})
        self.ctl.arm(rules) if rules else self.ctl.heal()
        self.trace.append(f"(unwritable now: {sorted(self.broken)}{', catalogue' if self.gns else ''})")

    def put(self, m):
        """Insert or update; True when accepted."""
        k = self.r.choice([f"k{self.r.randrange(6)}", "x"])
        v = self.r.randrange(2**40)
        old = self.rows[m].get(k)
        if old is None:
            got = self.q(self.c, f"insert into {m}(?, ?)", P("str", k), P("uint", v))
        elif self.r.random() < 0.3:
            v = None
            got = self.q(self.c, f"delete from {m} where k = ?", P("str", k))
        else:
            got = self.q(self.c, f"update {m} set v = ? where k = ?", P("uint", v), P("str", k))
        if got == ("empty",):
            if v is None:
                del self.rows[m][k]
            else:
                self.rows[m][k] = v
            return True
        if got != ("err", 0):
            self.fail(f"a statement on {m} is answered with {got}")
        return False

    def reports(self):
        out = {self.q(c, REPORT) for c in (self.c, self.user) if c is not None}
        if len(out) != 1 or not out <= {("empty",), ("err", 0)}:
            self.fail(f"sessions see different reports: {out}")
        return out.pop() == ("empty",)

    def until(self, f, what):
        end = time.time() + LIMIT
        while not f():
            if time.time() > end:
                self.fail(f"{what} after {LIMIT:.0f} s ({LIMIT * SPEED:.0f} s of server time)")
            time.sleep(0.01)

    def settle(self):
        """Every fault is noticed, with a write if there is something to write."""
        for m in sorted(self.broken):
            self.until(lambda: not self.put(m), f"rows are still accepted for {m}, whose file can not be written,")
        if self.gns:
            got = self.q(self.c, f"create space nope{self.n}")
            if got != ("err", 0):
                self.fail(f"CREATE SPACE is answered with {got} although the catalogue can not be written")
        self.hit("fault-noticed")

    # -- steps
    def observe(self):
        if self.broken or self.gns:
            if self.reports():
                self.fail(f"the report is good although {sorted(self.broken)}{' and the catalogue' if self.gns else ''} can not be written")
            self.hit("reported")
        elif not self.reports():
            self.fail("the report is bad although nothing is broken")
        for m in sorted(self.rows):
            if m in self.broken:
                if self.put(m):
                    self.fail(f"a row change is accepted on {m} although its file can not be written, which was noticed before")
            elif not self.put(m):
                self.fail(f"a row change on {m} is refused although its file can be written (unwritable: {sorted(self.broken)})")
            self.check_rows(self.c, m)
        self.n += 1
        if self.gns:
            got = self.q(self.c, f"create space nope{self.n}")
            if got != ("err", 0) or self.q(self.c, f"inspect space nope{self.n}") != ("err", 100):
                self.fail(f"CREATE SPACE is answered with {got} although the catalogue can not be written")
            if self.broken:
                self.hit("both")
        else:
            self.must(("empty",), f"create space tmp{self.n}")
            self.must(("empty",), f"drop space tmp{self.n}")
        if self.broken and any(m not in self.broken for m in self.rows):
            self.hit("others-unaffected")

    def check_rows(self, c, m):
        got = c.q(f"select all * from {m} limit ?", P("uint", 1000))
        if got[0] != "rows":
            self.fail(f"SELECT ALL on {m}: {got}")
        d = {x[0].v.decode(): x[1].v for x in got[1]}
        if d != self.rows[m]:
            self.fail(f"{m} has the rows {d}, expected {self.rows[m]}")

    def create(self):
        if self.gns or len(self.rows) >= 6:
            return
        self.n += 1
        if not self.spaces or self.r.random() < 0.3:
            s = f"s{self.n}"
            self.must(("empty",), f"create space {s}")
            self.spaces.add(s)
        s = self.r.choice(sorted(self.spaces))
        m = f"{s}.m{self.n}"
        self.must(("empty",), f"create model {m}(k: string, v: uint64)")
        self.rows[m] = {}

    def break_(self):
        ms = [m for m in sorted(self.rows) if m not in self.broken]
        new = set(self.r.sample(ms, self.r.choice([0, 1, 1, 1, 2, len(ms)]) % (len(ms) + 1))) if ms else set()
        if self.r.random() < 0.25:
            self.gns = True
        self.broken |= new
        self.arm()
        self.settle()

    def heal(self):
        if self.r.random() < 0.6:
            self.broken, self.gns = set(), False
        elif self.broken:
            self.broken -= set(self.r.sample(sorted(self.broken), self.r.randrange(1, len(self.broken) + 1)))
        else:
            self.gns = False
        self.arm()
        for m in sorted(self.rows):
            if m not in self.broken:
                self.until(lambda: self.put(m), f"row changes on {m} are refused although its file has become writable,")
        if not self.gns:
            self.n += 1
            self.until(lambda: self.q(self.c, f"create space back{self.n}") == ("empty",), "CREATE SPACE is refused although the catalogue has become writable,")
            self.must(("empty",), f"drop space back{self.n}")
        if self.broken or self.gns:
            self.settle()
        else:
            self.until(self.reports, "the report is still bad although nothing is broken any more,")
            self.hit("recovered")

    def drop(self):
        """What is dropped does not count any more."""
        if self.gns or not self.rows:
            return
        bad = sorted(self.broken)
        m = self.r.choice(bad if bad and self.r.random() < 0.8 else sorted(self.rows))
        s = m.split(".")[0]
        if self.r.random() < 0.3:
            gone = {x for x in self.rows if x.startswith(s + ".")}
            self.must(("empty",), f"drop space allow not empty {s}")
            self.spaces.discard(s)
        else:
            gone = {m}
            self.must(("empty",), f"drop model allow not empty {m}")
        if gone & self.broken:
            self.hit("dropped-faulty")
        for x in gone:
            del self.rows[x]
        was = gone & self.broken
        self.broken -= gone
        self.arm()
        if self.r.random() < 0.5:
            # the same names again, for models that have nothing to do with the old ones
            if s not in self.spaces:
                self.must(("empty",), f"create space {s}")
                self.spaces.add(s)
            for x in sorted(gone):
                self.must(("empty",), f"create model {x}(k: string, v: uint64)")
                self.rows[x] = {}
            if was:
                self.hit("recreated-faulty")
                if self.r.random() < 0.5:
                    time.sleep(self.r.choice([0.6, 1.2]))       # the attempts to recover the old one come round
                    for x in sorted(gone):
                        if not self.put(x):
                            self.fail(f"a row change on {x} is refused, which was created anew after the model with the broken file was dropped")
        if self.broken:
            self.settle()
        elif not self.reports():
            # a model may have been noticed to be faulty again in the meantime
            self.fail("the report is bad although the last faulty model was dropped")

    def restart(self):
        self.broken, self.gns = set(), False
        self.arm()
        self.c.close()
        if self.user:
            self.user.close()
        rc = self.srv.restart()
        if rc != 0:
            self.fail(f"graceful shutdown exited with {rc}")
        self.trace.append("(restarted)")
        self.c = self.srv.conn()
        self.user = self.srv.conn("reader", "a password of length") if self.user else None
        for m in sorted(self.rows):
            self.check_rows(self.c, m)
        self.hit("restart")


class C(Check):
    pid = "H01"
    technique = "stateful model-based testing with persistent file faults (LD_PRELOAD shim) on chosen files, against a model of which statements must be accepted, refused and reported"
    rule = ("a case is a fresh server (clock 60 times faster) and 8 to 30 steps: models are created, dropped and created again under their names, the files of any subset of the models and of the catalogue become unwritable or writable again, "
            "with a restart at the end; between the steps, once a fault has been noticed, row changes must be refused on exactly the unwritable models, DDL exactly when the catalogue is unwritable, reads must be "
            "answered everywhere, and the status report (of root and of a plain user) must be bad exactly while something is unwritable; after healing or dropping, all is accepted and reported good again by "
            "itself. Non-trivial: a fault was noticed while other models stayed usable, and the report became good again by healing or dropping")
    quick = 120
    thorough = 5000
    workers = 16
    tries = 4
    shrink_keys = ("ops",)

    def gen(self, r, i, tier):
        ops = [{"o": "create"}] * r.choice([1, 2, 3, 4, 6])
        for _ in range(r.choice([14, 24, 40])):
            ops.append({"o": r.choice(["create", "break_", "break_", "break_", "observe", "observe", "observe", "heal", "heal", "drop", "drop"])})
        return {"ops": ops + [{"o": "heal"}, {"o": "observe"}, {"o": "restart"}, {"o": "observe"}], "seed": r.getrandbits(32), "user": r.random() < 0.5}

    def run(self, env, case):
        env.reset()
        ctl = Ctl()
        try:
            srv = env.new_server(window=1, env=ctl.env(SPEED))
            s = Sys(env, srv, ctl, case)
            if case["user"]:
                s.must(("empty",), "sysctl create user reader with { password: ? }", P("str", "a password of length"))
                s.user = srv.conn("reader", "a password of length")
            for op in case["ops"]:
                getattr(s, op["o"])()
            s.c.close()
            return "others-unaffected" in s.labels and bool(s.labels & {"recovered", "dropped-faulty"})
        finally:
            ctl.heal()
            env.reset()
            ctl.close()


CHECK = C()
