"""DDL on a model, its space and its neighbours while other sessions use it."""
from harness import *
from conc import *
from faults import FLUSH, flushing

ok_ = ("empty",)
WIDTHS = ["uint8", "uint16", "uint32", "uint64"]


def U(n):
    return P("uint", n)


class C(Check):
    pid = "C03"
    technique = ("generated concurrent workloads of DDL and DML; every response is checked against the sequence of schemas (or lives) of the model: each connection must be "
                 "explainable by a non-decreasing sequence of schema versions")
    rule = ("a case is one or more rounds of simultaneous bursts: one session alters the model (adds, removes, re-adds, widens columns) or drops and re-creates it or its space, 1-6 sessions "
            "insert, read, update and delete rows of it under keys of their own, naming columns that come and go, 0-3 sessions create, alter and drop other models in the same and other spaces, "
            "and inspect, and 0-2 use a bystander model whose answers are fully predicted; finally all rows are compared, also after a restart. "
            "Non-trivial: at least two different schema versions (or lives) were observed by DML connections during bursts")
    assumptions = ["the order within a connection is the program order of its pipelined statements (decided by N02)"]
    quick = 300
    thorough = 6000
    workers = 6
    cap = {"quick": 300, "thorough": 3000}
    shrink_keys = ("rounds",)
    deterministic = False
    tries = 5

    def gen(self, r, i, tier):
        mode = r.choice(["alter", "alter", "alter", "drop", "dropspace"])
        rounds = [{"s": r.getrandbits(32), "dml": r.choice([1, 2, 3, 4, 6]), "n": r.choice([10, 40, 120, 300]), "ddl": r.choice([2, 5, 12, 30]),
                   "others": r.choice([0, 1, 1, 2, 3]), "by": r.choice([0, 0, 1, 2]), "keys": r.choice([1, 2, 5, 20])} for _ in range(r.choice([1, 2, 3]))]
        return {"flush": r.choice(FLUSH), "mode": mode, "win": r.choice([1, 3600]), "pre": r.choice([0, 0, 100, 1500]), "rounds": rounds, "pause": r.choice([0, 0, 1.2])}

    def run(self, env, case):
        env.reset()
        srv = env.new_server(window=case["win"], **flushing(*case["flush"]))
        try:
            return (Alter if case["mode"] == "alter" else Lives)(self, env, case, srv).run()
        finally:
            env.reset()

    def simplify(self, case):
        if case["pre"]:
            yield dict(case, pre=0)
        if case["pause"]:
            yield dict(case, pause=0)
        for i, ph in enumerate(case["rounds"]):
            for f, lo in (("dml", 1), ("n", 2), ("keys", 1), ("ddl", 1), ("others", 0), ("by", 0)):
                if ph[f] > lo:
                    yield dict(case, rounds=case["rounds"][:i] + [dict(ph, **{f: max(lo, ph[f] // 2)})] + case["rounds"][i + 1:])


class Base:
    def __init__(self, chk, env, case, srv):
        self.chk, self.env, self.case, self.srv = chk, env, case, srv
        self.uniq = 0
        self.tmp = 0
        self.zrows = {}

    def nv(self):
        self.uniq += 1
        return self.uniq

    def run(self):
        c = self.srv.conn(timeout=60.0)
        expect(c.q("create space s"), ok_, "create space")
        expect(c.q("create space q"), ok_, "create space")
        expect(c.q("create model q.z(primary k: uint64, v: uint64)"), ok_, "create model")
        self.setup(c)
        nontriv = False
        for ph in self.case["rounds"]:
            nontriv |= self.round(ph, c)
        self.final(c)
        zs = {x[0].v: x[1].v for x in self.all(c, "k, v", "q.z")}
        expect(zs, self.zrows, "rows of the bystander model")
        if self.case["pause"]:
            time.sleep(self.case["pause"])
        before = self.snapshot(c)
        c.close()
        rc = self.srv.stop()
        if rc != 0:
            raise Violation(f"graceful shutdown ended with {rc}: {self.srv.log()[-600:]}")
        self.srv.start()
        c = self.srv.conn(timeout=60.0)
        after = self.snapshot(c)
        for k in before:
            if before[k] != after.get(k):
                raise Violation(f"{k} differs after a restart: before {short(repr(before[k]), 400)}, after {short(repr(after.get(k)), 400)}")
        c.close()
        return nontriv

    def all(self, c, cols, m):
        x = c.q(f"select all {cols} from {m} limit ?", U(10_000_000))
        if x[0] != "rows":
            raise Violation(f"SELECT ALL on {m} answered {x!r}")
        return x[1]

    def snapshot(self, c):
        out = {"q.z": sorted(map(repr, self.all(c, "*", "q.z"))), "global": sorted(json.loads(c.q("inspect global")[1].v)["spaces"])}
        for sp in out["global"]:
            x = json.loads(c.q(f"inspect space {sp}")[1].v)
            out["space " + sp] = sorted(x["models"])
            for m in x["models"]:
                d = json.loads(c.q(f"inspect model {sp}.{m}")[1].v)
                out[f"model {sp}.{m}"] = (d["decl"], d["rows"])
        if "m" in out["space s"]:
            out["s.m"] = sorted(map(repr, self.all(c, "*", "s.m")))
        return out

    # ---- sessions on neighbours: everything they do is predicted
    def other(self, r, b, want, n, space_s):
        for _ in range(n):
            self.tmp += 1
            t = f"t{self.tmp}"
            x = r.random()
            if x < 0.45:
                sp = r.choice(["q", "s"]) if space_s else "q"
                b.add(f"create model {sp}.{t}(primary k: string, v: uint64)")
                want.append(ok_)
                if r.random() < 0.5:
                    b.add(f"insert into {sp}.{t}(?, ?)", P("str", b"x"), U(1))
                    want.append(ok_)
                    b.add(f"alter model {sp}.{t} add w {{ type: string, nullable: true }}")
                    want.append(ok_)
                    b.add(f"select * from {sp}.{t} where k = ?", P("str", b"x"))
                    want.append(("row", [V("string", b"x"), V("uint64", 1), NULL]))
                b.add(f"drop model allow not empty {sp}.{t}")
                want.append(ok_)
            elif x < 0.75:
                b.add(f"create space {t}")
                b.add(f"create model {t}.m(primary k: string)")
                b.add(f"drop space allow not empty {t}")
                want += [ok_, ok_, ok_]
            elif x < 0.85:
                b.add("inspect global")
                want.append("json")
            elif x < 0.95:
                b.add("inspect space q")
                want.append("json")
            else:
                b.add("sysctl report status")
                want.append(None)

    def bystander(self, r, ci, b, want, n):
        st = self.zrows
        for _ in range(n):
            k = 1_000_000 * (ci + 1) + r.randrange(8)
            o = r.choice(["ins", "sel", "upd", "del"])
            v = self.nv()
            if o == "ins":
                b.add("insert into q.z(?, ?)", U(k), U(v))
                want.append(("err", 108) if k in st else ok_)
                st.setdefault(k, v)
            elif o == "sel":
                b.add("select v from q.z where k = ?", U(k))
                want.append(("row", [V("uint64", st[k])]) if k in st else ("err", 111))
            elif o == "upd":
                b.add("update q.z set v = ? where k = ?", U(v), U(k))
                want.append(ok_ if k in st else ("err", 111))
                if k in st:
                    st[k] = v
            else:
                b.add("delete from q.z where k = ?", U(k))
                want.append(ok_ if k in st else ("err", 111))
                st.pop(k, None)

    def round(self, ph, c):
        r = random.Random(ph["s"])
        conns, bursts, judges = [], [], []

        def conn():
            conns.append(self.srv.conn(timeout=60.0))
            b = Burst(conns[-1])
            bursts.append(b)
            return b
        try:
            b = conn()
            judges.append((b, self.ddl(r, b, ph["ddl"])))
            for ci in range(ph["dml"]):
                b = conn()
                judges.append((b, self.dml(r, ci, b, ph)))
            for _ in range(ph["others"]):
                b, want = conn(), []
                self.other(r, b, want, ph["ddl"], self.case["mode"] != "dropspace")
                judges.append((b, lambda got, want=want: self.exact(got, want)))
            for ci in range(ph["by"]):
                b, want = conn(), []
                self.bystander(r, ci, b, want, ph["n"])
                judges.append((b, lambda got, want=want: self.exact(got, want)))
            fire_alive(self.srv, bursts)
            seen = 0
            for b, j in judges:
                seen = max(seen, j(b.got) or 0)
            self.round_done()
            self.env.count("rounds", self.case["mode"])
            return seen >= 2
        finally:
            for x in conns:
                x.close()

    def exact(self, got, want):
        for x, w in zip(got, want):
            if w == "json":
                if x[0] != "value":
                    raise Violation(f"INSPECT answered {x!r} during DDL of others")
                json.loads(x[1].v)
            elif w is not None and x != w:
                raise Violation(f"a statement on objects that no other session uses was answered with {x!r}, expected {w!r}")
        return 0


# ---------------------------------------------------------------- ALTER
class Alter(Base):
    """Schema versions are tuples of (name, type, generation) of the extra columns, in order, after the base columns a, b."""

    def setup(self, c):
        expect(c.q("create model s.m(primary k: uint64, a: uint64, b: string)"), ok_, "create model")
        self.versions = [((), "")]
        self.base = 0          # version at the start of the round
        self.gen = 0
        self.rows = {}         # key -> {"a":, "b":, columns: {name: (value, lo, hi)}}
        self.lasts = {}
        for j in range(self.case["pre"]):
            k = 10_000_000 + j
            expect(c.q("insert into s.m(?, ?, ?)", U(k), U(k), P("str", b"pre")), ok_, "insert")
            self.rows[k] = {"a": k, "b": b"pre", "x": {}, "born": (0, 0)}

    def ddl(self, r, b, n):
        """All ALTER statements of the model come from one session, so their answers are predicted."""
        want = []
        cur = list(self.versions[-1][0])
        for _ in range(n):
            have = [x[0] for x in cur]
            o = r.choice(["add", "add", "add2", "rem", "rem2", "widen", "bad"])
            free = [f"x{j}" for j in range(6) if f"x{j}" not in have]
            if o in ("add", "add2") and free:
                new = r.sample(free, min(len(free), 1 if o == "add" else 2))
                col = []
                for x in new:
                    self.gen += 1
                    col.append((x, "uint32", self.gen))
                if len(new) == 1:
                    b.add(f"alter model s.m add {new[0]} {{ type: uint32, nullable: true }}")
                else:
                    b.add("alter model s.m add (" + ", ".join(f"{x} {{ type: uint32, nullable: true }}" for x in new) + ")")
                cur += col
            elif o in ("rem", "rem2") and have:
                dead = r.sample(have, min(len(have), 1 if o == "rem" else 2))
                b.add(f"alter model s.m remove {dead[0]}" if len(dead) == 1 else f"alter model s.m remove ({', '.join(dead)})")
                cur = [x for x in cur if x[0] not in dead]
            elif o == "widen" and any(x[1] == "uint32" for x in cur):
                j = r.choice([j for j, x in enumerate(cur) if x[1] == "uint32"])
                b.add(f"alter model s.m update {cur[j][0]} {{ type: uint64, nullable: true }}")
                cur[j] = (cur[j][0], "uint64", cur[j][2])
            else:
                b.add("alter model s.m add (a { type: string })")
                want.append(("err", 107))
                continue
            want.append(ok_)
            self.versions.append((tuple(cur), b""))
        return lambda got: self.judge_ddl(got, want)

    def judge_ddl(self, got, want):
        for x, w in zip(got, want):
            if x != w:
                raise Violation(f"an ALTER of the only session that alters the model was answered with {x!r}, expected {w!r}")
        return 0

    def dml(self, r, ci, b, ph):
        plan = []
        cands = [v[0] for v in self.versions[self.base:]]
        for _ in range(ph["n"]):
            k = 1000 * (ci + 1) + r.randrange(ph["keys"])
            x = r.random()
            v = self.nv()
            if x < 0.35:
                # an insert for the columns of some version of this round
                cols = [c[0] for c in r.choice(cands)]
                wide = r.random() < 0.15
                val = v + (1 << 40 if wide else 0)
                allc = [("k", U(k)), ("a", U(v)), ("b", P("str", b"%d" % v))] + [(c, U(val)) for c in cols]
                if r.random() < 0.5:
                    order = allc[:]
                    r.shuffle(order)
                    b.add("insert into s.m { " + ", ".join(f"{c}: ?" for c, _ in order) + " }", *[p for _, p in order])
                    plan.append(("ins", k, v, set(cols), val, None))
                else:
                    b.add("insert into s.m(" + ", ".join("?" for _ in allc) + ")", *[p for _, p in allc])
                    plan.append(("ins", k, v, set(cols), val, cols))
            elif x < 0.5:
                c = f"x{r.randrange(6)}"
                b.add(f"select k, {c} from s.m where k = ?", U(k))
                plan.append(("sel1", k, c))
            elif x < 0.7:
                b.add("select * from s.m where k = ?", U(k))
                plan.append(("sel", k))
            elif x < 0.8:
                b.add("update s.m set a = ?, b = ? where k = ?", U(v), P("str", b"%d" % v), U(k))
                plan.append(("upd", k, v))
            elif x < 0.92:
                cs = [f"x{j}" for j in r.sample(range(6), r.choice([1, 1, 2]))]
                b.add("update s.m set " + ", ".join(f"{c} = ?" for c in cs) + " where k = ?", *[U(v) for _ in cs], U(k))
                plan.append(("updx", k, v, cs))
            else:
                b.add("delete from s.m where k = ?", U(k))
                plan.append(("del", k))
        return lambda got: self.judge(got, plan)

    # which versions explain a response (independent of the stored extras)
    def fits(self, p, x, ver, there):
        cols = [c[0] for c in ver]
        types = {c[0]: c[1] for c in ver}
        o = p[0]
        if o == "ins":
            # by position: the values are all alike, so that only the number of columns counts
            match = set(cols) == p[3] if p[5] is None else len(cols) == len(p[5])
            if match and p[4] >= 1 << 32 and any(t == "uint32" for t in types.values()):
                match = False
            if x == ok_:
                return match and not there
            if x == ("err", 108):
                return match and there
            return x in (("err", 101), ("err", 109)) and not match
        if o == "sel1":
            if x == ("err", 111):
                return not there
            if x == ("err", 101):
                return p[2] not in types
            return x[0] == "row" and there and p[2] in types and len(x[1]) == 2 and x[1][1].t in ("null", types[p[2]], "uint32")
        if o == "sel":
            if x == ("err", 111):
                return not there
            return x[0] == "row" and there and len(x[1]) == 3 + len(ver)
        if o == "updx":
            if x == ("err", 111):
                return not there
            if x == ("err", 101):
                return not all(c in types for c in p[3])
            return x == ok_ and there and all(c in types for c in p[3])
        return x == (ok_ if there else ("err", 111))

    def judge(self, got, plan):
        n = len(self.versions)
        lo = self.base
        here = {k: v for k, v in self.rows.items()}
        fitting = []
        theres = []
        # existence follows from the responses alone
        ex = set(self.rows)
        for p, x in zip(plan, got):
            t = p[1] in ex
            theres.append(t)
            fitting.append([v for v in range(self.base, n) if self.fits(p, x, self.versions[v][0], t)])
            if p[0] == "ins" and x == ok_:
                ex.add(p[1])
            elif p[0] == "del" and x == ok_:
                ex.discard(p[1])
        los, his = [], []
        cur = self.base
        for i, f in enumerate(fitting):
            f = [v for v in f if v >= cur]
            if not f:
                raise Violation(f"response {i} of a connection fits no schema that the model had from then on: {short(repr(plan[i]), 200)} -> {short(repr(got[i]), 300)} "
                                f"(row {'stored' if theres[i] else 'absent'}; schemas from {cur}: {short(repr([[c[0] for c in v[0]] for v in self.versions[cur:]]), 400)})")
            cur = f[0]
            los.append(cur)
        cur = n - 1
        for f in reversed(fitting):
            cur = max(v for v in f if v <= cur)
            his.append(cur)
        his.reverse()
        # values
        for i, (p, x) in enumerate(zip(plan, got)):
            k = p[1]
            iv = (los[i], his[i])
            if x == ok_:
                if p[0] == "ins":
                    # when inserted by position the columns are those of the version
                    names = p[3] if p[5] is None else None
                    self.rows[k] = {"a": p[2], "b": b"%d" % p[2], "x": {f"x{j}": [(p[4], iv)] for j in range(6) if names is None or f"x{j}" in names}, "born": iv}
                elif p[0] == "upd":
                    self.rows[k].update(a=p[2], b=b"%d" % p[2])
                elif p[0] == "updx":
                    for c in p[3]:
                        self.rows[k]["x"].setdefault(c, []).append((p[2], iv))
                elif p[0] == "del":
                    del self.rows[k]
            elif x[0] == "row":
                self.check_row(k, p, x[1], iv)
        return len(set(los))

    def check_row(self, k, p, cells, iv):
        row = self.rows[k]
        if cells[0] != V("uint64", k):
            raise Violation(f"a row of another key was returned: {k} -> {cells!r}")
        if p[0] == "sel":
            if cells[1] != V("uint64", row["a"]) or cells[2] != V("string", row["b"]):
                raise Violation(f"row {k} is {cells!r}, but a, b are {row['a']}, {row['b']!r}")
            for v in range(iv[0], iv[1] + 1):
                ver = self.versions[v][0]
                if len(ver) == len(cells) - 3 and all(self.cell_ok(row, c, cell, v) for c, cell in zip(ver, cells[3:])):
                    return
        else:
            for v in range(iv[0], iv[1] + 1):
                for c in self.versions[v][0]:
                    if c[0] == p[2] and self.cell_ok(row, c, cells[1], v):
                        return
        raise Violation(f"the columns of row {k} fit no schema in its time ({iv[0]}..{iv[1]}): {short(repr(cells), 400)}; written: {short(repr(row), 400)}; "
                        f"schemas: {short(repr([self.versions[v][0] for v in range(iv[0], iv[1] + 1)]), 400)}")

    def gen_at(self, name, v):
        for c in self.versions[v][0]:
            if c[0] == name:
                return c[2]
        return None

    def cell_ok(self, row, col, cell, v):
        """May column `col` of version v hold this cell, given what was written?"""
        name, typ, gen = col
        writes = row["x"].get(name, [])
        if cell.t == "null":
            # the last write may have been for an earlier column of this name
            return not writes or any(self.gen_at(name, w) != gen for w in range(writes[-1][1][0], writes[-1][1][1] + 1))
        if cell.t not in (typ, "uint32"):
            return False
        for j in range(len(writes) - 1, -1, -1):
            val, (a, b) = writes[j]
            if val == cell.v:
                return any(self.gen_at(name, w) == gen for w in range(a, min(b, v) + 1))
            # a later write must have gone to another generation (or, by position, to another column)
            if not any(self.gen_at(name, w) != gen for w in range(a, b + 1)):
                return False
        return False

    def round_done(self):
        self.base = len(self.versions) - 1

    def final(self, c):
        v = len(self.versions) - 1
        ver = self.versions[v][0]
        got = {}
        for cells in self.all(c, "*", "s.m"):
            if cells[0].v in got:
                raise Violation(f"SELECT ALL returned the key {cells[0].v} twice")
            got[cells[0].v] = cells
        if set(got) != set(self.rows):
            raise Violation(f"rows after the bursts: missing {sorted(set(self.rows) - set(got))[:10]}, unexpected {sorted(set(got) - set(self.rows))[:10]}")
        for k, cells in got.items():
            self.check_row(k, ("sel", k), cells, (v, v))
            if len(cells) != 3 + len(ver):
                raise Violation(f"row {k} has {len(cells)} columns, the model {3 + len(ver)}")
        d = json.loads(c.q("inspect model s.m")[1].v)
        expect(d["rows"], len(self.rows), "INSPECT MODEL rows")
        for name, typ, _ in ver:
            if f"?{name}:{typ.replace('uint', 'UInt')}" not in d["decl"].strip("{}").split(","):
                raise Violation(f"the declaration {d['decl']} lacks the column {name}: {typ}")


# ---------------------------------------------------------------- DROP and CREATE
class Life:
    """The least number of lives that explains the statements of one connection so far; the current one began in (lo, hi]."""

    def __init__(self, phase, last):
        self.phase, self.last, self.lo, self.hi, self.par, self.par_at, self.seen, self.what = phase, last, -2, -1, None, None, {phase}, ""

    def fail(self, why):
        raise Violation(f"{self.what}: {why} (phase {self.phase} of {self.last})")

    def step(self, n):
        self.phase += n
        self.seen.add(self.phase)
        if self.phase > self.last:
            self.fail("this needs more lives than the model had")

    def gap(self, i):
        if self.phase % 2 == 0:
            self.step(1)
        self.lo = i

    def life(self, i):
        if self.phase % 2:
            self.step(1)
            self.hi, self.par = i, None

    def after(self, j, i):
        if self.hi <= j:
            self.step(2)
            self.hi, self.par = i, None
        self.lo = max(self.lo, j)

    def until(self, j):
        if j <= self.lo:
            self.fail("the row belongs to an earlier life of the model")
        self.hi = min(self.hi, j)

    def parity(self, par, i):
        if self.par is None and self.hi == -1 and self.lo == -2 and self.phase % 4 != par:
            self.par, self.par_at = self.phase % 4, -1
        if self.par is not None and self.par != par:
            self.step(2)
            self.lo, self.hi = max(self.lo, self.par_at), i
        if self.phase % 4 != par:
            self.phase += 2      # the columns tell that it is a later life than the least possible one, which may have begun at any time until now
            self.hi = i
            self.seen.add(self.phase)
            if self.phase > self.last:
                self.fail("these columns need a later life than there was")
        self.par, self.par_at = par, i


class Lives(Base):
    """Phases of the model: even ones are lives, odd ones gaps. In lives 0, 4, 8... the columns are k, a, b, in lives 2, 6... k, b, a."""

    def setup(self, c):
        self.last = 0
        self.base = 0
        self.rows = {}       # key -> (a, b, phase): rows of the connections in their minimal phase
        self.order = []
        self.create(c.q, 0)
        self.judged = {}

    def create(self, f, phase):
        return f("create model s.m(primary k: uint64, a: uint64, b: string)" if phase % 4 == 0 else "create model s.m(primary k: uint64, b: string, a: uint64)")

    def ddl(self, r, b, n):
        want = []
        for _ in range(n):
            if self.case["mode"] == "drop":
                b.add("drop model allow not empty s.m")
                want.append(ok_)
            else:
                b.add("drop space allow not empty s")
                b.add("create space s")
                want += [ok_, ok_]
            self.last += 2
            self.create(b.add, self.last)
            want.append(ok_)
            for _ in range(r.choice([0, 0, 1, 5])):
                b.add("inspect model s.m")
                want.append("json")
        return lambda got: self.exact(got, want)

    def dml(self, r, ci, b, ph):
        plan = []
        for _ in range(ph["n"]):
            k = 1000 * (ci + 1) + r.randrange(ph["keys"])
            v = self.nv()
            o = r.choices(["ins", "sel", "upd", "del"], (5, 4, 2, 1))[0]
            if o == "ins":
                b.add("insert into s.m { k: ?, a: ?, b: ? }", U(k), U(v), P("str", b"%d" % v))
            elif o == "sel":
                b.add("select * from s.m where k = ?", U(k))
            elif o == "upd":
                b.add("update s.m set a = ?, b = ? where k = ?", U(v), P("str", b"%d" % v), U(k))
            else:
                b.add("delete from s.m where k = ?", U(k))
            plan.append((o, k, v))
        return lambda got: self.judge(got, plan, ci)

    def judge(self, got, plan, ci):
        """The life that a statement saw began at some statement index s of this connection (-1: at or before the start of the burst): a row that was born by statement j is there
        exactly when s <= j. Statements see lives in order, so s never decreases."""
        st = Life(self.base, self.last)
        born = {k: -1 for k in self.rows if k // 1000 == ci + 1}
        vals = {k: self.rows[k] for k in born}
        for i, ((o, k, v), x) in enumerate(zip(plan, got)):
            st.what = f"statement {i} ({o} {k}) of a connection was answered with {short(repr(x), 200)}, row {'stored as ' + repr(vals[k]) if k in born else 'absent'}"
            if x == ("err", 100):
                st.gap(i)
                continue
            st.life(i)
            j = born.get(k)
            if (o == "ins" and x == ok_) or (o != "ins" and x == ("err", 111)):
                if j is not None:
                    st.after(j, i)
                if o == "ins":
                    born[k], vals[k] = i, (v, b"%d" % v)
            elif j is None:
                st.fail("nothing was stored")
            elif o == "ins" and x == ("err", 108):
                st.until(j)
            elif o == "upd" and x == ok_:
                st.until(j)
                vals[k] = (v, b"%d" % v)
            elif o == "del" and x == ok_:
                st.until(j)
                del born[k]
            elif o == "sel" and x[0] == "row" and len(x[1]) == 3 and x[1][0] == V("uint64", k):
                a, bb = x[1][1:] if x[1][1].t == "uint64" else (x[1][2], x[1][1])
                if a != V("uint64", vals[k][0]) or bb != V("string", vals[k][1]):
                    st.fail("another value was written last")
                st.parity(0 if x[1][1].t == "uint64" else 2, i)
                st.until(j)
            else:
                st.fail("unexpected response")
        self.judged[ci] = (born, vals, st, len(plan))
        return len(st.seen)

    def round_done(self):
        """The rows that are left are those of the last life."""
        c = self.srv.conn(timeout=60.0)
        now = {}
        for cells in self.all(c, "k, a, b", "s.m"):
            if cells[0].v in now:
                raise Violation(f"SELECT ALL returned the key {cells[0].v} twice")
            now[cells[0].v] = (cells[1].v, cells[2].v)
        c.close()
        for k, v in now.items():
            ci = k // 1000 - 1
            if ci in self.judged:
                born, vals = self.judged[ci][:2]
                if k not in born or vals[k] != v:
                    raise Violation(f"after the burst row {k} is {v!r}, but the last acknowledged state is {vals.get(k) if k in born else None!r}")
            elif self.last != self.base or self.rows.get(k) != v:
                raise Violation(f"row {k} = {v!r} came back in a new life of the model")
        for ci, (born, vals, st, n) in self.judged.items():
            st.what = "after the burst"
            st.life(n)
            if self.last != self.base:
                st.after(-1, n)
            for k, j in born.items():
                st.what = f"after the burst row {k}, acknowledged as {vals[k]!r}, is {now.get(k)!r}"
                if k not in now:
                    st.after(j, n)
            for k, j in born.items():
                st.what = f"after the burst row {k}, acknowledged as {vals[k]!r}, is {now.get(k)!r}"
                if k in now:
                    st.until(j)
        for k, v in self.rows.items():
            if k // 1000 - 1 not in self.judged and self.last == self.base and now.get(k) != v:
                raise Violation(f"row {k} = {v!r}, which nobody used, is now {now.get(k)!r}")
        self.rows, self.judged = now, {}
        self.base = self.last

    def final(self, c):
        pass


CHECK = C()
