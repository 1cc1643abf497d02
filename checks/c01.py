"""Linearizability of operations on contended rows, decided per key over bursts of pipelined statements."""
from harness import *
from conc import *
from faults import FLUSH, flushing

KINDS = ("ins", "del", "set", "seta", "get", "geta", "getall")
MIXES = {
    "even": (3, 3, 3, 1, 3, 1, 0.4),
    "churn": (5, 5, 0.5, 0.3, 1, 0.3, 0.3),
    "writes": (0.5, 0.3, 6, 3, 2, 1, 0.2),
    "reads": (1, 1, 2, 1, 6, 2, 0.5),
    "insdup": (8, 2, 0.3, 0.3, 0.5, 0.2, 0.2),
    "delupd": (4, 5, 6, 1, 1, 0.3, 0.2),
}
LIMIT = 60000   # search nodes per key and round


def pad(v):
    return b"%d:" % v + b"y" * (v * 37 % 90)


def key_of(pk, j):
    if pk == "string":
        return P("str", (b"k%d" % j) if j % 3 else b"\xc3\xa9" * (j % 5) + b"%d" % j)
    if pk == "binary":
        return P("bin", bytes([j & 255, 0, j >> 8]))
    if pk == "sint32":
        return P("sint", j - 20)
    return P("uint", j * 0x1_0001)


class Undecided(Exception):
    pass


def linear(seqs, start, end, base):
    """Is there an order of the operations (each sequence in program order) that explains all responses, from state `start` to `end`?
    A state is None (absent) or (a, b) with the cell values of the row."""
    n = len(seqs)
    lens = [len(s) for s in seqs]
    seen = set()
    stack = [((0,) * n, start)]
    nodes = 0
    while stack:
        pos, st = stack.pop()
        # operations that change nothing and are right now explained can always go first
        pos = list(pos)
        moved = True
        while moved:
            moved = False
            for i in range(n):
                while pos[i] < lens[i]:
                    o, v, r = seqs[i][pos[i]]
                    if o == "get" or o == "geta":
                        want = base["nf"] if st is None else (("row", [V("uint64", st[0]), V("string", st[1])]) if o == "get" else ("row", [V("uint64", st[0])]))
                        ok = r == want
                    elif o == "ins":
                        ok = r == base["dup"] and st is not None
                    else:
                        ok = r == base["nf"] and st is None
                    if not ok:
                        break
                    pos[i] += 1
                    moved = True
        key = (tuple(pos), st)
        if key in seen:
            continue
        seen.add(key)
        nodes += 1
        if nodes > LIMIT:
            raise Undecided
        if pos == lens:
            if st == end:
                return True
            continue
        for i in range(n):
            if pos[i] == lens[i]:
                continue
            o, v, r = seqs[i][pos[i]]
            if r != ("empty",):
                continue
            if o == "ins":
                if st is not None:
                    continue
                new = (v, pad(v))
            elif o == "del":
                if st is None:
                    continue
                new = None
            elif o == "set":
                if st is None:
                    continue
                new = (v, pad(v))
            elif o == "seta":
                if st is None:
                    continue
                new = (v, st[1])
            else:
                continue
            np = list(pos)
            np[i] += 1
            stack.append((tuple(np), new))
    return False


class C(Check):
    pid = "C01"
    technique = "generated concurrent histories against a linearizability checker (per-key search over all orders consistent with program order)"
    rule = ("a case is a model (key type, number of bystander rows) and 3-12 rounds; in each round 2-8 connections each get a pipelined burst of 8-400 "
            "inserts, deletes, updates of one or two columns and selects on 1-64 shared keys; all responses of a key, with the state read after the round, "
            "must be explained by one sequential order, bystander rows must stay readable (also in SELECT ALL) and the row count must be exact afterwards. "
            "Non-trivial: in some round at least two connections changed the same key successfully and at least one statement lost a race (duplicate or not found)")
    assumptions = ["the order within a connection is the program order of its pipelined statements (decided by N02)",
                   "a search that exceeds its node limit counts as explained (reported as class undecided)"]
    quick = 110
    thorough = 8000
    workers = 5
    cap = {"quick": 300, "thorough": 3000}
    shrink_keys = ("rounds",)
    deterministic = False
    tries = 6

    def gen(self, r, i, tier):
        rounds = []
        for _ in range(r.choice([3, 5, 5, 8, 12])):
            keys = r.choice([1, 1, 2, 3, 3, 8, 24, 64])
            per = r.choice([8, 20, 40, 40]) if keys <= 3 else r.choice([40, 120, 240, 400])
            rounds.append({"s": r.getrandbits(32), "mix": r.choice(sorted(MIXES)), "keys": keys, "off": r.choice([0, 0, 100]),
                           "conns": r.choice([2, 3, 4, 4, 6, 8]), "n": per})
        return {"flush": r.choice([(1, 0), (1, 0), (1, 8000), (40, 1)]), "pk": r.choice(["string", "string", "uint64", "binary", "sint32"]), "by": r.choice([0, 0, 3, 40, 400]), "rounds": rounds}

    def run(self, env, case):
        key = f"pool{case['flush']}"
        st = env.data.get(key)
        if st is None or not st[0].alive():
            srv = env.new_server(window=1, **flushing(*case["flush"]))
            st = env.data[key] = (srv, [srv.conn(timeout=60.0) for _ in range(8)])
        pool = st[1]
        try:
            return self._run(env, case, pool)
        except BaseException:
            env.data.pop(key, None)
            for c in pool:
                c.close()
            raise

    def _run(self, env, case, pool):
        c, s = pool[0], env.name("s")
        pk, m = case["pk"], s + ".m"
        ok = ("empty",)
        expect(c.q(f"create space {s}"), ok, "create space")
        expect(c.q(f"create model {m}(primary k: {pk}, a: uint64, b: string)"), ok, "create model")
        for j in range(case["by"]):
            expect(c.q(f"insert into {m}(?, ?, ?)", key_of(pk, 1000 + j), P("uint", j), P("str", pad(j))), ok, "insert")
        base = {"nf": ("err", 111), "dup": ("err", 108)}
        state, nontriv, uniq = {}, False, 1
        for rd in case["rounds"]:
            r = random.Random(rd["s"])
            seqs = {}
            bursts, plans = [], []
            w = MIXES[rd["mix"]]
            for ci in range(rd["conns"]):
                b, plan = Burst(pool[ci]), []
                for o in r.choices(KINDS, w, k=rd["n"]):
                    j = rd["off"] + r.randrange(rd["keys"])
                    k, v = key_of(pk, j), 0
                    if o in ("ins", "set", "seta"):
                        uniq += 1
                        v = uniq
                    if o == "ins":
                        b.add(f"insert into {m}(?, ?, ?)", k, P("uint", v), P("str", pad(v)))
                    elif o == "del":
                        b.add(f"delete from {m} where k = ?", k)
                    elif o == "set":
                        b.add(f"update {m} set a = ?, b = ? where k = ?", P("uint", v), P("str", pad(v)), k)
                    elif o == "seta":
                        b.add(f"update {m} set a = ? where k = ?", P("uint", v), k)
                    elif o == "get":
                        b.add(f"select a, b from {m} where k = ?", k)
                    elif o == "geta":
                        b.add(f"select a from {m} where k = ?", k)
                    else:
                        b.add(f"select all k, a, b from {m} limit ?", P("uint", 100000))
                    plan.append((o, j, v))
                bursts.append(b)
                plans.append(plan)
            fire(bursts)
            # the state after the round, read in peace
            b = Burst(c)
            for j in range(rd["keys"]):
                b.add(f"select a, b from {m} where k = ?", key_of(pk, rd["off"] + j))
            fire([b])
            end = {}
            for j, x in enumerate(b.got):
                j += rd["off"]
                if x == base["nf"]:
                    end[j] = None
                elif x[0] == "row" and [y.t for y in x[1]] == ["uint64", "string"]:
                    end[j] = (x[1][0].v, x[1][1].v)
                else:
                    raise Violation(f"SELECT of key {j} after a round answered {x!r}")
            per = {}
            for ci, (b, plan) in enumerate(zip(bursts, plans)):
                for (o, j, v), x in zip(plan, b.got):
                    if o == "getall":
                        self.check_all(x, case, pk)
                    else:
                        per.setdefault(j, [[] for _ in bursts])[ci].append((o, v, x))
            for j, ss in sorted(per.items()):
                ss = [x for x in ss if x]
                env.count("key-rounds")
                try:
                    if not linear(ss, state.get(j), end[j], base):
                        raise Violation(f"key {j}: no sequential order explains the responses of {len(ss)} connections; state before {state.get(j)!r}, "
                                        f"after {end[j]!r}, histories {short(repr(ss), 1500)}")
                except Undecided:
                    env.count("undecided")
                changers = sum(any(x == ("empty",) for _, _, x in sq) for sq in ss)
                lost = any(x in (base["nf"], base["dup"]) for sq in ss for _, _, x in sq)
                if changers >= 2 and lost:
                    nontriv = True
            state.update(end)
            env.count("ops:" + rd["mix"])
            # bystanders and counts
            x = c.q(f"select all k, a, b from {m} limit ?", P("uint", 100000))
            live = sum(v is not None for v in state.values())
            if x[0] != "rows" or len(x[1]) != live + case["by"]:
                raise Violation(f"SELECT ALL returns {len(x[1]) if x[0] == 'rows' else x} rows after a round, but {live + case['by']} keys are readable")
            self.check_all(x, case, pk)
            x = c.q(f"inspect model {m}")
            rows = json.loads(x[1].v)["rows"]
            if rows != live + case["by"]:
                raise Violation(f"INSPECT MODEL reports {rows} rows after a round, but {live + case['by']} keys are readable")
        for j in range(case["by"]):
            expect(c.q(f"select a, b from {m} where k = ?", key_of(pk, 1000 + j)), ("row", [V("uint64", j), V("string", pad(j))]), f"bystander row {j}")
        expect(c.q(f"drop space allow not empty {s}"), ok, "drop space")
        return nontriv

    def check_all(self, x, case, pk):
        """No key twice, every row one that was written, all bystanders there."""
        if x[0] != "rows":
            raise Violation(f"SELECT ALL during concurrent changes answered {x!r}")
        keys = set()
        by = 0
        for row in x[1]:
            if len(row) != 3 or row[1].t != "uint64" or row[2].t != "string":
                raise Violation(f"SELECT ALL returned the row {row!r}")
            k = repr(row[0])
            if k in keys:
                raise Violation(f"SELECT ALL returned the key {k} twice")
            keys.add(k)
        for j in range(case["by"]):
            kk = key_of(pk, 1000 + j)
            t = {"uint": pk, "sint": pk, "str": "string", "bin": "binary"}[kk[0]]
            if repr(V(t, kk[1])) not in keys:
                raise Violation(f"SELECT ALL during concurrent changes of other rows misses the bystander row {kk!r}")

    def simplify(self, case):
        if case["by"]:
            yield dict(case, by=0)
        for i, rd in enumerate(case["rounds"]):
            for f, lo in (("conns", 2), ("n", 2), ("keys", 1)):
                if rd[f] > lo:
                    yield dict(case, rounds=case["rounds"][:i] + [dict(rd, **{f: max(lo, rd[f] // 2)})] + case["rounds"][i + 1:])


CHECK = C()
