"""Scans during concurrent inserts and deletes: the rows of one moment."""
from harness import *
from conc import *

MASK = (1 << 64) - 1


class C(Check):
    pid = "C05"
    technique = "generated concurrent histories of inserts, deletes and full scans; every scan is matched with a prefix of every writer and all scans must form one order"
    rule = ("a case is a model (string, binary or integer keys) with 0-800 rows and 1-5 rounds of pipelined bursts on 2-8 connections; a writer inserts and deletes keys of its own (values are unique, deleted keys are "
            "inserted again) and scans in between, a scanner sends SELECT ALL (all or some columns, any column order, some with a limit). Every full scan must show the rows of exactly one prefix of every writer's statements, its own writer's exactly, and the prefix vectors "
            "of all scans on all connections must be totally ordered, since a moment comes before or after another one; scans with a limit show min(limit, rows) distinct valid rows. "
            "Non-trivial: some scan saw a strict prefix of at least one writer's round")
    assumptions = ["the order within a connection is the program order of its pipelined statements (decided by N02)"]
    quick = 150
    thorough = 6000
    workers = 5
    cap = {"quick": 300, "thorough": 3000}
    shrink_keys = ("rounds",)
    deterministic = False
    tries = 6

    def gen(self, r, i, tier):
        rounds = [{"s": r.getrandbits(32), "writers": r.choice([1, 1, 2, 3, 4]), "scanners": r.choice([1, 1, 2, 3]), "n": r.choice([20, 60, 150, 300]), "scans": r.choice([3, 8, 20]),
                   "del": r.choice([0.2, 0.4, 0.6]), "own": r.choice([0, 0, 0.05]), "lim": r.choice([0, 0, 0.3])} for _ in range(r.choice([1, 2, 3, 5]))]
        return {"rows": r.choice([0, 5, 40, 200, 800]), "pk": r.choice(["string", "string", "string", "binary", "uint64", "sint32"]), "win": r.choice([1, 3600, 3600]), "rounds": rounds}

    def run(self, env, case):
        key = f"srv{case['win']}"
        st = env.data.get(key)
        if st is None or not st[0].alive():
            srv = env.new_server(window=case["win"])
            st = env.data[key] = (srv, [srv.conn(timeout=60.0) for _ in range(8)])
        try:
            return self._run(env, case, st[1])
        except BaseException:
            env.data.pop(key, None)
            for c in st[1]:
                c.close()
            raise

    def _run(self, env, case, pool):
        c, s = pool[0], env.name("s")
        m, ok, pk = s + ".m", ("empty",), case["pk"]
        expect(c.q(f"create space {s}"), ok, "create space")
        expect(c.q(f"create model {m}(primary k: {pk}, w: uint16, v: uint64, pad: string)"), ok, "create model")

        def P_key(w, j):
            if pk in ("string", "binary"):
                return P("str" if pk == "string" else "bin", b"%x-%x" % (j, w))
            return P("uint" if pk == "uint64" else "sint", (j * 16 + w) * (1 if pk == "uint64" else -1))

        def val(p):
            return p[1] if not isinstance(p[1], str) else p[1].encode()

        b = Burst(c)
        base = {}
        for j in range(case["rows"]):
            k = P_key(15, j)
            b.add(f"insert into {m}(?, ?, ?, ?)", k, P("uint", 15), P("uint", j), P("str", "p"))
            base[val(k)] = j
        if b.n:
            fire([b])
            for x in b.got:
                expect(x, ok, "insert")
        nontriv = False
        state = [{} for _ in range(4)]      # per writer: key -> (value, index)
        nextv = [1] * 4
        made = [0] * 4
        hist = [{0: 0} for _ in range(4)]   # hash of the rows -> number of statements done
        hnow, count = [0] * 4, [0] * 4
        last = [None] * 4                   # the key that was inserted last (never deleted, so that all states differ)
        hr = random.Random(case["rounds"][0]["s"] ^ 0x5ca0)
        salt = hr.getrandbits(62) | 1

        def h(w, key, v):
            return hash((salt, w, key, v)) & MASK

        prev = [[0] * 4 for _ in pool]
        for rd in case["rounds"]:
            r = random.Random(rd["s"])
            bursts, plans = [], []
            start = list(count)
            for w in range(rd["writers"]):
                bu, plan = Burst(pool[w]), []
                free = [j for j in range(made[w]) if val(P_key(w, j)) not in state[w]]
                have = [j for j in range(made[w]) if val(P_key(w, j)) in state[w]]
                for _ in range(rd["n"]):
                    x = r.random()
                    if x < rd["own"]:
                        bu.add(f"select all k, w, v from {m} limit ?", P("uint", 1 << 40))
                        plan.append(("scan", 0, (w, count[w])))
                        continue
                    cand = [j for j in (r.choice(have) for _ in range(3)) if j != last[w]] if have else []
                    if cand and r.random() < rd["del"]:
                        j = cand[0]
                        have.remove(j)
                        free.append(j)
                        k = P_key(w, j)
                        hnow[w] ^= h(w, val(k), state[w].pop(val(k)))
                        bu.add(f"delete from {m} where k = ?", k)
                    else:
                        if free and r.random() < 0.5:
                            j = free.pop(r.randrange(len(free)))
                        else:
                            j = made[w]
                            made[w] += 1
                        have.append(j)
                        last[w] = j
                        k = P_key(w, j)
                        v = nextv[w]
                        nextv[w] += 1
                        state[w][val(k)] = v
                        hnow[w] ^= h(w, val(k), v)
                        bu.add(f"insert into {m}(?, ?, ?, ?)", k, P("uint", w), P("uint", v), P("str", "x" * r.choice([0, 1, 30])))
                    plan.append(("write", 0, None))
                    count[w] += 1
                    hist[w][hnow[w]] = count[w]
                bursts.append(bu)
                plans.append(plan)
            for i in range(rd["scanners"]):
                bu, plan = Burst(pool[4 + i]), []
                for _ in range(rd["scans"]):
                    if r.random() < rd["lim"]:
                        n = r.choice([0, 1, 7, max(1, case["rows"]), 100000])
                        bu.add(f"select all k, w, v from {m} limit ?", P("uint", n))
                        plan.append(("limit", n, None))
                    else:
                        cols = r.choice([("k", "w", "v"), ("v", "k", "w"), ("*",), ("w", "v", "pad", "k")])
                        bu.add(f"select all {', '.join(cols)} from {m} limit ?", P("uint", 1 << 40))
                        plan.append(("scan", cols, None))
                bursts.append(bu)
                plans.append(plan)
            fire(bursts)
            vecs = []
            for bi, (bu, plan) in enumerate(zip(bursts, plans)):
                ci = bi if bi < rd["writers"] else 4 + bi - rd["writers"]
                for (o, a, own), x in zip(plan, bu.got):
                    if o == "write":
                        expect(x, ok, f"a write of connection {ci} on a key that only this connection uses")
                        continue
                    if x[0] != "rows":
                        raise Violation(f"SELECT ALL during concurrent writes was answered with {x!r}")
                    cols = a if o == "scan" and a else ("k", "w", "v")
                    if cols == ("*",):
                        cols = ("k", "w", "v", "pad")
                    ik, iw, iv = cols.index("k"), cols.index("w"), cols.index("v")
                    seen, hs = {}, [0] * 4
                    old = 0
                    for row in x[-1]:
                        k, w, v = row[ik].v, row[iw].v, row[iv].v
                        if k in seen:
                            raise Violation(f"a scan on connection {ci} shows key {k!r} twice")
                        seen[k] = v
                        if w == 15:
                            old += 1
                            if base.get(k) != v:
                                raise Violation(f"a scan on connection {ci} shows a row {k!r}, {v} that was never there")
                        elif w < 4 and 0 < v < nextv[w]:
                            hs[w] ^= h(w, k, v)
                        else:
                            raise Violation(f"a scan on connection {ci} shows a row {k!r}, {w}, {v} that was never inserted")
                    env.count("scans")
                    if o == "limit":
                        lo = len(base)
                        if len(seen) > a or len(seen) < min(a, lo):
                            raise Violation(f"a scan with limit {a} shows {len(seen)} rows of at least {lo}")
                        continue
                    if old != len(base):
                        raise Violation(f"a scan on connection {ci} shows {old} of {len(base)} rows that nobody changes")
                    vec = []
                    for w in range(4):
                        n = hist[w].get(hs[w])
                        if n is None:
                            mine = sorted((v, k) for k, v in seen.items() if self.owner(pk, k) == w)
                            raise Violation(f"a scan on connection {ci} shows rows of writer {w} that were never there together: they are the rows after no prefix of its {count[w]} statements "
                                            f"({len(mine)} rows, the newest {mine[-3:]!r})")
                        if not start[w] <= n <= count[w]:
                            raise Violation(f"a scan on connection {ci} shows writer {w} after {n} statements, {start[w]} were acknowledged before")
                        if start[w] < n < count[w]:
                            nontriv = True
                        vec.append(n)
                    if own is not None and vec[own[0]] != own[1]:
                        raise Violation(f"writer {own[0]} sees {vec[own[0]]} of its own {own[1]} acknowledged statements")
                    if any(p > q for p, q in zip(prev[ci], vec)):
                        raise Violation(f"connection {ci} saw {prev[ci]} statements of the writers, and later {vec}")
                    prev[ci] = vec
                    vecs.append((sum(vec), vec, ci))
            vecs.sort()
            for (_, p, a), (_, q, b2) in zip(vecs, vecs[1:]):
                if any(x > y for x, y in zip(p, q)):
                    raise Violation(f"two scans contradict each other: connection {a} saw {p} statements of the writers, connection {b2} saw {q}, so neither moment came before the other")
            env.count("rounds")
        r = c.q(f"select all k, w, v from {m} limit ?", P("uint", 1 << 40))
        want = dict(base)
        for st in state:
            want.update(st)
        got = {x[0].v: x[2].v for x in r[-1]}
        if got != want or len(r[-1]) != len(want):
            raise Violation(f"in the end there are {len(r[-1])} rows, expected {len(want)}: {short(repr(set(got.items()) ^ set(want.items())))}")
        expect(c.q(f"drop space allow not empty {s}"), ok, "drop space")
        return nontriv

    def owner(self, pk, k):
        if pk in ("string", "binary"):
            return int(k.split(b"-")[1], 16)
        return abs(k) % 16

    def simplify(self, case):
        if case["rows"] > 0:
            yield dict(case, rows=0)
            yield dict(case, rows=case["rows"] // 2)
        for i, rd in enumerate(case["rounds"]):
            for f, lo in (("writers", 1), ("scanners", 1), ("n", 2), ("scans", 2)):
                if rd[f] > lo:
                    yield dict(case, rounds=case["rounds"][:i] + [dict(rd, **{f: max(lo, rd[f] // 2)})] + case["rounds"][i + 1:])


CHECK = C()
