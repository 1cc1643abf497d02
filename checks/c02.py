"""Concurrent read-modify-write updates: nothing lost, nothing half seen."""
from harness import *
from conc import *
from faults import FLUSH, flushing

COLS = ("c", "d", "f", "s", "b", "l")   # uint64, sint64, float64, string, binary, list


def tok(ci, i):
    return b"<%d:%d>" % (ci, i)


class C(Check):
    pid = "C02"
    technique = "generated concurrent read-modify-write histories against an invariant over every read and the exact final state"
    rule = ("a case is 1-4 rows and 2-8 rounds of pipelined bursts on 2-8 connections; every UPDATE changes the counters, the text, the binary and the list of one row "
            "together (in a random order of columns), some are written so that a later assignment must fail after earlier ones were applied; every SELECT must show "
            "equal progress in all columns, each connection's tokens once and in its order, and at least what it had been told was done. "
            "Non-trivial: at least two connections updated the same row and a read in the middle of a round saw a partial total")
    assumptions = ["the order within a connection is the program order of its pipelined statements (decided by N02)"]
    quick = 160
    thorough = 6000
    workers = 5
    cap = {"quick": 300, "thorough": 3000}
    shrink_keys = ("rounds",)
    deterministic = False
    tries = 6

    def gen(self, r, i, tier):
        rounds = [{"s": r.getrandbits(32), "conns": r.choice([2, 3, 4, 6, 8]), "n": r.choice([10, 40, 80, 160]), "bad": r.choice([0, 0.1, 0.4]),
                   "read": r.choice([0.1, 0.3, 0.6]), "one": r.choice([0, 0.3])} for _ in range(r.choice([2, 3, 5, 8]))]
        return {"rows": r.choice([1, 1, 2, 4]), "pk": r.choice(["string", "uint64"]), "win": r.choice([1, 1, 3600]), "flush": r.choice([(1, 0), (1, 0), (1, 1), (40, 8000)]), "rounds": rounds}

    def run(self, env, case):
        key = f"srv{case['win']}-{case['flush']}"
        st = env.data.get(key)
        if st is None or not st[0].alive():
            srv = env.new_server(window=case["win"], **flushing(*case["flush"]))
            st = env.data[key] = (srv, [srv.conn(timeout=60.0) for _ in range(8)])
        try:
            return self._run(env, case, st[1])
        except BaseException:
            env.data.pop(key, None)
            for c in st[1]:
                c.close()
            raise

    def _run(self, env, case, pool):
        c, s = pool[0], env.name("s")
        m, ok = s + ".m", ("empty",)
        pk = case["pk"]
        expect(c.q(f"create space {s}"), ok, "create space")
        expect(c.q(f"create model {m}(primary k: {pk}, c: uint64, d: sint64, f: float64, s: string, b: binary, l: list {{ type: string }}, one: uint64)"), ok, "create model")
        key = [P("str", b"key%d" % j) if pk == "string" else P("uint", j) for j in range(case["rows"])]
        for k in key:
            expect(c.q(f"insert into {m}(?, ?, ?, ?, ?, ?, [], ?)", k, P("uint", 0), P("sint", 0), P("float", 0.0), P("str", ""), P("bin", b""), P("uint", 0)), ok, "insert")
        done = [[0] * 8 for _ in key]      # acknowledged full updates per row and connection
        ones = [0] * len(key)
        nontriv = False
        for rd in case["rounds"]:
            r = random.Random(rd["s"])
            bursts, plans = [], []
            mine = [list(x) for x in done]
            for ci in range(rd["conns"]):
                b, plan = Burst(pool[ci]), []
                for _ in range(rd["n"]):
                    j = r.randrange(len(key))
                    x = r.random()
                    if x < rd["read"]:
                        b.add(f"select c, d, f, s, b, l, one from {m} where k = ?", key[j])
                        plan.append(("read", j, mine[j][ci]))
                        continue
                    if r.random() < rd["one"]:
                        b.add(f"update {m} set one += ? where k = ?", P("uint", 1), key[j])
                        plan.append(("one", j, 0))
                        continue
                    bad = r.random() < rd["bad"]
                    t = b"BAD" if bad else tok(ci, mine[j][ci])
                    sets = [("c += ?", P("uint", 1)), ("d -= ?", P("sint", 1)), ("f += ?", P("float", 1.0)), ("s += ?", P("str", t)),
                            ("b += ?", P("bin", t)), ("l += ?", P("str", t))]
                    r.shuffle(sets)
                    if bad:
                        at = r.choice([len(sets), len(sets), r.randrange(1, len(sets) + 1)])
                        sets.insert(at, r.choice([("c -= ?", P("uint", 1 << 62)), ("one *= ?", P("str", b"x")), ("nope = ?", P("uint", 1)), ("d += ?", P("uint", 5)), ("k = ?", key[j]), ("one /= ?", P("uint", 0))]))
                    else:
                        mine[j][ci] += 1
                    b.add(f"update {m} set " + ", ".join(q for q, _ in sets) + " where k = ?", *[p for _, p in sets], key[j])
                    plan.append(("bad" if bad else "upd", j, 0))
                bursts.append(b)
                plans.append(plan)
            fire(bursts)
            total = [sum(x) for x in mine]
            for ci, (b, plan) in enumerate(zip(bursts, plans)):
                seen = [0] * len(key)
                for (o, j, n), x in zip(plan, b.got):
                    if o in ("upd", "one"):
                        expect(x, ok, f"{o} of row {j} on connection {ci}")
                        ones[j] += o == "one"
                    elif o == "bad":
                        if x[0] != "err":
                            raise Violation(f"an UPDATE whose assignment cannot be applied was answered with {x!r}")
                    else:
                        k = self.look(x, ci, n, done[j], mine[j])
                        if k < seen[j]:
                            raise Violation(f"connection {ci} saw {k} updates of row {j} after it had seen {seen[j]}")
                        seen[j] = k
                        if sum(done[j]) < k < total[j]:
                            nontriv = True
            done = mine
            env.count("rounds")
            for j, k in enumerate(key):
                x = c.q(f"select c, d, f, s, b, l, one from {m} where k = ?", k)
                if self.look(x, None, 0, done[j], done[j]) != total[j]:
                    raise Violation(f"row {j} shows {x[1][0]!r} of {total[j]} acknowledged updates")
                if x[1][6] != V("uint64", ones[j]):
                    raise Violation(f"row {j}: column one is {x[1][6]!r} after {ones[j]} acknowledged increments")
        expect(c.q(f"drop space allow not empty {s}"), ok, "drop space")
        return nontriv

    def look(self, x, ci, own, lo, hi):
        """Checks one read; returns the number of updates it shows. `lo`/`hi`: per connection what must and what can be there."""
        if x[0] != "row" or [v.t for v in x[1]] != ["uint64", "sint64", "float64", "string", "binary", "list", "uint64"]:
            raise Violation(f"a read during concurrent updates answered {x!r}")
        c, d, f, s, b, l, _ = [v.v for v in x[1]]
        n = c
        show = f"c={c} d={d} f={struct.unpack('<d', f)[0]} s={short(repr(s), 300)} b={short(repr(b), 200)} l={short(repr(l), 300)}"
        if -d != n or struct.unpack("<d", f)[0] != float(n) or len(l) != n:
            raise Violation("a read shows some columns of an UPDATE without the others: " + show)
        if s != b or b"".join(v.v for v in l) != s:
            raise Violation("a read shows columns with different updates or orders: " + show)
        per = {}
        for v in l:
            if v.v == b"BAD":
                raise Violation("a read shows a refused UPDATE: " + show)
            a, i = v.v[1:-1].split(b":")
            a, i = int(a), int(i)
            if per.get(a, 0) != i:
                raise Violation(f"the updates of connection {a} are not shown once and in order: " + show)
            per[a] = i + 1
        for a in range(8):
            if not lo[a] <= per.get(a, 0) <= hi[a]:
                raise Violation(f"{per.get(a, 0)} updates of connection {a} are shown, expected {lo[a]} to {hi[a]}: " + show)
        if ci is not None and per.get(ci, 0) != own:
            raise Violation(f"connection {ci} sees {per.get(ci, 0)} of its own {own} acknowledged updates: " + show)
        return n

    def simplify(self, case):
        if case["rows"] > 1:
            yield dict(case, rows=1)
        for i, rd in enumerate(case["rounds"]):
            for f, lo in (("conns", 2), ("n", 2)):
                if rd[f] > lo:
                    yield dict(case, rounds=case["rounds"][:i] + [dict(rd, **{f: max(lo, rd[f] // 2)})] + case["rounds"][i + 1:])
            if rd["bad"]:
                yield dict(case, rounds=case["rounds"][:i] + [dict(rd, bad=0)] + case["rounds"][i + 1:])


CHECK = C()
