"""Concurrent changes of contended rows, flushed while they run, are restored as they were applied."""
from harness import *
from conc import *
from faults import FLUSH, flushing

MIXES = {"even": (3, 3, 3, 1), "churn": (5, 5, 0.5, 0.3), "delupd": (4, 5, 6, 1), "upd": (0.3, 0.1, 6, 3), "ins": (6, 1, 1, 1)}
OPS = ("ins", "del", "set", "push")


def key_of(pk, j):
    if pk == "string":
        return P("str", b"k%d" % j)
    return P("uint", j * 0x1_0001)


class C(Check):
    pid = "C04"
    technique = "generated concurrent workloads with periodic flushes and restarts, compared with the state before the shutdown or with every state that the acknowledgements allow"
    rule = ("a case is 1-3 models, 1-4 phases of pipelined bursts (2-8 connections, inserts, deletes, updates and list pushes on 1-24 shared keys) under a service window of 1 s "
            "(phases of up to 2.5 s, so that flushes run during the load) or 1 h, each phase followed by a graceful restart and a comparison of all rows; or a shutdown in the middle "
            "of a burst in which every connection owns its keys (and others run DDL), after which each connection's rows must be in a state that it reached at or after its last acknowledgement. "
            "Non-trivial: rows were changed by at least two connections, or the shutdown cut at least one burst")
    assumptions = ["the order within a connection is the program order of its pipelined statements (decided by N02)"]
    quick = 150
    thorough = 5000
    workers = 6
    cap = {"quick": 300, "thorough": 3000}
    shrink_keys = ("phases",)
    deterministic = False
    tries = 5

    def gen(self, r, i, tier):
        win = r.choice([1, 1, 3600])
        phases = []
        for _ in range(r.choice([1, 2, 2, 3, 4])):
            phases.append({"s": r.getrandbits(32), "kind": r.choice(["load", "load", "cut"]), "mix": r.choice(sorted(MIXES)), "keys": r.choice([1, 2, 3, 8, 24]),
                           "conns": r.choice([2, 4, 6, 8]), "n": r.choice([20, 60, 200, 400]), "secs": r.choice([0, 0.3, 1.3, 2.4]) if win == 1 else r.choice([0, 0, 0.4]),
                           "ddl": r.choice([0, 0, 1, 3])})
        return {"flush": r.choice(FLUSH), "win": win, "pk": r.choice(["string", "uint64"]), "models": r.choice([1, 1, 2, 3]), "phases": phases}

    def run(self, env, case):
        env.reset()
        srv = env.new_server(window=case["win"], **flushing(*case["flush"]))
        try:
            return self._run(env, case, srv)
        finally:
            env.reset()

    def stmt(self, b, m, o, k, v):
        if o == "ins":
            b.add(f"insert into {m}(?, ?, ?, [?])", k, P("uint", v), P("str", b"%d" % v), P("uint", v & 0xffff))
        elif o == "del":
            b.add(f"delete from {m} where k = ?", k)
        elif o == "set":
            b.add(f"update {m} set a = ?, b = ? where k = ?", P("uint", v), P("str", b"%d" % v), k)
        else:
            b.add(f"update {m} set l += ? where k = ?", P("uint", v & 0xffff), k)

    def rows(self, c, models):
        out = {}
        for m in models:
            x = c.q(f"select all k, a, b, l from {m} limit ?", P("uint", 1000000))
            if x[0] != "rows":
                raise Violation(f"SELECT ALL on {m} answered {x!r}")
            for row in x[1]:
                key = (m, repr(row[0]))
                if key in out:
                    raise Violation(f"SELECT ALL on {m} returned the key {row[0]!r} twice")
                out[key] = (row[1].v, row[2].v, [y.v for y in row[3].v] if row[3].t == "list" else row[3])
            n = json.loads(c.q(f"inspect model {m}")[1].v)["rows"]
            if n != len(x[1]):
                raise Violation(f"INSPECT MODEL reports {n} rows of {m}, SELECT ALL returns {len(x[1])}")
        return out

    def restart(self, srv):
        rc = srv.stop()
        if rc != 0:
            raise Violation(f"graceful shutdown ended with {rc}: {srv.log()[-600:]}")
        srv.start()

    def _run(self, env, case, srv):
        ok = ("empty",)
        c = srv.conn()
        expect(c.q("create space s"), ok, "create space")
        models = [f"s.m{j}" for j in range(case["models"])]
        for m in models:
            expect(c.q(f"create model {m}(primary k: {case['pk']}, a: uint64, b: string, l: list {{ type: uint64 }})"), ok, "create model")
        c.close()
        uniq, nontriv, tmp = [1], False, [0]
        model_of_state = None
        for ph in case["phases"]:
            r = random.Random(ph["s"])
            conns = [srv.conn(timeout=60.0) for _ in range(ph["conns"])]
            try:
                if ph["kind"] == "load":
                    nontriv |= self.load(case, ph, r, conns, models, uniq)
                    before = self.rows(conns[0], models)
                    for x in conns:
                        x.close()
                    self.restart(srv)
                    c = srv.conn()
                    after = self.rows(c, models)
                    c.close()
                    if after != before:
                        self.differ(before, after)
                    env.count("load-phases")
                else:
                    nontriv |= self.cut(env, case, ph, r, srv, conns, models, uniq, tmp)
            finally:
                for x in conns:
                    x.close()
        return nontriv

    def differ(self, before, after):
        for k in sorted(set(before) | set(after)):
            if before.get(k) != after.get(k):
                raise Violation(f"after the restart the row {k} is {short(repr(after.get(k)), 300)}, before the shutdown it was {short(repr(before.get(k)), 300)}")

    def load(self, case, ph, r, conns, models, uniq):
        w = MIXES[ph["mix"]]
        t0 = time.time()
        changed = set()
        while True:
            bursts, plans = [], []
            for ci, cn in enumerate(conns):
                b, plan = Burst(cn), []
                for o in r.choices(OPS, w, k=ph["n"]):
                    uniq[0] += 1
                    j = r.randrange(ph["keys"])
                    m = r.choice(models)
                    self.stmt(b, m, o, key_of(case["pk"], j), uniq[0])
                    plan.append((m, j))
                bursts.append(b)
                plans.append(plan)
            fire(bursts)
            for ci, (b, plan) in enumerate(zip(bursts, plans)):
                for x, mj in zip(b.got, plan):
                    if x == ok_:
                        changed.add((ci, mj))
                    elif x not in (("err", 111), ("err", 108)):
                        raise Violation(f"a statement of a concurrent load was answered with {x!r}")
            if time.time() - t0 >= ph["secs"]:
                break
        keys = {}
        for ci, mj in changed:
            keys.setdefault(mj, set()).add(ci)
        return any(len(v) > 1 for v in keys.values())

    def cut(self, env, case, ph, r, srv, conns, models, uniq, tmp):
        """Shutdown in the middle of bursts; every connection owns its keys."""
        w = MIXES[ph["mix"]]
        c = conns[0]
        start = self.rows(c, models)
        nd = min(ph["ddl"], len(conns) - 1)
        bursts, plans, ddls = [], [], []
        keyrepr = {}
        for ci, cn in enumerate(conns):
            b = Burst(cn)
            if ci < nd:
                # DDL of spaces and models that nobody else uses
                names = []
                for _ in range(r.choice([3, 10, 30])):
                    tmp[0] += 1
                    t = f"t{tmp[0]}"
                    b.add(f"create space {t}")
                    names.append(("space", t, True))
                    x = r.random()
                    if x < 0.6:
                        b.add(f"create model {t}.m(primary k: string, " + ", ".join(f"f{q}: uint64" for q in range(r.choice([1, 30]))) + ")")
                        names.append(("model", t, True))
                        if x < 0.2:
                            b.add(f"drop space allow not empty {t}")
                            names.append(("space", t, False))
                ddls.append((b, names))
                bursts.append(b)
                continue
            plan = []
            st = {}
            states = [dict(st)]
            for o in r.choices(OPS, w, k=ph["n"]):
                uniq[0] += 1
                v = uniq[0]
                j = 1000 * (ci + 1) + r.randrange(ph["keys"])
                m = models[j % len(models)]
                k = key_of(case["pk"], j)
                kk = (m, repr(V({"str": "string", "uint": "uint64"}[k[0]], k[1])))
                self.stmt(b, m, o, k, v)
                cur = st.get(kk, start.get(kk))
                if o == "ins":
                    want = ("err", 108) if cur is not None else ok_
                    new = (v, b"%d" % v, [v & 0xffff])
                elif cur is None:
                    want, new = ("err", 111), None
                elif o == "del":
                    want, new = ok_, None
                elif o == "set":
                    want, new = ok_, (v, b"%d" % v, cur[2])
                else:
                    want, new = ok_, (cur[0], cur[1], cur[2] + [v & 0xffff])
                if want == ok_:
                    st[kk] = new
                keyrepr.setdefault(kk, len(keyrepr))
                plan.append(want)
                states.append(dict(st))
            bursts.append(b)
            plans.append((b, plan, states))
        delay = r.choice([0, 0, 0.001, 0.003, 0.01, 0.03])

        def stop():
            time.sleep(delay)
            srv.p.send_signal(signal.SIGTERM)
        fire(bursts, stop=stop)
        for x in conns:
            x.close()
        rc = srv.stop()
        if rc != 0:
            raise Violation(f"a shutdown during load ended with {rc}: {srv.log()[-800:]}")
        srv.start()
        c = srv.conn()
        after = self.rows(c, models)
        spaces = set(json.loads(c.q("inspect global")[1].v)["spaces"])
        cutn = 0
        owned = set()
        for b, plan, states in plans:
            for x, want in zip(b.got, plan):
                expect(x, want, "a statement during a shutdown")
            cutn += len(b.got) < len(plan)
            mine = set().union(*states)
            owned |= mine
            now = {k: after.get(k) for k in mine}
            if not any({k: s.get(k, start.get(k)) for k in mine} == now for s in states[len(b.got):]):
                acked = {k: states[len(b.got)].get(k, start.get(k)) for k in mine}
                diff = {k: (acked[k], now[k]) for k in mine if acked[k] != now[k]}
                raise Violation(f"after a shutdown during load the rows of a connection are in no state at or after its last acknowledged statement ({len(b.got)} of {len(plan)}): "
                                f"(acknowledged, now): {short(repr(diff), 600)}")
        for k in set(start) | set(after):
            if k not in owned and start.get(k) != after.get(k):
                raise Violation(f"a row that nobody used changed in a shutdown during load: {k}: {start.get(k)!r} -> {after.get(k)!r}")
        for b, names in ddls:
            cutn += len(b.got) < len(names)
            acked = {}
            for n, (kind, t, there) in enumerate(names):
                if n < len(b.got):
                    expect(b.got[n], ok_, "DDL during a shutdown")
                    if kind == "space":
                        acked[t] = there
                elif kind == "space":
                    acked.pop(t, None)   # may or may not have happened
            for t, there in acked.items():
                if (t in spaces) != there:
                    raise Violation(f"space {t} {'is missing' if there else 'is back'} after a shutdown during load although its DDL was acknowledged")
            for n, (kind, t, there) in enumerate(names):
                if kind == "model" and n < len(b.got) and acked.get(t):
                    x = c.q(f"inspect model {t}.m")
                    if x[0] != "value":
                        raise Violation(f"model {t}.m is missing after a shutdown during load although its creation was acknowledged: {x!r}")
        env.count("cut-phases", "cut-bursts" if cutn else "late-cuts")
        c.close()
        return cutn > 0

    def simplify(self, case):
        if case["models"] > 1:
            yield dict(case, models=1)
        for i, ph in enumerate(case["phases"]):
            for f, lo in (("conns", 2), ("n", 2), ("keys", 1), ("ddl", 0)):
                if ph[f] > lo:
                    yield dict(case, phases=case["phases"][:i] + [dict(ph, **{f: max(lo, ph[f] // 2)})] + case["phases"][i + 1:])


ok_ = ("empty",)
CHECK = C()
