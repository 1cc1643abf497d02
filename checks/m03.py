from hist import *


class C(Check):
    pid = "M03"
    technique = "stateful model-based testing of the current space over several interleaved sessions"
    rule = ("a case is 60-200 steps over 3-5 sessions and 3 spaces that hold equally named models with different contents: USE (valid, unknown, "
            "null, $current), unqualified and qualified SELECT/INSERT/UPDATE/DELETE/INSPECT/SELECT ALL, DDL with unqualified names, drop and "
            "re-creation of spaces that are current somewhere, and reconnects; every answer is predicted per session. Non-trivial: at least two "
            "sessions had different current spaces and an unqualified write was made under each of two")
    quick = 900
    thorough = 30000

    KINDS = ["use", "use", "use", "usebad", "usenull", "cur", "cur", "ins", "ins", "ins", "sel", "sel", "upd", "del", "all", "insp", "ddl",
             "dropm", "drops", "reconn", "qsel", "qins", "err"]

    def gen(self, r, i, tier):
        return {"n": r.choice([3, 3, 4, 5]),
                "ops": [{"o": r.choice(self.KINDS), "c": r.randrange(5), "s": r.getrandbits(32)} for _ in range(r.choice([60, 120, 200]))]}

    def run(self, env, case):
        srv = env.server()
        n = case["n"]
        cs = env.data.pop("cs", None) if env.data.get("srv") is srv else None
        cs = cs or []
        while len(cs) < n:
            cs.append(srv.conn())
        env.data["srv"] = srv
        pre = env.name("s")
        names = [f"{pre}{x}" for x in "abc"]
        data = {}       # space -> model -> {k: v}
        cur = [None] * n
        adm = cs[0]
        tr = []

        def ask(i, q, *ps):
            r = cs[i].q(q, *ps)
            tr.append(f"[{i}] {q} {ps if ps else ''} => {short(repr(r), 100)}")
            return r

        def want(i, w, q, *ps):
            g = ask(i, q, *ps)
            if g != w:
                raise Violation(f"session {i} (current space {cur[i]}): {q} {ps}: expected {w!r}, got {g!r}\n    " + "\n    ".join(tr[-10:]))

        def mk(s):
            want(0, EMPTY, f"create space {s}")
            data[s] = {}
            for m in ("m", "n"):
                want(0, EMPTY, f"create model {s}.{m}(k: uint64, v: string)")
                data[s][m] = {}
        for i in range(n):
            want(i, EMPTY, "use null")
        for s in names:
            mk(s)
        wrote, used = set(), set()
        for op in case["ops"]:
            i, r, o = op["c"] % n, Random(op["s"]), op["o"]
            m = r.choice("mn")
            s = cur[i]
            k = r.randrange(5)
            val = f"{op['s'] % 100000}"
            K, VV = P("uint", k), P("str", val)
            if o == "use":
                t = r.choice(names)
                if t in data:
                    want(i, EMPTY, f"use {t}")
                    cur[i] = t
                    used.add((i, t))
                else:
                    want(i, ERR(100), f"use {t}")
            elif o == "usebad":
                want(i, ERR(100), "use nosuchspace")
            elif o == "usenull":
                want(i, EMPTY, r.choice(["use null", "use NULL", "USE Null"]))
                cur[i] = None
            elif o == "cur":
                if s is None:
                    want(i, ("value", NULL), "use $current")
                elif s in data:
                    want(i, ("value", V("string", s.encode())), "use $current")
                else:
                    want(i, ERR(100), "use $current")
                    cur[i] = None   # the session has no current space from here on
            elif o in ("ins", "sel", "upd", "del", "all", "insp"):
                d = data.get(s, {}).get(m) if s else None
                if o == "ins":
                    q, ps = f"insert into {m}(?, ?)", [K, VV]
                    w = ERR(108) if d is not None and k in d else EMPTY
                elif o == "sel":
                    q, ps = f"select v from {m} where k = ?", [K]
                    w = ("row", [V("string", d[k].encode())]) if d and k in d else ERR(111)
                elif o == "upd":
                    q, ps = f"update {m} set v += ? where k = ?", [VV, K]
                    w = EMPTY if d and k in d else ERR(111)
                elif o == "del":
                    q, ps = f"delete from {m} where k = ?", [K]
                    w = EMPTY if d and k in d else ERR(111)
                elif o == "all":
                    q, ps, w = f"select all * from {m} limit ?", [P("uint", 100)], None
                else:
                    q, ps, w = f"inspect model {m}", [], None
                if s is None:
                    g = ask(i, q, *ps)
                    if g[0] != "err":
                        raise Violation(f"session {i} has no current space, but {q} {ps} gave {g!r}\n    " + "\n    ".join(tr[-10:]))
                elif d is None:
                    want(i, ERR(100), q, *ps)
                elif w is not None:
                    want(i, w, q, *ps)
                    if w == EMPTY:
                        if o == "ins":
                            d[k] = val
                        elif o == "upd":
                            d[k] += val
                        else:
                            del d[k]
                        wrote.add(s)
                elif o == "all":
                    g = ask(i, q, *ps)
                    w = sorted((a, b.encode()) for a, b in d.items())
                    if g[0] != "rows" or sorted((x[0].v, x[1].v) for x in g[1]) != w:
                        raise Violation(f"session {i} (current space {s}): {q}: expected {w}, got {g!r}\n    " + "\n    ".join(tr[-10:]))
                else:
                    want(i, ("value", V("string", b'{"decl":"{*k:UInt64,!v:String}","rows":%d,"properties":{}}' % len(d))), q)
                env.count(o + ("-unqualified" if s in data else "-none"))
            elif o == "qsel":
                t = r.choice(names)
                d = data.get(t, {}).get(m)
                want(i, ERR(100) if d is None else ("row", [V("string", d[k].encode())]) if k in d else ERR(111), f"select v from {t}.{m} where k = ?", K)
            elif o == "qins":
                t = r.choice(names)
                d = data.get(t, {}).get(m)
                want(i, ERR(100) if d is None else ERR(108) if k in d else EMPTY, f"insert into {t}.{m}(?, ?)", K, VV)
                if d is not None:
                    d.setdefault(k, val)
            elif o == "ddl":
                q = r.choice(["create model zz(k: string)", "drop model m", "alter model m remove v", "drop model allow not empty m"])
                g = ask(i, q)
                if g[0] != "err":
                    raise Violation(f"{q} without a space gave {g!r}")
            elif o == "dropm":
                t = r.choice(names)
                if t in data and r.random() < 0.5:
                    if m in data[t]:
                        want(i, EMPTY, f"drop model allow not empty {t}.{m}")
                        del data[t][m]
                    else:
                        want(i, EMPTY, f"create model {t}.{m}(k: uint64, v: string)")
                        data[t][m] = {}
            elif o == "drops":
                t = r.choice(names)
                if t in data:
                    if r.random() < 0.5:
                        want(i, EMPTY, f"drop space allow not empty {t}")
                        del data[t]
                        env.count("drop-current" if t in cur else "drop")
                else:
                    mk(t)
            elif o == "reconn":
                if r.random() < 0.1:
                    cs[i].close()
                    cs[i] = srv.conn()
                    cur[i] = None
                    env.count("reconnect")
            elif o == "err":
                g = ask(i, r.choice(["select * from", "use", "use $", "use $curren", "insert into m", "use use", "sysctl drop user nosuch"]))
                if g[0] != "err":
                    raise Violation(f"expected an error, got {g!r}")
        for s in list(data):
            for m, d in data[s].items():
                g = cs[0].q(f"select all * from {s}.{m} limit ?", P("uint", 100))
                if sorted((x[0].v, x[1].v) for x in g[1]) != sorted((a, b.encode()) for a, b in d.items()):
                    raise Violation(f"final contents of {s}.{m}: expected {d}, got {g!r}")
            expect(cs[0].q(f"drop space allow not empty {s}"), EMPTY, "drop")
        env.data["cs"] = cs
        return len(wrote) >= 2 and len({i for i, _ in used}) >= 2

    def sample(self, case):
        return [f"[{o['c'] % case['n']}] {o['o']}" for o in case["ops"][:25]]


CHECK = C()
