import time, uuid
from hist import *


class C(Check):
    pid = "D08"
    technique = "property-based testing of insert-time functions: format, type, uniqueness over all values drawn, and clock bracketing"
    rule = ("a case is 40-200 inserts that call @uuidstr/@uuidbin/@timesec in key, value, nullable and list-adjacent positions of tuple and map "
            "inserts over several connections, interleaved with wrong names, missing parentheses, arguments and columns of another type. "
            "Values must be well-formed, distinct over everything the run has drawn, typed, stable on re-reading, and times must lie between the "
            "clock readings taken around the statement. Non-trivial: each of the three functions was used and one misuse was refused")
    quick = 700
    thorough = 20000
    shrink_keys = ("ops",)

    def gen(self, r, i, tier):
        n = r.choice([40, 80, 200])
        return {"ops": [{"k": r.choice(["us", "ub", "ts", "ts", "usk", "ubk", "tsk", "all", "null", "bad", "bad", "dup"]), "f": r.choice("tm"),
                         "c": r.randrange(3), "s": r.getrandbits(32)} for _ in range(n)]}

    def run(self, env, case):
        srv = env.server()
        cs = env.data.get("cs")
        if cs is None or env.data.get("srv") is not srv:
            cs = [srv.conn() for _ in range(3)]
            env.data.update(cs=cs, srv=srv)
        seen = env.data.setdefault("seen", set())
        env.data["cs"] = None
        s = env.name("s")
        D = [f"create space {s}",
             f"create model {s}.a(k: uint64, us: string, ub: binary, ts: uint64, null nus: string, null nub: binary, null nts: uint64, l: list {{ type: string }})",
             f"create model {s}.us(k: string, v: uint64)", f"create model {s}.ub(k: binary, v: uint64)", f"create model {s}.ts(k: uint64, v: string)",
             f"create model {s}.w(k: uint64, u8: uint8, u32: uint32, si: sint64, f: float64, b: bool)"]
        for q in D:
            expect(cs[0].q(q), ("empty",), q)
        used = set()

        def U(v, t, what):
            if v.t != t:
                raise Violation(f"{what} produced a {v.t}: {v!r}")
            if t == "string":
                try:
                    u = uuid.UUID(v.v.decode())
                except ValueError:
                    raise Violation(f"{what} produced {v!r}, which is not a UUID")
                if str(u) != v.v.decode().lower():
                    raise Violation(f"{what} produced {v!r}, which is not in canonical form")
            else:
                if len(v.v) != 16:
                    raise Violation(f"{what} produced {len(v.v)} bytes: {v!r}")
                u = uuid.UUID(bytes=v.v)
            if u.version != 4 or u.variant != uuid.RFC_4122:
                raise Violation(f"{what} produced {u}, which is not a random (version 4) UUID")
            if u.bytes in seen:
                raise Violation(f"{what} produced {u} a second time")
            seen.add(u.bytes)

        def T(v, a, b, what):
            if v.t != "uint64" or not a <= v.v <= b:
                raise Violation(f"{what} gave {v!r}; the clock read {a}..{b} around the statement")

        kn = 0
        prev = {}
        for op in case["ops"]:
            c, k, r = cs[op["c"]], op["k"], Random(op["s"])
            kn += 1
            a = int(time.time())
            if k in ("us", "ub", "ts", "all", "null"):
                cells = {"k": "?", "us": "?", "ub": "?", "ts": "?", "nus": "null", "nub": "null", "nts": "null", "l": "[]"}
                fixed = {"us": P("str", "x"), "ub": P("bin", b"x"), "ts": P("uint", 7)}
                fn = {"us": "@uuidstr()", "ub": "@uuidbin()", "ts": "@timesec()"}
                on = [k] if k in fn else ["us", "ub", "ts"]
                if k == "null":
                    on = []
                    fx = r.sample(["nus", "nub", "nts"], r.randrange(1, 4))
                else:
                    fx = ["n" + x for x in on] if r.random() < 0.5 else []
                for x in on:
                    cells[x] = fn[x]
                for x in fx:
                    cells[x] = fn[x[1:]]
                names = list(cells)
                if op["f"] == "m":
                    r.shuffle(names)
                ps = [P("uint", kn) if n == "k" else fixed[n] for n in names if cells[n] == "?"]
                t = "(" + ",".join(cells[n] for n in names) + ")" if op["f"] == "t" else "{" + ",".join(f"{n}:{cells[n]}" for n in names) + "}"
                q = f"insert into {s}.a {t}"
                got = c.q(q, *ps)
                b = int(time.time()) + 1
                expect(got, ("empty",), q)
                o = cs[(op["c"] + 1) % 3]
                row = o.q(f"select * from {s}.a where k=?", P("uint", kn))
                if row[0] != "row":
                    raise Violation(f"after {q}: {row!r}")
                if c.q(f"select * from {s}.a where k=?", P("uint", kn)) != row:
                    raise Violation(f"two reads of the row of {q} differ")
                got = dict(zip(["k", "us", "ub", "ts", "nus", "nub", "nts", "l"], row[1]))
                for x in cells:
                    if cells[x] == fn["us"]:
                        U(got[x], "string", "@uuidstr")
                        used.add("us")
                    elif cells[x] == fn["ub"]:
                        U(got[x], "binary", "@uuidbin")
                        used.add("ub")
                    elif cells[x] == fn["ts"]:
                        T(got[x], a, b, "@timesec")
                        used.add("ts")
                    elif cells[x] == "null":
                        expect(got[x], NULL, f"{q} column {x}")
                    elif x in fixed:
                        expect(got[x].v, fixed[x][1].encode() if isinstance(fixed[x][1], str) else fixed[x][1], f"{q} column {x}")
                prev[kn] = row
            elif k in ("usk", "ubk"):
                m = k[:2]
                f = {"us": "@uuidstr", "ub": "@uuidbin"}[m]
                before = cs[0].q(f"select all * from {s}.{m} limit ?", P("uint", 1 << 30))[1]
                q = f"insert into {s}.{m}({f}(), ?)" if op["f"] == "t" else f"insert into {s}.{m} {{ v: ?, k: {f}() }}"
                expect(c.q(q, P("uint", kn)), ("empty",), q)
                rows = cs[0].q(f"select all * from {s}.{m} limit ?", P("uint", 1 << 30))[1]
                new = [x for x in rows if x not in before]
                if len(rows) != len(before) + 1 or len(new) != 1 or new[0][1].v != kn:
                    raise Violation(f"{q}: {len(before)} rows before, {len(rows)} after, new: {new!r}")
                U(new[0][0], "string" if m == "us" else "binary", f)
                r2 = c.q(f"select * from {s}.{m} where k = ?", P("str" if m == "us" else "bin", new[0][0].v))
                expect(r2, ("row", new[0]), f"select by the generated key of {q}")
                used.add(m)
            elif k == "tsk":
                # the key is the current second: inserted at most once per second
                q = f"insert into {s}.ts(@timesec(), ?)"
                got = c.q(q, P("str", "x"))
                b = int(time.time()) + 1
                if got not in (("empty",), ("err", 108)):
                    raise Violation(f"{q}: {got!r}")
                rows = c.q(f"select all k from {s}.ts limit ?", P("uint", 1 << 30))[1]
                ks = [x[0].v for x in rows]
                if len(set(ks)) != len(ks) or not any(a <= x <= b for x in ks):
                    raise Violation(f"{q} -> {got!r}: keys {ks}, clock {a}..{b}")
                used.add("ts")
            elif k == "dup":
                ks = [x for x in prev]
                if not ks:
                    continue
                x = r.choice(ks)
                q = f"insert into {s}.a(?, @uuidstr(), @uuidbin(), @timesec(), null, null, null, [])"
                expect(c.q(q, P("uint", x)), ("err", 108), q)
                expect(c.q(f"select * from {s}.a where k=?", P("uint", x)), prev[x], "row after a refused duplicate")
            else:
                good = {"u8": "?", "u32": "?", "si": "?", "f": "?", "b": "?"}
                kind = r.choice(["type", "type", "name", "paren", "args", "where"])
                if kind == "type":
                    col, fn = r.choice([("us", "@timesec()"), ("us", "@uuidbin()"), ("ub", "@uuidstr()"), ("ub", "@timesec()"),
                                        ("ts", "@uuidstr()"), ("ts", "@uuidbin()"), ("l", "@uuidstr()")])
                elif kind == "name":
                    col, fn = "us", r.choice(["@nosuch()", "@uuid()", "@uuidstrx()", "@ uuidstr2()"])
                elif kind == "paren":
                    col, fn = "us", r.choice(["@uuidstr", "@uuidstr(", "@", "uuidstr()", "@()"])
                elif kind == "args":
                    col, fn = "us", r.choice(["@uuidstr(true)", "@uuidstr(null)", "@uuidstr(@uuidstr())"])
                else:
                    q = f"select * from {s}.us where k = @uuidstr()"
                    got = c.q(q)
                    if got[0] != "err":
                        raise Violation(f"{q}: {got!r}")
                    continue
                names = ["k", "us", "ub", "ts", "nus", "nub", "nts", "l"]
                cells = {"k": "?", "us": "?", "ub": "?", "ts": "?", "nus": "null", "nub": "null", "nts": "null", "l": "[]"}
                cells[col] = fn
                fixed = {"k": P("uint", kn), "us": P("str", "x"), "ub": P("bin", b"x"), "ts": P("uint", 7)}
                q = f"insert into {s}.a(" + ",".join(cells[n] for n in names) + ")"
                got = c.q(q, *[fixed[n] for n in names if cells[n] == "?"])
                if got[0] != "err":
                    raise Violation(f"{q} was accepted: {got!r}")
                expect(c.q(f"select * from {s}.a where k=?", P("uint", kn)), ("err", 111), f"after the refused {q}")
                env.count("misuse:" + kind)
                used.add("bad")
            env.count("op:" + k)
        rows = cs[0].q(f"select all * from {s}.a limit ?", P("uint", 1 << 30))[1]
        if sorted(x[0].v for x in rows) != sorted(prev) or any(prev[x[0].v] != ("row", x) for x in rows):
            raise Violation("the generated values changed after they were stored")
        expect(cs[0].q(f"drop space allow not empty {s}"), ("empty",), "drop")
        env.data["cs"] = cs
        return {"us", "ub", "ts", "bad"} <= used

    def sample(self, case):
        return [o["k"] + o["f"] for o in case["ops"][:20]]


CHECK = C()
