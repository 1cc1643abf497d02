from hist import *

COLS = [("k", "string", False), ("a", "string", False), ("b", "binary", False), ("c", "uint64", False), ("d", "sint64", False), ("e", "bool", False), ("f", "float64", False), ("g", "string", True), ("h", "string", False)]
NASTY = ["'", '"', "\\", "?", "??", "', '", "k", "null", "true", "1", "-1", "x' or k = '", "{ }", "]", ")", "(", ";", "--", "/*", "\0", "\n", "5\nhello", "\x06", "\x065\nhello", "\x00", "\x02" "12\n",
         "S5\n0\nabc", "S25\n20\nsysctl report status", "H\0\0\0\0\0", "where k = ?", "limit 0", "select * from m", "drop space allow not empty x", "insert into m(?)", "@uuidstr", "@timesec()", "k = k", "\t", " ", "",
         "é", "\U0001f980", "root", "{k: ?}", "[?]", "s.m", "all", "*", "+=", "\x7f", "\u2028", "%s", "${x}", "\\n", "\\x27"]


def content(r):
    k = r.random()
    if k < 0.55:
        return "".join(r.choice(NASTY) for _ in range(r.choice([1, 1, 1, 2, 3, 6])))
    if k < 0.65:
        n = r.choice([1, 9, 10, 99, 100, 127, 128, 255, 256, 4095, 4096, 9999, 10000, 65536])
        return (r.choice(NASTY) or "z") * n if n < 300 else "".join(r.choice("ab\n'?\"0123") for _ in range(n))
    return gen_text(r)


def val(r, t, null):
    if null and r.random() < 0.3:
        return NULL
    if t == "string":
        return V(t, content(r).encode())
    if t == "binary":
        return V(t, content(r).encode() if r.random() < 0.6 else gen_bytes(r))
    return gen_val(r, t)


class C(Check):
    pid = "N04"
    technique = "property-based testing of parameter binding with hostile contents and ill-formed parameter lists against a model of the rows"
    rule = ("a case is 60-120 statements on one model with columns of every parameter type: INSERT (tuple, map), UPDATE with several assignments, appended text, SELECT, DELETE, LIMIT, all through placeholders filled with hostile contents "
            "(quotes, statement text, placeholders, packet headers, encoded parameters, NUL, long texts). In between the same statements with missing, surplus, swapped, undecodable or truncated parameters, and placeholders put where names are required; "
            "these must be refused without effect (surplus ones may be ignored). Answers and rows are predicted by a model. Non-trivial: statements with hostile contents were accepted and at least 5 kinds of ill-formed lists were refused")
    quick = 900
    thorough = 40000

    def gen(self, r, i, tier):
        return {"ops": [{"o": r.choice(["ins", "ins", "ins", "sel", "sel", "upd", "upd", "app", "del", "all", "bad", "bad", "bad", "bad", "name"]), "s": r.getrandbits(32)} for _ in range(r.choice([60, 120]))]}

    def run(self, env, case):
        c = env.conn()
        sp = env.name("s")
        m = f"{sp}.m"
        decl = ", ".join(f"{'null ' if n else ''}{c_}: {t}" for c_, t, n in COLS)
        for q in (f"create space {sp}", f"create model {m}({decl})"):
            expect(c.q(q), ("empty",), q)
        rows, tr, kinds = {}, [], set()
        names = [x[0] for x in COLS]
        good = 0

        def ask(q, enc):
            raw = q.encode()
            body = b"%d\n" % len(raw) + raw + enc
            g = c.raw_query(b"S%d\n" % len(body) + body)
            tr.append(f"{q} <{short(repr(enc), 200)}> => {short(repr(g), 100)}")
            return g

        def fail(msg):
            raise Violation(msg + "\n    " + "\n    ".join(tr[-8:]))

        def verify():
            q = f"select all * from {m} limit ?"
            g = ask(q, enc_param(P("uint", 1 << 30)))
            if g[0] != "rows":
                fail(f"{q}: {g}")
            got = {}
            for row in g[1]:
                got[row[0].v] = row
            if len(got) != len(g[1]) or set(got) != set(rows):
                fail(f"the keys are {sorted(rows)}, got {sorted(got)}")
            for k in rows:
                for x, (n, y) in zip(got[k], rows[k].items()):
                    if x != y:
                        fail(f"row {k!r} column {n}: stored {y!r}, got {x!r}")

        def stmt(r, o):
            """(query, [values bound in order], expected response, effect)"""
            ks = list(rows)
            key = r.choice(ks) if ks and r.random() < 0.8 else content(r).encode()
            if o == "ins":
                row = {n: val(r, t, nl) for n, t, nl in COLS}
                order = list(names)
                vals = []
                pos = lambda n: (vals.append(row[n]), "?")[1]
                if r.random() < 0.5:
                    q = f"insert into {m}(" + ", ".join(pos(n) for n in order) + ")"
                else:
                    r.shuffle(order)
                    q = f"insert into {m} {{" + ", ".join(f"{n}: {pos(n)}" for n in order) + "}"
                k = row["k"].v
                return q, vals, (("empty",) if k not in rows else ("err", 108)), (lambda: rows.__setitem__(k, row)) if k not in rows else None
            if o == "sel":
                cols = r.sample(names, r.randrange(1, 6))
                return f"select {', '.join(cols)} from {m} where k = ?", [V("string", key)], ("row", [rows[key][x] for x in cols]) if key in rows else ("err", 111), None
            if o == "del":
                return f"delete from {m} where k = ?", [V("string", key)], ("empty",) if key in rows else ("err", 111), (lambda: rows.pop(key)) if key in rows else None
            if o == "upd":
                cols = r.sample(COLS[1:], r.randrange(1, 5))
                new = {n: val(r, t, False) for n, t, nl in cols}
                q = f"update {m} set " + ", ".join(f"{n} = ?" for n in new) + " where k = ?"
                return q, list(new.values()) + [V("string", key)], ("empty",) if key in rows else ("err", 111), (lambda: rows[key].update(new)) if key in rows else None
            if o == "app":
                n = r.choice(["a", "b", "h"])
                t = dict((x[0], x[1]) for x in COLS)[n]
                v = val(r, t, False)
                q = f"update {m} set {n} += ? where k = ?"
                if key not in rows:
                    return q, [v, V("string", key)], ("err", 111), None
                new = V(t, rows[key][n].v + v.v)
                return q, [v, V("string", key)], ("empty",), lambda: rows[key].update({n: new})
            lim = r.choice([0, 1, 2, 1 << 20])
            return f"select all k from {m} limit ?", [V("uint64", lim)], ("count", min(lim, len(rows))), None

        for op in case["ops"]:
            o, r = op["o"], Random(op["s"])
            if o not in ("bad", "name"):
                q, vals, want, eff = stmt(r, o)
                g = ask(q, b"".join(enc_param(param(v)) for v in vals))
                if want[0] == "count":
                    if g[0] != "rows" or len(g[1]) != want[1]:
                        fail(f"{q}: expected {want[1]} rows, got {g}")
                elif g != want:
                    fail(f"{q} with {short(repr(vals), 400)}: expected {short(repr(want), 300)}, got {short(repr(g), 300)}")
                if eff:
                    eff()
                    good += 1
                env.count(o)
                continue
            q, vals, want, eff = stmt(r, r.choice(["ins", "ins", "sel", "upd", "upd", "del", "app", "all"]))
            ps = [enc_param(param(v)) for v in vals]
            surplus = False
            if o == "name":
                # a placeholder where a name or keyword is required
                toks = q.replace("(", " ( ").replace(",", " , ").replace("{", " { ").replace("}", " } ").replace(":", " : ").replace(")", " ) ").split()
                at = [i for i, t in enumerate(toks) if t[0].isalpha() and t != "null"]
                i = r.choice(at)
                before = sum(t == "?" for t in toks[:i])
                if "." in toks[i] and r.random() < 0.5:
                    x, y = toks[i].split(".")
                    repl, name = r.choice([(f"?.{y}", x), (f"{x}.?", y)])
                else:
                    repl, name = "?", toks[i]
                toks[i] = repl
                q = " ".join(toks)
                ps.insert(before, enc_param(P("str", name)))
                kind = "name"
            else:
                kind = r.choice(["fewer", "none", "surplus", "tag", "cut", "bool", "utf8", "num", "num", "size", "size", "type"])
                i = r.randrange(len(ps))
                if kind == "fewer":
                    ps = ps[:r.randrange(len(ps))]
                elif kind == "none":
                    ps = []
                elif kind == "surplus":
                    ps += [r.choice(ps + [b"\x00", b"\xff", b"\x065\nhello"]) for _ in range(r.choice([1, 2]))]
                    surplus = True
                elif kind == "tag":
                    ps[i] = bytes([r.choice([7, 8, 9, 14, 127, 128, 255, r.randrange(7, 256)])]) + ps[i][1:]
                elif kind == "cut":
                    ps = ps[:i] + [ps[i][:r.randrange(len(ps[i]))]]
                elif kind == "bool":
                    ps[i] = b"\x01" + bytes([r.choice([2, 3, 48, 49, 128, 255])])
                elif kind == "utf8":
                    x = r.choice([b"\xff", b"\xc3\x28", b"a\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xc0\xaf", b"abc\xe2\x82"])
                    ps[i] = b"\x06%d\n" % len(x) + x
                elif kind == "num":
                    t = r.choice([2, 3, 4])
                    ps[i] = bytes([t]) + r.choice({2: [b"-1\n", b"18446744073709551616\n", b"1a\n", b"a\n", b"1.0\n", b" 1\n", b"1 \n", b"+1\n", b"99999999999999999999999\n", b"0x1\n", b"\xff\n", b"1"],
                                                   3: [b"-9223372036854775809\n", b"9223372036854775808\n", b"1a\n", b"--1\n", b"-\n", b"1.0\n", b"-99999999999999999999999\n", b"- 1\n", b"1"],
                                                   4: [b"1.2.3\n", b"abc\n", b"\n", b"1,5\n", b"\xff\xfe\n", b"1.5", b"0x1p3\n", b" 1.0\n", b"--1\n", b"1e\n"]}[t])
                elif kind == "size":
                    t = r.choice([5, 6])
                    ps[i] = bytes([t]) + r.choice([b"-1\nab", b"18446744073709551616\nab", b"18446744073709551615\nab", b"9223372036854775807\nab", b"99999\nab", b"a\nab", b"2", b"2 \nab", b"4294967296\nab", b"%d\nab" % (2 + 4096)])
                    ps = ps[:i + 1]
                else:
                    # a parameter of another class than its place takes
                    v = vals[i]
                    cl = klass(v.t) if v.t != "null" else None
                    if cl is None or (want[0] == "count"):
                        continue
                    ps[i] = enc_param(r.choice([x for x in [P("uint", 5), P("sint", -5), P("bool", True), P("float", 2.5), P("bin", b"k"), P("str", "k")] if {"uint": "uint", "sint": "sint", "bool": "bool", "float": "float", "bin": "bin", "str": "str"}[x[0]] != cl]))
            g = ask(q, b"".join(ps))
            if surplus and g[0] != "err":
                if want[0] == "count":
                    if g[0] != "rows" or len(g[1]) != want[1]:
                        fail(f"{q} with surplus parameters: expected {want[1]} rows, got {g}")
                elif g != want:
                    fail(f"{q} with surplus parameters: expected {short(repr(want), 200)} or an error, got {short(repr(g), 200)}")
                if eff:
                    eff()
            elif g[0] != "err":
                fail(f"{q} with ill-formed parameters ({kind}) {short(repr(ps), 300)}: must be refused, got {short(repr(g), 200)}")
            else:
                kinds.add(kind)
            env.count(f"ill:{kind}")
            if r.random() < 0.4:
                verify()
        verify()
        q = f"drop space allow not empty {sp}"
        expect(c.q(q), ("empty",), q)
        return good > 5 and len(kinds) >= 5

    def sample(self, case):
        return [o["o"] for o in case["ops"][:40]]


CHECK = C()
