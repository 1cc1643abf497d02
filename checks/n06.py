import re
import lang
import n03
from hist import *

KW = set(lang.KEYWORDS) | {"true", "false"}
TOKEN = re.compile(r"[A-Za-z0-9_]+|[^\sA-Za-z0-9_]")


def recase(r, w):
    k = r.random()
    if k < 0.3:
        return w.upper()
    if k < 0.45:
        return w.capitalize()
    if k < 0.9:
        return "".join(x.upper() if r.random() < 0.5 else x for x in w)
    return w


def gap(r, need):
    k = r.random()
    if not need and k < 0.45:
        return ""
    if k < 0.7:
        return r.choice([" ", "\t", "\n"])
    return "".join(r.choice(" \t\n") for _ in range(r.choice([1, 2, 3, 9, 40]) if k < 0.99 else 3000))


def respell(r, q, toks=None):
    toks = toks or TOKEN.findall(q)
    out = [gap(r, False)] if r.random() < 0.7 else []
    first = toks[0].lower() if toks else ""
    for i, t in enumerate(toks):
        prev = toks[i - 1].lower() if i else ""
        prev_sym = toks[i - 1] if i else ""
        word = t.replace("_", "a").isalnum() and t.isascii()
        if word and t.lower() in KW and prev_sym != "." and prev != "model":
            t = recase(r, t.lower())
        elif word and ((first == "sysctl" and i in (1, 2)) or (first == "inspect" and t.lower() == "global" and i == 1) or (prev_sym == "$" and t.lower() == "current")
                       or (t.lower() == "empty" and prev == "not")):
            t = recase(r, t.lower())
        if out or i:
            need = i > 0 and (toks[i - 1][-1].isalnum() or toks[i - 1][-1] == "_") and (t[0].isalnum() or t[0] == "_")
            out.append(gap(r, need))
        out.append(t)
    if r.random() < 0.7:
        out.append(gap(r, False))
    return "".join(out)


class RWorld(World):
    """Sends every statement in another spelling; the model predicts the answers as for the plain one."""

    def ask(self, q, params=()):
        self.k = getattr(self, "k", 0) + 1
        return World.ask(self, respell(Random(f"{self.rs}:{self.k}"), q), params)


class C(Hist):
    pid = "N06"
    technique = "metamorphic testing: respelled statements against the predictions of the reference model and against the plain spelling on a twin"
    rule = ("a case is (a) a history of 40-80 statements of every kind in which each statement is respelled at random (letter case of every keyword; spaces, tabs and newlines, none where the grammar allows it, up to 3000 of them, before, between and "
            "after the tokens) and each answer is predicted by the reference model, (b) 30 statement templates, three quarters of them broken by token deletion, duplication, swapping or insertion, sent plain to one space and respelled to a twin: "
            "both answers (including the error codes) and the final contents must be equal, and (c) a family of spaces, models and columns whose names differ only in letter case, that must stay distinct. Non-trivial: statements accepted in (a), "
            "accepted and refused ones in (b)")
    weights = {**DML, **DDL, **ALTER, "inspect": 3}
    lens = (40, 80)
    long_len = 200
    need = ("insert", "twin-ok", "twin-err")
    quick = 2000
    thorough = 30000

    def gen(self, r, i, tier):
        return {"ops": self.ops(r, tier), "rs": r.getrandbits(32), "twin": [{"s": r.getrandbits(32)} for _ in range(30)], "fam": r.getrandbits(32)}

    shrink_keys = ("ops", "twin")

    def make(self, env):
        w = RWorld(env, env.conn(), env.name("t"))
        w.rs = self.case["rs"]
        return w

    def run(self, env, case):
        self.case = case
        return Hist.run(self, env, case)

    def do_twin(self, w, case):
        c, env = w.c, w.env
        a, b = env.name("tw") + "p", env.name("tw") + "r"
        for s in (a, b):
            for q in (f"create space {s}", "create model %s.m(k: uint64, v: string, l: list { type: uint64 }, null f: float64)" % s,
                      "create model %s.t(name: string, ll: list { type: list { type: binary } }, b: bool, s: sint32)" % s):
                expect(c.q(q), EMPTY, q)
            expect(c.q(f"insert into {s}.m(?, ?, [], null)", P("uint", 1), P("str", "x")), EMPTY, "insert")
            expect(c.q(f"insert into {s}.t(?, [], true, ?)", P("str", "n"), P("sint", -3)), EMPTY, "insert")
        for op in case["twin"]:
            r = Random(op["s"])
            t, kinds = r.choice(n03.TEMPLATES)
            t = t.replace("{m}", "{s}.m").replace("{t}", "{s}.t").replace("{x}", "{s}x")
            toks = TOKEN.findall(t.replace("{s}", "SPACE"))
            if "uuidstr" in toks:
                continue
            ps = [P("uint", r.randrange(4)) if k == "uint" else P("str", r.choice("nxyz")) if k == "str" else P("sint", r.randrange(-3, 4)) if k == "sint" else P("bin", b"b") if k == "bin" else P("float", 1.5) for k in kinds]
            if r.random() < 0.75:
                for _ in range(r.choice([1, 1, 2])):
                    i = r.randrange(len(toks))
                    m = r.choice(["del", "dup", "swap", "ins", "cut", "kw"])
                    if m == "del":
                        toks = toks[:i] + toks[i + 1:]
                    elif m == "dup":
                        toks = toks[:i] + toks[i:i + 1] + toks[i:]
                    elif m == "swap":
                        j = r.randrange(len(toks))
                        toks[i], toks[j] = toks[j], toks[i]
                    elif m == "ins":
                        toks = toks[:i] + [r.choice(lang.KEYWORDS + lang.SYMBOLS + ["k", "v", "zz", "true"])] + toks[i:]
                    elif m == "kw":
                        toks[i] = r.choice(lang.KEYWORDS)
                    else:
                        toks = toks[:i]
                    if not toks:
                        break
            if not toks:
                continue
            pa = [x.replace("SPACE", a) for x in toks]
            pb = [x.replace("SPACE", b) for x in toks]
            qa, qb = " ".join(pa), respell(r, None, pb)
            ra = c.q(qa, *ps)
            self.undo(c, toks, ra)
            rb = c.q(qb, *ps)
            self.undo(c, toks, rb)
            fix = lambda x: repr(x).replace(a, "?").replace(b, "?")
            if ra[0] == "value" and qa.lower().startswith("inspect "):   # the order of names is not specified
                fix = lambda x: sorted(repr(x).replace(a, "?").replace(b, "?"))
            if fix(ra) != fix(rb) and not qa.lower().startswith("inspect global"):
                raise Violation(f"{qa} {ps} gave {short(repr(ra), 200)}, but respelled as {short(repr(qb), 400)} it gave {short(repr(rb), 200)}")
            w.hit("twin-err" if ra[0] == "err" else "twin-ok")
        for s in ("", "x"):
            ga = c.q(f"inspect space {a}{s}")
            gb = c.q(f"inspect space {b}{s}")
            if ga[0] != gb[0]:
                raise Violation(f"space {a}{s}: {ga!r}, twin {b}{s}: {gb!r}")
        for m in ("m", "t"):
            ga = c.q(f"select all * from {a}.{m} limit ?", P("uint", 1000))
            gb = c.q(f"select all * from {b}.{m} limit ?", P("uint", 1000))
            if ga[0] != gb[0] or (ga[0] == "rows" and sorted(map(repr, ga[1])) != sorted(map(repr, gb[1]))):
                raise Violation(f"the contents of {a}.{m} and of its twin {b}.{m} differ: {short(repr(ga), 300)} / {short(repr(gb), 300)}")
        for s in (a, b, a + "x", b + "x"):
            c.q(f"drop space allow not empty {s}")
        expect(c.q("use null"), EMPTY, "use null")

    @staticmethod
    def undo(c, toks, g):
        """What a mutated statement created or selected outside of the twins."""
        if g[0] == "err":
            return
        low = [x.lower() for x in toks]
        if low[0] == "use":
            expect(c.q("use null"), EMPTY, "use null")
        elif low[:2] == ["create", "space"]:
            name = next(x for x in toks[2:] if x.lower() not in ("if", "not", "exists"))
            if not name.startswith("SPACE"):
                c.q(f"drop space allow not empty {name}")
        elif low[:3] == ["sysctl", "create", "user"]:
            c.q(f"sysctl drop user {toks[3]}")

    def do_family(self, w, case):
        """Names that differ only in letter case."""
        c, r = w.c, Random(case["fam"])
        base = f"Fam{w.tag}".replace("t", "q")
        variants = lambda s, n: r.sample(sorted({"".join(x.upper() if r.random() < 0.5 else x.lower() for x in s) for _ in range(12)}), n)
        spaces = variants(base, 2)
        data = {}
        for s in spaces:
            expect(c.q(respell(r, f"create space {s}")), EMPTY, "create space")
        for s in spaces:
            for m in variants("model_a", 2):
                ks = variants("pkey", 1) + variants("field", 3)
                q = respell(r, f"create model {s}.{m}(" + ", ".join(f"{x}: string" for x in ks) + ")")
                expect(c.q(q), EMPTY, q)
                row = {x: f"{s}.{m}.{x}" for x in ks}
                q = respell(r, f"insert into {s}.{m} {{" + ", ".join(f"{x}: ?" for x in reversed(ks)) + "}")
                expect(c.q(q, *[P("str", row[x]) for x in reversed(ks)]), EMPTY, q)
                data[s, m] = row
        def check():
            for (s, m), row in data.items():
                ks = list(row)
                cols = ks[:]
                r.shuffle(cols)
                q = respell(r, f"select {', '.join(cols)} from {s}.{m} where {ks[0]} = ?")
                g = c.q(q, P("str", row[ks[0]]))
                if g != ("row", [V("string", row[x].encode()) for x in cols]):
                    raise Violation(f"{q!r}: expected the values of {row}, got {g!r}")
                q = f"select all * from {s}.{m} limit ?"
                g = c.q(q, P("uint", 9))
                if g != ("rows", [[V("string", row[x].encode()) for x in ks]]):
                    raise Violation(f"{q!r}: expected {row}, got {g!r}")
        check()
        for (s, m), row in data.items():
            x = r.choice(list(row)[1:])
            row[x] += "!"
            ks = list(row)
            q = respell(r, f"update {s}.{m} set {x} += ? where {ks[0]} = ?")
            expect(c.q(q, P("str", "!"), P("str", row[ks[0]])), EMPTY, q)
            bad = next((y for y in variants(x, 4) if y not in row), None)
            if bad:
                g = c.q(f"update {s}.{m} set {bad} = ? where {ks[0]} = ?", P("str", "!"), P("str", row[ks[0]]))
                expect(g, ERR(E_FIELD), f"update of {bad} in a model with the columns {ks}")
        check()
        s, m = r.choice(list(data))
        del data[s, m]
        expect(c.q(respell(r, f"drop model allow not empty {s}.{m}")), EMPTY, "drop model")
        check()
        expect(c.q(f"drop space allow not empty {spaces[0]}"), EMPTY, "drop space")
        for k in [k for k in data if k[0] == spaces[0]]:
            del data[k]
        check()
        expect(c.q(f"drop space allow not empty {spaces[1]}"), EMPTY, "drop space")
        w.env.count("family")

    def end(self, w, case):
        self.do_twin(w, case)
        self.do_family(w, case)

    def sample(self, case):
        r = Random(case["rs"])
        return [respell(r, t[0].replace("{m}", "s.m").replace("{t}", "s.t").replace("{s}", "s").replace("{x}", "x")) for t in [r.choice(n03.TEMPLATES) for _ in range(4)]]


CHECK = C()
