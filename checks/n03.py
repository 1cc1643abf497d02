from harness import *
import lang
from lang import *

TEMPLATES = [
    ("select * from {m} where k = ?", ["uint"]), ("select k , v , l from {m} where k = ?", ["uint"]),
    ("select all * from {m} limit ?", ["uint"]), ("select all k , v from {m} limit ?", ["uint"]),
    ("select * from m where k = ?", ["uint"]), ("select * from {t} where name = ?", ["str"]),
    ("insert into {m} ( ? , ? , [ ? , ? ] , null )", ["uint", "str", "uint", "uint"]),
    ("insert into {m} ( ? , ? , [ ] , ? )", ["uint", "str", "float"]),
    ("insert into {m} { k : ? , v : ? , l : [ ? ] , f : null }", ["uint", "str", "uint"]),
    ("insert into {m} ( ? , @ uuidstr ( ) , [ ? ] , null )", ["uint", "uint"]),
    ("insert into {t} ( ? , [ [ ? , ? ] , [ ] ] , true , ? )", ["str", "bin", "bin", "sint"]),
    ("insert into {t} { name : ? , ll : [ [ ? ] ] , b : false , s : ? }", ["str", "bin", "sint"]),
    ("update {m} set v = ? where k = ?", ["str", "uint"]), ("update {m} set v += ? , f = ? where k = ?", ["str", "float", "uint"]),
    ("update {m} set l += ? where k = ?", ["uint", "uint"]), ("update {t} set s -= ? , s *= ? , s /= ? where name = ?", ["sint", "sint", "sint", "str"]),
    ("delete from {m} where k = ?", ["uint"]), ("delete from {t} where name = ?", ["str"]),
    ("use {s}", []), ("use null", []), ("use $ current", []),
    ("inspect global", []), ("inspect space {s}", []), ("inspect model {m}", []), ("inspect model m", []),
    ("create space {x}", []), ("create space if not exists {x} with { env : { a : ? , b : { } } }", ["uint"]),
    ("create space {x} with { env : { a : true , b : null } }", []),
    ("alter space {x} with { env : { a : ? } }", ["str"]),
    ("create model {x} . y ( primary k : string , null v : list { type : list { type : uint8 } } )", []),
    ("create model if not exists {x} . y ( k : string , v : binary )", []),
    ("create model {x} . z ( k : uint64 { } , v : string ) with { }", []),
    ("alter model {x} . y add ( c1 { type : uint8 , nullable : true } , c2 { type : list { type : string } } )", []),
    ("alter model {x} . y add c3 { type : string }", []), ("alter model {x} . y remove ( v , c1 )", []),
    ("alter model {x} . y remove v", []), ("alter model {x} . y update v { type : list { type : uint64 } , nullable : true }", []),
    ("drop model {x} . y", []), ("drop model allow not empty {x} . y", []), ("drop model if exists {x} . z", []),
    ("drop space {x}", []), ("drop space if exists {x}", []), ("drop space allow not empty {x}", []),
    ("sysctl report status", []), ("sysctl drop user nobody", []), ("sysctl alter user nobody with { password : ? }", ["str"]),
    ("sysctl create user root with { password : ? }", ["str"]),
]


def rand_param(r, kind=None):
    k = kind if kind and r.random() < 0.85 else r.choice(["null", "bool", "uint", "sint", "float", "bin", "str", "raw"])
    if k == "null":
        return P("null")
    if k == "bool":
        return P("bool", r.random() < 0.5)
    if k == "uint":
        return P("uint", gen_uint(r, 2**64 - 1) if r.random() < 0.6 else r.randrange(0, 8))
    if k == "sint":
        return P("sint", gen_sint(r, 2**63))
    if k == "float":
        return P("float", r.choice([b"1.5", b"-0", b"1e308", b"nan", b"inf", b"-inf", b"1e999", b"x", b""]))
    if k == "bin":
        return P("bin", gen_bytes(r))
    if k == "str":
        return P("str", gen_text(r)) if r.random() < 0.9 else P("str", gen_bytes(r))
    return P("raw", r.choice([b"", b"\x07", b"\xff", b"\x02", b"\x0299999999999999999999\n", b"\x02-1\n", b"\x021", b"\x01\x02",
                              b"\x01", b"\x0518446744073709551615\nabc", b"\x065\nab", b"\x06-1\n", b"\x06\n", b"\x030x1\n",
                              b"\x03-9223372036854775809\n", b"\x05100\nabc", b"\x06", b"\x05x\n", r.randbytes(r.randrange(1, 12))]))


def rand_token(r):
    k = r.random()
    if k < 0.35:
        return r.choice(lang.KEYWORDS)
    if k < 0.75:
        return r.choice(lang.SYMBOLS)
    if k < 0.95:
        return r.choice(["k", "v", "s0", "m", "true", "false", "uuidstr", "type", "user", "x", "_", "A" * 70, "q1", "password"])
    return "".join(chr(r.randrange(1, 256)) for _ in range(r.randrange(1, 4)))


def mutate(r, toks, params):
    kinds = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        m = r.choice(["trunc", "trunc", "del", "dup", "swap", "ins", "rep", "ins", "pdel", "padd", "prep", "splice", "byte"])
        kinds.append(m)
        i = r.randrange(len(toks) + 1)
        if m == "trunc":
            toks = toks[:i]
        elif m == "del" and toks:
            j = r.randrange(len(toks))
            toks = toks[:j] + toks[j + r.choice([1, 1, 2, 3]):]
        elif m == "dup" and toks:
            j = r.randrange(len(toks))
            n = r.choice([1, 2, 3, 5])
            toks = toks[:j + n] + toks[j:j + n] + toks[j + n:]
        elif m == "swap" and len(toks) > 1:
            a, b = r.randrange(len(toks)), r.randrange(len(toks))
            toks = list(toks)
            toks[a], toks[b] = toks[b], toks[a]
        elif m == "ins":
            toks = toks[:i] + [rand_token(r) for _ in range(r.choice([1, 1, 2]))] + toks[i:]
        elif m == "rep" and toks:
            j = r.randrange(len(toks))
            toks = toks[:j] + [rand_token(r)] + toks[j + 1:]
        elif m == "pdel" and params:
            j = r.randrange(len(params))
            params = params[:j] + params[j + 1:]
        elif m == "padd":
            j = r.randrange(len(params) + 1)
            params = params[:j] + [rand_param(r)] + params[j:]
        elif m == "prep" and params:
            j = r.randrange(len(params))
            params = params[:j] + [rand_param(r)] + params[j + 1:]
        elif m == "splice":
            o = r.choice(TEMPLATES)[0].split()
            j = r.randrange(len(o))
            toks = toks[:i] + o[j:]
        elif m == "byte" and toks:
            j = r.randrange(len(toks))
            t = toks[j]
            p = r.randrange(len(t) + 1)
            toks = toks[:j] + [t[:p] + chr(r.randrange(0, 256)) + t[p:]] + toks[j + 1:]
    return toks, params, kinds


class C(Check):
    pid = "N03"
    technique = "grammar-based mutation fuzzing of query packets with a per-packet response oracle and a liveness sentinel"
    rule = ("a case is a session of 60 query packets built from 43 statement templates over every statement kind, most of them mutated "
            "(token truncation/deletion/duplication/swap/insertion/splicing, byte insertion, parameter deletion/addition/corruption) or "
            "purely random; after each packet exactly one well-formed response must arrive, followed by the answer of a `sysctl report "
            "status` sentinel on the same connection. Non-trivial: the session saw both accepted and rejected statements, and at least "
            "4 different error codes")
    assumptions = ["the packet framing itself is valid (N01 and N05 cover broken framing)"]
    quick = 900
    thorough = 30000

    def gen(self, r, i, tier):
        ops = []
        for _ in range(60):
            k = r.random()
            t, ps = r.choice(TEMPLATES)
            q = t.replace("{s}", "{S}").replace("{m}", "{S}.m").replace("{t}", "{S}.t")
            q = q.replace("{x}", "{S}x")
            params = [rand_param(r, p) for p in ps]
            toks = q.split(" ")
            if k < 0.2:
                kinds = ["valid"]
            elif k < 0.93:
                toks, params, kinds = mutate(r, toks, params)
            else:
                toks = [rand_token(r) for _ in range(r.randrange(0, 14))]
                params = [rand_param(r) for _ in range(r.randrange(0, 4))]
                kinds = ["random"]
            sep = " " if r.random() < 0.9 else r.choice(["\n", "\t", "  ", " \t\n "])
            ops.append({"q": sep.join(toks), "p": params, "m": kinds})
        return {"ops": ops}

    def run(self, env, case):
        s = env.name("s")
        c = env.conn()
        env._conn = None  # only a connection that survives the case is reused
        for q in (f"create space {s}", "create model %s.m(k: uint64, v: string, l: list { type: uint64 }, null f: float64)" % s,
                  "create model %s.t(name: string, ll: list { type: list { type: binary } }, b: bool, s: sint32)" % s):
            expect(c.q(q), ("empty",), q)
        ok, errs = 0, set()
        for op in case["ops"]:
            q = op["q"].replace("{S}", s).encode("latin-1")
            c.send(enc_query(q, op["p"]))
            try:
                resp = c.response()
            except (Closed, ProtocolError, Timeout) as e:
                raise Violation(self.note(env, f"{type(e).__name__} ({e}) instead of one response to query {short(repr(q))} with parameters {short(repr(op['p']))}"))
            if c.pos != len(c.buf):
                raise Violation(f"extra bytes {c.buf[c.pos:][:80]!r} after the response {resp!r} to {short(repr(q))} {short(repr(op['p']))}")
            try:
                st = c.q("sysctl report status")
            except (Closed, ProtocolError, Timeout) as e:
                raise Violation(self.note(env, f"session unusable after {short(repr(q))} {short(repr(op['p']))} -> {resp!r}: {e}"))
            if st != ("empty",):
                raise Violation(f"after {short(repr(q))} {short(repr(op['p']))} -> {resp!r} the sentinel got {st!r}")
            for m in op["m"]:
                env.count("packet:" + m)
            if resp[0] == "err":
                errs.add(resp[1])
                env.count(f"response:err{resp[1]}")
            else:
                ok += 1
                env.count("response:" + resp[0])
        for x in (s, s + "x"):
            c.q(f"drop space allow not empty {x}")
        c.q("use null")
        env._conn = c
        return ok > 0 and len(errs) >= 4

    def note(self, env, msg):
        return str(self._abnormal(env, msg))

    def sample(self, case):
        return [o["q"] for o in case["ops"][:4]]


CHECK = C()
