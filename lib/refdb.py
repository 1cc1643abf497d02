"""Reference model of the database and a stateful driver.

`World` keeps the expected contents (spaces, models, rows) next to a real
connection.  Each operation is a small dict {"o": kind, "s": seed}; concrete
names and values are drawn from the seed and the *current* expected state, so
any subsequence of a history is again a valid history (needed for shrinking).
Every response is predicted before it is compared.
"""
import json
from random import Random
from harness import Violation, short, expect
from lang import *
from sky import V, NULL, P, enc_query

E_TYPEDEF, E_NOTFOUND, E_FIELD, E_PROPS, E_EXISTS, E_NOTEMPTY, E_TYPE, E_BADDEF, E_ALTER, E_DUP, E_VALID, E_WHERE, E_ROW, E_LOCK = \
    30, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112
EMPTY = ("empty",)


def ERR(c):
    return ("err", c)


def TRUE(b=True):
    return ("value", V("bool", b))


def kv(v):
    """Dictionary key of a primary key value (class-independent payload)."""
    return (klass(v.t), v.v)


def same(want, got, f=None):
    """Payload equality; the tag may be the one at write time or the declared one (ALTER MODEL UPDATE widens)."""
    if want.t == got.t and want.v == got.v:
        return True
    if want.t == "list" or got.t == "list":
        return want.t == got.t and len(want.v) == len(got.v) and all(same(a, b, f) for a, b in zip(want.v, got.v))
    if want.t == "null" or got.t == "null":
        return want.t == got.t
    if got.t != want.t and (f is None or got.t != f["type"]):
        return False
    if klass(want.t) != klass(got.t):
        return False
    return want.v == got.v


class RModel:
    def __init__(self, space, name, fields, pk):
        self.space, self.name, self.fields, self.pk = space, name, fields, pk
        self.rows = {}
        self.removed = []   # names of fields removed at some point
        self.altered = False

    @property
    def full(self):
        return f"{self.space}.{self.name}"

    def f(self, n):
        return next(x for x in self.fields if x["name"] == n)

    def pkf(self):
        return self.f(self.pk)

    def others(self):
        return [x for x in self.fields if x["name"] != self.pk]

    def decl(self):
        return decl(self.fields, self.pk)


def among(r, f, bad):
    """The bad element(s) of a list at any place among good ones, sometimes far behind."""
    if not f["depth"] or bad.t != "list" or not bad.v or r.random() < 0.4:
        return bad
    good = gen_list(r, f["depth"] - 1, f["type"]) if f["depth"] > 1 else gen_val(r, f["type"], True)
    n = r.choice([0, 1, 2, 5, 17] + [300, 700] * (f["depth"] == 1 and r.random() < 0.5))
    at = r.choice([n, n, r.randrange(n + 1)])
    return V("list", [good] * at + bad.v + [good] * (n - at))


def wrong_class_val(r, f):
    """A value whose type class never fits field f (and is not null)."""
    k = "list" if f["depth"] else klass(f["type"])
    while True:
        t = r.choice(TYPES + ["list"])
        if t == "list":
            if k == "list":
                # a list of the wrong depth or of the wrong element class
                if f["depth"] == 1:
                    inner = r.choice([x for x in TYPES if klass(x) != klass(f["type"])])
                    n = r.choice([1, 1, 1, 2, 5, 300])
                    return V("list", [r.choice([gen_val(r, inner, True), V("list", [gen_val(r, f["type"], True)])])] * n)
                return V("list", [gen_val(r, f["type"], True)] * r.choice([1, 1, 1, 2, 300]))
            return r.choice([V("list", []), V("list", [gen_val(r, f["type"], True)])])
        if klass(t) != k:
            return gen_val(r, t, True)


def out_of_range_val(r, f):
    """A value of the right class outside of the declared range, or None when the type has no such value."""
    t = f["type"]
    if t in ("uint8", "uint16", "uint32"):
        v = r.choice([URANGE[t] + 1, URANGE[t] + 2, URANGE[t] * 2 + 1, 2**64 - 1])
        x = V("uint64", v)
    elif t in ("sint8", "sint16", "sint32"):
        v = r.choice([SRANGE[t], SRANGE[t] + 1, -SRANGE[t] - 1, 2**63 - 1, -2**63])
        x = V("sint64", v)
    elif t == "float32":
        x = V("float64", f8(r.choice([3.5e38, -3.5e38, 1e300, -1.7976931348623157e308])))
    else:
        return None
    for d in range(f["depth"]):
        x = V("list", [x])
        x = among(r, {"depth": d + 1, "type": t}, x)
    return x


def arith(op, a, b, t):
    """Result payload of `a op b` for declared type t, or None when it must be refused."""
    k = klass(t)
    if k == "uint":
        if op == "/" and b == 0:
            return None
        x = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a // b}[op]()
        return x if 0 <= x <= URANGE[t] else None
    if k == "sint":
        if op == "/" and b == 0:
            return None
        if op == "/":
            q = abs(a) // abs(b)
            x = q if (a < 0) == (b < 0) else -q
        else:
            x = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b}[op]()
        return x if -SRANGE[t] <= x <= SRANGE[t] - 1 else None
    if k == "float":
        x, y = unf8(a), unf8(b)
        try:
            z = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y}[op]()
        except ZeroDivisionError:
            return None
        except OverflowError:
            return None
        if z != z or abs(z) == float("inf") or (t == "float32" and abs(z) > F32MAX):
            return None
        return f8(z)
    if k in ("bin", "str") and op == "+":
        return a + b
    return None


NEAR = ["", " ", "a", "A", "aa", "a ", " a", "a\0", "\0", "ab", "ba", "b", "0", "00", "1", "01", "-1", "1.0", "true", "null",
        "é", "e\u0301", "E", "x" * 255, "x" * 256, "x" * 257, "x" * 256 + "y", "x" * 255 + "y", "y" + "x" * 255, "k" * 5000,
        "k" * 4999 + "j", "a\n", "\n", "日", "日本"]


def near_key(r, t):
    k = klass(t)
    if k == "uint":
        mx = URANGE[t]
        return V(t, r.choice([0, 1, 2, 3, 10, 16, 64, 127, 128, 255, 256, 65535, 65536, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**63,
                              mx, mx - 1, mx // 2]) & mx)
    if k == "sint":
        lim = SRANGE[t]
        v = r.choice([0, 1, 2, 3, 10, 16, 64, 127, 255, 256, 65536, 2**31, 2**32, 2**32 + 1, lim - 1, lim - 2]) % lim
        return V(t, r.choice([v, -v, -v - 1]))
    x = r.choice(NEAR).encode()
    if k == "bin" and r.random() < 0.3:
        x = r.choice([b"\xff", b"\xfe", b"\xff\xff", b"\x80", b"a\xff", b"\xff" * 256, bytes(range(256))])
    return V(t, x)


# -- properties of spaces: name -> kind of the value, None for null, or a dictionary
def gen_dict(r, depth=0):
    return {k: gen_dict(r, depth + 1) if depth < 3 and r.random() < 0.4 else None if r.random() < 0.2 else r.choice(["uint", "sint", "bool", "float", "bin", "str"])
            for k in r.sample(["a", "b", "c"], r.choice([0, 1, 1, 2]))}


def say_dict(r, d, ps):
    out = []
    for k, v in d.items():
        if v is None:
            out.append(f"{k}: null")
        elif isinstance(v, dict):
            out.append(f"{k}: {say_dict(r, v, ps)}")
        else:
            t = r.choice([t for t in TYPES if klass(t) == v])
            ps.append(param(gen_val(r, t)))
            out.append(f"{k}: ?")
    return "{ " + ", ".join(out) + (", " if out and r.random() < 0.1 else "") + " }"


def flatten(d):
    return {k: flatten(v) if isinstance(v, dict) else v for k, v in d.items() if v is not None}


def merge(old, patch):
    """The properties after the change; None if the change is to be refused."""
    new = dict(old)
    for k, v in patch.items():
        if v is None:
            new.pop(k, None)
        elif k not in old:
            new[k] = flatten(v) if isinstance(v, dict) else v
        elif isinstance(v, dict) and isinstance(old[k], dict):
            new[k] = merge(old[k], v)
            if new[k] is None:
                return None
        elif v == old[k] and not isinstance(v, dict):
            pass
        else:
            return None
    return new


class World:
    def __init__(self, env, conn, tag):
        self.env, self.c, self.tag = env, conn, tag
        self.spaces = {}    # name -> set of model names
        self.models = {}    # full name -> RModel
        self.props = {}     # space -> the kinds of its properties
        self.trace = []
        self.nontriv = {}
        self.near = False   # draw keys from a small pool of easily confused ones
        self.n = 0
        self.users = None

    # -- plumbing
    def fresh(self, p):
        self.n += 1
        return f"{p}{self.tag}x{self.n}"

    def hit(self, *labels):
        for label in labels:
            self.env.count(label)
            self.nontriv[label] = self.nontriv.get(label, 0) + 1

    def fail(self, msg):
        t = "\n    ".join(self.trace[-12:])
        raise Violation(f"{msg}\n  last statements:\n    {t}")

    def ask(self, q, params=()):
        self.trace.append(f"{q}" + (f"  -- {short(repr(params), 160)}" if params else ""))
        self.c.send(enc_query(q, params))
        resp = self.c.response()
        self.trace[-1] += f"  => {short(repr(resp), 120)}"
        return resp

    def must(self, want, q, params=()):
        got = self.ask(q, params)
        if got != want:
            self.fail(f"{short(q, 300)} {short(repr(params), 300)}: expected {want!r}, got {short(repr(got), 300)}")
        return got

    def must_err(self, codes, q, params=()):
        """An error is required; `codes` are the acceptable ones (None: any)."""
        got = self.ask(q, params)
        if got[0] != "err" or (codes is not None and got[1] not in codes):
            self.fail(f"{short(q, 300)} {short(repr(params), 300)}: expected error {codes}, got {short(repr(got), 300)}")

    def ident(self, f):
        """A declared column; `uid` tells it from later columns of the same name."""
        self.n += 1
        return dict(f, uid=self.n)

    # -- choices
    def pick(self, r, pred=lambda m: True):
        c = [self.models[k] for k in sorted(self.models) if pred(self.models[k])]
        return r.choice(c) if c else None

    def pick_key(self, r, m):
        """A stored key, or None."""
        if not m.rows:
            return None
        ks = list(m.rows)
        return ks[r.randrange(len(ks))]

    def new_key(self, r, m):
        f = m.pkf()
        for _ in range(20):
            v = near_key(r, f["type"]) if self.near else gen_val(r, f["type"], r.random() < 0.7)
            if kv(v) not in m.rows:
                return v
        return None

    def keyval(self, m, k):
        return m.rows[k][m.pk]

    # -- statement text
    def where(self, m, v, params):
        t = render(v, params)
        return f"where {m.pk} = {t}"

    def row_text(self, r, m, row, params, form):
        """VALUES part of an INSERT."""
        if form == "t":
            return "(" + ", ".join(render(row[f["name"]], params, r) for f in m.fields) + ")"
        names = [f["name"] for f in m.fields]
        r.shuffle(names)
        return "{" + ", ".join(f"{n}: " + render(row[n], params, r) for n in names) + "}"

    def gen_row(self, r, m, key):
        row = {f["name"]: gen_field_val(r, f) for f in m.fields}
        row[m.pk] = key
        return row

    # -- DML operations
    def op_ins(self, r):
        m = self.pick(r)
        if m is None:
            return
        key = self.new_key(r, m)
        if key is None:
            return
        row = self.gen_row(r, m, key)
        ps = []
        form = r.choice("tm")
        q = f"insert into {m.full} " if form == "m" else f"insert into {m.full}"
        q += self.row_text(r, m, row, ps, form)
        self.must(EMPTY, q, ps)
        m.rows[kv(key)] = row
        self.hit("insert")
        self.check_row(m, kv(key))

    def op_ins_dup(self, r):
        m = self.pick(r, lambda m: m.rows)
        if m is None:
            return
        k = self.pick_key(r, m)
        row = self.gen_row(r, m, V(m.pkf()["type"], self.keyval(m, k).v))
        ps = []
        q = f"insert into {m.full} " + self.row_text(r, m, row, ps, r.choice("tm"))
        self.must(ERR(E_DUP), q, ps)
        self.hit("insert-duplicate")
        self.check_row(m, k)

    def op_ins_bad(self, r):
        m = self.pick(r)
        if m is None:
            return
        key = self.new_key(r, m)
        if key is None:
            return
        row = self.gen_row(r, m, key)
        kind = r.choice(["class", "class", "range", "range", "null", "missing", "extra", "unknown", "pknull", "dupfield"])
        ps = []
        form = r.choice("tm")
        names = [f["name"] for f in m.fields]
        if kind == "class":
            f = r.choice(m.fields)
            row[f["name"]] = wrong_class_val(r, f)
        elif kind == "range":
            c = [f for f in m.fields if out_of_range_val(Random(1), f) is not None]
            if not c:
                return
            f = r.choice(c)
            bad = out_of_range_val(r, f)
            if f["depth"] == 1 and r.random() < 0.5:
                good = [gen_val(r, f["type"]) for _ in range(r.randrange(0, 3))]
                bad = V("list", good + bad.v)
            row[f["name"]] = bad
        elif kind == "null":
            c = [f for f in m.others() if not f["null"]]
            if not c:
                return
            row[r.choice(c)["name"]] = NULL
        elif kind == "pknull":
            row[m.pk] = NULL
        if kind == "missing":
            # drop one column: by count for tuples, by name for maps
            d = r.choice(names)
            if form == "t":
                names = names[:-1]
                if not names:
                    return
                t = "(" + ", ".join(render(row[n], ps) for n in names) + ")"
            else:
                names.remove(d)
                if not names:
                    return
                t = "{" + ", ".join(f"{n}: " + render(row[n], ps) for n in names) + "}"
        elif kind == "extra":
            if form == "t":
                t = "(" + ", ".join([render(row[n], ps) for n in names] + ["null"]) + ")"
            else:
                t = "{" + ", ".join([f"{n}: " + render(row[n], ps) for n in names] + ["nosuchfield: null"]) + "}"
        elif kind == "unknown":
            d = r.choice(names)
            t = "{" + ", ".join((f"{n}: " if n != d else "nosuchfield: ") + render(row[n], ps) for n in names) + "}"
        elif kind == "dupfield":
            if len(names) < 2:
                return
            d, x = r.sample(names, 2)
            t = "{" + ", ".join((f"{n}: " if n != d else f"{x}: ") + render(row[n], ps) for n in names) + "}"
        else:
            t = self.row_text(r, m, row, ps, form)
        q = f"insert into {m.full} {t}"
        self.must_err(None if kind == "dupfield" else [E_VALID], q, ps)
        self.hit("insert-refused:" + kind)
        self.absent(m, key)

    def absent(self, m, key):
        ps = []
        q = f"select * from {m.full} " + self.where(m, key, ps)
        self.must(ERR(E_ROW), q, ps)

    def check_row(self, m, k, fields=None):
        """SELECT one stored row and compare every cell."""
        row = m.rows[k]
        ps = []
        names = fields or [f["name"] for f in m.fields]
        cols = ", ".join(fields) if fields else "*"
        q = f"select {cols} from {m.full} " + self.where(m, row[m.pk], ps)
        got = self.ask(q, ps)
        if got[0] != "row" or len(got[1]) != len(names):
            self.fail(f"{q} {short(repr(ps), 200)}: expected a row of {len(names)} cells, got {short(repr(got), 300)}")
        for n, g in zip(names, got[1]):
            f = m.f(n)
            if n == m.pk:
                ok = g.t == f["type"] and g.v == row[n].v
            else:
                ok = same(row[n], g, f)
            if not ok:
                self.fail(f"{q} {short(repr(ps), 200)}: column {n} ({f['type']}, depth {f['depth']}) holds {short(repr(row[n]), 300)} "
                          f"but {short(repr(g), 300)} was returned")

    def op_sel(self, r):
        m = self.pick(r, lambda m: m.rows)
        if m is None:
            return
        k = self.pick_key(r, m)
        names = [f["name"] for f in m.fields]
        fs = None
        if r.random() < 0.6:
            fs = r.sample(names, r.randrange(1, len(names) + 1))
        self.check_row(m, k, fs)
        self.hit("select")

    def op_sel_absent(self, r):
        m = self.pick(r)
        if m is None:
            return
        key = self.new_key(r, m)
        if key is None:
            return
        self.absent(m, key)
        self.hit("select-absent")

    def op_sel_unknown_field(self, r):
        m = self.pick(r, lambda m: m.rows)
        if m is None:
            return
        k = self.pick_key(r, m)
        bad = r.choice(["nosuchfield"] + [x for x in m.removed if all(f["name"] != x for f in m.fields)])
        names = [f["name"] for f in m.fields]
        cols = r.sample(names, r.randrange(0, len(names))) + [bad]
        r.shuffle(cols)
        ps = []
        if r.random() < 0.5:
            q = f"select {', '.join(cols)} from {m.full} " + self.where(m, self.keyval(m, k), ps)
        else:
            q = f"select all {', '.join(cols)} from {m.full} limit ?"
            ps = [P("uint", 10)]
        self.must(ERR(E_FIELD), q, ps)
        self.hit("select-unknown-field")

    def all_rows(self, m, cols, limit):
        q = f"select all {', '.join(cols) if cols else '*'} from {m.full} limit ?"
        got = self.ask(q, [P("uint", limit)])
        if got[0] != "rows":
            self.fail(f"{q} (limit {limit}): expected rows, got {short(repr(got), 300)}")
        return q, got[1]

    def check_all(self, m, r=None, limit=None, cols=None):
        names = [f["name"] for f in m.fields]
        want_cols = cols or names
        lim = 1 << 40 if limit is None else limit
        q, rows = self.all_rows(m, cols, lim)
        if len(rows) != min(lim, len(m.rows)):
            self.fail(f"{q} (limit {lim}): the model holds {len(m.rows)} rows, got {len(rows)}")
        seen = set()
        for row in rows:
            if len(row) != len(want_cols):
                self.fail(f"{q}: a row of {len(row)} cells, expected {len(want_cols)}")
            if m.pk not in want_cols:
                continue
            key = row[want_cols.index(m.pk)]
            if key.t != m.pkf()["type"]:
                self.fail(f"{q}: the primary key came back as {key!r}, declared {m.pkf()['type']}")
            k = kv(key)
            if k in seen:
                self.fail(f"{q}: the row {key!r} was returned twice")
            seen.add(k)
            if k not in m.rows:
                self.fail(f"{q}: the row {key!r} does not exist")
            for n, g in zip(want_cols, row):
                if n != m.pk and not same(m.rows[k][n], g, m.f(n)):
                    self.fail(f"{q}: row {key!r} column {n} ({m.f(n)['type']}, depth {m.f(n)['depth']}) holds "
                              f"{short(repr(m.rows[k][n]), 300)}, got {short(repr(g), 300)}")
        if m.pk not in want_cols and limit is None:
            # compare as multisets of payloads
            a = sorted(repr([norm(m.rows[k][n]) for n in want_cols]) for k in m.rows)
            b = sorted(repr([norm(g) for g in row]) for row in rows)
            if a != b:
                self.fail(f"{q}: the projected rows are not those of the model")

    def op_all(self, r):
        m = self.pick(r)
        if m is None:
            return
        names = [f["name"] for f in m.fields]
        cols = r.sample(names, r.randrange(1, len(names) + 1)) if r.random() < 0.5 else None
        n = len(m.rows)
        limit = r.choice([None, None, 0, 1, max(0, n - 1), n, n + 1, 2**64 - 1])
        self.check_all(m, r, limit, cols)
        self.hit("select-all" + ("" if limit is None else "-limit"))

    def op_upd(self, r):
        m = self.pick(r, lambda m: m.rows and m.others())
        if m is None:
            return
        k = self.pick_key(r, m)
        cur = dict(m.rows[k])
        ps, parts, outcome, kinds = [], [], None, []
        for _ in range(r.choice([1, 1, 1, 2, 2, 3, 5])):
            f = r.choice(m.others())
            n = f["name"]
            old = cur[n]
            bad = r.random() < 0.12
            if bad:
                how = r.choice(["class", "range", "field", "pk", "optype", "null", "zero"])
            else:
                how = "ok"
            if how == "field":
                parts.append(f"nosuchfield {r.choice(['=', '+='])} " + render(V("uint64", 1), ps))
                outcome = outcome or [E_FIELD]
            elif how == "pk":
                parts.append(f"{m.pk} = " + render(gen_val(r, m.pkf()["type"], True), ps))
                outcome = outcome or [E_FIELD, E_VALID]
            elif how == "class" and f["depth"] == 0:
                v = wrong_class_val(r, f)
                if v.t == "list":
                    continue
                parts.append(f"{n} = " + render(v, ps))
                outcome = outcome or [E_VALID]
            elif how == "range" and f["depth"] <= 1 and out_of_range_val(Random(1), f) is not None:
                v = out_of_range_val(r, f)
                if f["depth"]:
                    parts.append(f"{n} += " + render(out_of_range_val(r, {**f, "depth": 0}), ps))
                else:
                    parts.append(f"{n} = " + render(v, ps))
                outcome = outcome or [E_VALID]
            elif how == "optype" and f["depth"] == 0 and klass(f["type"]) in ("bool", "bin", "str"):
                o = r.choice(["-", "*", "/"] + (["+"] if klass(f["type"]) == "bool" else []))
                parts.append(f"{n} {o}= " + render(gen_val(r, f["type"]), ps))
                outcome = outcome or [E_VALID]
            elif how == "null" and f["depth"] == 0 and old.t == "null" and f["type"] != "bool":
                parts.append(f"{n} += " + render(gen_val(r, f["type"]), ps))
                outcome = outcome or [E_VALID]
            elif how == "zero" and f["depth"] == 0 and klass(f["type"]) in ("uint", "sint", "float"):
                parts.append(f"{n} /= " + render(V(f["type"], f8(0.0) if klass(f["type"]) == "float" else 0), ps))
                outcome = outcome or [E_VALID]
            elif f["depth"] == 1:
                v = gen_val(r, f["type"])
                parts.append(f"{n} += " + render(v, ps))
                if old.t == "null":
                    outcome = outcome or [E_VALID]
                elif outcome is None:
                    cur[n] = V("list", old.v + [v])
                kinds.append("push")
            elif f["depth"] == 0:
                k2 = klass(f["type"])
                ops = ["="] + list({"uint": "+-*/", "sint": "+-*/", "float": "+-*/", "bin": "+", "str": "+"}.get(k2, ""))
                o = r.choice(ops)
                if old.t == "null":
                    o = "="
                small = r.random() < 0.6
                v = gen_val(r, f["type"], small)
                if o in ("+", "-") and k2 in ("uint", "sint") and r.random() < 0.35:
                    # land on or next to the boundaries of the declared range
                    lo, hi = (0, URANGE[f["type"]]) if k2 == "uint" else (-SRANGE[f["type"]], SRANGE[f["type"]] - 1)
                    tgt = r.choice([lo - 1, lo, lo + 1, hi - 1, hi, hi + 1])
                    d = tgt - old.v if o == "+" else old.v - tgt
                    full = (0, 2**64 - 1) if k2 == "uint" else (-2**63, 2**63 - 1)
                    if full[0] <= d <= full[1]:
                        v = V("uint64" if k2 == "uint" else "sint64", d)
                parts.append(f"{n} {'' if o == '=' else o}= " + render(v, ps))
                if outcome is None:
                    if o == "=":
                        cur[n] = V(f["type"], v.v)
                    else:
                        x = arith(o, old.v, v.v, f["type"])
                        if x is None:
                            outcome = [E_VALID]
                        else:
                            cur[n] = V(f["type"], x)
                kinds.append("set" if o == "=" else "arith")
        if not parts:
            return
        q = f"update {m.full} set {', '.join(parts)} " + self.where(m, self.keyval(m, k), ps)
        if outcome is None:
            self.must(EMPTY, q, ps)
            m.rows[k] = cur
            self.hit("update")
            for x in set(kinds):
                self.env.count("update-" + x)
        else:
            self.must_err(outcome, q, ps)
            self.hit("update-refused")
            if len(parts) > 1:
                self.hit("update-refused-multi")
        self.check_row(m, k)

    def op_upd_absent(self, r):
        m = self.pick(r, lambda m: m.others() and any(f["depth"] == 0 for f in m.others()))
        if m is None:
            return
        key = self.new_key(r, m)
        if key is None:
            return
        f = r.choice([f for f in m.others() if f["depth"] == 0])
        ps = []
        q = f"update {m.full} set {f['name']} = " + render(gen_val(r, f["type"]), ps) + " " + self.where(m, key, ps)
        self.must(ERR(E_ROW), q, ps)
        self.hit("update-absent")
        self.absent(m, key)

    def op_del(self, r):
        m = self.pick(r, lambda m: m.rows)
        if m is None:
            return
        k = self.pick_key(r, m)
        key = self.keyval(m, k)
        ps = []
        q = f"delete from {m.full} " + self.where(m, key, ps)
        self.must(EMPTY, q, ps)
        del m.rows[k]
        self.hit("delete")
        self.absent(m, key)

    def op_del_absent(self, r):
        m = self.pick(r)
        if m is None:
            return
        key = self.new_key(r, m)
        if key is None:
            return
        ps = []
        q = f"delete from {m.full} " + self.where(m, key, ps)
        self.must(ERR(E_ROW), q, ps)
        self.hit("delete-absent")

    def op_reinsert(self, r):
        """Delete a row and insert its key again with other values."""
        m = self.pick(r, lambda m: m.rows)
        if m is None:
            return
        k = self.pick_key(r, m)
        key = V(m.pkf()["type"], self.keyval(m, k).v)
        ps = []
        self.must(EMPTY, f"delete from {m.full} " + self.where(m, key, ps), ps)
        del m.rows[k]
        row = self.gen_row(r, m, key)
        ps = []
        self.must(EMPTY, f"insert into {m.full} " + self.row_text(r, m, row, ps, r.choice("tm")), ps)
        m.rows[k] = row
        self.hit("reinsert")
        self.check_row(m, k)

    def op_where_bad(self, r):
        """Anything but one equality on the primary key must be refused without effect."""
        m = self.pick(r, lambda m: m.rows and any(f["depth"] == 0 for f in m.others()))
        if m is None:
            return
        k = self.pick_key(r, m)
        key = self.keyval(m, k)
        f = r.choice([f for f in m.others() if f["depth"] == 0])
        kind = r.choice(["op", "op", "other", "both", "both", "class", "none", "unknown"])
        ps = []
        verb = r.choice(["select", "update", "delete"])
        head = {"select": f"select * from {m.full}", "delete": f"delete from {m.full}"}.get(verb)
        if head is None:
            head = f"update {m.full} set {f['name']} = " + render(gen_val(r, f["type"]), ps)
        codes = [E_WHERE]
        fv = m.rows[k][f["name"]]
        if fv.t == "null":
            fv = gen_val(r, f["type"])
        if kind == "op":
            w = f"where {m.pk} {r.choice(['!=', '>', '<', '>=', '<='])} " + render(key, ps)
        elif kind == "other":
            w = f"where {f['name']} = " + render(fv, ps)
        elif kind == "both":
            a, b = f"{m.pk} = ", f"{f['name']} {r.choice(['=', '!=', '>'])} "
            if r.random() < 0.5:
                a += render(key, ps)
                b += render(fv, ps)
                w = f"where {a} and {b}"
            else:
                b += render(fv, ps)
                a += render(key, ps)
                w = f"where {b} and {a}"
        elif kind == "class":
            w = f"where {m.pk} = " + render(gen_val(r, r.choice([t for t in TYPES if klass(t) != klass(m.pkf()["type"])])), ps)
        elif kind == "unknown":
            w = "where nosuchfield = " + render(key, ps)
        else:
            w = ""
            codes = None
        self.must_err(codes, f"{head} {w}".strip(), ps)
        self.hit("where-refused:" + kind)
        self.check_row(m, k)

    def op_unknown_model(self, r):
        s = self.pick(r)
        full = f"{s.space}.nosuchmodel" if s and r.random() < 0.7 else "nosuchspace.m"
        q, ps = r.choice([(f"select * from {full} where k = ?", [P("uint", 1)]), (f"insert into {full}(?)", [P("uint", 1)]),
                          (f"update {full} set a = ? where k = ?", [P("uint", 1), P("uint", 1)]),
                          (f"delete from {full} where k = ?", [P("uint", 1)]), (f"select all * from {full} limit ?", [P("uint", 1)]),
                          (f"inspect model {full}", []), (f"alter model {full} remove a", []), (f"drop model {full}", [])])
        self.must(ERR(E_NOTFOUND), q, ps)
        self.hit("unknown-model")

    # -- bulk and oversized data
    def op_bulk(self, r):
        """Many inserts, pipelined."""
        m = self.pick(r)
        if m is None or len(m.rows) > 3000:
            return
        n = r.choice([5, 20, 60, 150, 300])
        if len(m.fields) > 12:
            n = min(n, 30)
        if klass(m.pkf()["type"]) in ("uint", "sint"):
            n = min(n, 150)
        batch, rows = [], []
        base = r.getrandbits(20)
        t = m.pkf()["type"]
        for i in range(n):
            k = klass(t)
            if k == "uint":
                key = V(t, (base + i) & URANGE[t])
            elif k == "sint":
                key = V(t, ((base + i) % (2 * SRANGE[t])) - SRANGE[t])
            elif k == "bin":
                key = V(t, b"\0%d\xff" % (base + i))
            else:
                key = V(t, b"key:%d" % (base + i))
            if kv(key) in m.rows or any(kv(key) == kv(x[m.pk]) for x in rows[-300:]):
                continue
            row = self.gen_row(r, m, key)
            ps = []
            q = f"insert into {m.full} " + self.row_text(r, m, row, ps, r.choice("tm"))
            batch.append(enc_query(q, ps))
            rows.append(row)
        step = 50 if r.random() < 0.2 else 1
        self.trace.append(f"({len(batch)} inserts into {m.full}, {step} at a time)")
        for i in range(0, len(batch), step):
            self.c.send(b"".join(batch[i:i + step]))
            for row in rows[i:i + step]:
                got = self.c.response()
                if got != EMPTY:
                    self.fail(f"pipelined insert of {short(repr(row), 200)}: expected EMPTY, got {got!r}")
                m.rows[kv(row[m.pk])] = row
        self.hit("bulk-insert")

    def op_bulkdel(self, r):
        m = self.pick(r, lambda m: m.rows)
        if m is None:
            return
        ks = list(m.rows)
        r.shuffle(ks)
        ks = ks[:max(1, int(len(ks) * r.choice([0.3, 0.7, 0.95, 1.0])))][:300]
        for k in ks:
            ps = []
            q = f"delete from {m.full} " + self.where(m, self.keyval(m, k), ps)
            self.c.send(enc_query(q, ps))
            got = self.c.response()
            if got != EMPTY:
                self.fail(f"{q} {short(repr(ps))}: expected EMPTY, got {got!r}")
            del m.rows[k]
        self.trace.append(f"({len(ks)} rows deleted from {m.full})")
        self.hit("bulk-delete")
        self.check_all(m)

    def big_val(self, r, f):
        if f["depth"]:
            n = r.choice([127, 128, 255, 256, 257, 300, 700])
            x = V("list", [gen_val(r, f["type"], True) for _ in range(n)])
            for _ in range(f["depth"] - 1):
                x = V("list", [x])
            return x
        n = r.choice([255, 256, 257, 1023, 1024, 4095, 4096, 8192, 20000, 65535, 65536, 65537, 100000, 300000])
        b = bytes(r.choice(b"abcdefgh\n ,'") for _ in range(64)) * (n // 64 + 1)
        return V(f["type"], b[:n])

    def op_big(self, r):
        """A row with an oversized cell or key."""
        m = self.pick(r, lambda m: any(f["depth"] or f["type"] in ("string", "binary") for f in m.fields))
        if m is None:
            return
        key = self.new_key(r, m)
        if key is None:
            return
        row = self.gen_row(r, m, key)
        f = r.choice([f for f in m.fields if f["depth"] or f["type"] in ("string", "binary")])
        v = self.big_val(r, f)
        if f["name"] == m.pk:
            v = V(v.t, v.v[:5000])
            if kv(v) in m.rows:
                return
            key = v
        row[f["name"]] = v
        ps = []
        q = f"insert into {m.full} " + self.row_text(r, m, row, ps, r.choice("tm"))
        self.must(EMPTY, q, ps)
        m.rows[kv(key)] = row
        self.hit("big-value")
        self.check_row(m, kv(key))
        if f["depth"] == 0 and f["name"] != m.pk and r.random() < 0.7:
            # replace or extend it
            ps = []
            v2 = gen_val(r, f["type"]) if r.random() < 0.5 else self.big_val(r, f)
            op = r.choice(["=", "+="])
            q = f"update {m.full} set {f['name']} {op} {render(v2, ps)} " + self.where(m, key, ps)
            self.must(EMPTY, q, ps)
            row[f["name"]] = v2 if op == "=" else V(f["type"], v.v + v2.v)
            self.check_row(m, kv(key))

    def op_pushmany(self, r):
        """One UPDATE that appends many elements to a list."""
        m = self.pick(r, lambda m: m.rows and any(f["depth"] == 1 for f in m.others()))
        if m is None:
            return
        f = r.choice([f for f in m.others() if f["depth"] == 1])
        k = self.pick_key(r, m)
        row = m.rows[k]
        if row[f["name"]].t == "null":
            return
        vs = [gen_val(r, f["type"], r.random() < 0.8) for _ in range(r.choice([2, 5, 20, 100]))]
        ps = []
        q = f"update {m.full} set " + ", ".join(f"{f['name']} += {render(v, ps)}" for v in vs) + " " + self.where(m, self.keyval(m, k), ps)
        self.must(EMPTY, q, ps)
        row[f["name"]] = V("list", row[f["name"]].v + vs)
        self.hit("push-many")
        self.check_row(m, k)

    def op_cwide(self, r):
        """A model with many columns, or with deep lists."""
        if not self.spaces:
            return self.op_cspace(r)
        if len(self.models) >= 6:
            return
        s = r.choice(sorted(self.spaces))
        n = r.choice([9, 17, 33, 70, 130])
        names = [f"c{i}" for i in range(n)]
        fields = [{"name": "pk", "type": r.choice(KEYTYPES), "depth": 0, "null": False}]
        for x in names:
            d = r.choice([0, 0, 0, 0, 1, 2, 5, 9])
            fields.append({"name": x, "type": r.choice(TYPES), "depth": d, "null": r.random() < 0.6})
        clause = ", ".join(("null " if f["null"] else "") + f"{f['name']}: {type_text(f)}" for f in fields)
        self.mk_model(r, s, None, (fields, "pk", clause))
        self.hit("create-wide-model")

    def op_mixed(self, r):
        """Unrelated models of other sessions stay untouched: checks every model."""
        for k in sorted(self.models):
            m = self.models[k]
            self.check_model(m)
            if len(m.rows) < 60:
                self.check_all(m)

    def op_key(self, r):
        """One statement on a key of the pool, whether or not it is stored: exactly the stored ones behave as present."""
        m = self.pick(r)
        if m is None:
            return
        v = near_key(r, m.pkf()["type"]) if self.near else gen_val(r, m.pkf()["type"], True)
        k = kv(v)
        o = r.choice(["ins", "ins", "sel", "upd", "del"])
        here = k in m.rows
        ps = []
        if o == "ins":
            row = self.gen_row(r, m, v)
            q = f"insert into {m.full} " + self.row_text(r, m, row, ps, r.choice("tm"))
            self.must(ERR(E_DUP) if here else EMPTY, q, ps)
            if not here:
                m.rows[k] = row
        elif o == "sel":
            if not here:
                self.absent(m, v)
        elif o == "upd":
            c = [f for f in m.others() if f["depth"] == 0]
            if not c:
                return
            f = r.choice(c)
            nv = gen_val(r, f["type"])
            q = f"update {m.full} set {f['name']} = " + render(nv, ps) + " " + self.where(m, v, ps)
            self.must(EMPTY if here else ERR(E_ROW), q, ps)
            if here:
                m.rows[k][f["name"]] = nv
        else:
            q = f"delete from {m.full} " + self.where(m, v, ps)
            self.must(EMPTY if here else ERR(E_ROW), q, ps)
            m.rows.pop(k, None)
        self.hit(f"key-{o}-{'present' if here else 'absent'}")
        if k in m.rows:
            self.check_row(m, k)
        elif o == "del":
            self.absent(m, v)

    def op_restart(self, r):
        """Graceful shutdown and start of the server."""
        import signal
        srv = self.env.server()
        self.env.drop_conn()
        rc = srv.restart(r.choice([signal.SIGTERM, signal.SIGINT]))
        self.trace.append("(server restarted)")
        if rc != 0:
            self.fail(f"graceful shutdown exited with {rc}")
        self.c = self.env.conn()
        self.hit("restart")
        self.check_everything()

    # -- DDL operations
    def op_cspace(self, r):
        if len(self.spaces) >= 4:
            return
        s = self.fresh("s")
        ine = r.random() < 0.4
        ps, env = [], {}
        k = r.random()
        if k < 0.35:
            props = ""
        elif k < 0.45:
            props = " with { env: null }"
        else:
            env = gen_dict(r)
            props = " with { env: %s }" % say_dict(r, env, ps)
        self.must(TRUE() if ine else EMPTY, f"create space {'if not exists ' if ine else ''}{s}{props}", ps)
        self.spaces[s] = set()
        self.props[s] = flatten(env)
        self.hit("create-space")

    def op_cspace_dup(self, r):
        if not self.spaces:
            return
        s = r.choice(sorted(self.spaces))
        self.must(ERR(E_EXISTS), f"create space {s}")
        self.must(TRUE(False), f"create space if not exists {s}")
        self.hit("create-space-duplicate")
        self.check_space(s)

    def op_cspace_bad(self, r):
        s = self.fresh("s")
        p, ps = r.choice([("{ env: ? }", [P("uint", 1)]), ("{ nosuch: ? }", [P("uint", 1)]), ("{ env: {}, x: ? }", [P("str", "a")])])
        self.must(ERR(E_PROPS), f"create space {r.choice(['', 'if not exists '])}{s} with {p}", ps)
        self.must(ERR(E_NOTFOUND), f"inspect space {s}")
        self.hit("create-space-refused")

    def op_aspace(self, r):
        if not self.spaces:
            return
        s = r.choice(sorted(self.spaces))
        k = r.random()
        if k < 0.75:
            # several in a row, since the properties can only be observed by what a later change may do
            for _ in range(r.choice([1, 2, 3])):
                old, ps = self.props.get(s), []
                if r.random() < 0.12:
                    self.must(EMPTY, f"alter space {s} with {{ env: null }}")
                    self.props[s] = {}
                    continue
                patch = gen_dict(r)
                got = self.ask(f"alter space {s} with {{ env: {say_dict(r, patch, ps)} }}", ps)
                new = None if old is None else merge(old, patch)
                if old is None and got in (EMPTY, ERR(E_PROPS)):
                    # a space with properties that are not known
                    continue
                if got != (ERR(E_PROPS) if new is None else EMPTY):
                    self.fail(f"alter space: the properties are {old}, the change is {patch}; unexpected response {got!r}")
                if new is None:
                    self.hit("alter-space-refused")
                else:
                    self.props[s] = new
                    self.hit("alter-space")
        elif k < 0.87:
            self.must(ERR(E_PROPS), f"alter space {s} with {{ nosuch: ? }}", [P("uint", 1)])
        else:
            self.must(ERR(E_NOTFOUND), f"alter space {self.fresh('s')} with {{ env: {{}} }}")
        self.check_space(s)

    def op_dspace(self, r):
        if not self.spaces:
            return
        s = r.choice(sorted(self.spaces))
        ife = "if exists " if r.random() < 0.4 else ""
        force = r.random() < 0.25
        if self.spaces[s] and not force:
            self.must(ERR(E_NOTEMPTY), f"drop space {ife}{s}")
            self.hit("drop-space-nonempty-refused")
            self.check_space(s)
            m = self.models[f"{s}.{r.choice(sorted(self.spaces[s]))}"]
            self.check_all(m)
            return
        self.must(TRUE() if ife else EMPTY, f"drop space {ife}{'allow not empty ' if force else ''}{s}")
        gone = [f"{s}.{m}" for m in self.spaces.pop(s)]
        self.props.pop(s, None)
        for x in gone:
            del self.models[x]
        self.hit("drop-space-force" if gone else "drop-space")
        self.must(ERR(E_NOTFOUND), f"inspect space {s}")
        for x in gone:
            self.must(ERR(E_NOTFOUND), f"inspect model {x}")
            self.must(ERR(E_NOTFOUND), f"select all * from {x} limit ?", [P("uint", 1)])
        if r.random() < 0.5:
            # the name can be used again and starts out empty
            self.must(EMPTY, f"create space {s}")
            self.spaces[s] = set()
            self.props[s] = {}
            self.check_space(s)
            if gone:
                self.must(ERR(E_NOTFOUND), f"inspect model {gone[0]}")
                if r.random() < 0.6:
                    self.mk_model(r, s, gone[0].split(".")[1])
            self.hit("recreate-space")

    def op_dspace_absent(self, r):
        s = self.fresh("s")
        f = r.choice(["", "allow not empty "])
        self.must(ERR(E_NOTFOUND), f"drop space {f}{s}")
        self.must(TRUE(False), f"drop space if exists {f}{s}")
        self.hit("drop-space-absent")

    def mk_model(self, r, s, name=None, fields=None):
        name = name or self.fresh("m")
        fs, pk, clause = fields or gen_fields(r)
        ine = r.random() < 0.3
        w = " with {}" if r.random() < 0.1 else ""
        self.must(TRUE() if ine else EMPTY, f"create model {'if not exists ' if ine else ''}{s}.{name}({clause}){w}")
        m = RModel(s, name, [self.ident(f) for f in fs], pk)
        self.models[m.full] = m
        self.spaces[s].add(name)
        self.hit("create-model")
        self.check_model(m)
        self.check_all(m)
        return m

    def op_cmodel(self, r):
        if not self.spaces:
            return self.op_cspace(r)
        if len(self.models) >= 6:
            return
        s = r.choice(sorted(self.spaces))
        self.mk_model(r, s)

    def op_cmodel_dup(self, r):
        m = self.pick(r)
        if m is None:
            return
        _, _, clause = gen_fields(r)
        self.must(ERR(E_EXISTS), f"create model {m.full}({clause})")
        self.must(TRUE(False), f"create model if not exists {m.full}({clause})")
        self.hit("create-model-duplicate")
        self.check_model(m)
        if m.rows:
            self.check_all(m)

    def op_cmodel_bad(self, r):
        if not self.spaces:
            return
        s = r.choice(sorted(self.spaces))
        n = self.fresh("m")
        clause, codes, sp = r.choice([
            ("k: bool", [E_BADDEF], None), ("k: float32, v: string", [E_BADDEF], None), ("k: list { type: uint8 }", [E_BADDEF], None),
            ("k: float64", [E_BADDEF], None),
            ("k: uint64, k: string", [E_BADDEF], None), ("primary a: uint8, primary b: string", [E_BADDEF], None),
            ("a: uint8, primary b: bool", [E_BADDEF], None),
            ("k: uint64, v: nosuchtype", [E_TYPE], None), ("k: uint64, v: list { type: nosuchtype }", [E_TYPE], None),
            ("k: uint64, v: list", None, None), ("k: uint64, v: string { type: string }", None, None), ("", None, None),
            ("k: uint64", [E_NOTFOUND], "nosuchspace"), ("k: uint64, v: list { type: list { type: list } }", None, None),
            ("k: uint64, v: uint8 { nosuch: ? }", None, None)])
        ps = [P("uint", 1)] * clause.count("?")
        self.must_err(codes, f"create model {sp or s}.{n}({clause})", ps)
        self.must(ERR(E_NOTFOUND), f"inspect model {sp or s}.{n}")
        self.hit("create-model-refused")
        self.check_space(s)

    def op_dmodel(self, r):
        m = self.pick(r)
        if m is None:
            return
        ife = "if exists " if r.random() < 0.4 else ""
        force = r.random() < 0.35
        if m.rows and not force:
            self.must(ERR(E_NOTEMPTY), f"drop model {ife}{m.full}")
            self.hit("drop-model-nonempty-refused")
            self.check_model(m)
            self.check_all(m)
            return
        had = bool(m.rows)
        self.must(TRUE() if ife else EMPTY, f"drop model {ife}{'allow not empty ' if force else ''}{m.full}")
        del self.models[m.full]
        self.spaces[m.space].discard(m.name)
        self.hit("drop-model-force" if had else "drop-model")
        self.must(ERR(E_NOTFOUND), f"inspect model {m.full}")
        self.check_space(m.space)
        if r.random() < 0.5:
            self.mk_model(r, m.space, m.name)
            self.hit("recreate-model")

    def op_dmodel_absent(self, r):
        if not self.spaces:
            return
        s = r.choice(sorted(self.spaces))
        f = r.choice(["", "allow not empty "])
        self.must(ERR(E_NOTFOUND), f"drop model {f}{s}.nosuchmodel")
        self.must(TRUE(False), f"drop model if exists {f}{s}.nosuchmodel")
        self.hit("drop-model-absent")

    def new_field_def(self, r, m):
        """A field definition that ALTER MODEL ADD accepts, and its text."""
        used = {f["name"] for f in m.fields}
        c = [x for x in WORDS if x not in used]
        back = [x for x in m.removed if x not in used]
        n = r.choice(back) if back and r.random() < 0.5 else r.choice(c)
        d = r.choice([1, 1, 2]) if r.random() < 0.25 else 0
        f = {"name": n, "type": r.choice(TYPES), "depth": d, "null": r.random() < 0.7}
        return f

    def field_text(self, r, f):
        t = f"type: {type_text(f)}"
        nl = f"nullable: {'true' if f['null'] else 'false'}"
        if f["null"] or r.random() < 0.3:
            parts = [t, nl]
            if r.random() < 0.3:
                parts.reverse()
            return "{ " + ", ".join(parts) + " }"
        return "{ " + t + " }"

    def op_add(self, r):
        m = self.pick(r)
        if m is None or len(m.fields) > 10:
            return
        new = []
        for _ in range(r.choice([1, 1, 2, 3])):
            f = self.new_field_def(r, m)
            if all(f["name"] != x["name"] for x in new):
                new.append(f)
        if len(new) == 1 and r.random() < 0.6:
            t = f"{new[0]['name']} {self.field_text(r, new[0])}"
        else:
            t = "(" + ", ".join(f"{f['name']} {self.field_text(r, f)}" for f in new) + ")"
        self.must(EMPTY, f"alter model {m.full} add {t}")
        m.fields += [self.ident(f) for f in new]
        m.altered = True
        for row in m.rows.values():
            for f in new:
                row[f["name"]] = NULL
        self.hit("alter-add-populated" if m.rows else "alter-add")
        self.after_alter(r, m)

    def after_alter(self, r, m):
        self.check_model(m)
        if m.rows and r.random() < 0.6:
            if r.random() < 0.5:
                self.check_all(m)
            else:
                for k in list(m.rows)[:4]:
                    self.check_row(m, k)

    def op_remove(self, r):
        m = self.pick(r, lambda m: m.others())
        if m is None:
            return
        o = [f["name"] for f in m.others()]
        rm = r.sample(o, min(len(o), r.choice([1, 1, 2, 3])))
        t = rm[0] if len(rm) == 1 and r.random() < 0.6 else "(" + ", ".join(rm) + ")"
        self.must(EMPTY, f"alter model {m.full} remove {t}")
        m.fields = [f for f in m.fields if f["name"] not in rm]
        m.removed += rm
        m.altered = True
        for row in m.rows.values():
            for n in rm:
                row.pop(n, None)
        self.hit("alter-remove-populated" if m.rows else "alter-remove")
        self.after_alter(r, m)

    WIDTHS = {"uint": ["uint8", "uint16", "uint32", "uint64"], "sint": ["sint8", "sint16", "sint32", "sint64"], "float": ["float32", "float64"]}

    def widened(self, r, f):
        """An allowed new definition of a column: a wider type of the same class (also inside of lists) and/or nullable."""
        order = self.WIDTHS.get(klass(f["type"]))
        t = f["type"]
        if order:
            t = r.choice(order[order.index(t):])
        return dict(f, type=t, null=f["null"] or r.random() < 0.4)

    def op_widen(self, r):
        m = self.pick(r, lambda m: m.others())
        if m is None:
            return
        o = m.others()
        fs = r.sample(o, min(len(o), r.choice([1, 1, 1, 2, 3])))
        nfs = [self.widened(r, f) for f in fs]
        if len(nfs) == 1 and r.random() < 0.5:
            q = f"{nfs[0]['name']} {self.field_text(r, nfs[0])}"
        else:
            q = "(" + ", ".join(f"{nf['name']} {self.field_text(r, nf)}" for nf in nfs) + ")"
        self.must(EMPTY, f"alter model {m.full} update {q}")
        for nf in nfs:
            m.fields[[x["name"] for x in m.fields].index(nf["name"])] = nf
        m.altered = True
        self.hit("alter-update", *(["alter-update-several"] if len(nfs) > 1 else []))
        self.after_alter(r, m)

    def op_alter_bad(self, r):
        m = self.pick(r)
        if m is None:
            return
        kind = r.choice(["add-existing", "add-pk", "add-dup", "remove-pk", "remove-unknown", "remove-dup", "update-pk", "update-unknown", "update-dup",
                         "narrow", "narrow", "unnull", "unnull", "class", "deeper", "add-badtype"])
        o = m.others()
        act = kind.split("-")[0] if "-" in kind else "update"
        bad = None             # the one item that must make the whole statement be refused
        if kind == "add-existing" and o:
            f = dict(r.choice(o), null=True)
            bad, codes = (f["name"], self.field_text(r, f)), [E_ALTER]
        elif kind == "add-dup":
            f = self.new_field_def(r, m)
            bad, codes = (f["name"], self.field_text(r, f)), [E_ALTER]
        elif kind == "add-pk":
            bad, codes = (m.pk, "{ type: string, nullable: true }"), [E_ALTER]
        elif kind == "add-badtype":
            bad, codes = ("brandnew", "{ type: nosuchtype, nullable: true }"), [E_TYPE]
        elif kind == "remove-pk":
            bad, codes = (m.pk,), [E_ALTER]
        elif kind == "remove-unknown":
            bad, codes = ("nosuchfield",), [E_FIELD]
        elif kind == "remove-dup" and o:
            bad, codes = (r.choice(o)["name"],), [E_ALTER]
        elif kind == "update-pk":
            bad, codes = (m.pk, f"{{ type: {m.pkf()['type']}, nullable: true }}"), [E_ALTER]
        elif kind == "update-unknown":
            bad, codes = ("nosuchfield", "{ type: string, nullable: true }"), [E_FIELD]
        elif kind == "update-dup" and o:
            f = r.choice(o)
            bad, codes = (f["name"], self.field_text(r, f)), [E_ALTER]
        elif kind == "narrow":
            c = [f for f in o if f["type"] in ("uint16", "uint32", "uint64", "sint16", "sint32", "sint64", "float64")]
            if c:
                f = r.choice(c)
                order = self.WIDTHS[klass(f["type"])]
                nf = dict(f, type=r.choice(order[:order.index(f["type"])]), null=f["null"] or r.random() < 0.3)
                bad, codes = (f["name"], self.field_text(r, nf)), [E_LOCK]
        elif kind == "unnull":
            c = [f for f in o if f["null"]]
            if c:
                f = r.choice(c)
                nf = dict(self.widened(r, f), null=False)
                bad, codes = (f["name"], f"{{ type: {type_text(nf)}, nullable: false }}"), [E_LOCK]
        elif kind == "class" and o:
            f = r.choice(o)
            nf = dict(f, type=r.choice([t for t in TYPES if klass(t) != klass(f["type"])]))
            bad, codes = (f["name"], self.field_text(r, nf)), [E_TYPE]
        elif kind == "deeper" and o:
            f = r.choice(o)
            nf = dict(f, depth=f["depth"] + 1)
            bad, codes = (f["name"], self.field_text(r, nf)), [E_ALTER]
        if bad is None:
            return
        # among valid items of the same statement, at any position
        items = [bad] * (2 if kind.endswith("-dup") else 1)
        if r.random() < 0.6:
            n = r.choice([1, 1, 2])
            if act == "add":
                for _ in range(n):
                    f = self.new_field_def(r, m)
                    if all(f["name"] != x[0] for x in items):
                        items.append((f["name"], self.field_text(r, f)))
            elif o:
                for f in r.sample(o, min(n, len(o))):
                    if f["name"] != bad[0]:
                        items.append((f["name"],) if act == "remove" else (f["name"], self.field_text(r, self.widened(r, f))))
            r.shuffle(items)
        mixed = len({x[0] for x in items}) > 1
        q = " ".join(items[0]) if len(items) == 1 and r.random() < 0.6 else "(" + ", ".join(" ".join(x) for x in items) + ")"
        if act == "remove" and mixed:
            codes = [E_ALTER, E_FIELD]
        self.must_err(codes, f"alter model {m.full} {act} {q}")
        self.hit("alter-refused:" + kind, *(["alter-refused:%s-mixed" % act] if mixed else []))
        self.check_model(m)
        if m.rows:
            self.check_row(m, self.pick_key(r, m))

    # -- inspection
    def js(self, q):
        got = self.ask(q)
        if got[0] != "value" or got[1].t != "string":
            self.fail(f"{q}: expected a string, got {short(repr(got))}")
        try:
            return json.loads(got[1].v)
        except ValueError:
            self.fail(f"{q}: not JSON: {got[1].v!r}")

    def check_model(self, m):
        j = self.js(f"inspect model {m.full}")
        want = {"decl": m.decl(), "rows": len(m.rows), "properties": {}}
        if j != want:
            self.fail(f"inspect model {m.full}: expected {want}, got {j}")

    def check_space(self, s):
        j = self.js(f"inspect space {s}")
        if set(j) != {"models"} or sorted(j["models"]) != sorted(self.spaces[s]):
            self.fail(f"inspect space {s}: expected the models {sorted(self.spaces[s])}, got {j}")

    def op_inspect(self, r):
        j = self.js("inspect global")
        mine = sorted(x for x in j.get("spaces", []) if x.startswith("s" + self.tag + "x"))
        if mine != sorted(self.spaces):
            self.fail(f"inspect global: expected the spaces {sorted(self.spaces)}, got {mine}")
        for s in self.spaces:
            self.check_space(s)
        m = self.pick(r)
        if m:
            self.check_model(m)
        self.hit("inspect")

    def op_inspect_catalogue(self):
        """The exact spaces, and the declaration of every model (not the number of rows)."""
        j = self.js("inspect global")
        if sorted(j.get("spaces", [])) != sorted(self.spaces):
            self.fail(f"inspect global: expected the spaces {sorted(self.spaces)}, got {j}")
        for s in self.spaces:
            self.check_space(s)
        for m in self.models.values():
            j = self.js(f"inspect model {m.full}")
            if j.get("decl") != m.decl():
                self.fail(f"inspect model {m.full}: expected {m.decl()}, got {j}")

    def check_everything(self):
        self.op_inspect(Random(0))
        for k in sorted(self.models):
            m = self.models[k]
            self.check_model(m)
            self.check_all(m)
            for i, x in enumerate(list(m.rows)):
                if i >= 30:
                    break
                self.check_row(m, x)

    def cleanup(self):
        for s in list(self.spaces):
            self.must(EMPTY, f"drop space allow not empty {s}")
            for m in self.spaces.pop(s):
                self.models.pop(f"{s}.{m}", None)

    def do(self, op):
        getattr(self, "op_" + op["o"])(Random(op["s"]))


def norm(v):
    return [norm(x) for x in v.v] if v.t == "list" else [klass(v.t) if v.t != "null" else "null", v.v]


DML = {"ins": 10, "ins_dup": 2, "ins_bad": 3, "sel": 3, "sel_absent": 1, "sel_unknown_field": 1, "all": 3, "upd": 9, "upd_absent": 1,
       "del": 4, "del_absent": 1, "reinsert": 2, "where_bad": 2, "unknown_model": 1}
DDL = {"cspace": 2, "cspace_dup": 1, "cspace_bad": 1, "aspace": 1, "dspace": 2, "dspace_absent": 1, "cmodel": 4, "cmodel_dup": 1,
       "cmodel_bad": 2, "dmodel": 2, "dmodel_absent": 1, "inspect": 1}
BIG = {"bulk": 1, "bulkdel": 1, "big": 1, "pushmany": 1}
ALTER = {"add": 4, "remove": 3, "widen": 3, "alter_bad": 2}


def gen_ops(r, n, weights):
    names = list(weights)
    return [{"o": o, "s": r.getrandbits(32)} for o in r.choices(names, [weights[x] for x in names], k=n)]
