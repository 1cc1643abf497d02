"""X01: the shell runs what is typed."""
import os, re, select, struct, subprocess, time
from decimal import Decimal, InvalidOperation
import buildcli
from hist import *
from sky import new_dir
import shutil


class Shell:
    """A running skysh whose lines are typed by the check."""

    def __init__(self, exe, srv):
        self.dir = new_dir("skyv-sh-")
        e = {"PATH": os.environ.get("PATH", ""), "HOME": self.dir}
        self.p = subprocess.Popen([exe, "--endpoint", f"tcp@{srv.addr[0]}:{srv.addr[1]}", "--password", srv.pw],
                                  cwd=self.dir, env=e, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        os.set_blocking(self.p.stdout.fileno(), False)
        self.buf = b""
        self.prompt = None
        first = self.read()
        if first is None or b"Authenticated as 'root'" not in first or self.prompt != b"> ":
            raise Violation(f"the shell did not start: {first!r} {self.prompt!r} {self.buf!r}")

    def read(self):
        """What is printed until the next prompt; None when the shell ended."""
        end = time.time() + 60
        while True:
            m = re.search(rb"\0([^\0]*)\0\n\Z", self.buf)
            if m:
                out, self.buf, self.prompt = self.buf[:m.start()], b"", m.group(1)
                return out
            if time.time() > end:
                raise Violation(f"the shell did not come back to its prompt within 60 s; it printed {self.buf[-300:]!r}")
            if select.select([self.p.stdout], [], [], 1.0)[0]:
                d = self.p.stdout.read()
                if d == b"":
                    return None
                self.buf += d or b""

    def type(self, line):
        """line: bytes without a line feed."""
        try:
            self.p.stdin.write(line + b"\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        out = self.read()
        if out is None:
            raise Violation(f"the shell ended ({self.p.wait()}) after {short(repr(line), 300)}; it printed {self.buf[-600:].decode(errors='replace')}")
        return out

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
            self.p.wait()
        self.p.stdout.close()
        shutil.rmtree(self.dir, ignore_errors=True)


class Inexpressible(Exception):
    pass


def literal(r, p):
    """The text a user types for a parameter."""
    k, v = p
    if k == "null":
        return b"null"
    if k == "bool":
        return b"true" if v else b"false"
    if k == "uint":
        return (b"0" * r.choice([0, 0, 0, 1, 7]) if r.random() < 0.1 else b"") + b"%d" % v
    if k == "sint":
        if v >= 0:
            raise Inexpressible     # a literal without a sign is unsigned
        return b"%d" % v
    if k == "float":
        try:
            d = Decimal(v.decode() if isinstance(v, bytes) else repr(float(v)))
        except (InvalidOperation, UnicodeDecodeError):
            raise Inexpressible
        if not d.is_finite():
            raise Inexpressible
        t = format(d, "f")
        return (t if "." in t else t + ".0").encode()
    if k == "bin":
        if b"`" in v or b"\n" in v:
            raise Inexpressible
        try:
            v.decode()
        except UnicodeDecodeError:
            raise Inexpressible
        return b"`" + v + b"`"
    if k == "str":
        b = v if isinstance(v, bytes) else v.encode()
        try:
            b.decode()
        except UnicodeDecodeError:
            raise Inexpressible
        if b"\n" in b:
            raise Inexpressible
        q = r.choice([b'"', b"'"])
        return q + b.replace(b"\\", b"\\\\").replace(q, b"\\" + q) + q
    raise Inexpressible


def typed(r, q, params):
    """The statement with every `?` replaced by its literal."""
    parts = q.encode().split(b"?")
    if len(parts) != len(params) + 1:
        raise Inexpressible
    out = parts[0]
    for p, rest in zip(params, parts[1:]):
        out += literal(r, p) + rest
    if b"\n" in out or not out or out in (b"exit", b"clear", b"!help"):
        raise Inexpressible
    return out


def f32(x):
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return float("inf") if x > 0 else float("-inf")


class Scan:
    """Reads printed values against the values they should show."""

    def __init__(self, b):
        self.b, self.i = b, 0

    def lit(self, t):
        if self.b[self.i:self.i + len(t)] != t:
            raise ValueError(f"at byte {self.i}: expected {t[:60]!r}, found {self.b[self.i:self.i + 60]!r}")
        self.i += len(t)

    def value(self, v, special=False):
        if v.t == "null":
            self.lit(b"null")
            if self.b[self.i:self.i + 1] == b"\n":
                self.i += 1
        elif v.t == "bool":
            self.lit(b"true" if v.v else b"false")
        elif v.t in ("float32", "float64"):
            m = re.compile(rb"-?(inf|NaN|[0-9.]+)").match(self.b, self.i)
            if not m:
                raise ValueError(f"at byte {self.i}: expected the number {v.v!r}")
            x, y = float(m.group(0)), struct.unpack("<d", v.v)[0]
            if v.t == "float32":
                x, y = f32(x), f32(y)
            if not (x == y or (m.group(0) == b"NaN" and y != y)):
                raise ValueError(f"at byte {self.i}: {m.group(0)!r} shown for {v!r}")
            self.i = m.end()
        elif v.t == "binary":
            self.lit(b"[" + b", ".join(b"%d" % x for x in v.v) + b"]")
        elif v.t == "string":
            s = v.v if isinstance(v.v, bytes) else v.v.encode()
            self.lit(s if special else b'"' + s.replace(b'"', b'\\"').replace(b"\t", b"\\t").replace(b"\n", b"\\n") + b'"')
        elif v.t == "list":
            self.lit(b"[")
            self.seq(v.v, special)
            self.lit(b"]")
        else:
            self.lit(b"%d" % v.v)

    def seq(self, vs, special=False):
        for n, v in enumerate(vs):
            if n:
                self.lit(b", ")
            self.value(v, special)

    def row(self, vs):
        self.lit(b"(")
        self.seq(vs)
        self.lit(b")")

    def response(self, resp, special):
        k = resp[0]
        if k == "value":
            self.value(resp[1], special)
        elif k == "row":
            self.row(resp[1])
        else:
            if not resp[1]:
                self.lit(b"[0 rows returned]")
            for n, x in enumerate(resp[1]):
                self.lit(b"(%d)" % (n + 1))
                self.row(x)
                self.lit(b"\n")
        if self.b[self.i:].strip(b"\n"):
            raise ValueError(f"unexpected text {self.b[self.i:][:80]!r}")


class ShellWorld(World):
    """The statements of the history are typed into the shell."""

    def __init__(self, env, conn, tag, shell, r):
        super().__init__(env, conn, tag)
        self.sh, self.r = shell, r

    def ask(self, q, params=()):
        try:
            line = typed(self.r, q, params)
        except (Inexpressible, UnicodeEncodeError):
            self.env.count("sent-directly")
            return super().ask(q, params)
        self.trace.append(f"(shell) {short(repr(line), 400)}")
        out = self.sh.type(line)
        for k in {p[0] for p in params}:
            self.env.count("typed-" + k)
        if any(p[0] in ("str",) and any(c in (p[1] if isinstance(p[1], bytes) else p[1].encode()) for c in b"\\\"'") for p in params):
            self.hit("escape")
        if any(p[0] == "sint" or (p[0] == "float" and line.count(b"-")) for p in params):
            self.hit("negative")
        self.hit("typed")
        self.trace[-1] += f"  => {short(repr(out), 200)}"
        m = re.fullmatch(rb"\(server error code: (\d+)\)\n", out)
        if m:
            return ("err", int(m.group(1)))
        if out == b"(Okay)\n":
            return EMPTY
        if out in (b"true\n", b"false\n"):
            return ("value", V("bool", out == b"true\n"))
        if out.startswith(b"[skysh error]"):
            self.fail(f"the shell does not accept {short(repr(line), 600)}: {out.decode(errors='replace')}")
        word = q.split()[0].lower()
        if word not in ("select", "inspect"):
            self.fail(f"the shell printed {short(repr(out), 300)} after {short(repr(line), 300)}")
        got = super().ask(q, params)
        if got[0] in ("err", "empty"):
            self.fail(f"the shell printed {short(repr(out), 300)} but the statement itself is answered with {got!r}")
        try:
            Scan(out).response(got, word == "inspect")
        except ValueError as e:
            self.fail(f"the shell printed {short(repr(out), 600)} for {short(repr(got), 600)}: {e}")
        self.hit("shown")
        return got

    # -- statements that are all literals
    def op_sh_model(self, r):
        if not self.spaces:
            self.op_cspace(r)
        fs = [{"name": "k", "type": "string", "depth": 0, "null": False}, {"name": "t", "type": "string", "depth": 0, "null": True}, {"name": "b", "type": "binary", "depth": 0, "null": True},
              {"name": "i", "type": "sint64", "depth": 0, "null": True}, {"name": "u", "type": "uint64", "depth": 0, "null": True}, {"name": "f", "type": "float64", "depth": 0, "null": True},
              {"name": "l", "type": "string", "depth": 1, "null": False}]
        self.lit = self.mk_model(r, r.choice(sorted(self.spaces)), None, (fs, "k", "k: string, null t: string, null b: binary, null i: sint64, null u: uint64, null f: float64, l: list { type: string }"))

    def op_sh_row(self, r):
        """A row whose every value has a literal, with the characters that need care."""
        m = getattr(self, "lit", None)
        if m is None or self.models.get(m.full) is not m or len(m.fields) != 7:
            return self.op_sh_model(r)
        tok = ["\\", "\\\\", '"', "'", "`", "?", " ", "\t", "\r", "\0", "\\n", "\\t", '\\"', "\\'", "a", "null", "é", "日", "𝄞", "-1", "--", "{", ")", "where", ",", "\x7f"]
        text = lambda bad="": "".join(c for c in "".join(r.choice(tok) for _ in range(r.choice([0, 1, 1, 2, 3, 5, 12]))) if c not in bad).encode()
        key = V("string", text())
        new = {"k": key, "t": V("string", text()), "b": V("binary", text("`")), "i": V("sint64", -r.choice([1, 9, 10, 127, 2**31, 2**63, r.randrange(1, 2**63)])),
               "u": V("uint64", r.choice([0, 9, 10, 2**32, 2**63, 2**64 - 1, r.randrange(2**64)])), "l": V("list", [V("string", text()) for _ in range(r.randrange(4))]),
               "f": gen_val(r, "float64", r.random() < 0.5)}
        for n in "tbiuf":
            if r.random() < 0.15:
                new[n] = NULL
        ps = []
        if kv(key) not in m.rows:
            q = f"insert into {m.full} " + self.row_text(r, m, new, ps, r.choice("tm"))
            self.must(EMPTY, q, ps)
            m.rows[kv(key)] = new
        elif r.random() < 0.3:
            self.must(EMPTY, f"delete from {m.full} " + self.where(m, key, ps), ps)
            del m.rows[kv(key)]
        else:
            ns = [n for n in r.sample("tbiuf", 5) if new[n].t != "null"][:r.randrange(1, 6)]
            if not ns:
                return
            q = f"update {m.full} set " + ", ".join(f"{n} = " + render(new[n], ps, r) for n in ns) + " " + self.where(m, key, ps)
            self.must(EMPTY, q, ps)
            for n in ns:
                m.rows[kv(key)][n] = new[n]
        self.hit("literal-row")
        self.check_row(m, kv(key)) if kv(key) in m.rows else self.absent(m, key)

    # -- the shell alone
    def op_sh_use(self, r):
        """USE changes the space of the shell's session and its prompt."""
        m = self.pick(r)
        if m is None:
            return
        s, name = m.full.split(".")
        u = r.choice(["use", "USE", "Use"])
        gone = self.fresh("gone")
        for line, want, pr in ((f"{u} {s}", b"(Okay)\n", f"{s}> "), (f"{u} {gone}", None, f"{s}> "), (f"select all * from {name} limit 100000", "rows", f"{s}> "),
                               (f"{u} null", b"(Okay)\n", "> "), (f"select all * from {name} limit 100000", None, "> ")):
            out = self.sh.type(line.encode())
            if want == "rows":
                got = super().ask(f"select all * from {m.full} limit ?", [P("uint", 100000)])
                try:
                    Scan(out).response(got, False)
                except ValueError as e:
                    self.fail(f"after USE the shell printed {short(repr(out), 400)} for {line}, not {short(repr(got), 400)}: {e}")
            elif want is None:
                if not out.startswith(b"(server error code: "):
                    self.fail(f"the shell printed {short(repr(out), 300)} for {line}, expected an error")
            elif out != want:
                self.fail(f"the shell printed {short(repr(out), 300)} for {line}")
            if self.sh.prompt != pr.encode():
                self.fail(f"the prompt is {self.sh.prompt!r} after {line}, expected {pr!r}")
        self.hit("use")

    def op_sh_junk(self, r):
        """Lines that are no statements are refused and change nothing."""
        m = self.pick(r)
        name = m.full if m else "a.b"
        bad = ['"', "'", "`", '"\\', '"\\x"', "'\\n'", '"abc', "`abc", "99999999999999999999999999", "18446744073709551616", "-9223372036854775809", "-99999999999999999999",
               "1.2.3", "5x", "-5x", "-", "--5", "\\", "1.", "-1.", "-.", "é", "日本語", "𝄞", "\x7f", "\t", "?", "? ?", "\"\\\"", "'\\'", "..", "-é", "1é", "0x10", "1e5", "1e"]
        k = r.choice(["lit", "noise", "stmt", "uni"])
        if k == "lit":
            line = r.choice([f"insert into {name}({{}})", f"delete from {name} where {{}} = {{}}", f"select * from {name} where k = {{}}", "{}", "{} {}"]).replace("{}", "\0")
            while "\0" in line:
                line = line.replace("\0", r.choice(bad), 1)
        elif k == "noise":
            line = "".join(r.choice(bad + list("abcxyz ()[]{},.=:;*+-/$@#!~")) for _ in range(r.randrange(1, 30)))
        elif k == "stmt":
            line = r.choice(["insert into", "select", "delete from", "update", "use", "inspect", "drop space", "create space"]) + " " + r.choice(bad)
        else:
            # characters of several bytes around the places where the shell looks for keywords
            line = r.choice(["use", "inspect", "insp", "select", "", "a", "use n"]) + r.choice(["", " "]) + "".join(r.choice("éß日本𝄞a ") for _ in range(r.randrange(1, 8)))
        if line.strip() in ("exit", "clear", "!help", ""):
            return
        self.trace.append(f"(shell) {line!r}")
        out = self.sh.type(line.encode())
        if not (re.fullmatch(rb"\(server error code: (\d+)\)\n", out) or re.fullmatch(rb"\[skysh error\]: bad query\. [^\n]*\n", out)):
            self.fail(f"the shell printed {short(repr(out), 300)} for the senseless line {line!r}")
        self.hit("junk")
        if m and r.random() < 0.3:
            self.check_all(m)


class C(Hist):
    pid = "X01"
    technique = "stateful model-based property testing through the shell: statements typed with literals against the reference model and the typed responses"
    rule = ("a case is a history of 60 to 120 statements (DML, DDL, INSPECT) whose parameters are written as literals and typed into a running skysh; what it prints is read back and compared with the "
            "reference model and, for reads, with the typed response of the same statement on a plain connection; USE and the prompt, and lines that are no statements, are part of the history. A parameter "
            "that has no literal (a line feed, bytes that are not UTF-8, a positive number of a signed type) is sent directly. Non-trivial: statements were typed, escapes and negative numbers occurred, and rows were shown")
    weights = dict(DML, **DDL, sh_use=1, sh_junk=4, sh_row=8, add=1)
    prologue = ("cspace", "cmodel", "sh_model")
    need = ("typed", "escape", "negative", "shown", "junk")
    quick = 160
    thorough = 6000
    focus = "uniform"

    def prepare(self):
        self.exe = buildcli.build()

    def make(self, env):
        if not hasattr(self, "exe"):
            self.prepare()
        r = Random(self.case_seed)
        self.shell = Shell(self.exe, env.server())
        return ShellWorld(env, env.conn(), env.name("t"), self.shell, r)

    def run(self, env, case):
        self.case_seed = case["ops"][0]["s"] if case["ops"] else 0
        self.shell = None
        try:
            return super().run(env, case)
        finally:
            if self.shell:
                self.shell.close()


CHECK = C()
