import re
from accounts import *
from hist import *

GATED = re.compile(r"\s*(create|alter|drop|sysctl)\b", re.I)
LIKE = ["ROOT", "Root", "rooT", "RooT", "roo", "oot", "ro", "r", "roott", "root_", "_root", "root1", "rootroot", "r00t", "toor", "roOt", "admin", "sudo", "system", "superuser", "everyone", "root" * 20]


class UserWorld(World):
    """Every statement that needs root is first tried by an unprivileged session, in some spelling; the others are run by that session only."""
    u = None

    def ask(self, q, params=()):
        if not GATED.match(q):
            return World.ask(self, q, params)
        r = Random(f"{q}{len(self.trace)}")
        t = respell(r, q)
        self.trace.append(f"[user] {t}")
        got = self.u.q(t, *params)
        self.trace[-1] += f"  => {short(repr(got), 100)}"
        if got[0] != "err":
            self.fail(f"an unprivileged session ran {t!r}: {got}")
        user = self.c
        self.c = self.root
        try:
            want = World.ask(self, q, params)
        finally:
            self.c = user
        if want[0] != "err" and got[1] != 5:
            self.fail(f"an unprivileged session got error {got[1]} instead of a permission error for {t!r}")
        self.env.count("gated-ok" if want[0] != "err" else "gated-bad")
        self.nontriv["gated"] = self.nontriv.get("gated", 0) + 1
        return want


def respell(r, q):
    """Another case of the leading keywords and other white space after them."""
    words = q.split(" ")
    for i in range(min(3, len(words))):
        if words[i].isalpha() and words[i].lower() in ("create", "alter", "drop", "space", "model", "sysctl"):
            words[i] = r.choice([words[i], words[i].upper(), "".join(r.choice([ch, ch.upper()]) for ch in words[i])])
    sep = r.choice([" ", " ", "  ", "\t", "\n", " \n\t "])
    return r.choice(["", "", " ", "\n"]) + sep.join(words[:2]) + " " + " ".join(words[2:]) if len(words) > 2 else q


class C(Hist):
    pid = "A02"
    technique = "stateful model-based testing with an unprivileged session; each privileged statement is tried by it before root runs it"
    rule = ("a case is a history of 40-80 operations: every CREATE, ALTER, DROP and SYSCTL statement, well-formed or not, is first sent by an unprivileged user (in an eighth of the cases one whose name resembles that of root) in a varied spelling and must fail "
            "(with the permission error whenever root succeeds with it) and leave no effect that root or the model can see; every other statement is run by the unprivileged user and must behave as for root. "
            "User statements about itself, root and others are mixed in. Non-trivial: privileged statements were refused and the user wrote rows")
    weights = {**DML, **DDL, **ALTER, "cspace": 3, "cmodel": 6, "priv": 8}
    need = ("gated", "insert", "priv")
    quick = 1800
    thorough = 20000
    lens = (40, 60, 80)
    shrink_keys = ("ops",)

    def gen(self, r, i, tier):
        return dict(Hist.gen(self, r, i, tier), **{"as": r.choice(LIKE) if r.random() < 0.12 else None})

    def make(self, env):
        srv = env.server()
        if env.data.get("srv") is not srv:
            env.data.clear()
            env.data["srv"] = srv
            root = env.conn()
            expect(root.q("sysctl create user plain with { password: ? }", P("str", "plain-password")), ("empty",), "create user")
            expect(root.q("sysctl create user other with { password: ? }", P("str", "other-password")), ("empty",), "create user")
        if env.data.get("u") is None:
            env.data["u"] = srv.conn("plain", "plain-password")
        if env.who:
            # another unprivileged user, whose name may look like the one of root
            name, pw = env.who, "p-" + env.who
            if name not in env.data.setdefault("users", set()):
                expect(env.conn().q(f"sysctl create user {name} with {{ password: ? }}", P("str", pw)), ("empty",), "create user")
                env.data["users"].add(name)
            env.data.pop("u").close()
            env.data["u"] = srv.conn(name, pw)
            env.count("as:" + name)
        w = PW(env, env.data["u"], env.name("t"))
        w.u, w.root = env.data["u"], env.conn()
        return w

    def run(self, env, case):
        env.who = case["as"]
        try:
            return Hist.run(self, env, case)
        except BaseException:
            env.data.pop("u", None)
            raise


class PW(UserWorld):
    def op_priv(self, r):
        """User management by the unprivileged session."""
        v = r.choice(["plain", "other", "root", "fresh", "plain2"])
        q, ps = r.choice([("sysctl create user {} with {{ password: ? }}", 1), ("sysctl alter user {} with {{ password: ? }}", 1), ("sysctl drop user {}", 0)])
        q = q.format(v)
        t = respell(r, q)
        params = [P("str", gen_pw(r))] * ps
        self.trace.append(f"[user] {t}")
        got = self.u.q(t, *params)
        if got[0] != "err":
            self.fail(f"an unprivileged session ran {t!r}: {got}")
        if got[1] != 5:
            self.fail(f"an unprivileged session got error {got[1]} instead of a permission error for {t!r}")
        g = self.root.q("inspect global")
        if sorted(json.loads(g[1].v)["users"]) != sorted({"other", "plain", "root"} | self.env.data.get("users", set())):
            self.fail(f"after the refused {t!r} the users are {g}")
        if r.random() < 0.5:
            for u, p in (("plain", "plain-password"), ("other", "other-password"), ("root", None)):
                try:
                    c = self.env.server().conn(u, p)
                except Closed as e:
                    self.fail(f"after the refused {t!r}: login of {u}: {e}")
                if u != "root" and r.random() < 0.5:
                    x = c.q(f"create space never{self.n}")
                    if x != ("err", 5):
                        self.fail(f"a new session of {u} may create spaces: {x}")
                c.close()
        else:
            # an unprivileged session cannot become root by logging in again in the same connection
            g = self.u.q("sysctl report status")
            if g != ("empty",):
                self.fail(f"sysctl report status by a plain user: {g}")
        self.hit("priv")


CHECK = C()
