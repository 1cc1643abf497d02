import signal
from accounts import *


class C(Check):
    pid = "A03"
    technique = "stateful model-based testing of user management with logins, near-miss logins and restarts"
    rule = ("a case is a fresh server and 30-80 steps: create, alter, drop of users (valid, duplicate, unknown, root, ill-formed options), logins with current, former, foreign and near-miss "
            "passwords, INSPECT GLOBAL, queries on sessions opened earlier, graceful restarts, some with a new root password; a map from user to password predicts every answer. "
            "Non-trivial: a user was created, one was altered or dropped, a former password was refused and a restart happened")
    assumptions = ["the check's server build hashes passwords at a lower bcrypt cost"]
    quick = 1000
    thorough = 20000
    recycle = 1
    K = ["create"] * 6 + ["alter"] * 4 + ["drop"] * 3 + ["login"] * 6 + ["old"] * 4 + ["near"] * 4 + ["cross"] * 2 + ["dup", "altunk", "drunk", "root", "bad", "bad", "inspect", "inspect", "restart", "rootpw", "self", "badname"]

    def gen(self, r, i, tier):
        return {"ops": [{"o": r.choice(self.K), "s": r.getrandbits(32)} for _ in range(r.choice([30, 50, 80]))]}

    def run(self, env, case):
        env.reset()
        srv = env.server()
        c = env.conn()
        users = {"root": srv.pw.encode()}
        former = {}     # user name -> former passwords
        tr, seen = [], set()

        def ask(q, *ps, conn=None):
            g = (conn or c).q(q, *ps)
            tr.append(f"{q} {ps if ps else ''} => {short(repr(g), 100)}")
            return g

        def fail(msg):
            raise Violation(msg + "\n    " + "\n    ".join(tr[-10:]))

        def want(w, q, *ps):
            g = ask(q, *ps)
            if g != w:
                fail(f"{q} {ps}: expected {w}, got {g}")

        def refused(q, *ps, conn=None):
            g = ask(q, *ps, conn=conn)
            if g[0] != "err":
                fail(f"{q} {ps}: must be refused, got {g}")
            return g[1]

        def inspect():
            g = ask("inspect global")
            if g[0] != "value" or g[1].t != "string":
                fail(f"inspect global: {g}")
            got = json.loads(g[1].v)["users"]
            if sorted(got) != sorted(users):
                fail(f"inspect global lists the users {sorted(got)}; they are {sorted(users)}")

        def login(u, pw, ok, why):
            conn, code = try_login(srv, u, pw)
            tr.append(f"login {u!r} {pw!r} ({why}) => {'accepted' if conn else code}")
            if conn:
                if not ok:
                    fail(f"login as {u!r} with {pw!r} was accepted; {why}")
                g = conn.q("sysctl report status")
                conn.close()
                if g != ("empty",):
                    fail(f"after the login as {u!r}: {g}")
            elif ok:
                fail(f"login as {u!r} with {pw!r} was refused with code {code}; {why}")
            elif code != 5:
                fail(f"login as {u!r} with {pw!r}: refused with code {code} instead of the authentication error 5")

        def note(u):
            former.setdefault(u, [])
            if users.get(u) is not None:
                former[u].append(users[u])

        for op in case["ops"]:
            o, r = op["o"], Random(op["s"])
            plain = sorted(u for u in users if u != "root")
            pw = gen_pw(r)
            P1 = P("str", pw)
            if o == "create":
                free = [n for n in NAMES if n not in users]
                if not free:
                    continue        # "zz" always stays unknown
                u = r.choice(free)
                want(("empty",), f"sysctl create user {u} with {{ password: ? }}", P1)
                users[u] = pw
            elif o == "alter" and plain:
                u = r.choice(plain)
                note(u)
                want(("empty",), f"sysctl alter user {u} with {{ password: ? }}", P1)
                users[u] = pw
            elif o == "drop" and plain:
                u = r.choice(plain)
                note(u)
                want(("empty",), f"sysctl drop user {u}")
                del users[u]
                login(u, former[u][-1], False, "the user was dropped")
            elif o == "login":
                u = r.choice(sorted(users))
                login(u, users[u], True, "it is the current password")
            elif o == "old":
                c2 = [(u, p) for u in sorted(former) for p in former[u] if users.get(u) != p]
                if not c2:
                    continue
                u, p = r.choice(c2)
                login(u, p, False, "it is a former password")
            elif o == "near":
                u = r.choice(sorted(users))
                if r.random() < 0.7:
                    login(u, near_pw(r, users[u]), False, f"the password is {users[u]!r}")
                else:
                    n = near_name(r, u)
                    if n.decode(errors="replace") in users:
                        continue
                    login(n, users[u], False, "there is no such user")
            elif o == "cross" and len(users) > 1:
                u, v = r.sample(sorted(users), 2)
                if users[u] != users[v]:
                    login(u, users[v], False, f"it is the password of {v}")
            elif o == "dup":
                u = r.choice(sorted(users))
                refused(f"sysctl create user {u} with {{ password: ? }}", P1)
                if users[u] != pw:
                    login(u, pw, False, "creating an existing user must not change it")
                login(u, users[u], True, "it is the current password")
            elif o == "altunk":
                u = r.choice([n for n in NAMES if n not in users] or ["zz"])
                refused(f"sysctl alter user {u} with {{ password: ? }}", P1)
                if u not in users:
                    login(u, pw, False, "there is no such user")
            elif o == "drunk":
                u = r.choice([n for n in NAMES if n not in users] or ["zz"])
                refused(f"sysctl drop user {u}")
            elif o == "root":
                if r.random() < 0.5:
                    refused("sysctl alter user root with { password: ? }", P1)
                    if pw != users["root"]:
                        login("root", pw, False, "the root password cannot be altered")
                else:
                    refused("sysctl drop user root")
                login("root", users["root"], True, "it is the root password")
            elif o == "self" and plain:
                u = r.choice(plain)
                conn, code = try_login(srv, u, users[u])
                if conn is None:
                    fail(f"login as {u!r} with its password was refused with {code}")
                refused(f"sysctl drop user {u}", conn=conn)
                refused(f"sysctl alter user {u} with {{ password: ? }}", P1, conn=conn)
                conn.close()
                login(u, users[u], True, "it is the current password")
            elif o in ("bad", "badname"):
                u = r.choice([n for n in NAMES if n not in users] or ["zz"])
                v = r.choice(plain) if plain and r.random() < 0.5 else None
                verb, t = ("alter", v) if v else ("create", u)
                k = r.randrange(9)
                q, ps = f"sysctl {verb} user {t} with {{ password: ? }}", [P1]
                if k == 0:
                    ps = [P("str", "")]
                elif k == 1:
                    ps = [P("str", b"abc\0def")]
                elif k == 2:
                    ps = [r.choice([P("uint", 12), P("bin", b"abc"), P("bool", True), P("null"), P("float", 1.5), P("sint", -3)])]
                elif k == 3:
                    q = f"sysctl {verb} user {t} with {{ password: ?, {r.choice(['role', 'admin', 'passwords'])}: ? }}"
                    ps = [P1, P("str", "x")]
                elif k == 4:
                    q = f"sysctl {verb} user {t} with {{ }}"
                    ps = []
                elif k == 5:
                    q = f"sysctl {verb} user {t} with {{ passwd: ? }}"
                elif k == 6:
                    q = f"sysctl {verb} user {t}"
                    ps = []
                elif k == 7:
                    q = f"sysctl {verb} user {t} with {{ password: {{ password: ? }} }}"
                else:
                    q = f"sysctl {verb} user {r.choice(['?', 'a.b', 'select', '', '{x}', '5'])} with {{ password: ? }}"
                refused(q, *ps)
                inspect()
                if v:
                    login(v, users[v], True, "the refused statement must have no effect")
            elif o == "inspect":
                inspect()
            elif o in ("restart", "rootpw"):
                env.drop_conn()
                if o == "rootpw":
                    note("root")
                    users["root"] = "".join(r.choice(EXTRA[:62]) for _ in range(r.choice([16, 20, 60]))).encode()
                    srv.pw = users["root"].decode()
                rc = srv.restart(r.choice([signal.SIGTERM, signal.SIGINT]))
                if rc != 0:
                    fail(f"graceful shutdown exited with {rc}")
                c = env.conn()
                inspect()
            else:
                continue
            seen.add(o)
            env.count(o)
        inspect()
        for u in users:
            login(u, users[u], True, "it is the current password")
        env.reset()
        return "create" in seen and bool(seen & {"alter", "drop"}) and bool(seen & {"old", "drop"}) and bool(seen & {"restart", "rootpw"})

    def sample(self, case):
        return [o["o"] for o in case["ops"]]


CHECK = C()
