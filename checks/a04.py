import base64, binascii, hashlib, os, socket, struct
import signal
import dbfiles, v2db
from accounts import *

ALNUM = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"


def secret(r):
    """A password that cannot turn up by chance: 16 to 72 letters and digits, without repetitions."""
    return "".join(r.choice(ALNUM) for _ in range(r.choice([16, 20, 31, 32, 33, 48, 64, 72])))


def forms(p):
    """(how, bytes) of everything that gives the password away."""
    b = p.encode()
    yield "itself", b
    yield "without its ends", b[1:-1]
    yield "reversed", b[::-1]
    yield "in hexadecimal", binascii.hexlify(b)
    yield "in hexadecimal", binascii.hexlify(b).upper()
    yield "as a list of bytes", ", ".join(str(x) for x in b).encode()
    yield "as a list of bytes", ",".join(str(x) for x in b).encode()
    yield "as a list of bytes", ", ".join(hex(x) for x in b).encode()
    for k in range(3):
        t = base64.b64encode(b"\0" * k + b)
        yield "in base 64", t[(0, 2, 3)[k]:len(t) - 4]
    yield "as UTF-16", p.encode("utf-16-le")
    for h in ("md5", "sha1", "sha256", "sha512", "blake2b", "sha3_256"):
        d = hashlib.new(h, b).digest()
        yield f"as a plain {h} digest", d
        yield f"as a plain {h} digest", binascii.hexlify(d)
        yield f"as a plain {h} digest", base64.b64encode(d)[:-4]
    k = len(b) // 2
    yield "its first half", b[:k] if k >= 12 else b[:12]
    yield "its second half", b[-k:] if k >= 12 else b[-12:]


def hash_forms(h):
    yield "itself", h
    yield "with escapes", repr(h)[2:-1].encode()
    yield "in hexadecimal", binascii.hexlify(h)
    yield "in hexadecimal", binascii.hexlify(h).upper()
    yield "as a list of bytes", ", ".join(str(x) for x in h).encode()
    yield "as a list of bytes", ",".join(str(x) for x in h).encode()
    yield "in base 64", base64.b64encode(h)[:-4]


class C(Check):
    pid = "A04"
    technique = "stateful generation of account histories (statements, refused statements, logins, wrong logins, broken handshakes, restarts, kills) with a taint oracle over files, log and answers"
    rule = ("a case is a fresh server, at one of five log levels, and 15-50 steps: user statements accepted and refused (literals instead of parameters, wrong type, extra options, unknown and existing users, syntax "
            "errors around the password, by root and by plain users), logins with right and wrong passwords, handshakes that end or go wrong after the password, two users with one password, "
            "restarts (some with a new root password), a kill at the end of some; every password is a fresh random secret. After every stop all files and the log, and throughout every answer, are searched for each secret "
            "in some 30 encodings, and the stored hashes are compared: they all differ, from one another and from all earlier ones, and none is in the log or an answer. Non-trivial: two users had one password, a login with a wrong secret and a refused statement were made")
    assumptions = ["the check's server build hashes passwords at a lower bcrypt cost", "the root password is given on the command line, which the operating system shows to the users of the machine"]
    quick = 500
    thorough = 20000
    recycle = 1
    K = ["create"] * 5 + ["alter"] * 3 + ["drop", "same", "same", "again", "login", "login", "wrong", "wrong", "wrong", "nouser", "refused", "refused", "refused", "refused", "plain", "hs", "hs", "hs",
                                          "inspect", "restart", "rootpw"]

    def gen(self, r, i, tier):
        return {"log": r.choice(["trace", "trace", "debug", "info", "error", "off"]), "ops": [{"o": r.choice(self.K), "s": r.getrandbits(32)} for _ in range(r.choice([15, 30, 50]))]}

    def run(self, env, case):
        env.reset()
        rootpw = secret(Random(case["ops"][0]["s"] ^ 1 if case["ops"] else 1))
        srv = env.server(pw=rootpw, env={"SKY_LOG": case["log"]})
        c = env.conn()
        users = {"root": rootpw}
        secrets = {rootpw: "the root password"}
        tr, seen, answers = [], set(), []

        def fail(msg):
            raise Violation(msg + "\n    " + "\n    ".join(tr[-10:]))

        def new(r, what):
            p = secret(r)
            secrets.setdefault(p, what)
            return p

        def ask(q, *ps, conn=None):
            g = (conn or c).q(q, *ps)
            tr.append(f"{q} {ps if ps else ''} => {short(repr(g), 100)}")
            answers.append((q, g))
            return g

        def want(w, q, *ps):
            g = ask(q, *ps)
            if g != w:
                fail(f"{q} {ps}: expected {w}, got {g}")

        def search():
            """Nothing that the server wrote gives a secret away."""
            pool = [(f"the answer to {q!r}", repr(g).encode()) for q, g in answers]
            pool = list({b: (w, b) for w, b in pool}.values())
            said.extend(x for x in pool if len(x[1]) > 30)
            del answers[:]
            for root, _, names in os.walk(srv.dir):
                for n in names:
                    with open(os.path.join(root, n), "rb") as f:
                        pool.append(("the log" if n == "skyd.log" else f"the file {os.path.relpath(os.path.join(root, n), srv.dir)}", f.read()))
            for p, what in secrets.items():
                if p not in needles:
                    needles[p] = list(forms(p))
            for where, b in pool:
                for p, what in secrets.items():
                    for how, x in needles[p]:
                        i = b.find(x)
                        if i >= 0:
                            fail(f"{where} holds {what}, {p!r}, {how}: {b[max(0, i - 60):i + 100]!r}")
            env.count("searches")

        def stored():
            """The stored accounts: hashes that are not comparable with one another."""
            try:
                got = v2db.Db({r: b for r, b in dbfiles.db_files(srv.dir).items()}).users
            except (v2db.Bad, KeyError, LookupError, ValueError, struct.error):
                env.count("storage not readable")
                return
            at = {}
            for u, h in sorted(got.items()):
                if h in at:
                    fail(f"the accounts {at[h]} and {u} are stored with the same hash {h!r}: the hashes are not salted")
                at[h] = u
            # no hash serves two accounts or two passwords, not even one after another
            for u, h in got.items():
                if known.setdefault(h, (u, users.get(u))) != (u, users.get(u)):
                    fail(f"the account {u} is stored with the hash {h!r}, which was stored for {known[h]} earlier")
            env.count("hashes compared")
            pool = list(said)
            with open(srv.logpath, "rb") as f:
                pool.append(("the log", f.read()))
            for h, (u, _) in known.items():
                for how, x in hash_forms(h):
                    for where, b in pool:
                        if x in b:
                            fail(f"{where} holds the stored hash of {u}, {h!r}, {how}")

        known, needles, said = {}, {}, []

        def stop(r, last=False):
            env.drop_conn()
            if last and r.random() < 0.3:
                srv.kill()
                env.count("kill")
            else:
                rc = srv.stop(r.choice([signal.SIGTERM, signal.SIGINT]))
                if rc != 0:
                    fail(f"graceful shutdown exited with {rc}")
                search()
                stored()
                return
            search()

        for op in case["ops"]:
            o, r = op["o"], Random(op["s"])
            plain = sorted(u for u in users if u != "root")
            free = [n for n in NAMES if n not in users]
            if o in ("create", "alter"):
                if o == "alter" and not plain or o == "create" and not free:
                    continue
                u = r.choice(plain if o == "alter" else free)
                p = new(r, f"the password given to {u}")
                want(("empty",), f"sysctl {o} user {u} with {{ password: ? }}", P("str", p))
                users[u] = p
            elif o == "drop" and plain:
                u = r.choice(plain)
                want(("empty",), f"sysctl drop user {u}")
                del users[u]
            elif o == "same" and plain and free:
                v = r.choice(plain)
                if len(plain) > 1 and r.random() < 0.4:
                    u = r.choice([x for x in plain if x != v])
                    verb = "alter"
                else:
                    u, verb = r.choice(free), "create"
                want(("empty",), f"sysctl {verb} user {u} with {{ password: ? }}", P("str", users[v]))
                users[u] = users[v]
            elif o == "again" and plain:
                u = r.choice(plain)
                want(("empty",), f"sysctl alter user {u} with {{ password: ? }}", P("str", users[u]))
                if r.random() < 0.2:
                    stop(r)
                    srv.start()
                    c = env.conn()
            elif o == "login":
                u = r.choice(sorted(users))
                conn, code = try_login(srv, u, users[u])
                if conn is None:
                    fail(f"login as {u!r} with its password was refused with {code}")
                ask("sysctl report status", conn=conn)
                conn.close()
            elif o in ("wrong", "nouser"):
                u = r.choice(sorted(users)) if o == "wrong" else r.choice(free or ["zz"])
                p = new(r, f"a wrong password tried for {u}") if r.random() < 0.7 else r.choice(sorted(secrets))
                if users.get(u) == p:
                    continue
                conn, code = try_login(srv, u, p)
                if conn:
                    fail(f"login as {u!r} with {p!r} was accepted")
            elif o in ("refused", "plain"):
                u = r.choice(free or ["zz"])
                v = r.choice(plain) if plain and r.random() < 0.6 else None
                verb, t = ("alter", v) if v else ("create", u)
                p = new(r, f"a password in a refused statement about {t}")
                conn = None
                if o == "plain":
                    if not plain:
                        continue
                    w = r.choice(plain)
                    conn, code = try_login(srv, w, users[w])
                    if conn is None:
                        fail(f"login as {w!r} with its password was refused with {code}")
                    q, ps = f"sysctl {verb} user {t} with {{ password: ? }}", [P("str", p)]
                else:
                    q, ps = f"sysctl {verb} user {t} with {{ password: ? }}", [P("str", p)]
                    k = r.randrange(12)
                    if k == 0:
                        q = f"sysctl {'alter' if not v else 'create'} user {t} with {{ password: ? }}"
                    elif k == 1:
                        ps = [P("bin", p.encode())]
                    elif k == 2:
                        q, ps = f"sysctl {verb} user {t} with {{ password: ?, role: ? }}", [P("str", p), P("str", "x")]
                    elif k == 3:
                        q = f"sysctl {verb} user {t} with {{ passwd: ? }}"
                    elif k == 4:
                        q, ps = f"sysctl {verb} user {t} with {{ password: '{p}'", []
                    elif k == 5:
                        q, ps = f"sysctl {verb} user {t} with {{ password: '{p}", []
                    elif k == 6:
                        q, ps = f"sysctl {verb} user {t} with {{ password: {{ password: ? }} }}", [P("str", p)]
                    elif k == 7:
                        q, ps = f"sysctl {verb} user {t} with {{ password: `{p}` }}", []
                    elif k == 8:
                        q = "sysctl alter user root with { password: ? }"
                    elif k == 9:
                        q, ps = f"sysctl {verb} user {t} with password '{p}'", []
                    elif k == 10:
                        ps = [P("str", p + "\0")]
                    else:
                        q, ps = f"sysctl {verb} user '{t}' with {{ password: '{p}' }}", []
                g = ask(q, *ps, conn=conn)
                if conn:
                    conn.close()
                if g[0] != "err":
                    fail(f"{q} {ps}: must be refused, got {g}")
            elif o == "hs":
                u = r.choice(sorted(users))
                p = new(r, "a password in a broken handshake") if r.random() < 0.6 else users[u]
                ub, pb = u.encode(), p.encode()
                k = r.randrange(7)
                b = b"H\0\0\0\0\0%d\n%d\n" % (len(ub), len(pb)) + ub + pb
                if k == 0:
                    b = b[:-r.randrange(1, 4)]
                elif k == 1:
                    b = b"H\0\0\0\0" + bytes([r.randrange(1, 256)]) + b[6:]
                elif k == 2:
                    b = b"H\0\0\0\0\0%d\n%dx\n" % (len(ub), len(pb)) + ub + pb
                elif k == 3:
                    b = b"H\0\0\0\0\0%d\n%d\n" % (len(ub) + 5, len(pb) - 5) + ub + pb
                elif k == 4:
                    b = pb + b"\n" + b
                elif k == 5:
                    b = b + b"S" + pb + b"\n"
                else:
                    b = b[:1] + bytes([r.randrange(1, 256)]) + b[2:]
                s = socket.create_connection(srv.addr, timeout=30)
                try:
                    s.sendall(b)
                    s.shutdown(socket.SHUT_WR)
                    got = b""
                    while len(got) < 4096:
                        x = s.recv(4096)
                        if not x:
                            break
                        got += x
                    answers.append(("a broken handshake", got))
                except OSError:
                    pass
                s.close()
            elif o == "inspect":
                g = ask("inspect global")
                if g[0] != "value" or sorted(json.loads(g[1].v)["users"]) != sorted(users):
                    fail(f"inspect global: {g}; the users are {sorted(users)}")
            elif o in ("restart", "rootpw"):
                stop(r)
                if o == "rootpw":
                    users["root"] = srv.pw = new(r, "a later root password")
                srv.start()
                c = env.conn()
            else:
                continue
            seen.add(o)
            env.count(o)
        c2 = sorted(users)
        for u in c2[:3] + ["root"]:
            conn, code = try_login(srv, u, users[u])
            if conn is None:
                fail(f"login as {u!r} with its password was refused with {code}")
            conn.close()
        stop(Random(case['ops'][0]['s'] if case['ops'] else 1), True)
        env.reset()
        return "same" in seen and bool(seen & {"wrong", "nouser"}) and bool(seen & {"refused", "plain"})

    def sample(self, case):
        return [case["log"], [o["o"] for o in case["ops"]]]


CHECK = C()
