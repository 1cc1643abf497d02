import socket
from accounts import *


class C(Check):
    pid = "A01"
    technique = "property-based testing of logins with near-miss credentials and of unauthenticated byte streams, against a map of users"
    rule = ("a case is a server with 1-8 generated users, a table holding a secret, and 40-80 login attempts or unauthenticated streams: exact credentials, near-miss names and passwords, "
            "credentials moved across the name/password boundary, queries sent instead of, before or right after a refused login, repeated handshakes after a refusal, abandoned logins. "
            "Exactly the exact credentials are accepted; no other stream gets anything but one 4-byte refusal and nothing of it is executed. "
            "Non-trivial: logins were accepted and refused and an unauthenticated query was tried")
    assumptions = ["the check's server build hashes passwords at a lower bcrypt cost"]
    quick = 1500
    thorough = 12000

    K = ["ok"] * 5 + ["nearpw"] * 8 + ["nearname"] * 5 + ["shift"] * 3 + ["cross"] * 2 + ["preq"] * 4 + ["afterq"] * 4 + ["twice"] * 2 + ["abandon", "okq", "okq"]

    def gen(self, r, i, tier):
        return {"users": r.randrange(1, 9), "s": r.getrandbits(32), "ops": [{"o": r.choice(self.K), "s": r.getrandbits(32)} for _ in range(r.choice([40, 80]))]}

    def run(self, env, case):
        srv = env.server()
        c = env.conn()
        r0 = Random(case["s"])
        users = {b"root": srv.pw.encode()}
        sp = env.name("s")
        for q in (f"create space {sp}", f"create model {sp}.m(k: string, v: string)"):
            expect(c.q(q), ("empty",), q)
        secret = r0.randbytes(8).hex().encode()
        q = f"insert into {sp}.m(?, ?)"
        expect(c.q(q, P("str", "k"), P("str", secret)), ("empty",), q)
        names = r0.sample(NAMES, case["users"])
        try:
            for u in names:
                pw = gen_pw(r0)
                expect(c.q(f"sysctl create user {u} with {{ password: ? }}", P("str", pw)), ("empty",), f"create user {u}")
                users[u.encode()] = pw
            out = self.attempts(env, srv, c, case, users, sp, secret)
            expect(c.q(f"select v from {sp}.m where k = ?", P("str", "k")), ("row", [V("string", secret)]), "the row after the attempts")
            g = c.q(f"inspect space {sp}")
            if g[0] != "value" or json.loads(g[1].v) != {"models": ["m"]}:
                raise Violation(f"inspect space after the attempts: {g}")
        finally:
            try:
                for u in names:
                    c.q(f"sysctl drop user {u}")
                c.q(f"drop space allow not empty {sp}")
            except (Closed, Timeout, ProtocolError):
                env.reset()
        return out

    def attempts(self, env, srv, c, case, users, sp, secret):
        seen = set()

        def hs(u, p):
            return b"H\x00\x00\x00\x00\x00%d\n%d\n" % (len(u), len(p)) + u + p

        def check(u, p):
            want = users.get(u) == p
            conn, code = try_login(srv, u, p)
            if conn:
                conn.close()
            if (conn is not None) != want:
                raise Violation(f"login as {u!r} with {p!r} was {'accepted' if conn else f'refused ({code})'}; the users are {users}")
            if code not in (None, 0, 5):
                raise Violation(f"login as {u!r} with {p!r}: refused with code {code}")
            seen.add("accepted" if want else "refused")

        def evil(r):
            return r.choice([enc_query(f"select v from {sp}.m where k = ?", [P("str", "k")]), enc_query(f"select all * from {sp}.m limit ?", [P("uint", 10)]),
                             enc_query("inspect global"), enc_query(f"update {sp}.m set v = ? where k = ?", [P("str", "hacked"), P("str", "k")]),
                             enc_query(f"drop space allow not empty {sp}"), enc_query(f"create model {sp}.evil(k: string, v: string)"),
                             enc_query(f"delete from {sp}.m where k = ?", [P("str", "k")]), enc_query("sysctl create user evil with { password: ? }", [P("str", "evil")])])

        def stream(chunks, limit, what):
            """Sends the chunks; the server may answer with refusals of 4 bytes only (at most `limit`) and must close."""
            s = socket.create_connection(srv.addr, timeout=20)
            got = b""
            try:
                for x in chunks:
                    s.sendall(x)
                s.shutdown(socket.SHUT_WR)
                while True:
                    d = s.recv(4096)
                    if not d:
                        break
                    got += d
            except (ConnectionError, OSError) as e:
                if isinstance(e, socket.timeout):
                    raise Timeout(what)
                pass
            finally:
                s.close()
            if secret in got or len(got) > 4 * limit or not all(got[i:i + 3] == b"H\x00\x01" for i in range(0, len(got), 4)):
                raise Violation(f"{what}: sent {short(repr(b''.join(chunks)))}, an unauthenticated client received {got!r}")

        for op in case["ops"]:
            o, r = op["o"], Random(op["s"])
            u = r.choice(sorted(users))
            p = users[u]
            if o == "ok":
                check(u, p)
            elif o == "okq":
                conn, code = try_login(srv, u, p)
                if conn is None:
                    raise Violation(f"login as {u!r} with {p!r} was refused with {code}; the users are {users}")
                expect(conn.q(f"select v from {sp}.m where k = ?", P("str", "k")), ("row", [V("string", secret)]), "select after a login")
                conn.close()
            elif o == "nearpw":
                check(u, near_pw(r, p))
            elif o == "nearname":
                check(near_name(r, u), p)
            elif o == "cross":
                check(u, users[r.choice(sorted(users))])
            elif o == "shift":
                # the same bytes with the boundary between name and password elsewhere
                b = u + p
                i = r.randrange(len(b) + 1)
                check(b[:i], b[i:])
            elif o == "preq":
                x = [evil(r) for _ in range(r.choice([1, 2]))]
                if r.random() < 0.3:
                    x.append(hs(u, near_pw(r, p)))
                if r.random() < 0.3:
                    x = [b"H" + y for y in x]
                stream(x, 1, "a query instead of a login")
                seen.add("pre")
            elif o == "afterq":
                bad = hs(u, near_pw(r, p)) if r.random() < 0.6 else hs(near_name(r, u) + b"~", p)
                stream([bad] + [evil(r) for _ in range(r.choice([1, 3]))], 1, "queries after a refused login")
                seen.add("pre")
            elif o == "twice":
                stream([hs(u, near_pw(r, p)), hs(u, p), evil(r)], 1, "a second login after a refused one")
            elif o == "abandon":
                b = hs(u, p)
                stream([b[:r.randrange(len(b))]], 1, "an abandoned login")
            env.count(o)
        if "evil" in json.loads(c.q("inspect global")[1].v)["users"]:
            raise Violation("an unauthenticated statement created a user")
        return len(seen) == 3

    def sample(self, case):
        return {"users": case["users"], "attempts": [o["o"] for o in case["ops"]]}


CHECK = C()
