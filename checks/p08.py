import os, random
from collections import Counter
from dbfiles import *
from accounts import gen_pw, near_pw, try_login
from v1w import downgrade


class W(World):
    def op_user(self, r):
        """Create, change or remove an account."""
        k = r.randrange(4)
        n = r.choice(["alice", "Alice", "bob", "u_1", "x" * 40, "rootx"])
        if k == 0 and n in self.users:
            self.must(EMPTY, f"sysctl drop user {n}")
            del self.users[n]
        else:
            pw = gen_pw(r)
            verb = "alter" if n in self.users else "create"
            self.must(EMPTY, f"sysctl {verb} user {n} with {{ password: ? }}", [P("str", pw.decode())])
            self.users[n] = pw
        self.hit("user")

    def check_users(self, r):
        srv = self.env.server()

        def login(u, pw, ok, what):
            conn, code = try_login(srv, u.encode(), pw)
            if conn is not None:
                conn.close()
            if (conn is not None) != ok:
                self.fail(f"login as {u!r} with {what} {'is refused' if ok else 'succeeds'}")
        for u, pw in self.users.items():
            login(u, pw, True, "its password")
            login(u, near_pw(r, pw), False, "another password")
        for u in ("nobody", "alice", "bob"):
            if u not in self.users:
                login(u, b"password", False, "a password, an account that does not exist,")

    def op_down(self, r):
        """Stop, rewrite the database in the previous format, and start: the server must upgrade it."""
        srv = self.env.server()
        self.env.drop_conn()
        rc = srv.stop()
        if rc != 0:
            self.fail(f"graceful shutdown exited with {rc}")
        files = {p: b for p, b in db_files(srv.dir).items() if not p.startswith("backups")}
        st = Counter()
        old = downgrade(files, random.Random(r.getrandbits(32)), st)
        self.hit(*("v1 " + k for k in st))
        for root, dirs, names in os.walk(os.path.join(srv.dir, "backups"), topdown=False):
            for n in names:
                os.unlink(os.path.join(root, n))
            os.rmdir(root)
        put_files(srv.dir, old)
        self.trace.append("(database rewritten in the format of 0.8.0-beta; server started)")
        ref = try_start(srv)
        if ref:
            self.fail(f"the server refuses to upgrade an intact database (exit {ref[0]}): {panic_of(ref[1])}")
        self.c = self.env.conn()
        self.hit("upgrade")
        got = db_files(srv.dir)
        bdirs = {p.split("/")[1] for p in got if p.startswith("backups/")}
        if len(bdirs) != 1:
            self.fail(f"backups after the upgrade: {sorted(bdirs)}")
        pre = f"backups/{bdirs.pop()}/"
        for p, b in old.items():
            x = got.get(pre + p)
            if x is None:
                self.fail(f"the original file {p} is not among the backups")
            if not (x[:len(b)] == b and len(x) <= len(b) + 72):
                self.fail(f"the backup of {p} is not the original ({len(b)} bytes, backup {len(x)} bytes)")
        if "sys.db" in got:
            self.fail("the previous system database is still there after the upgrade")
        self.check_users(r)
        self.check_everything()

    def op_restart(self, r):
        super().op_restart(r)
        self.check_users(r)


class C(Hist):
    pid = "P08"
    technique = "stateful model-based testing of upgrades: histories whose database is rewritten in the v1 format by an independent writer"
    rule = ("a case is a fresh server and a history of 20-200 DDL/ALTER/DML/account statements with 0-3 restarts; the database is then decoded and rewritten in "
            "the storage format of 0.8.0-beta by an independent encoder (session markers, reverted events, empty failed batches, early-ended and split batches, rows stored and deleted again within a batch, changes recorded out of order) "
            "and started again; catalogue, rows and logins are compared with the reference model right after the upgrade and, after further statements, after "
            "each of 1-3 more restarts; the originals must be under backups/. Non-trivial: rows existed and updates or deletes were accepted")
    quick = 320
    thorough = 12000
    workers = 24
    need = ("upgrade", "restart", "insert", "update|delete")
    PRE = {**DML, **{"cspace": 0.5, "dspace": 0.3, "aspace": 0.6, "cmodel": 2, "dmodel": 0.6, "cmodel_bad": 0.2, "cwide": 0.1, "user": 1},
           "add": 1.6, "remove": 1.3, "widen": 1, "alter_bad": 0.3, "bulk": 0.4, "bulkdel": 0.3, "big": 0.08, "pushmany": 0.4, "key": 2}
    PRE.update(sel=0.5, all=0.5, sel_unknown_field=0.1, unknown_model=0.1, where_bad=0.2, sel_absent=0.1)

    def gen(self, r, i, tier):
        def seg(lens, wild):
            w = dict(self.PRE)
            for k in w:
                if wild and r.random() < 0.25:
                    w[k] *= r.choice([0, 0, 4])
            return gen_ops(r, r.choice(lens), w)

        def op(o):
            return {"o": o, "s": r.getrandbits(32)}
        ops = [op(o) for o in self.prologue]
        for _ in range(r.choice([0, 0, 1, 1, 3])):
            ops += seg([3, 10, 25, 50], True) + [op("restart")]
        ops += seg([10, 25, 25, 50, 100], True) + [op("down")]
        for _ in range(r.choice([1, 1, 2, 3])):
            ops += seg([0, 5, 15, 30], True) + [op("restart")]
        if r.random() < 0.05:
            ops += [op("down")] + seg([10], True) + [op("restart")]
        return {"near": r.random() < 0.2, "ops": ops}

    def run(self, env, case):
        env.reset()
        env.server(window=3600)
        w = W(env, env.conn(), "t")
        w.near = case["near"]
        w.users = {}
        for op in case["ops"]:
            w.do(op)
        w.check_everything()
        env.reset()
        return all(any(x in w.nontriv for x in alt.split("|")) for alt in self.need)


CHECK = C()
