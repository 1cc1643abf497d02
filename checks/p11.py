"""P11: the storage format is stable: databases written elsewhere in this format are read, and what the server writes is in this format."""
import os
from hist import *
from accounts import gen_pw
from dbfiles import *
from v1w import Rd
import p08
import v2db


def read(srv):
    try:
        return v2db.Db(db_files(srv.dir))
    except (v2db.Bad, AssertionError, UnicodeDecodeError, KeyError) as e:
        raise Violation(f"the files that the server left are not in the storage format: {e!r}")


class W(p08.W):
    def op_decode(self, r):
        """Stop, read the files without the server, and start again."""
        srv = self.env.server()
        self.env.drop_conn()
        rc = srv.stop()
        if rc != 0:
            self.fail(f"graceful shutdown exited with {rc}")
        self.trace.append("(server stopped, files read, server started)")
        try:
            db = read(srv)
        except Violation as e:
            self.fail(str(e))
        self.compare(db)
        srv.start()
        self.c = self.env.conn()
        self.check_everything()
        self.hit("decode", *(["decode-rows"] if any(m.rows for m in self.models.values()) else []))

    def compare(self, db):
        if sorted(db.spaces) != sorted(self.spaces) or any(db.spaces[s] != self.spaces[s] for s in self.spaces):
            self.fail(f"the files hold the spaces {db.spaces}, expected {self.spaces}")
        if sorted(db.users) != sorted(["root", *self.users]):
            self.fail(f"the files hold the accounts {sorted(db.users)}, expected root and {sorted(self.users)}")
        for s, p in self.props.items():
            got = db.top[s].get("env", {})
            if p is not None and (got != p or set(db.top[s]) - {"env"}):
                self.fail(f"the files hold the properties {db.top[s]} of the space {s}, expected {p}")
        for k, m in self.models.items():
            x = db.models[k]
            if x.decl() != m.decl():
                self.fail(f"the files hold the model {k} as {x.decl()}, expected {m.decl()}")
            if x.rows.keys() != m.rows.keys():
                a, b = set(x.rows) - set(m.rows), set(m.rows) - set(x.rows)
                self.fail(f"the file of {k} holds {len(x.rows)} rows, expected {len(m.rows)} (too many: {short(repr(a), 200)}, missing: {short(repr(b), 200)})")
            for key, row in m.rows.items():
                for f in m.others():
                    got, want = x.rows[key][f["name"]], row[f["name"]]
                    if not self.held(want, got, f):
                        self.fail(f"the file of {k} holds {short(repr(got), 200)} as {f['name']} of {short(repr(key), 100)}, expected {short(repr(want), 200)}")

    def held(self, want, got, f):
        """A stored cell has the type of the declaration now or then."""
        if "null" in (want.t, got.t) or "list" in (want.t, got.t):
            return want.t == got.t and (want.t == "null" or len(want.v) == len(got.v) and all(self.held(a, b, f) for a, b in zip(want.v, got.v)))
        ts = self.WIDTHS.get(klass(f["type"]), [f["type"]])
        return want.v == got.v and got.t in ts[:ts.index(f["type"]) + 1]


class C(Hist):
    pid = "P11"
    technique = "differential property-based testing of the storage format against an independent reader and writer"
    rule = ("a case is a database made by an independent writer (2-120 catalogue, account and batch events of every kind in 1-5 sessions: gaps in identifiers, "
            "deletions recorded out of order, batches that end early, rows of earlier declarations) in two cases of three, and nothing otherwise; the server must "
            "start on it and hold exactly what was written; then a history of 0-120 statements with restarts; the files that the stopped server leaves are read by an "
            "independent strict reader (headers, session marks, checksums, identifiers, every event and cell) and must hold what the reference model holds. "
            "Non-trivial: rows were in the files")
    quick = 500
    thorough = 20000
    workers = 24
    need = ("decode-rows",)
    PRE = {**DML, **{"cspace": 0.6, "dspace": 0.4, "aspace": 0.8, "cmodel": 2, "dmodel": 0.6, "cmodel_bad": 0.2, "cwide": 0.05, "user": 1},
           "add": 1.4, "remove": 1.1, "widen": 0.9, "alter_bad": 0.2, "bulk": 0.4, "bulkdel": 0.3, "big": 0.05, "pushmany": 0.2, "key": 2, "restart": 0.4, "decode": 0.4}
    PRE.update(sel=0.5, all=0.3, sel_unknown_field=0.05, unknown_model=0.05, where_bad=0.1, sel_absent=0.1, ins_bad=0.5)
    MAKE = {"cspace": 1, "aspace": 1.2, "dspace": 0.4, "cmodel": 2.5, "dmodel": 0.5, "add": 2, "remove": 1.5, "widen": 1.5, "user": 1, "batch": 7, "session": 1}

    def gen(self, r, i, tier):
        made, ops = [], []
        if r.random() < 0.67:
            w = dict(self.MAKE)
            for k in w:
                if r.random() < 0.2:
                    w[k] *= r.choice([0, 0, 3])
            made = [{"o": "cspace", "s": r.getrandbits(32)}, {"o": "cmodel", "s": r.getrandbits(32)}] + gen_ops(r, r.choice([0, 8, 20, 40, 120]), w)
        w = dict(self.PRE)
        for k in w:
            if r.random() < 0.25:
                w[k] *= r.choice([0, 0, 4])
        if not made or r.random() < 0.6:
            ops = ([] if made else [{"o": o, "s": r.getrandbits(32)} for o in self.prologue]) + gen_ops(r, r.choice([5, 20, 40, 40, 80, 120]), w)
        ops.append({"o": "decode", "s": r.getrandbits(32)})
        return {"near": r.random() < 0.2, "made": made, "s": r.getrandbits(32), "ops": ops}

    def hashes(self, env):
        """[(password, what is stored for it)], and what is stored for the password of root"""
        if "hashes" not in env.data:
            r = Random(env.seed)
            srv = env.server(window=3600)
            pws = [gen_pw(r) for _ in range(4)]
            c = srv.conn()
            for i, pw in enumerate(pws):
                expect(c.q(f"sysctl create user u{i} with {{ password: ? }}", P("str", pw)), ("empty",), "create user")
            c.close()
            srv.stop()
            users = read(srv).users
            env.data["hashes"] = [(pw, users[f"u{i}"]) for i, pw in enumerate(pws)], users["root"]
            env.reset()
        return env.data["hashes"]

    def run(self, env, case):
        env.reset()
        hs, root = self.hashes(env)
        srv = env.server(window=3600)
        w = W(env, env.conn(), "t")
        w.near = case["near"]
        w.users = {}
        if case["made"]:
            mk = v2db.Maker(root, hs, Random(case["s"]))
            for op in case["made"]:
                mk.do(op)
            env.drop_conn()
            srv.stop()
            put_files(srv.dir, mk.files())
            for d in mk.dirs():
                os.makedirs(os.path.join(srv.dir, d), exist_ok=True)
            w.trace.append("(database written: " + ", ".join(f"{k} {v}" for k, v in mk.stat.items()) + ")")
            bad = try_start(srv)
            if bad:
                w.fail(f"the server refuses an intact database (exit {bad[0]}): {panic_of(bad[1])}")
            w.c = env.conn()
            w.spaces, w.models, w.users, w.n = mk.spaces, mk.models, mk.users, mk.n
            w.props = {s: t.get("env", {}) for s, t in mk.top.items()}
            w.hit(*("made " + k for k in mk.stat))
            for m in w.models.values():
                for f in m.fields:
                    f["uid"] = w.ident(f)["uid"]
            w.check_users(Random(case["s"]))
            w.check_everything()
        for op in case["ops"]:
            w.do(op)
        w.check_everything()
        env.reset()
        return all(any(x in w.nontriv for x in alt.split("|")) for alt in self.need)

    def sample(self, case):
        return [o["o"] for o in case["made"][:20]] + ["|"] + [o["o"] for o in case["ops"][:20]]


CHECK = C()
