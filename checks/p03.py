import copy
from dbfiles import *
from p02 import PRE

PRE3 = {k: v for k, v in PRE.items() if k != "widen"}


def snapshot(w):
    return {"spaces": copy.deepcopy(w.spaces), "models": {k: copy.deepcopy(m) for k, m in w.models.items()}}


def uids(m):
    return [f["uid"] for f in m.fields]


def project(old, new):
    """The rows `old` held, as the declaration of `new` shows them."""
    m = copy.copy(new)
    name_of = {f["uid"]: f["name"] for f in old.fields}
    m.rows = {}
    for k, row in old.rows.items():
        m.rows[k] = {f["name"]: row[name_of[f["uid"]]] if f["uid"] in name_of else NULL for f in new.fields}
    return m


def mutate(r, files, sizes):
    """(path, kind, new bytes or None)"""
    paths = sorted(p for p in files if files[p])
    p = r.choices(paths, [len(files[p]) ** 0.5 for p in paths])[0]
    b = files[p]
    past = sorted({s[p] for s in sizes if p in s})
    while True:
        kind = r.choice(["cut", "cut", "cutnear", "older", "older", "ext", "ext", "dup", "dup", "cross", "gap", "missing"])
        if kind == "cut":
            new = b[:r.randrange(len(b))]
        elif kind == "cutnear":
            new = b[:max(0, min(len(b) - 1, r.choice(past) + r.choice([-64, -65, -63, -8, -1, 1, 8, 24, 63, 64, 65, 128])))]
        elif kind == "older":
            new = b[:r.choice(past)]
        elif kind == "ext":
            n = r.choice([1, 7, 8, 16, 24, 63, 64, 65, 128, 1000])
            new = b + r.choice([bytes(n), r.randbytes(n), b"\xff" * n])
        elif kind == "dup":
            n = r.choice([1, 8, 64, 128, len(b) - r.choice(past), r.randrange(len(b)) + 1])
            new = b + b[len(b) - n:] if n else b
        elif kind == "cross":
            o = files[r.choice(paths)]
            n = r.choice([64, 128, len(o), r.randrange(len(o)) + 1])
            new = b + o[-n:]
        elif kind == "gap":
            # a piece in the middle is lost or repeated
            x, y = sorted(r.choice([r.randrange(len(b) + 1), r.choice(past), max(0, r.choice(past) - 64)]) for _ in range(2))
            new = b[:x] + b[y:] if r.random() < 0.5 else b[:y] + b[x:]
        else:
            if p.endswith("gns.db-tlog"):
                continue
            new = None
        if new != b:
            return p, kind, new


class C(Check):
    pid = "P03"
    technique = "fault-injection fuzzing (truncation, extension, splicing, loss of database files) with the set of past states as oracle"
    rule = ("a case is a database produced by a generated DDL/ALTER/DML history in 2-5 server sessions (a snapshot of the reference model is kept at the end of each) and 40 independent alterations "
            "of one file: cut at any length, near or exactly at the end of an earlier session, extended with zeros, noise, its own tail or that of another file, a middle piece lost or repeated, or the file removed; "
            "the server must then refuse to start (normal error exit) or serve the catalogue and, for each model, the rows of one of the snapshots under that catalogue; part of the started servers run more statements and are restarted. "
            "Non-trivial: at least 30 alterations on a database with rows, some refused and some served")
    assumptions = ["the server runs with a 6 GiB address-space limit", "histories have no ALTER MODEL UPDATE (a catalogue file older than the rows would then show values beyond the older type)"]
    quick = 160
    thorough = 6000
    shrink_keys = ("muts", "ops")
    N = 40

    def gen(self, r, i, tier):
        ops = [{"o": o, "s": r.getrandbits(32)} for o in ("cspace", "cmodel")]
        for k in range(r.choice([2, 2, 3, 5])):
            if k:
                ops.append({"o": "restart", "s": r.getrandbits(32)})
            ops += gen_ops(r, r.choice([0, 3, 10, 25]), PRE3)
        return {"ops": ops, "muts": [r.getrandbits(32) for _ in range(self.N)]}

    def run(self, env, case):
        env.reset()
        srv = env.server(mem=6 << 30, start_timeout=20)
        w = World(env, env.conn(), "t")
        snaps, sizes = [], []
        for op in case["ops"]:
            if op["o"] == "restart":
                env.drop_conn()
                expect(srv.stop(), 0, "graceful shutdown")
                snaps.append(snapshot(w))
                sizes.append({p: len(b) for p, b in db_files(srv.dir).items()})
                srv.start()
                w.c = env.conn()
            else:
                w.do(op)
        env.drop_conn()
        expect(srv.stop(), 0, "graceful shutdown")
        files = db_files(srv.dir)
        snaps.append(snapshot(w))
        sizes.append({p: len(b) for p, b in files.items()})
        refused = served = 0
        for ms in case["muts"]:
            r = Random(ms)
            p, kind, new = mutate(r, files, sizes)
            cur = dict(files)
            cur.pop(p)
            if new is not None:
                cur[p] = new
            put_files(srv.dir, cur)
            what = f"{p.split('/')[-1]} ({len(files[p])} bytes, earlier {[s.get(p) for s in sizes]}) {kind}, now {None if new is None else len(new)} bytes"
            res = try_start(srv)
            env.count(f"{kind}:{'refused' if res else 'served'}")
            if res:
                judge_refusal(res[0], res[1], what)
                refused += 1
            else:
                served += 1
                self.verify(env, srv, w, snaps, p, what, r)
                srv.kill()
        env.reset()
        return served > 0 and refused > 0 and len(case["muts"]) >= 30 and any(m.rows for m in w.models.values())

    def verify(self, env, srv, w, snaps, path, what, r):
        gns = path.endswith("gns.db-tlog")
        c = None
        try:
            c = srv.conn()
            best = None
            for s in reversed(snaps if gns else snaps[-1:]):
                v = World(env, c, w.tag)
                v.n = w.n + 1000
                v.spaces, v.models = copy.deepcopy(s["spaces"]), dict(s["models"])
                v.trace = [what]
                try:
                    v.op_inspect_catalogue()
                except Violation as e:
                    best = best or e
                    continue
                break
            else:
                raise Violation(f"the catalogue is none of those at the ends of the sessions: {best}")
            for full, m in list(v.models.items()):
                first = None
                for old in reversed(snaps):
                    o = old["models"].get(full)
                    if o is None or (gns and uids(o) != uids(m)):
                        continue
                    cand = project(o, m)
                    try:
                        v.check_model(cand)
                        v.check_all(cand)
                        v.models[full] = cand
                        break
                    except Violation as e:
                        first = first or e
                else:
                    raise Violation(f"model {full}: the rows are not those at the end of any session: {first}")
            env.count("verified")
            if r.random() < 0.3:
                v.models = copy.deepcopy(v.models)
                for o in gen_ops(r, 6, {"ins": 3, "upd": 2, "del": 1, "add": 1, "cmodel": 1}):
                    v.do(o)
                c.close()
                rc = srv.stop()
                if rc != 0:
                    raise Violation(f"the shutdown after it exited with {rc}: {srv.log()[-400:]}")
                res = try_start(srv)
                if res:
                    raise Violation(f"after more statements and a graceful shutdown the database does not start: exit {res[0]} {res[1][-400:]}")
                c = srv.conn()
                v.c = c
                v.check_everything()
                env.count("continued")
        except Violation as v:
            raise Violation(f"{what}: the server started but serves something else: {v}")
        except (Closed, Timeout, ProtocolError) as e:
            raise Violation(f"{what}: the server started but does not serve correctly: {e!r}; log {srv.log()[-500:]}")
        finally:
            if c:
                c.close()

    def sample(self, case):
        return {"history": [o["o"] for o in case["ops"][:20]], "alterations": len(case["muts"])}


CHECK = C()
