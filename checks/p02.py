import struct
from dbfiles import *
from faults import HDR

PRE = {**DML, "cspace": 0.5, "cmodel": 2, "dmodel": 0.4, "add": 0.8, "remove": 0.5, "widen": 0.5, "bulk": 0.2, "pushmany": 0.3, "key": 2, "aspace": 0.4}


def gen_history(r, sessions=(1, 1, 2, 3)):
    ops = [{"o": o, "s": r.getrandbits(32)} for o in ("cspace", "cmodel")]
    for k in range(r.choice(sessions)):
        if k:
            ops.append({"o": "restart", "s": r.getrandbits(32)})
        ops += gen_ops(r, r.choice([4, 12, 30]), PRE)
    return ops


def mutate(r, files):
    """[path, kind, [(offset, bytes)]] with at least one byte changed."""
    paths = sorted(p for p in files if files[p])
    w = [len(files[p]) ** 0.5 for p in paths]
    p = r.choices(paths, w)[0]
    b = files[p]
    n = len(b)
    while True:
        kind = r.choice(["bit", "bit", "bit", "byte", "byte", "some", "u64", "zero", "swap", "range", "meta"])
        o = r.randrange(n) if r.random() < 0.7 else min(n - 1, r.randrange(300))
        if kind == "meta":
            # another kind of event, or another size or checksum of one
            ev = [x for x in events(b) if x is not None] if "gns" in p else []
            if not ev:
                continue
            o = r.choice(ev)
            f = r.choice([16, 16, 16, 24, 32])
            if f == 16:
                ch = [[o + 16, bytes([r.choice([x for x in range(14)] + [255])])]]
            else:
                ch = [[o + f, struct.pack("<Q", r.choice([0, 1, 2**32, 2**63, (int.from_bytes(b[o+f:o+f+8], "little") + r.choice([-1, 1])) % 2**64]))]]
        elif kind == "bit":
            ch = [[o, bytes([b[o] ^ (1 << r.randrange(8))])]]
        elif kind == "byte":
            ch = [[o, bytes([r.choice([0, 1, 255, (b[o] + 1) % 256, (b[o] - 1) % 256, r.randrange(256)])])]]
        elif kind == "some":
            ch = [[r.randrange(n), bytes([r.randrange(256)])] for _ in range(r.choice([2, 3, 8]))]
        elif kind == "u64":
            v = r.choice([0, 1, 2**63, 2**64 - 1, 2**32, 2**31, 2**40, 255, r.getrandbits(64)])
            ch = [[o, v.to_bytes(8, r.choice(["little", "little", "big"]))[: n - o]]]
        elif kind == "zero":
            ch = [[o, bytes(min(n - o, r.choice([2, 8, 64, 512])))]]
        elif kind == "range":
            ch = [[o, r.randbytes(min(n - o, r.choice([2, 8, 64, 512])))]]
        else:
            o2 = r.randrange(n)
            l = min(r.choice([1, 8, 16, 32]), n - o, n - o2)
            ch = [[o, b[o2:o2 + l]], [o2, b[o:o + l]]]
        new = apply(b, ch)
        if new != b:
            return [p, kind, ch]


def events(b):
    """Offsets of the events in a namespace log."""
    o, n = HDR, len(b)
    while o + 40 <= n:
        if b[o + 23] >> 7:
            yield o
            o += 40 + int.from_bytes(b[o + 32:o + 40], "little")
        else:
            o += 64


def apply(b, ch):
    x = bytearray(b)
    for o, y in ch:
        x[o:o + len(y)] = y
    return bytes(x[:len(b)])


class C(Check):
    pid = "P02"
    technique = "fault-injection fuzzing of database files at rest with the exact pre-fault state as oracle"
    rule = ("a case is a database produced by a generated DDL/ALTER/DML history with 0-2 restarts, shut down gracefully, and 40 independent alterations "
            "of its files (bit flips, byte sets, scattered bytes, 64-bit overwrites, zeroed, random and swapped ranges at random and header offsets, kinds and sizes of recorded events); "
            "after each the server is started: it must refuse (normal error exit; for a quarter of the refusals the alteration alone is undone and the next start must serve exactly the state before) or serve exactly the state before. "
            "Non-trivial: at least 30 alterations were made to a database with rows, and at least one was refused")
    assumptions = ["the server runs with a 6 GiB address-space limit"]
    quick = 160
    thorough = 6000
    shrink_keys = ("muts", "ops")
    N = 40

    def gen(self, r, i, tier):
        return {"ops": gen_history(r), "muts": [r.getrandbits(32) for _ in range(self.N)]}

    def run(self, env, case):
        env.reset()
        srv = env.server(mem=6 << 30, start_timeout=20)
        w = World(env, env.conn(), "t")
        for op in case["ops"]:
            w.do(op)
        env.drop_conn()
        rc = srv.stop()
        expect(rc, 0, "graceful shutdown")
        files = db_files(srv.dir)
        refused = served = 0
        for ms in case["muts"]:
            r = Random(ms)
            p, kind, ch = mutate(r, files)
            cur = dict(files)
            cur[p] = apply(files[p], ch)
            put_files(srv.dir, cur)
            name = p.split("/")[-1]
            what = f"{name} ({len(files[p])} bytes) altered at " + ", ".join(f"{o}: {files[p][o:o+len(y)].hex()}->{y.hex()}" for o, y in ch[:4])[:300]
            res = try_start(srv)
            env.count(f"{kind}:{'refused' if res else 'served'}")
            if res:
                judge_refusal(res[0], res[1], what)
                refused += 1
                if r.random() < 0.25:
                    # undo the alteration alone; whatever else the refused start did stays
                    put_one(srv.dir, p, files[p])
                    again = try_start(srv)
                    if again:
                        raise Violation(f"{what}: refused, and with the alteration undone the database does not start any more (exit {again[0]}): {again[1][-500:]}")
                    self.verify(env, srv, w, what + ", refused and undone")
                    env.count("undone")
                    srv.kill()
            else:
                served += 1
                self.verify(env, srv, w, what)
                srv.kill()
        env.reset()
        return refused > 0 and len(case["muts"]) >= 30 and any(m.rows for m in w.models.values())

    def verify(self, env, srv, w, what):
        c = None
        try:
            c = srv.conn()
            w.c = c
            w.trace = [what]
            w.check_everything()
        except Violation as v:
            raise Violation(f"{what}: the server started but serves something else: {v}")
        except (Closed, Timeout, ProtocolError) as e:
            raise Violation(f"{what}: the server started but does not serve correctly: {e!r}; log {srv.log()[-500:]}")
        finally:
            if c:
                c.close()

    def sample(self, case):
        return {"history": [o["o"] for o in case["ops"][:20]], "alterations": len(case["muts"])}


CHECK = C()
