import importlib, random
from collections import Counter
from dbfiles import *
from v1w import downgrade
import p02


class C(p02.C):
    pid = "P09"
    technique = "fault-injection fuzzing of v1 database files at rest with the exact pre-fault state as oracle"
    rule = ("a case is a database produced by a generated DDL/ALTER/DML history with 0-2 restarts, rewritten in the storage format of 0.8.0-beta by an independent "
            "encoder, and 30 independent alterations of its files (bit flips, byte sets, scattered bytes, 64-bit overwrites, zeroed, random and swapped ranges, truncations); after each the "
            "server is started: it must refuse (normal error exit, no file moved, and for a quarter of the refusals the alteration alone is undone and the next start must upgrade to exactly "
            "the state before) or serve exactly the state before. Non-trivial: all alterations were made to a database with rows, and at least one was refused")
    assumptions = ["the server runs with a 6 GiB address-space limit", "alterations of sys.db, which has no checksum, are only required to end normally"]
    quick = 200
    thorough = 4000
    N = 30

    def run(self, env, case):
        env.reset()
        srv = env.server(mem=6 << 30, start_timeout=20)
        w = World(env, env.conn(), "t")
        for op in case["ops"]:
            w.do(op)
        env.drop_conn()
        expect(srv.stop(), 0, "graceful shutdown")
        files = downgrade(db_files(srv.dir), random.Random(case["muts"][0] if case["muts"] else 0), Counter(), marks=False)
        refused = 0
        for ms in case["muts"]:
            r = Random(ms)
            if r.random() < 0.12:
                p = r.choice(sorted(files))
                n = len(files[p])
                cut = r.randrange(n) if r.random() < 0.6 else max(0, n - r.choice([1, 2, 8, 9, 36, 37]))
                b = files[p][:cut]
                if b[-1:] == b"\xfc" if p.endswith("btlog") else b[-20:] == bytes(20):
                    cut -= 1        # what an earlier session left is a complete file
                kind, new = "cut", files[p][:cut]
                what = f"{p.split('/')[-1]} ({n} bytes) cut to {cut} bytes"
            else:
                p, kind, ch = p02.mutate(r, files)
                if p.endswith("btlog"):
                    # the byte ff after a batch means that it never was committed, so such a change can not be noticed
                    ch = [(o, bytes(0xf7 if n == 0xff and files[p][o + i] != 0xff else n for i, n in enumerate(y))) for o, y in ch]
                new = p02.apply(files[p], ch)
                what = f"{p.split('/')[-1]} ({len(files[p])} bytes) altered at " + ", ".join(f"{o}: {files[p][o:o+len(y)].hex()}->{y.hex()}" for o, y in ch[:4])[:300]
            put_files(srv.dir, {**files, p: new})
            res = try_start(srv)
            env.count(f"{kind}:{'refused' if res else 'served'}")
            if res:
                judge_refusal(res[0], res[1], what)
                refused += 1
                have = db_files(srv.dir)
                for q in files:
                    if q not in have:
                        raise Violation(f"{what}: refused, and {q} is gone from its place")
                if r.random() < 0.25:
                    put_one(srv.dir, p, files[p])
                    again = try_start(srv)
                    if again:
                        raise Violation(f"{what}: refused, and with the alteration undone the database cannot be upgraded any more (exit {again[0]}): {again[1][-500:]}")
                    self.verify(env, srv, w, what + ", refused and undone")
                    env.count("undone")
                    srv.kill()
            else:
                if p != "sys.db":
                    self.verify(env, srv, w, what)
                srv.kill()
        env.reset()
        return refused > 0 and any(m.rows for m in w.models.values())


CHECK = C()
