import time
from hist import *
from faults import FLUSH, flushing


class W(World):
    def op_flush(self, r):
        """Let the periodic flush write what is pending (only under a short service window)."""
        if self.env.data["win"] == 1:
            time.sleep(r.choice([0.4, 1.1, 1.1, 2.1]))
            self.hit("flush")

    def op_again(self, r):
        """Restart twice without any change in between."""
        self.op_restart(r)
        self.op_restart(r)
        self.hit("restart-idle")


class C(Hist):
    pid = "P01"
    technique = "stateful model-based testing of complete server histories split by graceful restarts"
    rule = ("a case is a fresh server and a history of 40-400 DDL/ALTER/DML statements (every type, nullable columns, nested lists, cells up to "
            "300 kB, bulk inserts and deletes, dropped and re-created names) split by 1-5 graceful restarts (SIGTERM/SIGINT) and, under a 1 s service "
            "window or a small memory, by flushes; after each restart the catalogue and all rows are compared with the reference model. Non-trivial: rows "
            "existed at a restart, and updates or deletes were accepted both before and after one")
    quick = 800
    thorough = 25000
    workers = 24
    need = ("restart", "insert", "update|delete")
    PRE = {**DML, **{"cspace": 0.5, "dspace": 0.4, "aspace": 0.4, "cmodel": 2, "dmodel": 0.8, "cmodel_bad": 0.3, "cwide": 0.2},
           "add": 1.2, "remove": 0.9, "widen": 0.9, "alter_bad": 0.3, "bulk": 0.5, "bulkdel": 0.4, "big": 0.6, "pushmany": 0.6, "key": 3}
    PRE.update(sel=0.5, all=0.5, sel_unknown_field=0.1, unknown_model=0.1, where_bad=0.3, sel_absent=0.1)

    def gen(self, r, i, tier):
        ops = [{"o": o, "s": r.getrandbits(32)} for o in self.prologue]
        win = 1 if r.random() < 0.15 else 3600
        for _ in range(r.choice([1, 2, 2, 3, 5])):
            w = dict(self.PRE)
            for k in w:
                if r.random() < 0.25:
                    w[k] *= r.choice([0, 0, 4])
            seg = gen_ops(r, r.choice([0, 3, 10, 25, 25, 50, 120]), w)
            if win == 1:
                for _ in range(r.choice([0, 1, 2])):
                    seg.insert(r.randrange(len(seg) + 1), {"o": "flush", "s": r.getrandbits(32)})
            ops += seg
            ops.append({"o": "again" if r.random() < 0.12 else "restart", "s": r.getrandbits(32)})
        ops += gen_ops(r, r.choice([0, 5, 15]), self.PRE)
        return {"flush": r.choice(FLUSH), "win": win, "near": r.random() < 0.2, "ops": ops}

    def run(self, env, case):
        env.reset()
        env.data["win"] = case["win"]
        srv = env.server(window=case["win"], **flushing(*case["flush"]))
        w = W(env, env.conn(), "t")
        w.near = case["near"]
        for op in case["ops"]:
            w.do(op)
        w.check_everything()
        env.reset()
        return all(any(x in w.nontriv for x in alt.split("|")) for alt in self.need)


CHECK = C()
