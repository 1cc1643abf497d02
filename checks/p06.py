from faultworld import *


class C(Hist):
    pid = "P06"
    technique = "stateful model-based testing with injected file faults (LD_PRELOAD shim) at random operations"
    rule = ("a case is a fresh server (1 s service window, clock 20 times faster) and a history of 30-200 DDL/ALTER/user/DML statements in which 1-8 "
            "times faults are armed: the n-th write/fsync/create/mkdir/truncate/seek/unlink on the chosen files fails once, some times or until "
            "healed, with one of six errors, or stores only part of the bytes; statements refused meanwhile are either given up (no effect at all) or "
            "repeated (accepted, at the latest some time after the faults end); with restarts without faults, with one fault during the shutdown, and "
            "with one fault during a start. Non-trivial: at least one statement was refused because of a fault, or a shutdown or start met one, and the "
            "state was compared with the model after a later restart")
    quick = 220
    thorough = 8000
    workers = 24
    tries = 5
    need = ("restart", "refused|shutdown-fault|start-refused|start-despite-fault")
    MIX = {**DML, **{"cspace": 1.5, "dspace": 1, "aspace": 1, "cmodel": 3, "dmodel": 1.5, "cwide": 0.3},
           "add": 1.5, "remove": 1, "widen": 1, "big": 0.8, "pushmany": 0.4, "key": 3, "cuser": 1.2, "auser": 0.8, "duser": 0.6, "wait": 2,
           "fault": 4, "heal": 2, "report": 0.5, "inspect": 1}
    MIX.update(sel=0.5, all=0.5, sel_unknown_field=0.1, unknown_model=0.1, where_bad=0.3, sel_absent=0.1)

    def gen(self, r, i, tier):
        ops = [{"o": o, "s": r.getrandbits(32)} for o in self.prologue]
        for _ in range(r.choice([1, 1, 2, 3])):
            w = dict(self.MIX)
            for k in w:
                if r.random() < 0.2:
                    w[k] *= r.choice([0, 0, 4])
            ops += gen_ops(r, r.choice([5, 15, 30, 30, 60]), w)
            ops.append({"o": r.choice(["restart", "restart", "restart_fault", "restart_fault", "start_fault"]), "s": r.getrandbits(32)})
        if r.random() < 0.2:
            ops += gen_ops(r, 5, self.MIX) + [{"o": "dead_end", "s": r.getrandbits(32)}]
        return {"first": r.getrandbits(32) if r.random() < 0.2 else 0, "ops": ops}

    def simplify(self, case):
        if case["first"]:
            yield dict(case, first=0)

    def run(self, env, case):
        env.reset()
        ctl = Ctl()
        try:
            srv = env.server(window=1, env=ctl.env(SPEED))
            env.server_started = srv.start
            w = W(env, env.conn(), "t")
            w.ctl, w.users = ctl, {}
            if case["first"]:
                w.first_start(Random(case["first"]))
            for op in case["ops"]:
                w.do(op)
            if case["ops"][-1]["o"] != "dead_end" and w.ctl.hits() and not any("restart" in o["o"] or "start" in o["o"] for o in case["ops"][-1:]):
                w.op_restart(Random(1))
            return all(any(x in w.nontriv for x in alt.split("|")) for alt in self.need)
        finally:
            ctl.heal()
            try:
                env.reset()
            finally:
                ctl.close()


CHECK = C()
