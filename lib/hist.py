"""Stateful histories over the reference model (refdb.World)."""
from harness import *
from refdb import *


class Hist(Check):
    """A case is a history of operations; everything the server answers is predicted by the reference model."""
    weights = DML
    lens = (60, 60, 120)          # history lengths
    long_len = 500                # one in 40 histories
    need = ()                     # labels that make a history non-trivial
    prologue = ("cspace", "cmodel")
    final = True
    focus = "uniform"

    def ops(self, r, tier):
        n = self.long_len if r.random() < 0.025 else r.choice(self.lens)
        w = dict(self.weights)
        # histories differ in their mix, not only in their seeds
        for k in w:
            if r.random() < 0.25:
                w[k] *= r.choice([0, 0, 4])
        if not any(w.values()):
            w = dict(self.weights)
        return [{"o": o, "s": r.getrandbits(32)} for o in self.prologue] + gen_ops(r, n, w)

    def gen(self, r, i, tier):
        return {"ops": self.ops(r, tier)}

    def make(self, env):
        return World(env, env.conn(), env.name("t"))

    def run(self, env, case):
        w = self.make(env)
        try:
            for op in case["ops"]:
                w.do(op)
                self.after(w, op)
            if self.final:
                w.check_everything()
            self.end(w, case)
            w.cleanup()
        except BaseException:
            env.drop_conn()
            raise
        return all(any(x in w.nontriv for x in alt.split("|")) for alt in self.need)

    def after(self, w, op):
        pass

    def end(self, w, case):
        pass

    def sample(self, case):
        return [o["o"] for o in case["ops"][:40]]
