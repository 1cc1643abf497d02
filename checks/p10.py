"""P10: dropping removes files, and only those."""
import errno, os, re, time
from hist import *
from faults import *

SPEED = 60
UUID = r"-([0-9a-f]{8}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{4}-[0-9a-f]{12})"


class W10(World):
    ctl = None
    hits = 0

    def tree(self, d):
        """[(space, [(model, files)])] and whatever does not belong there (what was dropped may be disappearing meanwhile)."""
        out, odd = [], []
        base = os.path.join(d, "data")
        for s in os.listdir(base):
            m = re.fullmatch(r"(.*)" + UUID, s)
            if not m:
                odd.append(s)
                continue
            mdls = []
            out.append((m.group(1), mdls))
            try:
                for x in os.listdir(os.path.join(base, s)):
                    k = re.fullmatch(r"mdl_(.*)" + UUID, x)
                    if not k:
                        odd.append(f"{s}/{x}")
                        continue
                    try:
                        mdls.append((k.group(1), sorted(os.listdir(os.path.join(base, s, x)))))
                    except FileNotFoundError:
                        odd.append(f"{s}/{x} (which is being removed)")
            except FileNotFoundError:
                odd.append(f"{s} (which is being removed)")
        return out, odd

    def difference(self, d):
        t, odd = self.tree(d)
        for s in self.spaces:
            dirs = [mdls for n, mdls in t if n == s]
            if not dirs:
                return "missing", f"the directory of space {s} is gone"
            for m in self.spaces[s]:
                # a dropped space or model of the same name may still be there
                have = [files for mdls in dirs for n, files in mdls if n == m]
                if ["data.db-btlog"] not in have:
                    return "missing", f"the files of model {s}.{m} are {have}"
        seen = set()
        for s, mdls in t:
            if s not in self.spaces:
                return "left", f"the directory of space {s} is still there"
            if s in seen:
                return "left", f"there is another directory of space {s}"
            seen.add(s)
            for m, _ in mdls:
                if m not in self.spaces[s]:
                    return "left", f"the directory of model {s}.{m} is still there"
            if len(mdls) != len(self.spaces[s]):
                return "left", f"there are two directories of a model of space {s}"
        if odd:
            return "left", f"there are {odd[:4]} in the data directory"
        return None

    def settled(self, what):
        end = time.time() + 30
        while True:
            bad = self.difference(self.env.server().dir)
            if not bad:
                break
            if bad[0] == "missing" and self.difference(self.env.server().dir) == bad:    # (what is being removed may disturb one listing)
                self.fail(f"{what}: {bad[1]}, but it was not dropped")
            if time.time() > end:
                self.ctl.heal()
                self.fail(f"{what}: {bad[1]} 30 s ({30 * SPEED} s of server time) after it was dropped")
            time.sleep(0.01)
        self.hit("settled")

    def op_files(self, r):
        self.settled("while the server runs")

    def op_fault(self, r):
        """The next removals fail."""
        n = r.choice([1, 1, 2, 3])
        self.ctl.arm([{"ops": ["unlink"], "sub": r.choice(["", "mdl_"]), "skip": r.choice([0, 0, 1]), "count": n, "err": r.choice([errno.EACCES, errno.EBUSY, errno.EIO, errno.ENOTEMPTY])}])
        self.trace.append(f"({n} removals will fail)")

    def op_restart(self, r):
        """What is still to be removed at the shutdown is removed by it (a removal that failed is waited for: nobody repeats it after the start)."""
        self.ctl.heal()
        if self.ctl.hits() > self.hits:
            self.settled("after the faults ended")
            self.hits = self.ctl.hits()
            self.hit("removal-repeated")
        super().op_restart(r)
        bad = self.difference(self.env.server().dir)
        if bad:
            self.fail(f"after a restart: {bad[1]}")
        self.hit("clean-restart")


class C(Hist):
    pid = "P10"
    technique = "stateful model-based testing of the data directory: after every stretch of DDL its contents must be exactly the live spaces and models"
    rule = ("a case is a fresh server (clock 60 times faster) and 40 to 120 statements, mostly DDL: spaces and models with and without rows are created, altered, dropped one by one or with everything in them, and re-created "
            "under the same names; at random points the data directory must, within a while, hold exactly one directory per live space and model and nothing else, and never miss one; in a third of the cases some of the "
            "removals fail at first and must be repeated; after graceful restarts, which may come at once after a drop, the same holds. Non-trivial: models and spaces with rows were dropped, and the directory was compared")
    quick = 240
    thorough = 9000
    workers = 16
    tries = 3
    MIX = {"cspace": 3, "dspace": 2.5, "cmodel": 6, "dmodel": 4, "ins": 6, "bulk": 0.3, "add": 0.5, "remove": 0.3, "upd": 1, "dspace_absent": 0.3, "dmodel_absent": 0.3, "files": 2, "restart": 1}
    need = ("settled", "drop-model|drop-model-force", "drop-space|drop-space-force")

    def gen(self, r, i, tier):
        w = dict(self.MIX)
        if r.random() < 0.35:
            w["fault"] = 1.5
        for k in ("restart", "files", "ins"):
            if r.random() < 0.3:
                w[k] *= r.choice([0, 3])
        ops = [{"o": o, "s": r.getrandbits(32)} for o in self.prologue] + gen_ops(r, r.choice([40, 60, 120]), w)
        return {"ops": ops + [{"o": o, "s": r.getrandbits(32)} for o in r.choice([["files"], ["files", "restart"], ["restart"], ["dspace", "restart"]])], "ram": r.choice([None, None, 20000])}

    def run(self, env, case):
        env.reset()
        ctl = Ctl()
        try:
            env.server(window=1, env=ctl.env(SPEED, case["ram"]))
            w = W10(env, env.conn(), "t")
            w.ctl = ctl
            for op in case["ops"]:
                w.do(op)
            return all(any(x in w.nontriv for x in alt.split("|")) for alt in self.need)
        finally:
            ctl.heal()
            env.reset()
            ctl.close()


CHECK = C()
