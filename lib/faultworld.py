"""Histories with injected file faults: statements may be refused, but then have no effect."""
import errno, os, time
from dbfiles import *
from faults import *
from accounts import NAMES, gen_pw

SPEED = 20
ERRS = [errno.EIO, errno.EIO, errno.ENOSPC, errno.ENOSPC, errno.EDQUOT, errno.EROFS, errno.EINTR]


def gen_rule(r, ops=None, one=False):
    """One fault: which operation fails, where, how often and how."""
    ops = ops or r.choice([["write"], ["write"], ["write"], ["fsync"], ["fsync"], ["write", "fsync"], ["trunc"], ["seek"], ["create"], ["mkdir"],
                           ["create", "mkdir"], ["write", "fsync", "trunc"], ["write", "fsync", "create", "mkdir", "trunc", "seek"],
                           ["unlink"]])
    return {"ops": ops, "sub": r.choice(["", "", "gns", "gns", "data/", "data/"]), "skip": r.choice([0, 0, 0, 1, 1, 2, 3, 5, 8, 13]),
            "count": 1 if one else r.choice([1, 1, 1, 2, 3, 1000000]), "err": r.choice(ERRS + [0]),
            "keep": r.choice([-1, -1, 0, 1, 3, 7, 8, 15, 16, 17, 31, 33, 60, 63, 100, 500, 4000])}


class Abandon(Exception):
    pass


class W(World):
    ctl = None
    armed = False
    base = 0
    users = None

    def ask(self, q, params=()):
        got = super().ask(q, params)
        if got != ("err", 0) or self.ctl.hits() == self.base:
            return got
        # a fault was injected since the server started: a statement may be refused, but then has no effect
        self.hit("refused")
        if self.choice.random() < 0.5:
            raise Abandon
        t0 = time.time()
        while got == ("err", 0):
            if time.time() - t0 > 0.15 and self.armed:
                self.heal()
            if time.time() - t0 > 25:
                self.fail(f"{short(q, 200)}: still refused 25 s ({25*SPEED} s of server time) after the last fault was gone")
            time.sleep(0.02)
            got = super().ask(q, params)
        self.hit("accepted-after-refusal")
        return got

    def do(self, op):
        self.choice = Random(op["s"] ^ 0x5bd1)
        try:
            super().do(op)
        except Abandon:
            self.hit("abandoned")
            if self.choice.random() < 0.2:
                try:
                    self.op_inspect(Random(0))
                except Abandon:
                    pass

    # -- faults
    def heal(self):
        self.ctl.heal()
        self.armed = False
        self.trace.append("(faults end)")

    def op_fault(self, r):
        rules = [gen_rule(r) for _ in range(r.choice([1, 1, 1, 2]))]
        self.trace.append(f"(faults: {short(rules, 300)})")
        self.ctl.arm(rules)
        self.armed = True
        self.hit("faults-armed")

    def op_heal(self, r):
        self.heal()

    def op_wait(self, r):
        time.sleep(r.choice([0.03, 0.06, 0.1, 0.2]))

    def op_report(self, r):
        """Without faults the system becomes healthy again by itself."""
        self.heal()
        self.choice = Always()
        self.must(EMPTY, "sysctl report status")
        self.hit("healthy")

    # -- users
    def op_cuser(self, r):
        u = r.choice(NAMES)
        if u in self.users:
            return
        pw = gen_pw(r)
        self.must(EMPTY, f"sysctl create user {u} with {{ password: ? }}", [P("str", pw)])
        self.users[u] = pw
        self.hit("user")

    def op_auser(self, r):
        if not self.users:
            return
        u = r.choice(sorted(self.users))
        pw = gen_pw(r)
        self.must(EMPTY, f"sysctl alter user {u} with {{ password: ? }}", [P("str", pw)])
        self.users[u] = pw

    def op_duser(self, r):
        if not self.users:
            return
        u = r.choice(sorted(self.users))
        self.must(EMPTY, f"sysctl drop user {u}")
        del self.users[u]

    def check_users(self, srv=None):
        srv = srv or self.env.server()
        for u in NAMES[:8]:
            for pw in {self.users.get(u), b"some password"} - {None}:
                c = Conn(srv.addr, login=False)
                got = c.login(u, pw)
                c.close()
                if (got is None) != (self.users.get(u) == pw):
                    self.fail(f"user {u!r} {'exists' if u in self.users else 'does not exist'}, but a login with {pw!r} ended with {got}")

    # -- restarts
    def stopped(self, faults=()):
        """Graceful shutdown, with the given faults during it."""
        srv = self.env.server()
        self.env.drop_conn()
        self.heal()
        if faults:
            self.trace.append(f"(faults during shutdown: {short(faults, 300)})")
            self.ctl.arm(faults)
        h = self.ctl.hits()
        rc = srv.stop(signal.SIGTERM, timeout=60)
        self.hit("shutdown-fault" if self.ctl.hits() > h else "shutdown")
        self.trace.append(f"(server stopped: {rc})")
        if "panicked at" in srv.log():
            self.fail(f"the server panicked: {panic_of(srv.log())}")
        if rc != 0:
            self.fail(f"graceful shutdown exited with {rc}")
        self.heal()

    def started(self):
        self.base = self.ctl.hits()
        self.env.server_started()
        self.c = self.env.conn()
        self.hit("restart")
        self.check_everything()
        self.check_users()

    def op_restart(self, r):
        self.stopped()
        self.started()

    def op_restart_fault(self, r):
        self.stopped([gen_rule(r, one=True)])
        self.started()

    def op_dead_end(self, r):
        """Faults that never end while it shuts down: nothing can be kept, but it must still end, and not by a crash."""
        srv = self.env.server()
        self.env.drop_conn()
        self.heal()
        rule = gen_rule(r)
        rule["count"] = 1000000
        self.trace.append(f"(lasting faults during shutdown: {short(rule, 300)})")
        self.ctl.arm([rule])
        rc = srv.stop(signal.SIGTERM, timeout=60)
        self.hit("dead-end")
        if rc < 0 or rc >= 128 or rc == 101 or "panicked at" in srv.log():
            self.fail(f"shutdown with lasting faults ended with {rc}: {panic_of(srv.log())}")

    def first_start(self, r):
        """Starts on an empty directory with one failing file operation each; afterwards the database is a new one."""
        self.env.drop_conn()
        srv = self.env._srv
        self.ctl.heal()
        for _ in range(r.choice([1, 1, 2])):
            srv.stop()
            put_files(srv.dir, {})
            rule = gen_rule(r, ops=r.choice([["create"], ["mkdir"], ["write"], ["write"], ["write"], ["fsync"], ["seek"]]), one=True)
            rule["err"] = rule["err"] or errno.EIO
            rule["sub"] = r.choice(["", rule["sub"]])
            self.trace.append(f"(faults during first start: {short(rule, 300)})")
            h = self.ctl.hits()
            self.ctl.arm([rule])
            bad = try_start(srv)
            self.heal()
            if bad:
                self.hit("first-start-refused")
                if self.ctl.hits() == h:
                    self.fail(f"the server did not start: {bad}")
                judge_refusal(*bad, "a first start with a failing file operation")
                srv.start()
        self.base = h
        self.c = self.env.conn()

    def op_start_fault(self, r):
        self.stopped()
        srv = self.env._srv
        for _ in range(r.choice([1, 1, 2, 3])):
            rule = gen_rule(r, ops=r.choice([["open"], ["read"], ["write"], ["write"], ["fsync"], ["seek"], ["open", "read", "write", "seek", "fsync", "trunc"]]), one=True)
            rule["err"] = rule["err"] or errno.EIO
            self.trace.append(f"(faults during start: {short(rule, 300)})")
            self.ctl.arm([rule])
            h = self.ctl.hits()
            bad = try_start(srv)
            self.heal()
            if bad:
                self.hit("start-refused")
                if self.ctl.hits() == h:
                    self.fail(f"the server did not start: {bad}")
                judge_refusal(*bad, "a start with a failing file operation")
            else:
                self.hit("start-despite-fault" if self.ctl.hits() > h else "start-unaffected")
                self.base = h
                self.c = self.env.conn()
                self.choice = Always()
                self.must(EMPTY, "sysctl report status")
                self.check_everything()
                self.stopped()
        self.started()


class Always:
    """Never abandons a statement."""
    def random(self):
        return 1.0
