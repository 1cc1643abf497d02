import shutil, subprocess, time
from dbfiles import *
from faults import crashed, shim

SIGS = ["TERM", "TERM", "INT"]


class One(Server):
    """A server that shares its directory with others."""
    n = 0

    def __init__(self, exe, d, delays):
        One.n += 1
        Server.__init__(self, exe, dir=d, start=False, env={"LD_PRELOAD": shim(), "SHIM_LOCK": ",".join(map(str, delays))} if any(delays) else {})
        self.logpath = os.path.join(d, f".sky-log-{One.n}")

    def launch(self):
        self.port = free_port()
        self.addr = (own_ip(), self.port)
        env = {k: v for k, v in os.environ.items() if not k.startswith("SKYDB_") and k != "SKY_LOG"}
        env.update(self.env)
        self.logf = open(self.logpath, "ab")
        self.p = subprocess.Popen([self.exe] + self.args(), cwd=self.dir, env=env, stdin=subprocess.DEVNULL, stdout=self.logf,
                                  stderr=subprocess.STDOUT, start_new_session=True, preexec_fn=self._pre)

    def outcome(self, timeout=40):
        """True once it serves, else its exit code."""
        t0 = time.time()
        while True:
            rc = self.p.poll()
            if rc is not None:
                return rc
            try:
                c = Conn(self.addr)
                c.close()
                if self.p.poll() is None:
                    return True
            except (OSError, Closed, Timeout, ProtocolError):
                pass
            if time.time() - t0 > timeout:
                v = Violation(f"a server neither started nor refused within {timeout} s: {self.log()[-600:]}")
                v.hang = True
                raise v
            time.sleep(0.004)


class C(Check):
    pid = "P07"
    technique = "stateful testing of generated start/stop/kill interleavings of several server processes in one directory, with delays injected around the lock (LD_PRELOAD shim)"
    rule = ("a case is an empty directory and 4-14 steps: 1-4 servers started there at the same time or staggered, a graceful stop (by signal), a stop overlapping with starts, a kill, or statements on the "
            "server that runs; each process has its own random delays before taking the lock and around its removal. At every step at most one server may serve (exactly one when no other is running or stopping), every other start must end with an "
            "error without touching a database file, and the catalogue of every later server must hold exactly what earlier ones acknowledged. Non-trivial: at least three starts were refused "
            "and at least three succeeded")
    assumptions = ["after a kill the journals are closed by the check (a journal without close event is refused regardless of the lock)"]
    quick = 130
    thorough = 4000
    shrink_keys = ("ops",)
    cap = {"quick": 200, "thorough": 3600}

    def gen(self, r, i, tier):
        ops = [{"o": "start", "s": r.getrandbits(32)}]
        for _ in range(r.choice([4, 8, 14])):
            ops.append({"o": r.choices(["start", "stop", "handover", "kill", "use"], [4, 1.5, 4, 1, 3])[0], "s": r.getrandbits(32)})
        ops.append({"o": "start", "s": r.getrandbits(32)})
        return {"ops": ops}

    def run(self, env, case):
        env.reset()
        self.d, self.exe = new_dir(), env.exe
        self.live, self.spaces, self.n, self.procs, self.trace = None, set(), 0, [], []
        self.refused = self.served = 0
        try:
            for op in case["ops"]:
                r = Random(op["s"])
                getattr(self, "op_" + op["o"])(r, env)
            return self.refused >= 3 and self.served >= 3
        except Violation as v:
            v.args = (v.args[0] + "; steps: " + "; ".join(self.trace[-12:]),)
            raise
        finally:
            for s in self.procs:
                s.kill()
            shutil.rmtree(self.d, ignore_errors=True)

    def delays(self, r):
        return [r.choice([0, 0, 0, 1000, 5000, 20000, 60000, 150000]) if r.random() < 0.6 else 0 for _ in range(3)]

    def spawn(self, r):
        s = One(self.exe, self.d, self.delays(r))
        self.procs.append(s)
        s.launch()
        return s

    def judge(self, procs, env, sure, before=None):
        """Of these processes (and the running server) at most one serves."""
        outs = [(s, s.outcome()) for s in procs]
        up = [s for s, o in outs if o is True and s.alive()]
        for s, o in outs:
            if o is not True:
                self.refused += 1
                env.count("start-refused")
                judge_refusal(o, s.log(), "a start while another server uses the directory")
                if "sky_pid" not in s.log() and "PID file" not in s.log() and "lock" not in s.log():
                    raise Violation(f"a start was refused for another reason than the lock: {s.log()[-700:]}")
                s.kill()
                self.procs.remove(s)
        running = [self.live] if self.live else []
        if len(up) + len(running) > 1:
            raise Violation(f"{len(up) + len(running)} servers serve the same directory at the same time (pids {[s.p.pid for s in running + up]})")
        if sure and len(up) + len(running) != 1:
            raise Violation("no server runs in the directory, but none of the starts succeeded")
        if before is not None and db_files(self.d) != before:
            raise Violation(f"a refused start changed database files: {[k for k in before if db_files(self.d).get(k) != before[k]]}")
        if up:
            self.live = up[0]
            self.served += 1
            env.count("start-served")
            self.look()

    def look(self):
        c = self.live.conn()
        got = sorted(json.loads(c.q("inspect global")[1].v)["spaces"])
        c.close()
        if got != sorted(self.spaces):
            raise Violation(f"the server shows the spaces {got}, acknowledged were {sorted(self.spaces)}")

    def op_start(self, r, env):
        n = r.choice([1, 2, 2, 3, 4])
        had = self.live is not None
        self.trace.append(f"{n} started ({'one runs' if had else 'none runs'})")
        before = db_files(self.d) if had else None
        procs = []
        for _ in range(n):
            procs.append(self.spawn(r))
            if r.random() < 0.5:
                time.sleep(r.choice([0.001, 0.005, 0.02]))
        self.judge(procs, env, True, before)
        if had:
            self.look()

    def op_use(self, r, env):
        if not self.live:
            return
        c = self.live.conn()
        for _ in range(r.choice([1, 1, 3, 8])):
            if self.spaces and r.random() < 0.4:
                s = r.choice(sorted(self.spaces))
                expect(c.q(f"drop space {s}"), ("empty",), "drop space")
                self.spaces.remove(s)
            else:
                self.n += 1
                expect(c.q(f"create space s{self.n}"), ("empty",), "create space")
                self.spaces.add(f"s{self.n}")
        c.close()
        self.trace.append("used")
        self.look()

    def gone(self, s, how):
        rc = s.stop(getattr(signal, "SIG" + how)) if how else s.p.wait(30)
        if rc != 0:
            raise Violation(f"graceful shutdown exited with {rc}: {s.log()[-600:]}")
        self.procs.remove(s)

    def op_stop(self, r, env):
        if self.live:
            how = r.choice(SIGS)
            self.trace.append(f"stopped by SIG{how}")
            self.gone(self.live, how)
            self.live = None
            env.count("stop")

    def op_kill(self, r, env):
        if self.live:
            self.trace.append("killed")
            self.live.kill()
            self.procs.remove(self.live)
            self.live = None
            put_files(self.d, crashed(db_files(self.d)))
            env.count("kill")

    def op_handover(self, r, env):
        """Others start while the server that runs stops."""
        if not self.live:
            return self.op_start(r, env)
        n = r.choice([1, 2, 3, 4])
        how = r.choice(SIGS)
        self.trace.append(f"{n} started around a stop by SIG{how}")
        procs, old = [], self.live
        at = r.randrange(n + 1)
        for k in range(n + 1):
            if k == at:
                old.p.send_signal(getattr(signal, "SIG" + how))
            else:
                procs.append(self.spawn(r))
            if r.random() < 0.7:
                time.sleep(r.choice([0.001, 0.005, 0.02, 0.06]))
        self.gone(old, None)
        self.live = None
        self.judge(procs, env, False)
        env.count("handover", "handover-served" if self.live else "handover-none")

    def sample(self, case):
        return [o["o"] for o in case["ops"]]


CHECK = C()
