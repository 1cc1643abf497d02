"""S01: memory is used safely and given back."""
import glob, re, shutil, socket
import n01, p02, p06, p08, p09, c01, g01
from conc import *
from faults import *
from hist import *

OPTS = "detect_leaks={l}:exitcode=77:log_path={p}:quarantine_size_mb=64:malloc_context_size=24:allocator_may_return_null=1:max_allocation_size_mb=4096:detect_stack_use_after_return=0:verify_asan_link_order=0"
FRAME = re.compile(r"#\d+ 0x[0-9a-f]+ in (.*?) (/\S*?/server/src/)(\S+)")


def digest(text):
    """The kind of error and the first frames inside of the server."""
    if os.environ.get("S01_FULL"):
        open(os.environ["S01_FULL"], "a").write(text)
    m = re.search(r"(ERROR: AddressSanitizer: [^\n]*?)(?: on (?:unknown )?address.*)?\n|(Direct leak of[^\n]*|Indirect leak of[^\n]*)\n", text)
    kind = next((g for g in m.groups() if g), "a report") if m else "a report"
    at = text.index(m.group(0)) if m else 0
    fr = [f"{f.group(3)} ({re.sub('<.*', '', f.group(1).split('::')[-1])})" for f in FRAME.finditer(text, at)]
    fr = [f for i, f in enumerate(fr) if f not in fr[:i]]
    return kind.replace("ERROR: ", "") + " at " + " < ".join(fr[:7])


class C(Check):
    pid = "S01"
    technique = "generated histories, concurrent bursts, hostile bytes and damaged files against a build of the server with AddressSanitizer and its leak checker"
    rule = ("a case is a server compiled with AddressSanitizer (windows that pass quickly and little memory in most cases) that runs 40 to 300 generated statements of all kinds with restarts (answers compared with the reference model), one to three concurrent bursts in which up to 10 "
            "sessions insert, update, delete, read and scan rows of shared keys while the model is altered, dropped and created, and in a third of the cases damaged packets and handshakes; it is then shut down gracefully, and in a third of the cases its files are damaged and it is started again. "
            "There must be no report of the sanitizer at any time and no block that nothing refers to any more at the shutdown. Non-trivial: rows were changed by statements and by a burst")
    quick = 110
    thorough = 4000
    workers = 10
    tries = 3
    shrink_keys = ("ops", "bursts", "junk", "muts")
    # cases of other checks that are run on the build with the sanitizer; only what it reports counts, their own verdicts are theirs
    OTHERS = {"P02": (p02.CHECK, 0), "P06": (p06.CHECK, 1), "P08": (p08.CHECK, 1), "P09": (p09.CHECK, 0), "C01": (c01.CHECK, 1)}
    W = {**DML, **{"cspace": 0.6, "dspace": 0.4, "aspace": 0.6, "cmodel": 2, "dmodel": 1.2, "cmodel_bad": 0.4, "add": 1.5, "remove": 1.2, "widen": 0.8, "alter_bad": 0.5, "bulk": 0.15, "bulkdel": 0.15, "big": 0.3, "pushmany": 0.3, "restart": 0.25}}
    assumptions = ["what the third-party crates and the standard library do is checked as far as they are compiled into the server; C code of OpenSSL is not instrumented",
                   "a block counts as given back when it is freed or still reachable at the shutdown"]

    def prepare(self):
        self.exe = buildmod.build_asan()
        self.leaks = 1
        # the leak checker has to inspect the threads of its own process, which some containers do not allow
        d = tempfile.mkdtemp(prefix="skyv-asan-", dir=scratch_root())
        try:
            s = Server(self.exe, env=self.env(d))
            rc = s.stop()
            t = self.reports(d)
            s.destroy()
            if "fatal error" in t and "LeakSanitizer" in t:
                self.leaks = 0
                print("the leak checker cannot run here")
            elif rc:
                print(f"(a server without any work: {rc} {t[:300]})")
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def env(self, d, leaks=None):
        return {"ASAN_OPTIONS": OPTS.format(l=self.leaks if leaks is None else leaks, p=os.path.join(d, "asan")), "LSAN_OPTIONS": "report_objects=0:max_leaks=5"}

    def reports(self, d):
        return "".join(open(p, errors="replace").read() for p in sorted(glob.glob(os.path.join(d, "asan.*"))))

    def gen(self, r, i, tier):
        if r.random() < 0.35:
            k = r.choice(sorted(self.OTHERS))
            case = self.OTHERS[k][0].gen(r, i, tier)
            if "muts" in case:
                case["muts"] = case["muts"][:6]
            return {**case, "kind": k}
        n = r.choice([40, 80, 80, 160, 300])
        w = dict(self.W)
        for k in w:
            if r.random() < 0.25:
                w[k] *= r.choice([0, 0, 4])
        return {"ops": [{"o": "cspace", "s": r.getrandbits(32)}, {"o": "cmodel", "s": r.getrandbits(32)}] + gen_ops(r, n, w),
                "bursts": [r.getrandbits(32) for _ in range(r.choice([1, 1, 2, 3]))],
                "junk": [r.getrandbits(32) for _ in range(r.choice([0, 0, 12]))],
                "damage": r.choice([0, 0, r.getrandbits(32)]),
                "flush": r.choice(FLUSH)}

    def burst(self, env, srv, seed, tag):
        """Sessions that work on the same few keys."""
        r = Random(seed)
        c = env.conn()
        s = env.name("b")
        kt = r.choice(["string", "binary", "uint64", "string"])
        key = lambda: P("uint", r.randrange(nk)) if kt == "uint64" else P("str", "key-%06d" % r.randrange(nk)) if kt == "string" else P("bin", b"key-%06d" % r.randrange(nk))
        val = lambda: P("str", r.choice("xyz") * r.choice([0, 1, 17, 300, 5000]))
        decl = f"{s}.m(k: {kt}, v: string, l: list {{ type: string }}, null o: binary)"
        expect(c.q(f"create space {s}"), EMPTY, "create space")
        expect(c.q(f"create model {decl}"), EMPTY, "create model")
        nk = r.choice([1, 3, 10, 200])
        ddl = r.random() < 0.6
        bs, cs = [], [srv.conn() for _ in range(r.choice([3, 6, 10]))]
        for j, x in enumerate(cs):
            b = Burst(x)
            bs.append(b)
            for _ in range(r.choice([30, 100, 200])):
                p = r.random()
                if j == 0 and ddl and p < 0.25:
                    b.add(r.choice([f"alter model {s}.m add w {{ type: uint8, nullable: true }}", f"alter model {s}.m remove w", f"alter model {s}.m remove o", f"alter model {s}.m add o {{ type: binary, nullable: true }}",
                                    f"drop model allow not empty {s}.m", f"create model {decl}", f"inspect model {s}.m"]))
                elif p < 0.3:
                    b.add(f"insert into {s}.m {{ k: ?, v: ?, l: [?], o: ? }}", key(), val(), val(), r.choice([P("null", None), P("bin", b"o" * r.randrange(50))]))
                elif p < 0.5:
                    b.add(f"delete from {s}.m where k = ?", key())
                elif p < 0.65:
                    b.add(f"update {s}.m set v = ? where k = ?", val(), key())
                elif p < 0.75:
                    b.add(f"update {s}.m set l += ?, v += ? where k = ?", val(), P("str", "+"), key())
                elif p < 0.82:
                    b.add(f"update {s}.m set l += ?, v += ? where k = ?", val(), P("uint", 1), key())
                elif p < 0.95:
                    b.add(f"select * from {s}.m where k = ?", key())
                else:
                    b.add(f"select all * from {s}.m limit ?", P("uint", r.choice([0, 1, 1000])))
        fire_alive(srv, bs)
        for b in bs:
            for g in b.got:
                env.count("burst:" + (g[0] if g[0] != "err" else f"err {g[1]}"))
            b.conn.close()
        if r.random() < 0.6:
            expect(c.q(f"drop space allow not empty {s}"), EMPTY, "drop space")
        env.count("burst")

    def junk(self, env, srv, seeds, w):
        for sd in seeds:
            r = Random(sd)
            try:
                x = socket.create_connection(srv.addr, timeout=10)
                x.settimeout(0.05)
                if r.random() < 0.4:
                    data = [n01.hello(r)]
                else:
                    data = [b"H\0\0\0\0\0%d\n%d\n" % (4, len(srv.pw)) + b"root" + srv.pw.encode()] + [n01.packet(r, "zjunk") for _ in range(r.choice([1, 4]))]
                for b in data:
                    x.sendall(b)
                    if r.random() < 0.6:
                        x.recv(65536)
                x.close()
            except OSError:
                pass
            env.count("junk")

    def run(self, env, case):
        if not hasattr(self, "leaks"):
            self.prepare()
        env.reset()
        env.exe = self.exe
        if "kind" in case:
            return self.other(env, case)
        d = tempfile.mkdtemp(prefix="skyv-asan-", dir=scratch_root())
        try:
            e = self.env(d)
            sp, ram = case["flush"]
            e.update(flushing(sp, ram).get("env", {}))
            srv = env.server(window=1, env=e, start_timeout=120.0)
            try:
                w = World(env, env.conn(), env.name("t"))
                for op in case["ops"]:
                    w.do(op)
                for n, sd in enumerate(case["bursts"]):
                    self.burst(env, srv, sd, n)
                self.junk(env, srv, case["junk"], w)
                env.drop_conn()
                rc = srv.stop()
            except (Violation, Timeout, Closed, OSError, StartFailed) as x:
                time.sleep(1.0)
                t = self.reports(d)
                if t:
                    raise Violation(digest(t))
                raise
            t = self.reports(d)
            if t or rc:
                raise Violation(digest(t) if t else f"graceful shutdown exited with {rc}")
            env.count("leaks" if self.leaks else "no-leaks")
            if case["damage"]:
                self.damaged(env, srv, case["damage"], d, e)
            return "insert" in w.nontriv and ("update" in w.nontriv or "delete" in w.nontriv)
        finally:
            env.reset()
            shutil.rmtree(d, ignore_errors=True)

    def other(self, env, case):
        chk, leaks = self.OTHERS[case["kind"]]
        d = tempfile.mkdtemp(prefix="skyv-asan-", dir=scratch_root())
        new = env.new_server

        def new_server(**kw):
            kw.pop("mem", None)
            kw["env"] = {**kw.get("env", {}), **self.env(d, leaks and self.leaks)}
            kw["start_timeout"] = 120.0
            return new(**kw)
        env.new_server = new_server
        ok = True
        try:
            try:
                ok = chk.run(env, case)
                env.count(case["kind"])
            except (Violation, Timeout, Closed, ProtocolError, OSError, StartFailed) as x:
                env.count(case["kind"] + " gave up")
                if os.environ.get("S01_FULL"):
                    open(os.environ["S01_FULL"], "a").write(f"{case['kind']}: {x}\n")
            env.reset()
            t = self.reports(d)
            if t:
                raise Violation(f"a case of {case['kind']}: " + digest(t))
            return ok
        finally:
            del env.new_server
            env.reset()
            shutil.rmtree(d, ignore_errors=True)

    def damaged(self, env, srv, seed, d, e):
        r = Random(seed)
        paths = [os.path.join(srv.dir, "gns.db-tlog")] + glob.glob(os.path.join(srv.dir, "data", "*", "*", "data.db-btlog"))
        for p in r.sample(paths, min(len(paths), r.choice([1, 1, 2]))):
            b = open(p, "rb").read()
            if len(b) > 64:
                b = b[:64] + n01.damage(r, b[64:])
                open(p, "wb").write(b)
        srv.env = {**e, **self.env(d, 0)}
        try:
            srv.start()
            srv.kill()
            env.count("damaged:started")
        except StartFailed:
            env.count("damaged:refused")
        t = self.reports(d)
        if t:
            raise Violation("start with damaged files: " + digest(t))

    def sample(self, case):
        if "kind" in case:
            return {"a case of": case["kind"], "is": self.OTHERS[case["kind"]][0].sample(case)}
        return [o["o"] for o in case["ops"][:30]] + [f"{len(case['bursts'])} bursts"]


CHECK = C()
