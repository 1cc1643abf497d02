import fcntl, hashlib, select, shutil, socket, ssl, subprocess, time
import n07
from dbfiles import *
from faults import shim

SOURCES = ("cli", "env", "file")
ENVKEY = {"plugin": "SKYDB_AUTH_PLUGIN", "pw": "SKYDB_AUTH_ROOT_PASSWORD", "cert": "SKYDB_TLS_CERT", "key": "SKYDB_TLS_KEY", "pp": "SKYDB_TLS_PRIVATE_KEY_PASSWORD",
          "ep": "SKYDB_ENDPOINTS", "mode": "SKYDB_RUN_MODE", "window": "SKYDB_SERVICE_WINDOW"}
CLIKEY = {"plugin": "--auth-plugin", "pw": "--auth-root-password", "cert": "--tlscert", "key": "--tlskey", "pp": "--tls-passphrase", "ep": "--endpoint", "mode": "--mode",
          "window": "--service-window"}
PWCHARS = "abcXYZ0189_-+/=., $#@!?:;'\"\\{}[]()&*%<>|~^`äß漢🙂"


def gen_pw16(r):
    n = r.choice([16, 16, 17, 20, 40, 72])
    while True:
        s = "".join(r.choice(PWCHARS[:12] if r.random() < 0.4 else PWCHARS) for _ in range(n))
        b = s.encode()[:72].decode(errors="ignore")
        if 16 <= len(b.encode()) and b.strip() == b:
            return b


# defects: name -> (sources it can be expressed in)
BAD = {
    "short-pw": SOURCES, "no-pw": SOURCES, "empty-pw": SOURCES, "plugin": SOURCES, "window-0": SOURCES, "window-neg": SOURCES, "window-float": SOURCES, "window-text": SOURCES,
    "window-huge": SOURCES, "mode": SOURCES, "port-big": SOURCES, "port-text": SOURCES, "port-neg": SOURCES, "no-port": SOURCES, "proto": ("cli", "env"), "ep-empty": ("cli", "env"),
    "ep-at": ("cli", "env"), "ep-colon": ("cli", "env"), "tls-no-cert": SOURCES, "tls-no-key": SOURCES, "tls-no-pp": SOURCES, "cert-missing": SOURCES, "key-missing": SOURCES, "pp-missing": SOURCES,
    "dup-tcp": ("cli", "env"), "three-eps": ("cli", "env"), "dup-window": ("cli", "env"), "dup-mode": ("cli", "env"), "dup-plugin": ("cli", "env"), "unknown": ("cli",), "positional": ("cli",), "no-value": ("cli",), "tls-unused": ("cli", "env"),
    "mix-cli-env": ("cli",), "mix-file-env": ("file",), "mix-file-cli": ("file",), "nothing": ("cli",), "file-missing": ("file",), "file-garbage": ("file",), "two-files": ("file",),
    "file-type": ("file",), "non-unicode": ("cli", "env", "file"), "not-a-flag": ("cli",), "eqeq": ("cli",),
}


class C(Check):
    pid = "G01"
    technique = "differential and model-based testing of generated settings through all three configuration sources, observed on the running process"
    rule = ("a case is a generated set of settings (root password of 16-72 bytes with any characters, plugin, mode, service window, TCP and/or TLS endpoint or none) in each of the three sources, with options in both command line "
            "spellings and random order. Valid ones must start and show the same effects: exactly the configured sockets listen (127.0.0.1:2003 by default), TLS presents the configured certificate, root logs in with exactly that password, the development warning appears exactly "
            "in dev mode, rows are flushed at the configured window (faster clock, some cases), and a restart with settings from another source keeps the data and applies a new password. "
            "Two thirds of the cases add one of %d defects: the start must then be refused with an error, an empty directory and no listening socket. Non-trivial: all sources were observed" % len(BAD))
    assumptions = ["endpoint hosts are IPv4 addresses or localhost"]
    quick = 260
    thorough = 8000
    shrink_keys = ()

    def gen(self, r, i, tier):
        c = {"seed": r.getrandbits(32), "bad": None if r.random() < 0.33 else r.choice(sorted(BAD)), "window": r.random() < 0.3}
        return c

    # -- one set of settings in one source
    def express(self, r, src, s, d, bad):
        """(argv, environment) for the settings s."""
        s = dict(s)
        eps = []
        for proto in r.sample(["tcp", "tls"], 2):
            if s.get(proto):
                eps.append([proto, s[proto][0], s[proto][1]])
        tls = {"cert": s["cert"], "key": s["key"], "pp": s["pp"]} if s.get("tls") else {}
        vals = {k: [s[k]] for k in ("plugin", "pw", "mode", "window") if s.get(k) is not None}
        raw_yaml = {}
        argv, envv, tail = [], {}, []
        if bad == "short-pw":
            vals["pw"] = ["x" * r.choice([1, 8, 15])]
        elif bad == "empty-pw":
            vals["pw"] = [""]
        elif bad == "no-pw":
            del vals["pw"]
        elif bad == "plugin":
            vals["plugin"] = [r.choice(["none", "Pwd", "pwd2", "ldap", ""])]
        elif bad.startswith("window-"):
            vals["window"] = [{"0": 0, "neg": -r.choice([1, 300]), "float": 1.5, "text": r.choice(["ten", "10s", "0x10"]), "huge": 1 << r.choice([64, 70])}[bad[7:]]]
        elif bad == "mode":
            vals["mode"] = [r.choice(["debug", "PROD", "Dev", "production", ""])]
        elif bad.startswith("port-"):
            p = {"port-big": r.choice([65536, 70000, 1 << 32]), "port-text": r.choice(["http", "20o3", ""]), "port-neg": -1}[bad]
            if not eps:
                eps.append(["tcp", s["host"], p])
            else:
                r.choice(eps)[2] = p
        elif bad == "no-port":
            if not eps:
                eps.append(["tcp", s["host"], None])
            else:
                r.choice(eps)[2] = None
        elif bad in ("dup-tcp", "three-eps"):
            eps += [["tcp", s["host"], s["spare"]]] * (2 if bad == "dup-tcp" else 3)
        elif bad == "proto":
            eps.insert(r.randrange(len(eps) + 1), [r.choice(["udp", "TCP", "", "http"]), s["host"], s["spare"]])
            eps = eps[:2] if any(e[0] not in ("tcp", "tls") for e in eps[:2]) else eps
        elif bad in ("tls-no-cert", "tls-no-key", "tls-no-pp"):
            del tls[bad[7:]]
        elif bad in ("cert-missing", "key-missing", "pp-missing"):
            tls[bad[:-8]] = os.path.join(d, "nosuchfile")
        elif bad == "dup-window":
            vals["window"] = [10, r.choice([10, 20])]
        elif bad == "dup-mode":
            vals["mode"] = ["dev", r.choice(["dev", "prod"])]
        elif bad == "dup-plugin":
            vals["plugin"] = ["pwd", "pwd"]
        elif bad == "tls-unused":
            # TLS files without a TLS endpoint
            eps = [e for e in eps if e[0] != "tls"]
            tls = {k: s[k] for k in r.sample(["cert", "key", "pp"], r.choice([1, 2, 3]))}
        epstr = [f"{a}@{b}" + (f":{c}" if c is not None else "") for a, b, c in eps]
        if bad == "ep-empty":
            epstr = [""]
        elif bad == "ep-at":
            epstr = [r.choice([f"tcp@{s['host']}@{s['spare']}", f"tcp:{s['host']}:{s['spare']}", f"@{s['host']}:{s['spare']}", f"tcp@@{s['host']}:{s['spare']}"])]
        elif bad == "ep-colon":
            epstr = [r.choice([f"tcp@{s['host']}:{s['spare']}:1", f"tcp@{s['host']}:", f"tcp@{s['host']}:{s['spare']} "])]

        if src in ("cli", "env"):
            kv = [(k, str(v)) for k, vs in vals.items() for v in vs] + [("ep", x) for x in epstr] + [(k, v) for k, v in tls.items()]
        if src == "cli":
            if bad == "nothing":
                kv = []
            r.shuffle(kv)
            for k, v in kv:
                if "=" not in v and len(v) > 0 and r.random() < 0.4:
                    argv.append(f"{CLIKEY[k]}={v}")
                else:
                    argv += [CLIKEY[k], v]
            if bad == "unknown":
                argv += r.choice([["--nosuch", "1"], ["--nosuch=1"], ["--service_window", "10"], ["--endpoints", "tcp@127.0.0.1:1"]])
            elif bad == "positional":
                argv.insert(0, r.choice(["start", "-x", "data", "-"]))
            elif bad == "no-value":
                argv.append(r.choice(["--mode", "--endpoint", "--service-window"]))
            elif bad == "not-a-flag":
                argv.insert(0, r.choice(["mode=dev", "-mode=dev"]))
            elif bad == "eqeq":
                argv.append(r.choice(["--mode=dev=prod", "--service-window==10", "--endpoint=tcp@127.0.0.1:1=2"]))
            elif bad == "mix-cli-env":
                k = r.choice(["SKYDB_RUN_MODE", "SKYDB_SERVICE_WINDOW", "SKYDB_AUTH_ROOT_PASSWORD", "SKYDB_ENDPOINTS"])
                envv[k] = {"SKYDB_RUN_MODE": "dev", "SKYDB_SERVICE_WINDOW": "300", "SKYDB_AUTH_ROOT_PASSWORD": s["pw"], "SKYDB_ENDPOINTS": "tcp@127.0.0.1:2003"}[k]
            elif bad == "non-unicode":
                argv = [x.encode() for x in argv] + [r.choice([b"--mode", b"--service-window", b"--\xff"]), b"\xff\xfe"]
        elif src == "env":
            for k, v in kv:
                envv[ENVKEY[k]] = envv[ENVKEY[k]] + "," + v if ENVKEY[k] in envv else v
            if bad == "non-unicode":
                envv = {k.encode(): v.encode() for k, v in envv.items()}
                envv[r.choice(sorted(ENVKEY.values())).encode()] = b"\xff\xfe"
        else:
            y = {}
            sysd = {}
            if "mode" in vals:
                sysd["mode"] = vals["mode"][0]
            if "window" in vals:
                sysd["rs_window"] = vals["window"][0]
            if sysd:
                y["system"] = sysd
            a = {"plugin": vals.get("plugin", ["pwd"])[0]}
            if "pw" in vals:
                a["root_pass"] = vals["pw"][0]
            if bad == "no-pw" and r.random() < 0.5:
                a = None
            if a is not None:
                y["auth"] = a
            if eps:
                e = y["endpoints"] = {}
                for proto, host, port in eps:
                    x = e["insecure" if proto == "tcp" else "secure"] = {"host": host}
                    if port is not None:
                        x["port"] = port
                    if proto == "tls":
                        x.update({{"cert": "cert", "key": "private_key", "pp": "pkey_passphrase"}[k]: v for k, v in tls.items()})
            if bad == "file-type":
                r.choice([lambda: y.update(auth="pwd"), lambda: y.update(system=[1]), lambda: y.update(endpoints="tcp@127.0.0.1:2003"), lambda: y["auth"].update(root_pass=["x" * 20])])()
            path = os.path.join(d, r.choice(["c.yaml", "config", "my config.yml"]))
            keys = list(y)
            r.shuffle(keys)
            text = json.dumps({k: y[k] for k in keys}, ensure_ascii=False) if r.random() < 0.5 else "".join(self.yaml(k, y[k], 0) for k in keys)
            if bad == "file-garbage":
                text = r.choice(["", "{", "- a\n- b\n", "auth: [", "\x00\x01", "just text", text[:len(text) // 2] + "\t{]\n"])
            if bad == "non-unicode":
                with open(path, "wb") as f:
                    f.write(text.encode() + b"\n\xff\xfe: 1\n")
            elif bad != "file-missing":
                with open(path, "w", encoding="utf-8") as f:
                    f.write(text)
            argv = ["--config", path] if r.random() < 0.5 else [f"--config={path}"]
            if bad == "two-files":
                argv += ["--config", path]
            elif bad == "mix-file-cli":
                argv[r.choice([0, len(argv)]):0] = r.choice([["--mode", "dev"], ["--service-window=300"], ["--auth-root-password", s["pw"]]])
            elif bad == "mix-file-env":
                envv[r.choice(["SKYDB_RUN_MODE", "SKYDB_AUTH_PLUGIN", "SKYDB_TLS_KEY"])] = r.choice(["dev", "pwd"])
        return argv, envv

    def yaml(self, k, v, ind):
        p = "  " * ind
        if isinstance(v, dict):
            return f"{p}{k}:\n" + "".join(self.yaml(a, b, ind + 1) for a, b in v.items())
        return f"{p}{k}: {json.dumps(v, ensure_ascii=False) if isinstance(v, (str, list)) else v}\n"

    def gen_settings(self, r, d, bad):
        s = {"pw": gen_pw16(r), "host": own_ip()}
        if r.random() < 0.5:
            s["plugin"] = "pwd"
        if r.random() < 0.6:
            s["mode"] = r.choice(["dev", "prod"])
        if r.random() < 0.6:
            s["window"] = r.choice([1, 2, 10, 300, 86400, (1 << 63), (1 << 64) - 1])
        ports = set()
        while len(ports) < 3:
            ports.add(free_port())
        ports = list(ports)
        s["spare"] = ports[2]
        which = r.choice([("tcp",), ("tcp",), ("tls",), ("tcp", "tls"), ()])
        if bad and bad.startswith(("tls-no", "cert-", "key-", "pp-")) and "tls" not in which:
            which += ("tls",)
        for i, p in enumerate(("tcp", "tls")):
            if p in which:
                s[p] = (s["host"], ports[i])
        s["key"], s["cert"], s["pp"] = os.path.join(d, "key.pem"), os.path.join(d, "cert.pem"), os.path.join(d, "pass.txt")
        return s

    _keys = None

    def keys(self, d):
        """Three certificates per process are enough."""
        if C._keys is None:
            C._keys = []
            k = new_dir("skyv-key-")
            for i in range(3):
                n07.make_key(k, Random(i))
                C._keys.append({f: open(os.path.join(k, f), "rb").read() for f in ("key.pem", "cert.pem", "pass.txt")})
            shutil.rmtree(k, ignore_errors=True)
        return C._keys

    def launch(self, exe, d, argv, envv, shimenv=None):
        env = {k: v for k, v in os.environ.items() if not k.startswith("SKYDB_") and k != "SKY_LOG"}
        env.update(shimenv or {})
        if any(isinstance(k, bytes) for k in envv):
            env = {k.encode(): v.encode() for k, v in env.items()}
        env.update(envv)
        log = open(os.path.join(self.side, "log"), "wb")
        p = subprocess.Popen([exe] + argv, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=log, stderr=subprocess.STDOUT, start_new_session=True, preexec_fn=die)
        log.close()
        self.procs.append(p)
        return p

    def log(self):
        return open(os.path.join(self.side, "log"), errors="replace").read()

    def sockets(self, p):
        """The addresses this process listens on."""
        inodes = set()
        try:
            for f in os.listdir(f"/proc/{p.pid}/fd"):
                try:
                    t = os.readlink(f"/proc/{p.pid}/fd/{f}")
                except OSError:
                    continue
                if t.startswith("socket:["):
                    inodes.add(t[8:-1])
        except OSError:
            return set()
        out = set()
        for name in ("tcp", "tcp6"):
            try:
                with open(f"/proc/{p.pid}/net/{name}") as f:
                    lines = f.read().splitlines()[1:]
            except OSError:
                continue
            for l in lines:
                x = l.split()
                if x[3] == "0A" and x[9] in inodes:
                    h, port = x[1].split(":")
                    h = ".".join(str(b) for b in bytes.fromhex(h)[::-1]) if name == "tcp" else h
                    out.add((h, int(port, 16)))
        return out

    def run(self, env, case):
        r = Random(case["seed"])
        bad = case["bad"]
        self.side = new_dir("skyv-cfg-")
        self.procs = []
        lock = None
        try:
            s = self.gen_settings(r, self.side, bad)
            for f, b in r.choice(self.keys(self.side)).items():
                with open(os.path.join(self.side, f), "wb") as g:
                    g.write(b)
            if not s.get("tcp") and not s.get("tls"):
                # the default port is shared by everybody
                lock = open(os.path.join(scratch_root(), "skyv-default-port"), "w")
                fcntl.flock(lock, fcntl.LOCK_EX)
            if bad:
                for src in BAD[bad]:
                    self.refused(env, Random(case["seed"] ^ 5), src, s, bad)
            else:
                first = r.randrange(3)
                for src in SOURCES:
                    self.accepted(env, r, src, SOURCES[(SOURCES.index(src) + r.choice([1, 2])) % 3], s, case["window"])
            env.count(f"bad:{bad}" if bad else "valid")
            return True
        finally:
            if lock:
                lock.close()
            for p in self.procs:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
            shutil.rmtree(self.side, ignore_errors=True)

    def say(self, src, argv, envv):
        return f"source {src}, arguments {str(argv)[:500]}, environment {str(envv)[:400]}" + (f", file {short(open(argv[-1].replace('--config=', '')).read(), 500)!r}" if src == "file" and os.path.exists(str(argv[-1]).replace("--config=", "")) and "unicode" not in src else "")

    def refused(self, env, r, src, s, bad):
        argv, envv = self.express(r, src, s, self.side, bad)
        d = new_dir()
        try:
            p = self.launch(env.exe, d, argv, envv)
            seen = set()
            t0 = time.time()
            while p.poll() is None and time.time() - t0 < 20:
                seen |= self.sockets(p)
                if seen:
                    break
                time.sleep(0.002)
            what = f"{bad}: source {src}, arguments {str(argv)[:500]}, environment {str(envv)[:400]}"
            if p.poll() is None:
                raise Violation(f"{what}: the settings were accepted; the server listens on {seen}; {self.log()[-300:]}")
            rc, log = p.returncode, self.log()
            if rc == 0:
                raise Violation(f"{what}: the start was not refused but ended with success: {log[-300:]}")
            judge_refusal(rc, log, what)
            if os.listdir(d):
                raise Violation(f"{what}: the start was refused, but left {os.listdir(d)} in the data directory")
            env.count(f"refused-{src}")
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def accepted(self, env, r, src, src2, s, window):
        argv, envv = self.express(r, src, s, self.side, "")
        d = new_dir()
        try:
            shimenv = {}
            w = s.get("window", 300)
            if window and w <= 86400 and w > 1:
                shimenv = {"LD_PRELOAD": shim(), "SHIM_SPEED": str(max(1, w * 4))}
            what = f"source {src}, arguments {str(argv)[:500]}, environment {str(envv)[:400]}"
            p = self.up(env, d, argv, envv, s, what, shimenv)
            c = self.conn(s, s["pw"])
            expect(c.q("create space s"), ("empty",), "create space")
            expect(c.q("create model s.m(k: uint64, v: string)"), ("empty",), "create model")
            if shimenv:
                self.measure(c, d, w, what)
                env.count("window-measured")
            expect(c.q("insert into s.m(?, ?)", P("uint", 1 << 40), P("str", "kept")), ("empty",), "insert")
            c.close()
            self.down(p, what)
            # again, with another password from another source
            s2 = dict(s, pw=gen_pw16(r))
            argv, envv = self.express(r, src2, s2, self.side, "")
            what += f"; then source {src2}, arguments {str(argv)[:500]}, environment {str(envv)[:400]}"
            p = self.up(env, d, argv, envv, s2, what, {}, s["pw"])
            c = self.conn(s2, s2["pw"])
            got = c.q("select v from s.m where k = ?", P("uint", 1 << 40))
            if got != ("row", [V("string", b"kept")]):
                raise Violation(f"{what}: the row stored before is now {got}")
            c.close()
            self.down(p, what)
            env.count(f"accepted-{src}")
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def conn(self, s, pw, login=True):
        if s.get("tcp") or not s.get("tls"):
            return Conn(s.get("tcp") or ("127.0.0.1", 2003), "root", pw)
        return Conn(s["tls"], "root", pw, tls=n07.context())

    def up(self, env, d, argv, envv, s, what, shimenv, oldpw=None):
        want = {s[p] for p in ("tcp", "tls") if s.get(p)} or {("127.0.0.1", 2003)}
        p = self.launch(env.exe, d, argv, envv, shimenv)
        t0 = time.time()
        while self.sockets(p) != want or "listening on" not in self.log():
            if p.poll() is not None:
                raise Violation(f"{what}: the server did not start ({p.returncode}): {self.log()[-600:]}")
            if time.time() - t0 > 20:
                raise Violation(f"{what}: the server listens on {sorted(self.sockets(p))}, configured was {sorted(want)}")
            time.sleep(0.005)
        if ("dev mode" in self.log()) != (s.get("mode", "dev") == "dev"):
            raise Violation(f"{what}: mode is {s.get('mode', 'dev')}, but the log says {self.log()[-600:]}")
        # the password, on every endpoint
        for addr in sorted(want):
            tls = None
            if addr == s.get("tls"):
                tls = n07.context()
                raw = tls.wrap_socket(socket.create_connection(addr, timeout=20))
                der = raw.getpeercert(binary_form=True)
                raw.close()
                mine = ssl.PEM_cert_to_DER_cert(open(s["cert"]).read())
                if der != mine:
                    raise Violation(f"{what}: another certificate than the configured one is presented")
            for pw in [s["pw"], s["pw"][:-1], s["pw"] + "x" if len(s["pw"].encode()) < 72 else "root"] + ([oldpw] if oldpw else []):
                c = Conn(addr, tls=tls and n07.context(), login=False)
                got = c.login("root", pw)
                c.close()
                if (got is None) != (pw == s["pw"]):
                    raise Violation(f"{what}: a login as root with {pw!r} on {addr} ended with {got}")
        return p

    def measure(self, c, d, w, what):
        """Rows are flushed once per window, and not more often (a window takes 0.25 s)."""
        def size():
            return sum(len(b) for n, b in db_files(d).items() if n.endswith("btlog"))
        n, flushes, last, t0 = 0, [], size(), time.time()
        while len(flushes) < 4:
            if time.time() - t0 > 30:
                raise Violation(f"{what}: only {len(flushes)} flushes in {(time.time() - t0) / 0.25:.0f} service windows")
            expect(c.q("insert into s.m(?, ?)", P("uint", n), P("str", "x")), ("empty",), "insert")
            n += 1
            now = size()
            if now != last:
                flushes.append(time.time())
                last = now
                # a flush is seen in pieces
                time.sleep(0.03)
                last = size()
            time.sleep(0.004)
        took = flushes[3] - flushes[0]
        if took < 3 * 0.25 * 0.6:
            raise Violation(f"{what}: four flushes within {took:.3f} s, {took / 0.25:.2f} windows")

    def down(self, p, what):
        p.send_signal(signal.SIGTERM)
        try:
            rc = p.wait(60)
        except subprocess.TimeoutExpired:
            raise Violation(f"{what}: the server does not stop")
        if rc != 0:
            raise Violation(f"{what}: graceful shutdown exited with {rc}")

    def sample(self, case):
        return case


def die():
    import ctypes
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


CHECK = C()
