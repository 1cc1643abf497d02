"""Skyhash/2 client and skyd process control (Python standard library only)."""
import ctypes, os, resource, shutil, signal, socket, ssl, struct, subprocess, tempfile, threading, time

ROOT_PW = "correct-horse-battery"  # >= 16 bytes


# ---------------------------------------------------------------- values
class V:
    """A typed value as seen on the wire. Equality is exact (type and payload)."""
    __slots__ = ("t", "v")

    def __init__(self, t, v=None):
        self.t, self.v = t, v

    def __eq__(self, o):
        return isinstance(o, V) and self.t == o.t and self.v == o.v

    def __hash__(self):
        return hash((self.t, repr(self.v)))

    def __repr__(self):
        return f"{self.t}:{self.v!r}" if self.t != "null" else "null"


NULL = V("null")
CELL_TAGS = {0: "null", 1: "bool", 2: "uint8", 3: "uint16", 4: "uint32", 5: "uint64",
             6: "sint8", 7: "sint16", 8: "sint32", 9: "sint64", 10: "float32", 11: "float64",
             12: "binary", 13: "string", 14: "list"}


class ProtocolError(Exception):
    """The server sent bytes that are not a well-formed response."""


class Closed(Exception):
    """The server closed (or reset) the connection."""


class Timeout(Exception):
    """No answer within the (generous) limit."""


# ---------------------------------------------------------------- params
def P(kind, v=None):
    return (kind, v)


def enc_param(p):
    k, v = p
    if k == "null":
        return b"\x00"
    if k == "bool":
        return b"\x01" + (b"\x01" if v else b"\x00")
    if k == "uint":
        return b"\x02%d\n" % v
    if k == "sint":
        return b"\x03%d\n" % v
    if k == "float":
        return b"\x04" + (v if isinstance(v, bytes) else repr(float(v)).encode()) + b"\n"
    if k == "bin":
        return b"\x05%d\n" % len(v) + v
    if k == "str":
        b = v if isinstance(v, bytes) else v.encode("utf-8")
        return b"\x06%d\n" % len(b) + b
    if k == "raw":
        return v
    raise ValueError(k)


def enc_query(q, params=()):
    if isinstance(q, str):
        q = q.encode()
    ps = b"".join(enc_param(p) for p in params)
    body = b"%d\n" % len(q) + q + ps
    return b"S%d\n" % len(body) + body


# ---------------------------------------------------------------- connection
class Conn:
    def __init__(self, addr, user="root", pw=ROOT_PW, timeout=30.0, tls=None, login=True):
        self.timeout = timeout
        s = socket.create_connection(addr, timeout=timeout)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        if tls is not None:
            s = tls.wrap_socket(s, server_hostname=addr[0])
        self.s = s
        self.keep = False   # keep consumed bytes in buf
        self.buf = b""
        self.pos = 0
        if login:
            r = self.login(user, pw)
            if r is not None:
                self.close()
                raise Closed(f"login refused with {r}")

    def login(self, user, pw):
        """Returns None when accepted, else the error code."""
        u = user if isinstance(user, bytes) else user.encode()
        p = pw if isinstance(pw, bytes) else pw.encode()
        self.send(b"H\x00\x00\x00\x00\x00%d\n%d\n" % (len(u), len(p)) + u + p)
        return self.read_hs()

    def read_hs(self):
        r = self.take(4)
        if r[:1] != b"H" or r[1] != 0:
            raise ProtocolError(f"bad handshake response {r!r}")
        if r == b"H\x00\x00\x00":
            return None
        if r[2] != 1:
            raise ProtocolError(f"bad handshake response {r!r}")
        return r[3]

    # raw io
    def send(self, b):
        try:
            self.s.sendall(b)
        except socket.timeout:
            raise Timeout("send")
        except (OSError, ssl.SSLError) as e:
            raise Closed(f"send: {e}")

    def _fill(self):
        try:
            d = self.s.recv(65536)
        except socket.timeout:
            raise Timeout("recv")
        except (OSError, ssl.SSLError) as e:
            raise Closed(f"recv: {e}")
        if not d:
            raise Closed("eof")
        if self.pos > (1 << 16) and not self.keep:
            self.buf = self.buf[self.pos:]
            self.pos = 0
        self.buf += d

    def take(self, n):
        while len(self.buf) - self.pos < n:
            self._fill()
        r = self.buf[self.pos:self.pos + n]
        self.pos += n
        return r

    def line(self):
        while True:
            i = self.buf.find(b"\n", self.pos)
            if i >= 0:
                r = self.buf[self.pos:i]
                self.pos = i + 1
                return r
            if len(self.buf) - self.pos > 1200:  # a float has up to ~1080 digits
                raise ProtocolError(f"unterminated number {self.buf[self.pos:self.pos+64]!r}")
            self._fill()

    def uint(self):
        l = self.line()
        if not l.isdigit():
            raise ProtocolError(f"expected an unsigned integer, got {l!r}")
        return int(l)

    def cell(self):
        t = self.take(1)[0]
        name = CELL_TAGS.get(t)
        if name is None:
            raise ProtocolError(f"unknown cell tag {t}")
        if name == "null":
            return NULL
        if name == "bool":
            b = self.take(1)[0]
            if b > 1:
                raise ProtocolError("bad bool")
            return V("bool", bool(b))
        if 2 <= t <= 5:
            return V(name, self.uint())
        if 6 <= t <= 9:
            l = self.line()
            try:
                return V(name, int(l))
            except ValueError:
                raise ProtocolError(f"bad signed integer {l!r}")
        if t in (10, 11):
            l = self.line()
            try:
                f = float(l)
            except ValueError:
                raise ProtocolError(f"bad float {l!r}")
            return V(name, struct.pack("<d", f))
        if name == "binary":
            return V(name, self.take(self.uint()))
        if name == "string":
            b = self.take(self.uint())
            try:
                b.decode("utf-8")
            except UnicodeDecodeError:
                raise ProtocolError(f"string is not utf-8 {b!r}")
            return V(name, b)
        return V("list", [self.cell() for _ in range(self.uint())])

    def response(self):
        """('err',code) ('empty',) ('row',[..]) ('rows',[[..]]) ('value',V)"""
        t = self.take(1)[0]
        if t == 0x10:
            return ("err", struct.unpack("<H", self.take(2))[0])
        if t == 0x12:
            return ("empty",)
        if t == 0x11:
            return ("row", [self.cell() for _ in range(self.uint())])
        if t == 0x13:
            n = self.uint()
            c = self.uint()
            return ("rows", [[self.cell() for _ in range(c)] for _ in range(n)])
        if t == 0x00:
            return ("value", NULL)
        if t in CELL_TAGS:
            self.pos -= 1
            return ("value", self.cell())
        raise ProtocolError(f"unknown response tag {t:#x}")

    def q(self, query, *params):
        self.send(enc_query(query, params))
        return self.response()

    def raw_query(self, raw):
        self.send(raw)
        return self.response()

    def pending(self, wait=0.0):
        """Bytes received but not consumed (waits `wait` seconds for some)."""
        if self.pos < len(self.buf):
            return self.buf[self.pos:]
        self.s.settimeout(max(wait, 0.001))
        try:
            d = self.s.recv(65536)
            if not d:
                raise Closed("eof")
            self.buf += d
        except socket.timeout:
            pass
        except OSError as e:
            raise Closed(str(e))
        finally:
            self.s.settimeout(self.timeout)
        return self.buf[self.pos:]

    def close(self):
        try:
            self.s.close()
        except OSError:
            pass


# ---------------------------------------------------------------- server
def scratch_root():
    for d in ("/dev/shm", "/tmp"):
        if os.path.isdir(d) and os.access(d, os.W_OK):
            return d
    return tempfile.gettempdir()


def new_dir(prefix="skyv-"):
    return tempfile.mkdtemp(prefix=prefix, dir=scratch_root())


_ips = {}


def own_ip():
    """A loopback address that no other live process of the checks uses, so that ports never collide."""
    pid = os.getpid()
    if pid not in _ips:
        ip = f"127.{64 + ((pid >> 16) & 63)}.{(pid >> 8) & 255}.{pid & 255}"
        try:
            with socket.socket() as s:
                s.bind((ip, 0))
        except OSError:
            ip = "127.0.0.1"
        _ips[pid] = ip
    return _ips[pid]


def free_port(ip=None):
    with socket.socket() as s:
        s.bind((ip or own_ip(), 0))
        return s.getsockname()[1]


_libc = ctypes.CDLL(None)


def _die_with_parent():
    _libc.prctl(1, signal.SIGKILL)  # PR_SET_PDEATHSIG


class StartFailed(Exception):
    def __init__(self, rc, log):
        Exception.__init__(self, f"skyd exited with {rc}: {log[-2000:]}")
        self.rc, self.log = rc, log


class Server:
    """One skyd process over its own data directory."""

    def __init__(self, exe, dir=None, window=3600, env=None, extra=(), keep=False, pw=ROOT_PW,
                 start=True, start_timeout=60.0, wrap=(), mem=None):
        self.exe, self.window, self.env, self.extra, self.pw = exe, window, env or {}, list(extra), pw
        self.own = dir is None
        self.dir = dir or new_dir()
        self.p = None
        self.start_timeout = start_timeout
        self.wrap = list(wrap)
        self.mem = mem
        self.logpath = os.path.join(self.dir, "skyd.log")
        if start:
            self.start()

    def args(self):
        return ["--auth-root-password", self.pw, "--endpoint", f"tcp@{self.addr[0]}:{self.port}",
                "--service-window", str(self.window)] + self.extra

    def start(self):
        last = None
        for _ in range(5):
            self.port = free_port()
            self.addr = (own_ip(), self.port)
            try:
                return self._start()
            except StartFailed as e:
                last = e
                if "Address already in use" not in e.log and "os error 98" not in e.log:
                    raise
        raise last

    def _start(self):
        env = dict(os.environ)
        for k in list(env):
            if k.startswith("SKYDB_") or k == "SKY_LOG":
                del env[k]
        env.update(self.env)
        self.logf = open(self.logpath, "ab")
        off = self.logf.tell()
        self.p = subprocess.Popen(self.wrap + [self.exe] + self.args(), cwd=self.dir, env=env, stdin=subprocess.DEVNULL,
                                  stdout=self.logf, stderr=subprocess.STDOUT, start_new_session=True,
                                  preexec_fn=self._pre)
        t0 = time.time()
        while True:
            rc = self.p.poll()
            if rc is not None:
                self.logf.close()
                raise StartFailed(rc, self.log(off))
            try:
                s = socket.create_connection(self.addr, timeout=5)
                s.close()
                if self.p.poll() is None:
                    return self
            except OSError:
                pass
            if time.time() - t0 > self.start_timeout:
                self.kill()
                raise StartFailed("timeout", self.log(off))
            time.sleep(0.01)

    def _pre(self):
        _die_with_parent()
        if self.mem:
            resource.setrlimit(resource.RLIMIT_AS, (self.mem, self.mem))

    def log(self, off=0):
        try:
            with open(self.logpath, "rb") as f:
                f.seek(off)
                return f.read().decode(errors="replace")
        except OSError:
            return ""

    def conn(self, user="root", pw=None, **kw):
        return Conn(self.addr, user, self.pw if pw is None else pw, **kw)

    def alive(self):
        return self.p is not None and self.p.poll() is None

    def stop(self, sig=signal.SIGTERM, timeout=60.0):
        """Graceful shutdown. Returns the exit code."""
        if self.p is None:
            return None
        if self.p.poll() is None:
            self.p.send_signal(sig)
        try:
            rc = self.p.wait(timeout)
        except subprocess.TimeoutExpired:
            self.kill()
            raise Timeout("shutdown")
        self.logf.close()
        self.p = None
        return rc

    def kill(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
            self.logf.close()
            self.p = None

    def restart(self, sig=signal.SIGTERM):
        rc = self.stop(sig)
        self.start()
        return rc

    def destroy(self):
        self.kill()
        if self.own:
            shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.destroy()
