import socket
import ssl
import subprocess
import time
import n02
from n01 import damage
from hist import *


def make_key(d, r):
    """A self-signed certificate with an encrypted key in directory d."""
    pw = "".join(r.choice("abcdefghijkXYZ0189_-") for _ in range(r.choice([4, 12, 40])))
    key, cert, pp = (os.path.join(d, x) for x in ("key.pem", "cert.pem", "pass.txt"))
    alg = r.choice([["rsa:2048"], ["ec", "-pkeyopt", "ec_paramgen_curve:prime256v1"]])
    subprocess.run(["openssl", "req", "-x509", "-newkey"] + alg + ["-keyout", key, "-out", cert, "-days", "3650", "-passout", "pass:" + pw, "-subj", "/CN=localhost"],
                   check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, env=dict(os.environ, HOME=d, RANDFILE=os.path.join(d, ".rnd")))
    with open(pp, "w") as f:
        f.write(pw)
    return key, cert, pp


class TlsServer(Server):
    def __init__(self, exe, r, **kw):
        Server.__init__(self, exe, start=False, **kw)
        self.key, self.cert, self.pp = make_key(self.dir, r)

    def args(self):
        self.tls_addr = (self.addr[0], free_port())
        return Server.args(self) + ["--endpoint", f"tls@{self.tls_addr[0]}:{self.tls_addr[1]}", "--tlscert", self.cert, "--tlskey", self.key, "--tls-passphrase", self.pp]


def context():
    c = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    c.check_hostname = False
    c.verify_mode = ssl.CERT_NONE
    return c


def client_hello(r):
    c = context()
    if r.random() < 0.3:
        c.maximum_version = ssl.TLSVersion.TLSv1_2
    i, o = ssl.MemoryBIO(), ssl.MemoryBIO()
    b = c.wrap_bio(i, o, server_hostname="localhost")
    try:
        b.do_handshake()
    except ssl.SSLWantReadError:
        pass
    return o.read()


class C(Check):
    pid = "N07"
    technique = "differential testing of session scripts over both endpoints, with generated broken TLS starts held open at the same time"
    rule = ("a case opens up to 8 broken clients on the TLS endpoint (silent; a plain login with a CREATE SPACE; random bytes; a ClientHello cut, damaged or sent byte by byte; an abort in the middle of the handshake; a finished handshake with garbage or nothing after it), keeps "
            "them open, and then runs one generated session byte stream over the plain endpoint and, in two segmentations, over the TLS endpoint: the response bytes must be identical, in bounded time. What one endpoint wrote the other reads, nothing that was sent "
            "without TLS is executed, sessions opened before keep working, and (one case in eight) SIGTERM with all broken clients still open ends with success. Non-trivial: at least 2 broken clients and 6 responses")
    quick = 1500
    thorough = 30000
    shrink_keys = ("bad", "segs")
    tries = 3

    def gen(self, r, i, tier):
        return {"s": r.getrandbits(32), "bad": [r.getrandbits(32) for _ in range(r.choice([0, 2, 4, 8]))], "segs": [r.getrandbits(32) for _ in range(2)], "term": r.random() < 0.12}

    def server(self, env):
        if env._srv is None or not env._srv.alive():
            if env._srv is not None:
                env.drop_server(env._srv)
            s = TlsServer(env.exe, Random(f"{env.seed}:{len(env.servers)}"))
            env.servers.append(s)
            s.start()
            t0 = time.time()
            while True:
                try:
                    socket.create_connection(s.tls_addr, timeout=5).close()
                    break
                except OSError:
                    if time.time() - t0 > 20:
                        raise StartFailed("timeout", s.log())
                    time.sleep(0.02)
            env._srv, env._conn = s, None
        return env._srv

    def broken(self, env, srv, seed):
        """Opens one broken client; returns its socket and what it did."""
        r = Random(seed)
        k = r.choice(["silent", "plain", "plain", "random", "cut", "cut", "damaged", "bytes", "halfway", "garbage", "idle", "gone"])
        s = socket.create_connection(srv.tls_addr, timeout=20)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        try:
            if k == "plain":
                pw = srv.pw.encode()
                s.sendall(b"H\0\0\0\0\0%d\n%d\n" % (4, len(pw)) + b"root" + pw + enc_query("create space intruder with { env: {} }"))
            elif k == "random":
                s.sendall(r.randbytes(r.choice([1, 5, 11, 200, 3000])))
            elif k in ("cut", "damaged"):
                h = client_hello(r)
                s.sendall(h[:r.randrange(1, len(h))] if k == "cut" else damage(r, h))
            elif k == "bytes":
                h = client_hello(r)
                for b in h[:r.choice([3, 6, 40])]:
                    s.sendall(bytes([b]))
            elif k == "halfway":
                s.sendall(client_hello(r))
                s.settimeout(2)
                try:
                    s.recv(r.choice([1, 100, 4096]))
                except OSError:
                    pass
                if r.random() < 0.5:
                    s.sendall(r.randbytes(30))
            elif k in ("garbage", "idle"):
                s = context().wrap_socket(s)
                if k == "garbage":
                    s.sendall(r.randbytes(r.choice([1, 30, 400])))
            elif k == "gone":
                s.sendall(client_hello(r)[:r.choice([0, 5, 100, 1000])])
                s.close()
                return None, k
        except OSError:
            pass   # the server may refuse it at any point
        return s, k

    def run(self, env, case):
        srv = self.server(env)
        tls = context()
        root = env.conn()
        old = Conn(srv.tls_addr, pw=srv.pw, tls=tls)
        s = env.name("s")
        held = []
        try:
            for b in case["bad"]:
                h, k = self.broken(env, srv, b)
                env.count("broken:" + k)
                if h is not None:
                    held.append((h, k))
            r = Random(case["s"])
            us = [(b"root", srv.pw.encode()), (b"root", srv.pw.encode()), (b"root", b"wrong"), (b"nobody", b"x")]
            packets, fatal = n02.script(r, s, us if r.random() < 0.2 else us[:2])
            c = Conn(srv.addr, login=False)
            c.keep = True
            try:
                c.send(packets[0])
                code = c.read_hs()
                for p in packets[1:]:
                    c.send(p)
                    c.response()
                ref = c.buf
            finally:
                c.close()
            stream = b"".join(packets)
            offs, pos = [], 0
            for p in packets:
                offs.append(pos)
                pos += len(p)
            for seed in case["segs"]:
                root.q(f"drop space allow not empty {s}")
                kind, segs = n02.cuts(Random(seed), stream, offs)
                env.count("split:" + kind)
                try:
                    got, note = n02.drive(srv.tls_addr, stream, segs, len(ref), tls=tls)
                except OSError as e:
                    raise Violation(f"no TLS session could be opened ({e}) while {[k for _, k in held]} were open")
                if note == "timeout" and ref.startswith(got):
                    raise Timeout(f"TLS session got only {len(got)} of {len(ref)} response bytes while {[k for _, k in held]} were open")
                if got != ref:
                    k = next((i for i, (a, b) in enumerate(zip(got, ref)) if a != b), min(len(got), len(ref)))
                    raise Violation(f"{len(packets)} packets over TLS ({kind}) got {len(got)} response bytes ({note}) where plain gives {len(ref)}; first difference at {k}: {got[k:k+60]!r} instead of {ref[k:k+60]!r}\n    stream: {short(repr(stream), 1500)}")
            # both endpoints see the same data
            if code is None:
                ins = f"insert into {s}.m(?, ?, [], null)"
                for w, x, key in ((old, root, 901), (root, old, 902)):
                    expect(w.q(ins, P("uint", key), P("str", "x")), ("empty",), "insert")
                    expect(x.q(f"select k, v from {s}.m where k = ?", P("uint", key)), ("row", [V("uint64", key), V("string", b"x")]), "the other endpoint's read")
            expect(root.q("use intruder"), ("err", 100), "a CREATE SPACE sent to the TLS endpoint without TLS was executed")
            for h, k in held:
                if k == "plain":
                    h.settimeout(0.01)
                    try:
                        got = h.recv(100)
                    except OSError:
                        got = b""
                    if got.startswith(b"H"):
                        raise Violation(f"the TLS endpoint answered a plain login with {got!r}")
            expect(old.q("sysctl report status")[0], "empty", "the session that was open before")
            root.q(f"drop space allow not empty {s}")
            if case["term"]:
                env.count("terminations")
                env.drop_conn()
                try:
                    rc = srv.stop(timeout=40)
                except Timeout:
                    env.drop_server(srv)
                    raise Violation(f"no shutdown within 40 s of SIGTERM while {[k for _, k in held]} were open")
                expect(rc, 0, "exit status after SIGTERM")
                env.drop_server(srv)
        finally:
            old.close()
            for h, _ in held:
                h.close()
        return len(case["bad"]) >= 2 and len(packets) >= 6

    def sample(self, case):
        return {"broken": len(case["bad"]), "terminate": case["term"]}


CHECK = C()
