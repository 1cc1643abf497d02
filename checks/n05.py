import time
import socket
from accounts import *
from hist import *


def model(b, users):
    """What a server that has received exactly the bytes b must do: ('more',), ('ok', consumed) or ('refuse', {codes})."""
    if len(b) < 6:
        return ("more",)
    if b[0:1] != b"H":
        return ("refuse", {0})
    for i, code in ((1, 1), (2, 2), (3, 3), (4, 4), (5, 5)):
        if b[i] != 0:
            return ("refuse", {code})
    pos, nums, empty = 6, [], False
    if len(b) - pos < 4:
        return ("more",)
    for _ in range(2):
        j = b.find(b"\n", pos)
        t = b[pos:j] if j >= 0 else b[pos:]
        if t and not all(48 <= x <= 57 for x in t):
            return ("refuse", {0})
        if t and int(t) >= 2**64:
            return ("refuse", {0})
        if j < 0:
            return ("more",)
        empty |= not t      # a length without digits may be taken for zero
        nums.append(int(t or b"0"))
        pos = j + 1
    if sum(nums) >= 2**64:
        return ("refuse", {0})
    if len(b) - pos < sum(nums):
        return ("any",) if empty else ("more",)
    u, p = b[pos:pos + nums[0]], b[pos + nums[0]:pos + sum(nums)]
    if p and users.get(u) == p:
        return ("ok", pos + sum(nums))
    return ("refuse", {0, 5} if empty else {5})


class C(Check):
    pid = "N05"
    technique = "property-based testing of handshakes against an executable model of the handshake grammar"
    rule = ("a case is 60 connections to a live server; each sends a generated handshake: valid, with one or several of the five header bytes or the first byte set to arbitrary values, with malformed, "
            "overflowing, zero-padded, negative or missing lengths, with lengths that do not match the credentials, or truncated; in 1 to 4 segments, some followed by a query. An executable model predicts "
            "acceptance, the refusal code or that more bytes are awaited; after a refusal the server must close after exactly 4 bytes. Non-trivial: accepted, waiting and at least four refusal codes were seen")
    quick = 1500
    thorough = 30000

    def gen(self, r, i, tier):
        return {"ops": [{"s": r.getrandbits(32)} for _ in range(60)]}

    def build(self, r, srv):
        u, p = r.choice([(b"root", srv.pw.encode())] * 3 + [(b"root", b"wrong-password"), (b"", b""), (b"nobody", b"x"), (b"\xff\xfe", b"x"), (b"root", b"")])
        head = bytearray(b"H\0\0\0\0\0")
        ul, pl = b"%d\n" % len(u), b"%d\n" % len(p)
        k = r.choice(["valid", "valid", "one", "one", "one", "many", "many", "len", "len", "len", "cut", "first", "noise"])
        if k == "one":
            head[r.randrange(1, 6)] = r.choice([1, 2, 127, 128, 255, r.randrange(1, 256), ord("H"), ord("0")])
        elif k == "many":
            for j in r.sample(range(1, 6), r.randrange(2, 6)):
                head[j] = r.randrange(1, 256)
        elif k == "first":
            head[0] = r.choice([0, ord("h"), ord("S"), 255, r.randrange(256)])
            if r.random() < 0.4:
                head[r.randrange(1, 6)] = r.randrange(256)
        elif k == "len":
            bad = lambda n: r.choice([b"%d\n" % (n + r.choice([-1, 1, 2, 100])), b"0%d\n" % n, b"000000000000000000000000%d\n" % n, b"-%d\n" % n, b"+%d\n" % n, b" %d\n" % n, b"%d \n" % n, b"%d\r\n" % n,
                                      b"\n", b"x\n", b"1x\n", b"18446744073709551615\n", b"18446744073709551616\n", b"99999999999999999999999\n", b"9223372036854775807\n", b"4294967296\n", b"0x4\n",
                                      b"%d" % n, b"18446744073709551614\n", b"\x00\n", b"\xff\n", b"4.0\n", b"1e1\n"])
            w = r.randrange(3)
            if w != 1:
                ul = bad(len(u))
            if w != 0:
                pl = bad(len(p))
        b = bytes(head) + ul + pl + u + p
        if k == "cut":
            b = b[:r.randrange(len(b))]
        elif k == "noise":
            b = r.randbytes(r.choice([1, 5, 6, 7, 30]))
            if r.random() < 0.7:
                b = b"H\0\0\0\0\0" + b
        elif r.random() < 0.2:
            b += enc_query("sysctl report status")
        return b

    def run(self, env, case):
        srv = env.server()
        users = {b"root": srv.pw.encode()}
        seen = set()
        for op in case["ops"]:
            r = Random(op["s"])
            b = self.build(r, srv)
            cuts = sorted(r.randrange(len(b) + 1) for _ in range(r.choice([0, 0, 1, 3])))
            segs = [b[x:y] for x, y in zip([0] + cuts, cuts + [len(b)]) if x < y]
            # the answer is decided by the first prefix that decides it
            want = model(b, users)
            s = socket.create_connection(srv.addr, timeout=20)
            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
            what = f"handshake {b!r} in segments of {[len(x) for x in segs]}"
            got = b""
            try:
                try:
                    for j, x in enumerate(segs):
                        if j:
                            time.sleep(0.0005)
                        s.sendall(x)
                except OSError:
                    pass
                if want[0] == "more":
                    s.settimeout(0.004)
                    try:
                        got = s.recv(100)
                        raise Violation(f"{what}: more bytes are needed, but the server sent {got!r}" if got else f"{what}: more bytes are needed, but the server closed the connection")
                    except socket.timeout:
                        pass
                    seen.add("more")
                elif want[0] == "any":
                    pass
                elif want[0] == "ok":
                    rest = b[want[1]:]
                    need = b"H\0\0\0" + (b"\x12" if rest else b"")
                    if not rest:
                        s.sendall(enc_query("sysctl report status"))
                        need += b"\x12"
                    while len(got) < len(need):
                        d = s.recv(100)
                        if not d:
                            break
                        got += d
                    if got != need:
                        raise Violation(f"{what}: a correct login got {got!r}")
                    seen.add("ok")
                else:
                    try:
                        while True:
                            d = s.recv(100)
                            if not d:
                                break
                            got += d
                    except ConnectionError:
                        pass
                    if len(got) != 4 or got[:3] != b"H\0\1" or got[3] not in want[1]:
                        raise Violation(f"{what}: expected a refusal with code {sorted(want[1])}, got {got!r}")
                    seen.add(got[3])
            except socket.timeout:
                raise Timeout(what)
            except ConnectionError as e:
                raise Violation(f"{what}: {e}; received {got!r}")
            finally:
                s.close()
            env.count(want[0] if want[0] != "refuse" else f"refused-{got[3]}")
        return {"ok", "more"} <= seen and len(seen) >= 6

    def sample(self, case):
        r = Random(case["ops"][0]["s"])
        class S:
            pw = ROOT_PW
        return repr(self.build(r, S))


CHECK = C()
