"""Users: names, passwords and near misses of them."""
from harness import *
from lang import *
from random import Random

NAMES = ["a", "b", "alice", "Alice", "ALICE", "alic", "alicea", "_", "u1", "u_2", "roott", "Root", "ROOT", "roo", "_root", "root_", "bob", "x" * 60, "longer_user_name_for_testing"]
EXTRA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 !\"#$%&'()*+,-./:;<=>?@[]^_`{|}~\t\n\\"


def gen_pw(r):
    """A valid password: 1 to 72 bytes of UTF-8 without NUL."""
    k = r.random()
    if k < 0.1:
        s = "".join(r.choice("é漢字🦀ßñ") for _ in range(r.randrange(1, 18)))
    elif k < 0.2:
        s = r.choice(["?", "'", '"', "\\", "password", "null", " ", "a", "\n", "root", "' or 1=1", "{ password: ? }", "0", "10\nabc"])
    else:
        s = "".join(r.choice(EXTRA) for _ in range(r.choice([1, 2, 8, 16, 17, 40, 70, 71, 72])))
    b = s.encode()
    while len(b) > 72:
        s = s[:-1]
        b = s.encode()
    return b


def near_pw(r, pw):
    """Bytes that differ from pw, mostly slightly, within 72 bytes."""
    for _ in range(50):
        b = bytearray(pw)
        k = r.randrange(12)
        i = r.randrange(len(b))
        if k == 0:
            del b[-1]
        elif k == 1:
            b += bytes([r.choice([32, 0, 10, 97])])
        elif k == 2:
            b[i] ^= 1 << r.randrange(8)
        elif k == 3:
            b = bytearray(bytes(b).swapcase())
        elif k == 4:
            b = bytearray(b" " + bytes(b))
        elif k == 5:
            b = bytearray(bytes(b) + bytes(b))
        elif k == 6:
            b = b[::-1]
        elif k == 7:
            b = bytearray()
        elif k == 8:
            b = b[: r.randrange(len(b))]
        elif k == 9:
            b = bytearray(r.randbytes(r.choice([1, 8, 30, 72])))
        elif k == 10:
            b[-1] = (b[-1] + 1) % 256
        else:
            b = bytearray(gen_pw(r))
        if bytes(b) != bytes(pw) and len(b) <= 72:
            return bytes(b)
    return b"\x01"


def near_name(r, name):
    n = name.encode() if isinstance(name, str) else name
    k = r.randrange(9)
    if k == 0:
        return n[:-1]
    if k == 1:
        return n + r.choice([b" ", b"\0", b"a", b"\n", b"_"])
    if k == 2:
        return n.swapcase()
    if k == 3:
        return n.upper()
    if k == 4:
        return b" " + n
    if k == 5:
        return b""
    if k == 6:
        return r.randbytes(r.choice([1, 4, 40]))
    if k == 7:
        i = r.randrange(len(n))
        return n[:i] + bytes([n[i] ^ (1 << r.randrange(8))]) + n[i + 1:]
    return r.choice(NAMES).encode()


def try_login(srv, user, pw, timeout=30.0):
    """(connection, None) when accepted, else (None, code); a refused connection must be closed by the server."""
    c = Conn(srv.addr, login=False, timeout=timeout)
    code = c.login(user, pw)
    if code is None:
        return c, None
    try:
        extra = c.pending(5.0)
        c.close()
        if extra:
            raise Violation(f"login {user!r}: after the refusal (code {code}) the server sent {extra!r}")
        raise Violation(f"login {user!r}: refused with code {code} but the connection stays open")
    except Closed:
        c.close()
    return None, code
