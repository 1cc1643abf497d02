"""Writes a database in the storage format of 0.8.0-beta (v1) that holds what a database in the present format (v2) holds.

The two formats share the encoding of objects, cells and keys; file headers, journals, batches and the system database (accounts) differ. The
present files are decoded here, independently of the server, and written again event by event.
"""
import binascii, os, struct

U64 = struct.Struct("<Q")
SERVER = 1 << 63
T64 = []
for _i in range(256):
    _c = _i
    for _ in range(8):
        _c = (_c >> 1) ^ (0xC96C5795D7870F42 if _c & 1 else 0)
    T64.append(_c)


def crc64(b):
    c = (1 << 64) - 1
    t = T64
    for x in b:
        c = t[(c ^ x) & 255] ^ (c >> 8)
    return c ^ ((1 << 64) - 1)


class Rd:
    def __init__(self, b, at=0):
        self.b, self.i = b, at

    def take(self, n):
        assert n >= 0 and self.i + n <= len(self.b), "unexpected end of a database file"
        x = self.b[self.i:self.i + n]
        self.i += n
        return x

    def u8(self):
        return self.take(1)[0]

    def u64(self):
        return U64.unpack(self.take(8))[0]

    def eof(self):
        return self.i == len(self.b)


def header(v2, cls, spec):
    """The v1 header for a file of the given class, made from the v2 header of the same server."""
    h = bytearray(v2[:64])
    h[24:32] = U64.pack(0)         # driver version
    h[36], h[37] = cls, spec
    h[38:40] = b"\0\0"
    return bytes(h)


def events(b):
    """The events of a v2 journal: ('drv', kind) or ('srv', meta, Rd at the payload)."""
    r = Rd(b, 64)
    while not r.eof():
        r.take(16)
        meta = r.u64()
        if meta & SERVER:
            yield "srv", meta & ~SERVER, r
        else:
            r.take(40)
            yield "drv", meta, None


def gns_events(b):
    for k, meta, r in events(b):
        if k == "drv":
            yield "drv", meta, None
        else:
            r.take(8)
            yield "srv", meta, r.take(r.u64())


def skip_cell(r):
    t = r.u8()
    if t == 0:
        return
    if t == 1:
        r.take(1)
    elif t <= 11:
        r.take(8)
    elif t <= 13:
        r.take(r.u64())
    elif t == 14:
        for _ in range(r.u64()):
            skip_cell(r)
    else:
        raise AssertionError("unknown cell")


def batches(b):
    """The batches of a v2 model journal: ('drv', kind) or ('batch', expected, pk tag, schema version, columns, [event bytes])."""
    for k, meta, r in events(b):
        if k == "drv":
            yield "drv", meta
            continue
        expected, tag, ver, cols = r.u64(), r.u8(), r.u64(), r.u64()
        evs = []
        while len(evs) != expected:
            at = r.i
            kind = r.u8()
            if kind == 3:
                break
            r.take(8)
            r.take(8 if tag < 2 else r.u64())
            if kind:
                for _ in range(cols):
                    skip_cell(r)
            evs.append(r.b[at:r.i])
        r.take(16)
        yield "batch", expected, tag, ver, cols, evs


def v1_event(i, md, crc, pl):
    return i.to_bytes(16, "little") + U64.pack(md) + struct.pack("<I", crc) + U64.pack(len(pl)) + pl


def v1_gns(b, rnd, stats):
    """(v1 namespace log, {user: hash})"""
    out = [header(b, 0, 0)]
    users = {}
    i = 0
    for k, meta, pl in gns_events(b):
        if k == "drv":
            if meta == 1:                       # closed; a v1 log is closed and reopened under the same identifier
                out.append(v1_event(i, 0, 0, b""))
            else:
                out.append(v1_event(i, 1, 0, b""))
                i += 1
                stats["sessions"] += 1
            continue
        if meta <= 7:
            pl = struct.pack("<H", meta) + pl
            if rnd.random() < 0.04:             # a failed write that was reverted
                bad = bytearray(pl)
                bad[rnd.randrange(len(bad))] ^= 1 << rnd.randrange(8)
                out.append(v1_event(i, SERVER, binascii.crc32(pl), bytes(bad)))
                out.append(v1_event(i, 2, 0, b""))
                i += 1
                stats["reverted"] += 1
            out.append(v1_event(i, SERVER, binascii.crc32(pl), pl))
            i += 1
            continue
        r = Rd(pl)
        if meta == 10:
            n = r.u64()
            del users[r.take(n).decode()]
        else:
            n, p, _ = r.u64(), r.u64(), r.u64()
            name = r.take(n).decode()
            users[name] = r.take(p)
    return b"".join(out), users


def known(have, e, tag):
    """v1 never had a deletion of a row that none of its batches inserted (the present format may)."""
    k = e[9:17] if tag < 2 else e[17:17 + U64.unpack(e[9:17])[0]]
    if e[0]:
        have.add(k)
        return True
    if k not in have:
        return False
    have.remove(k)
    return True


def ev_key(e, tag):
    return 17 if tag < 2 else 17 + U64.unpack(e[9:17])[0]


def passing(evs, tag, live, rnd, stats):
    """Adds rows that were stored and deleted again before the batch was written: v1 recorded both (the present format records neither)."""
    rows = [e[ev_key(e, tag):] for e in evs if e[0]]
    if not rows:
        return evs, 0
    out, n, live = [], 0, set(live)

    def ins(e, i):
        return b"\x01" + U64.pack(i) + e[9:ev_key(e, tag)] + rnd.choice(rows)

    def rem(e, i):
        return b"\0" + U64.pack(i) + e[9:ev_key(e, tag)]
    for e in evs:
        t = U64.unpack(e[1:9])[0]
        key = e[9 if tag < 2 else 17:ev_key(e, tag)]
        x, pre, post = rnd.random(), [], []
        if x < 0.12:
            k = rnd.randrange(1, 4)
            if e[0] == 0:
                post = [f(e, t + 2 * j + i + 1) for j in range(k) for i, f in enumerate((ins, rem))]
            else:
                fs = (rem, ins) if key in live else (ins, rem)
                pre = [f(e, t - 2 * k + 2 * j + i) for j in range(k) for i, f in enumerate(fs)]
            stats["passing rows"] += k
            n += 2 * k
        out += pre + [e] + post
        (live.add if e[0] else live.discard)(key)
    return out, n


def v1_data(b, rnd, stats, marks):
    out = [header(b, 1, 1)]
    have = set()
    for ev in batches(b):
        if ev[0] == "drv":
            out.append(b"\xfc" if ev[1] == 1 else b"\xfb")
            continue
        _, expected, tag, ver, cols, evs = ev
        before = set(have)
        # the identifiers are spread out so that there is room between any two
        evs = [e[:1] + U64.pack(16 * U64.unpack(e[1:9])[0] + 8) + e[9:] for e in evs if known(have, e, tag)]
        evs, more = passing(evs, tag, before, rnd, stats)
        expected += more
        if marks and rnd.random() < 0.1:
            out.append(b"\xff")                 # a failed batch of which nothing was written
            stats["failed batch"] += 1
        parts = [(expected, evs)]
        if len(evs) > 1 and rnd.random() < 0.3:  # the same changes in two batches
            c = rnd.randrange(1, len(evs))
            # an insert and a later deletion of the key may be split, the reverse must not be
            parts = [(c, evs[:c]), (expected - c, evs[c:])]
            stats["split"] += 1
        for n, es in parts:
            if len(es) > 1 and rnd.random() < 0.3:
                # concurrent sessions enqueue their changes in another order than they make them in
                for _ in range(len(es)):
                    i = rnd.randrange(len(es) - 1)
                    es[i], es[i + 1] = es[i + 1], es[i]
                stats["disorder"] += 1
            body = bytes([0xfe, tag]) + U64.pack(n) + U64.pack(ver) + U64.pack(cols) + b"".join(es) + b"\xfd" + U64.pack(len(es))
            out.append(body + U64.pack(crc64(body)))
            stats["batches"] += 1
    return b"".join(out)


def rdict(d):
    """r1 encoding of a dictionary {str: int | dict | [bytes]}"""
    out = [U64.pack(len(d))]
    for k, v in d.items():
        kb = k.encode()
        out.append(U64.pack(len(kb)))
        if isinstance(v, dict):
            out += [b"\x0f", kb, rdict(v)]
        elif isinstance(v, int):
            out += [b"\x05", kb, U64.pack(v)]
        else:
            out += [b"\x0e", kb, U64.pack(len(v))] + [b"\x0c" + U64.pack(len(x)) + x for x in v]
    return b"".join(out)


def downgrade(files, rnd, stats, marks=True):
    """{path: bytes} of a v2 database -> the same as v1 (with the marks of failed batches, if so wanted)."""
    out = {}
    g = files["gns.db-tlog"]
    out["gns.db-tlog"], users = v1_gns(g, rnd, stats)
    order = list(users)
    rnd.shuffle(order)
    out["sys.db"] = header(g, 2, 2) + rdict({"auth": {"users": {u: [users[u]] for u in order}},
                                            "sys": {"sc": rnd.randrange(1, 1000), "sv": rnd.choice([0, 1, 7])}})
    for p, b in files.items():
        if p.endswith(".db-btlog"):
            out[p] = v1_data(b, rnd, stats, marks)
        elif p != "gns.db-tlog":
            out[p] = b
    return out
