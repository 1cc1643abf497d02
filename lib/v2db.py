"""The storage format (v2), written down independently of the server: a strict reader and a writer.

Everything is little-endian. A journal is a 64-byte header and events `txn id u128, meta u64, …`; identifiers count up from 0. A meta with the top bit is an
event of the database (its code in the other bits), one without is a session mark of 64 bytes in all (0 reopened, 1 closed).
"""
import struct, uuid
from random import Random
from v1w import T64, crc64, Rd, U64
from lang import *
from refdb import RModel, flatten, gen_dict, merge, kv
from sky import V, NULL

M64 = (1 << 64) - 1
SRV = 1 << 63
SCALARS = ["bool", "uint8", "uint16", "uint32", "uint64", "sint8", "sint16", "sint32", "sint64", "float32", "float64", "binary", "string"]
CELL = {t: i + 1 for i, t in enumerate(SCALARS)}     # tag of a cell; a declared type is its tag minus one
NAME = {v: k for k, v in CELL.items()}
LIST, DICT = 14, 15
KEYTAG = {"uint": 0, "sint": 1, "bin": 2, "str": 3}


class Bad(Exception):
    pass


def need(ok, what):
    if not ok:
        raise Bad(what)


def q(x):
    return U64.pack(x)


def s64(x):
    return struct.pack("<q", x)


class Crc:
    """A running checksum of what a file holds behind its header."""

    def __init__(self):
        self.c = M64

    def add(self, b):
        c, t = self.c, T64
        for x in b:
            c = t[(c ^ x) & 255] ^ (c >> 8)
        self.c = c

    def value(self):
        return self.c ^ M64


# ------------------------------------------------------------ cells, dictionaries
def enc_qw(t, v):
    k = klass(t)
    return q(v) if k == "uint" else s64(v) if k == "sint" else v


def enc_cell(v):
    if v.t == "null":
        return b"\0"
    if v.t == "list":
        return bytes([LIST]) + q(len(v.v)) + b"".join(map(enc_cell, v.v))
    tag = bytes([CELL[v.t]])
    k = klass(v.t)
    if k == "bool":
        return tag + bytes([int(v.v)])
    if k in ("bin", "str"):
        return tag + q(len(v.v)) + v.v
    return tag + enc_qw(v.t, v.v)


def dec_body(r, tag):
    if tag == 0:
        return NULL
    if tag == LIST:
        return V("list", [dec_body(r, r.u8()) for _ in range(r.u64())])
    need(tag in NAME, f"a cell has the tag {tag}")
    t = NAME[tag]
    k = klass(t)
    if k == "bool":
        b = r.u8()
        need(b < 2, f"a truth value is {b}")
        return V(t, bool(b))
    if k in ("bin", "str"):
        return V(t, r.take(r.u64()))
    if k == "float":
        return V(t, r.take(8))
    return V(t, r.u64() if k == "uint" else struct.unpack("<q", r.take(8))[0])


def enc_entries(d):
    """The entries of a dictionary {name: None | V | dictionary}"""
    out = []
    for k, v in d.items():
        kb = k.encode()
        if isinstance(v, dict):
            out.append(q(len(kb)) + bytes([DICT]) + kb + q(len(v)) + enc_entries(v))
        else:
            c = enc_cell(NULL if v is None else v)
            out.append(q(len(kb)) + c[:1] + kb + c[1:])
    return b"".join(out)


def dec_entries(r, n):
    """{name: None | kind | dictionary}"""
    out = {}
    for _ in range(n):
        kl, tag = r.u64(), r.u8()
        k = r.take(kl).decode()
        need(k not in out, f"the property {k!r} occurs twice")
        if tag == DICT:
            out[k] = dec_entries(r, r.u64())
        else:
            v = dec_body(r, tag)
            out[k] = None if v.t == "null" else klass(v.t)
    return out


def enc_field(f):
    layers = [LIST] * f["depth"] + [CELL[f["type"]]]
    n = f["name"].encode()
    return q(len(n)) + q(0) + q(len(layers)) + bytes([int(f["null"])]) + n + b"".join(q(x - 1) + q(0) for x in layers)


def dec_field(r):
    nl, z, layers, nullable = r.u64(), r.u64(), r.u64(), r.u8()
    need(z == 0 and nullable < 2, "a field has unknown properties")
    name = r.take(nl).decode()
    ls = []
    for _ in range(layers):
        ls.append(r.u64() + 1)
        need(r.u64() == 0, "a type has unknown properties")
    need(ls and all(x == LIST for x in ls[:-1]) and ls[-1] in NAME, f"the type of the field {name} is {ls}")
    return {"name": name, "type": NAME[ls[-1]], "depth": len(ls) - 1, "null": bool(nullable)}


# ------------------------------------------------------------ writing
def header(cls, spec, when):
    return b"!NAYASHO" + q(0) + q(0) + q(1) + bytes([0, 1, 1, 1, cls, spec]) + b"\0\0" + when.to_bytes(16, "little") + bytes(8)


class Journal:
    def __init__(self, cls, spec, when):
        self.parts, self.n = [header(cls, spec, when)], 64
        self.crc, self.txn, self.last = Crc(), 0, 0

    def _put(self, b):
        self.parts.append(b)
        self.n += len(b)
        self.crc.add(b)
        self.txn += 1
        self.last = self.n

    def event(self, code, body):
        self._put(self.txn.to_bytes(16, "little") + q(code | SRV) + body)

    def gns(self, code, payload):
        x = q(len(payload)) + payload
        self.event(code, q(crc64(x)) + x)

    def batch(self, pk, version, cols, expected, events):
        b = q(expected) + bytes([pk]) + q(version) + q(cols) + b"".join(events)
        if len(events) != expected:
            b += b"\x03"
        b += q(len(events))
        self.event(0, b + q(crc64(b)))

    def mark(self, kind):
        pl = struct.pack("<QQQQ", 3, self.crc.value(), self.last, self.txn - 1 if self.txn else 0)
        self._put(self.txn.to_bytes(16, "little") + q(kind) + q(crc64(pl)) + pl)

    def reopen(self):
        """The next session begins (unless this is the first)."""
        self.mark(1)
        self.mark(0)

    def close(self):
        self.mark(1)
        return b"".join(self.parts)


class Maker:
    """Makes a database, statement by statement, and keeps what it must hold in the form of refdb.World."""

    def __init__(self, root, hashes, r):
        self.r = r
        self.when = (1_700_000_000 + r.randrange(10**8)) * 10**9 + r.randrange(10**9)
        self.g = Journal(0, 0, self.when)
        self.spaces, self.models, self.props, self.users = {}, {}, {}, {}
        self.top, self.uuid = {}, {}
        self.m = {}             # full name -> [journal, columns history, transaction, pending events]
        self.path = {}
        self.n = 0
        self.stat = {}
        self.hashes = hashes
        self.g.gns(8, self.user("root", root))

    def hit(self, what):
        self.stat[what] = self.stat.get(what, 0) + 1

    def user(self, name, h):
        return q(len(name)) + q(len(h)) + q(0) + name.encode() + h

    def fresh(self, p):
        self.n += 1
        return f"{p}tx{self.n}"

    def sid(self, s):
        return self.uuid[s].bytes + q(len(s))

    def mid(self, full):
        s, m = full.split(".")
        return self.sid(s) + q(len(m)) + q(len(self.m[full]["cols"]) - 1) + self.uuid[full].bytes

    def names(self, full):
        return full.replace(".", "").encode()

    # -- properties
    def values(self, d):
        """A dictionary with values for the kinds in d."""
        return {k: self.values(v) if isinstance(v, dict) else None if v is None else gen_val(self.r, self.r.choice([t for t in SCALARS if klass(t) == v]))
                for k, v in d.items()}

    # -- statements
    def op_cspace(self, r):
        if len(self.spaces) >= 4:
            return
        s = self.fresh("s")
        env = flatten(gen_dict(r))
        top = {"env": env} if r.random() < 0.7 else {}
        if not top:
            env = {}
        self.uuid[s] = uuid.UUID(int=r.getrandbits(128), version=4)
        self.g.gns(0, q(len(s)) + self.uuid[s].bytes + q(len(top)) + s.encode() + enc_entries(self.values(top)))
        self.spaces[s], self.top[s] = set(), top
        self.hit("create space")

    def op_aspace(self, r):
        if not self.spaces:
            return
        s = r.choice(sorted(self.spaces))
        patch = {"env": None if r.random() < 0.15 else gen_dict(r)}
        new = merge(self.top[s], patch)
        if new is None:
            return
        self.g.gns(1, self.sid(s) + q(1) + s.encode() + enc_entries(self.values(patch)))
        self.top[s] = new
        self.hit("alter space")

    def op_dspace(self, r):
        if not self.spaces:
            return
        s = r.choice(sorted(self.spaces))
        if self.spaces[s] and r.random() < 0.5:
            return
        self.g.gns(2, self.sid(s) + s.encode())
        for m in self.spaces.pop(s):
            self.forget(f"{s}.{m}")
        del self.top[s]
        self.hit("drop space")

    def forget(self, full):
        del self.models[full], self.m[full], self.path[full]

    def op_cmodel(self, r):
        if not self.spaces:
            self.op_cspace(r)
        if len(self.models) >= 6 or not self.spaces:
            return
        s = r.choice(sorted(self.spaces))
        n = self.fresh("m")
        full = f"{s}.{n}"
        fs, pk, _ = gen_fields(r)
        m = RModel(s, n, [dict(f, uid=self.fresh("u")) for f in fs], pk)
        u = self.uuid[full] = uuid.UUID(int=r.getrandbits(128), version=4)
        p = pk.encode()
        self.g.gns(3, self.sid(s) + q(len(n)) + u.bytes + q(len(p)) + q(CELL[m.pkf()["type"]] - 1) + q(len(fs)) + s.encode() + n.encode() + p
                   + b"".join(map(enc_field, fs)))
        self.models[full] = m
        self.spaces[s].add(n)
        self.path[full] = f"data/{s}-{self.uuid[s]}/mdl_{n}-{u}/data.db-btlog"
        self.m[full] = {"j": Journal(1, 1, self.when + r.randrange(10**15)), "cols": [m.others()], "txn": 0, "queue": []}
        self.hit("create model")

    def pick(self, r, pred=lambda m: True):
        c = [k for k in sorted(self.models) if pred(self.models[k])]
        return r.choice(c) if c else None

    def op_dmodel(self, r):
        full = self.pick(r)
        if full is None:
            return
        self.g.gns(7, self.mid(full) + self.names(full))
        s, n = full.split(".")
        self.spaces[s].discard(n)
        self.forget(full)
        self.hit("drop model")

    def op_add(self, r):
        full = self.pick(r, lambda m: len(m.fields) <= 10)
        if full is None:
            return
        m = self.models[full]
        used = {f["name"] for f in m.fields}
        c = r.sample([x for x in WORDS if x not in used], r.choice([1, 1, 2, 3]))
        back = [x for x in m.removed if x not in used and x not in c]
        if back and r.random() < 0.5:
            c[0] = r.choice(back)
        new = [{"name": x, "type": r.choice(TYPES), "depth": r.choice([0, 0, 0, 1, 2]), "null": r.random() < 0.7, "uid": self.fresh("u")} for x in c]
        self.g.gns(4, self.mid(full) + q(len(new)) + self.names(full) + b"".join(map(enc_field, new)))
        for f in new:
            self.m[full]["cols"].append(self.m[full]["cols"][-1] + [f])
            m.fields.append(f)
            for row in m.rows.values():
                row[f["name"]] = NULL
        m.altered = True
        self.hit("alter add")

    def op_remove(self, r):
        full = self.pick(r, lambda m: m.others())
        if full is None:
            return
        m = self.models[full]
        o = [f["name"] for f in m.others()]
        rm = r.sample(o, min(len(o), r.choice([1, 1, 2, 3])))
        self.g.gns(5, self.mid(full) + q(len(rm)) + self.names(full) + b"".join(q(len(x)) + x.encode() for x in rm))
        for x in rm:
            self.m[full]["cols"].append([f for f in self.m[full]["cols"][-1] if f["name"] != x])
            m.fields = [f for f in m.fields if f["name"] != x]
            for row in m.rows.values():
                row.pop(x, None)
        m.removed += rm
        m.altered = True
        self.hit("alter remove")

    def op_widen(self, r):
        full = self.pick(r, lambda m: m.others())
        if full is None:
            return
        m = self.models[full]
        o = m.others()
        W = {"uint": SCALARS[1:5], "sint": SCALARS[5:9], "float": SCALARS[9:11]}
        new = []
        for f in r.sample(o, min(len(o), r.choice([1, 1, 2, 3]))):
            ts = W.get(klass(f["type"]), [f["type"]])
            new.append(dict(f, type=r.choice(ts[ts.index(f["type"]):]), null=f["null"] or r.random() < 0.4))
        self.g.gns(6, self.mid(full) + q(len(new)) + self.names(full) + b"".join(map(enc_field, new)))
        by = {f["name"]: f for f in new}
        m.fields = [by.get(f["name"], f) for f in m.fields]
        cols = self.m[full]["cols"]
        cols[-1] = [by.get(f["name"], f) for f in cols[-1]]
        m.altered = True
        self.hit("alter update")

    def op_user(self, r):
        n = r.choice(["alice", "Alice", "bob", "u_1", "x" * 40, "rootx"])
        if n in self.users and r.random() < 0.3:
            self.g.gns(10, q(len(n)) + n.encode())
            del self.users[n]
            self.hit("drop user")
        else:
            pw, h = r.choice(self.hashes)
            self.g.gns(9 if n in self.users else 8, self.user(n, h))
            self.hit("alter user" if n in self.users else "create user")
            self.users[n] = pw

    # -- rows
    def key_bytes(self, m, v):
        return q(len(v.v)) + v.v if klass(v.t) in ("bin", "str") else enc_qw(v.t, v.v)

    def row(self, full, kind, key, row=None):
        """One change of a batch; unless a deletion, with the columns of the current declaration."""
        st = self.m[full]
        m = self.models[full]
        t = st["txn"]
        st["txn"] += self.r.choice([1, 1, 1, 2, 7])      # identifiers have gaps
        b = bytes([kind]) + q(t) + self.key_bytes(m, key)
        return (t, kv(key), b + b"".join(enc_cell(row[f["name"]]) for f in m.others()) if kind else b)

    def op_batch(self, r):
        """A batch: rows inserted, updated and deleted since the last one, as the server would have written them."""
        full = self.pick(r)
        if full is None:
            return
        m, st = self.models[full], self.m[full]
        evs, ups, extra = [], {}, 0
        for _ in range(r.choice([0, 1, 1, 2, 3, 5, 8, 20, 60])):
            k = r.random()
            if m.rows and k < 0.2:
                x = r.choice(list(m.rows))
                row = m.rows.pop(x)
                evs.append(("del", self.row(full, 0, row[m.pk])))
            elif m.rows and k < 0.45:
                x = r.choice(list(m.rows))
                row = m.rows[x]
                for f in m.others():
                    if r.random() < 0.6:
                        row[f["name"]] = gen_field_val(r, f)
                evs.append(("up", self.row(full, 2, row[m.pk], row)))
            else:
                key = gen_val(r, m.pkf()["type"], r.random() < 0.6)
                if kv(key) in m.rows:
                    continue
                row = {f["name"]: gen_field_val(r, f) for f in m.fields}
                row[m.pk] = key
                m.rows[kv(key)] = row
                # a stored row that was changed at once is written as a change alone
                evs.append(("up", self.row(full, r.choice([1, 1, 1, 2]), key, row)))
        # concurrent clients: a deletion may be recorded earlier or later than it took place
        for i in range(len(evs) - 1):
            if r.random() < 0.15 and "del" in (evs[i][0], evs[i + 1][0]):
                evs[i], evs[i + 1] = evs[i + 1], evs[i]
                self.hit("recorded out of order")
        # what was overtaken by a later change may be missing, the batch ends early then
        if r.random() < 0.2:
            extra = r.choice([1, 2, 300])
            self.hit("early end")
        if not evs and not extra:
            return
        st["j"].batch(KEYTAG[klass(m.pkf()["type"])], len(st["cols"]) - 1, len(m.others()), len(evs) + extra, [e[1][2] for e in evs])
        self.hit("batch")
        if evs:
            self.hit("rows")

    def op_session(self, r):
        """The server was stopped and started again."""
        self.g.reopen()
        for st in self.m.values():
            st["j"].reopen()
        self.hit("session")

    def do(self, op):
        self.r = Random(op["s"])
        getattr(self, "op_" + op["o"])(self.r)

    def dirs(self):
        """Every space has a directory, even without models."""
        return [f"data/{s}-{self.uuid[s]}" for s in self.spaces]

    def files(self):
        out = {"gns.db-tlog": self.g.close()}
        for full, st in self.m.items():
            out[self.path[full]] = st["j"].close()
        return out


# ------------------------------------------------------------ reading
def read_header(b, cls, spec, what):
    need(len(b) >= 64, f"{what}: no complete header")
    need(b[:16] == b"!NAYASHO" + bytes(8), f"{what}: the header begins with {b[:16]!r}")
    need(b[24:40] == q(1) + bytes([0, 1, 1, 1, cls, spec, 0, 0]), f"{what}: the header has {b[24:40].hex()} from byte 24 on")
    need(b[56:64] == bytes(8), f"{what}: the padding of the header is {b[56:64].hex()}")
    return int.from_bytes(b[40:56], "little")


def read_events(b, what, body):
    """[(code, payload)] of the events in all sessions; `body(r)` reads what follows the meta of an event."""
    r, crc, txn, last, fed = Rd(b, 64), Crc(), 0, 0, 64
    out, sessions, state = [], 1, "open"
    while not r.eof():
        at = r.i
        i = int.from_bytes(r.take(16), "little")
        need(i == txn, f"{what}: event {i} stands where {txn} should")
        meta = r.u64()
        if meta & SRV:
            need(state == "open", f"{what}: event {i} is outside of a session")
            out.append((meta & ~SRV, body(r)))
        else:
            ck, plen, lck, off, lid = (r.u64() for _ in range(5))
            need(crc64(b[at + 32:at + 64]) == ck and plen == 3, f"{what}: session mark {i} has a wrong checksum or length")
            crc.add(b[fed:at])
            fed = at
            need(lck == crc.value(), f"{what}: session mark {i} records another checksum of what precedes it")
            need(off == last, f"{what}: session mark {i} records {off} as the end of the last event ({last})")
            need(lid == max(txn - 1, 0), f"{what}: session mark {i} records {lid} as the last event")
            need((meta, state) in ((1, "open"), (0, "closed")), f"{what}: a session mark of the kind {meta} while {state}")
            state = "closed" if meta else "open"
            sessions += meta == 0
        txn += 1
        last = r.i
    need(state == "closed", f"{what}: not closed")
    return out, sessions


def gns_body(r):
    ck = r.u64()
    at = r.i
    pl = r.take(r.u64())
    need(crc64(r.b[at:r.i]) == ck, "namespace log: wrong checksum of an event")
    return pl


def batch_body(r):
    at = r.i
    expected, tag, ver, cols = r.u64(), r.u8(), r.u64(), r.u64()
    need(tag < 4, f"a batch has keys of the kind {tag}")
    evs = []
    while len(evs) != expected:
        kind = r.u8()
        if kind == 3:
            break
        need(kind < 3, f"a change of the kind {kind}")
        t = r.u64()
        if tag < 2:
            k = r.u64() if tag == 0 else struct.unpack("<q", r.take(8))[0]
        else:
            k = r.take(r.u64())
        evs.append((kind, t, k, [dec_body(r, r.u8()) for _ in range(cols)] if kind else None))
    need(r.u64() == len(evs), "a batch records another number of changes than it holds")
    ck = crc64(r.b[at:r.i])
    need(r.u64() == ck, "wrong checksum of a batch")
    return tag, ver, cols, evs


class Db:
    """What the files of a database hold."""

    def __init__(self, files):
        self.top, self.spaces, self.models, self.users, self.uuid = {}, {}, {}, {}, {}
        self.hist, self.sessions, self.batches = {}, 0, 0
        g = files["gns.db-tlog"]
        read_header(g, 0, 0, "namespace log")
        evs, self.sessions = read_events(g, "namespace log", gns_body)
        for code, pl in evs:
            need(code <= 10, f"namespace log: an event of the kind {code}")
            r = Rd(pl)
            getattr(self, f"e{code}")(r)
            need(r.eof(), f"namespace log: an event of the kind {code} has {len(pl) - r.i} bytes too many")
        want = {}
        for full, m in self.models.items():
            want[f"data/{m.space}-{self.uuid[m.space]}/mdl_{m.name}-{self.uuid[full]}/data.db-btlog"] = full
        self.stray = sorted(p for p in files if p != "gns.db-tlog" and p not in want)
        for p, full in want.items():
            need(p in files, f"there is no file {p}")
            self.rows(full, files[p])

    def sid(self, r):
        return uuid.UUID(bytes=r.take(16)), r.u64()

    def known(self, u, s):
        need(s in self.spaces and self.uuid[s] == u, f"an event names the space {s} ({u}), which does not exist")

    def e0(self, r):
        n, u, props = r.u64(), uuid.UUID(bytes=r.take(16)), r.u64()
        s = r.take(n).decode()
        need(s not in self.spaces, f"the space {s} is created twice")
        self.uuid[s], self.spaces[s] = u, set()
        self.top[s] = flatten(dec_entries(r, props))

    def e1(self, r):
        u, n = self.sid(r)
        c = r.u64()
        s = r.take(n).decode()
        self.known(u, s)
        patch = dec_entries(r, c)
        new = merge(self.top[s], patch)
        need(new is not None, f"a change of the properties of {s} ({patch}) does not fit {self.top[s]}")
        self.top[s] = new

    def e2(self, r):
        u, n = self.sid(r)
        s = r.take(n).decode()
        self.known(u, s)
        for m in self.spaces.pop(s):
            del self.models[f"{s}.{m}"]

    def e3(self, r):
        u, n = self.sid(r)
        mn, mu, kl, kt, fc = r.u64(), uuid.UUID(bytes=r.take(16)), r.u64(), r.u64(), r.u64()
        s, m, pk = r.take(n).decode(), r.take(mn).decode(), r.take(kl).decode()
        self.known(u, s)
        fs = [dict(dec_field(r), uid=(0, i)) for i in range(fc)]
        need(m not in self.spaces[s], f"the model {s}.{m} is created twice")
        x = RModel(s, m, fs, pk)
        need([f["type"] for f in fs if f["name"] == pk] == [NAME.get(kt + 1)], f"the key of the model {s}.{m} is not one of its fields")
        self.models[x.full] = x
        self.spaces[s].add(m)
        self.uuid[x.full] = mu
        self.hist[x.full] = [x.others()]

    def mid(self, r):
        u, n = self.sid(r)
        return u, n, r.u64(), r.u64(), uuid.UUID(bytes=r.take(16))

    def named(self, r, md):
        u, n, mn, ver, mu = md
        s, m = r.take(n).decode(), r.take(mn).decode()
        self.known(u, s)
        full = f"{s}.{m}"
        need(full in self.models and self.uuid[full] == mu, f"an event names the model {full} ({mu}), which does not exist")
        need(ver == len(self.hist[full]) - 1, f"an event names version {ver} of the model {full}, which is at {len(self.hist[full]) - 1}")
        return self.models[full], self.hist[full]

    def e4(self, r):
        md = self.mid(r)
        c = r.u64()
        m, h = self.named(r, md)
        for i in range(c):
            f = dict(dec_field(r), uid=(len(h), i))
            need(f["name"] not in [x["name"] for x in m.fields], f"the field {f['name']} is added twice")
            m.fields.append(f)
            h.append(h[-1] + [f])

    def e5(self, r):
        md = self.mid(r)
        c = r.u64()
        m, h = self.named(r, md)
        for _ in range(c):
            n = r.take(r.u64()).decode()
            need(n in [x["name"] for x in m.others()], f"the field {n} is removed but not there")
            m.fields = [x for x in m.fields if x["name"] != n]
            h.append([x for x in h[-1] if x["name"] != n])

    def e6(self, r):
        md = self.mid(r)
        c = r.u64()
        m, h = self.named(r, md)
        for _ in range(c):
            f = dec_field(r)
            i = [x["name"] for x in m.fields]
            need(f["name"] in i, f"the field {f['name']} is changed but not there")
            i = i.index(f["name"])
            f["uid"] = m.fields[i]["uid"]
            m.fields[i] = f

    def e7(self, r):
        m, _ = self.named(r, self.mid(r))
        self.spaces[m.space].discard(m.name)
        del self.models[m.full]

    def _user(self, r, exists):
        n, h, z = r.u64(), r.u64(), r.u64()
        need(z == 0, "an account has unknown properties")
        n = r.take(n).decode()
        need((n in self.users) == exists, f"the account {n} is {'changed but not there' if exists else 'created twice'}")
        self.users[n] = r.take(h)

    def e8(self, r):
        self._user(r, False)

    def e9(self, r):
        self._user(r, True)

    def e10(self, r):
        n = r.take(r.u64()).decode()
        need(self.users.pop(n, None) is not None, f"the account {n} is removed but not there")

    def rows(self, full, b):
        m, h = self.models[full], self.hist[full]
        read_header(b, 1, 1, full)
        evs, _ = read_events(b, full, batch_body)
        pt = m.pkf()["type"]
        rows = {}
        for code, (tag, ver, cols, changes) in evs:
            need(code == 0, f"{full}: an event of the kind {code}")
            need(tag == KEYTAG[klass(pt)], f"{full}: a batch with keys of the kind {tag}")
            need(ver < len(h), f"{full}: a batch of version {ver}, the model is at {len(h) - 1}")
            need(cols == len(h[ver]), f"{full}: a batch of version {ver} with {cols} columns instead of {len(h[ver])}")
            gone = {}
            for kind, t, k, cells in changes:
                if kind == 0:
                    gone[k] = max(t, gone.get(k, 0))
                else:
                    need(k not in rows or rows[k][0] in (0, t) or rows[k][0] < t, f"{full}: an older change of a row follows a newer one")
                    rows[k] = (t, {f["uid"]: c for f, c in zip(h[ver], cells)})
            for k, t in gone.items():
                if k in rows and rows[k][0] <= t:
                    del rows[k]
            self.batches += 1
        for k, (_, cells) in rows.items():
            key = V(pt, k)
            row = {f["name"]: cells.get(f["uid"], NULL) for f in m.others()}
            row[m.pk] = key
            m.rows[kv(key)] = row
