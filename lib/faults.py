"""File faults, synchronisation tracking, a faster clock and a small memory for one skyd (through lib/shim.c)."""
import ctypes, errno, hashlib, mmap, os, random, struct, subprocess, tempfile
import build as buildmod
from sky import *

OPS = ("write", "fsync", "create", "open", "mkdir", "trunc", "seek", "unlink", "read", "rename")
BIT = {o: 1 << i for i, o in enumerate(OPS)}
NRULES, NFILES, PLEN = 16, 2048, 232


class Rule(ctypes.Structure):
    _fields_ = [("active", ctypes.c_uint32), ("opmask", ctypes.c_uint32), ("skip", ctypes.c_uint32), ("count", ctypes.c_uint32),
                ("err", ctypes.c_int32), ("keep", ctypes.c_int32), ("seen", ctypes.c_uint32), ("hits", ctypes.c_uint32),
                ("pend", ctypes.c_uint32), ("pad", ctypes.c_uint32), ("sub", ctypes.c_char * 88)]


class FileState(ctypes.Structure):
    _fields_ = [("path", ctypes.c_char * PLEN), ("synced", ctypes.c_uint64), ("dirty", ctypes.c_uint64), ("osync", ctypes.c_uint64)]


class CtlMem(ctypes.Structure):
    _fields_ = [("lock", ctypes.c_uint32), ("enabled", ctypes.c_uint32), ("counts", ctypes.c_uint64 * 16), ("faults", ctypes.c_uint64),
                ("nfiles", ctypes.c_uint32), ("overflow", ctypes.c_uint32), ("rules", Rule * NRULES), ("files", FileState * NFILES)]


def shim():
    """Path of the compiled shim (compiled once per version of its source)."""
    src = os.path.join(os.path.dirname(os.path.abspath(__file__)), "shim.c")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:12]
    d = os.path.join(buildmod.BUILD, "bin")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, f"shim-{h}.so")
    if not os.path.exists(out):
        fd, tmp = tempfile.mkstemp(dir=d, suffix=".so")
        os.close(fd)
        subprocess.run(["gcc", "-O2", "-shared", "-fPIC", "-o", tmp, src, "-ldl", "-lpthread"], check=True)
        os.chmod(tmp, 0o755)
        os.replace(tmp, out)
    return out


def flushing(speed=1, ram=0):
    """Arguments for a server whose service windows pass faster and whose memory seems small, so that rows are written often and early."""
    if speed == 1 and not ram:
        return {}
    e = {"LD_PRELOAD": shim(), "SHIM_SPEED": str(speed)}
    if ram:
        e["SHIM_FREERAM"] = str(ram)
    return {"env": e}


# kinds of servers: most flush rarely, some all the time
FLUSH = [(1, 0)] * 3 + [(1, 1), (1, 8000), (1, 60000), (20, 0), (40, 8000)]


class Heap:
    """How many bytes a server has allocated (asks its allocator, through the shim)."""

    def __init__(self, exe):
        self.off = None
        for l in subprocess.run(["nm", exe], capture_output=True, text=True).stdout.splitlines():
            if l.endswith(" _rjem_mallctl") or l.endswith(" mallctl"):
                self.off = l.split()[0]
        fd, self.path = tempfile.mkstemp(prefix="skyv-heap-", dir=scratch_root())
        os.ftruncate(fd, 4096)
        self.mm = mmap.mmap(fd, 4096)
        os.close(fd)
        self.m = (ctypes.c_uint64 * 4).from_buffer(self.mm)

    def env(self):
        return {"SHIM_HEAP": f"{self.path},{self.off}", "_RJEM_MALLOC_CONF": "tcache:false"} if self.off else {}

    def bytes(self, timeout=30):
        if not self.off:
            return None
        self.m[0] += 1
        end = time.time() + timeout
        while self.m[1] != self.m[0]:
            if time.time() > end:
                return None
            time.sleep(0.002)
        return None if self.m[3] else self.m[2]

    def close(self):
        os.unlink(self.path)
        del self.m
        self.mm.close()


class Ctl:
    """Shared memory with the shim inside of the server(s) started with `env()`."""

    def __init__(self):
        fd, self.path = tempfile.mkstemp(prefix="skyv-ctl-", dir=scratch_root())
        os.ftruncate(fd, ctypes.sizeof(CtlMem))
        self.mm = mmap.mmap(fd, ctypes.sizeof(CtlMem))
        os.close(fd)
        self.m = CtlMem.from_buffer(self.mm)

    def env(self, speed=1, ram=None):
        e = {"LD_PRELOAD": shim(), "SHIM_CTL": self.path, "SHIM_SPEED": str(speed)}
        if ram:
            e["SHIM_FREERAM"] = str(ram)
        return e

    def arm(self, rules):
        """rules: [{ops, sub, skip, count, err, keep}]"""
        self.m.enabled = 0
        for i in range(NRULES):
            self.m.rules[i].active = 0
        for i, x in enumerate(rules[:NRULES]):
            r = self.m.rules[i]
            r.opmask = sum(BIT[o] for o in x["ops"])
            r.skip, r.count, r.err = x.get("skip", 0), x.get("count", 1), x.get("err", errno.EIO)
            r.keep, r.seen, r.hits, r.pend = x.get("keep", -1), 0, 0, 0
            r.sub = x.get("sub", "").encode()
            r.active = 1
        self.m.enabled = 1

    def heal(self):
        self.m.enabled = 0
        for i in range(NRULES):
            self.m.rules[i].active = 0
            self.m.rules[i].pend = 0

    def hits(self):
        return self.m.faults

    def count(self, op):
        return self.m.counts[OPS.index(op)]

    def files(self):
        """{relative path: (synchronised length, written since)}"""
        n = self.m.nfiles
        return {self.m.files[i].path.decode(): (self.m.files[i].synced, bool(self.m.files[i].dirty)) for i in range(n)}

    def close(self):
        try:
            os.unlink(self.path)
        except OSError:
            pass


# ------------------------------------------------------------ journals
_T = []


def _table():
    # CRC-64/XZ as used by server/src/engine/storage/common/checksum.rs
    if not _T:
        for i in range(256):
            c = i
            for _ in range(8):
                c = (c >> 1) ^ 0xC96C5795D7870F42 if c & 1 else c >> 1
            _T.append(c)
    return _T


def crc64(b, c=0):
    t = _table()
    c ^= 0xFFFFFFFFFFFFFFFF
    for x in b:
        c = t[(c ^ x) & 0xFF] ^ (c >> 8)
    return c ^ 0xFFFFFFFFFFFFFFFF


def _u64(b, i):
    return struct.unpack_from("<Q", b, i)[0]


def parse_journal(b, batch, hdr=None):
    """The complete events at the front of a journal: (end offset, next txn id, offset of the last event's end or 0, closed, kinds)."""
    hdr = HDR if hdr is None else hdr
    o, txn, last, kinds = hdr, 0, 0, []
    n = len(b)
    while True:
        if o + 24 > n:
            break
        t = int.from_bytes(b[o:o + 16], "little")
        meta = _u64(b, o + 16)
        if t != txn:
            break
        if meta >> 63:
            p = o + 24
            if not batch:
                if p + 16 > n or p + 16 + _u64(b, p + 8) > n:
                    break
                e = p + 16 + _u64(b, p + 8)
                if crc64(b[p + 8:e]) != _u64(b, p):
                    break
            else:
                e = _batch_end(b, p)
                if e is None:
                    break
            kinds.append("event")
        else:
            e = o + 64
            if e > n or meta > 1 or crc64(b[o + 32:e]) != _u64(b, o + 24):
                break
            kinds.append("closed" if meta == 1 else "reopened")
        o, last = e, e
        txn += 1
    return o, txn, last, bool(kinds) and kinds[-1] == "closed", kinds


def _batch_end(b, p):
    """End of the batch whose body starts at p: the body is followed by its own checksum and ends in the number of its rows."""
    t = _table()
    n = len(b)
    c = 0xFFFFFFFFFFFFFFFF
    want = _u64(b, p) if p + 8 <= n else 0
    for i in range(p, n):
        c = t[(c ^ b[i]) & 0xFF] ^ (c >> 8)
        if i - p >= 32 and i + 9 <= n and (c ^ 0xFFFFFFFFFFFFFFFF) == _u64(b, i + 1) and _u64(b, i - 7) <= want:
            return i + 9
    return None


HDR = 64


def close_journal(b, batch, hdr=None):
    """What a graceful shutdown would have left, had nothing been written after these bytes: the complete events, then a close event."""
    hdr = HDR if hdr is None else hdr
    if len(b) < hdr:
        return b
    end, txn, last, closed, _ = parse_journal(b, batch, hdr)
    if closed:
        return b[:end]
    b = b[:end]
    pl = struct.pack("<QQQQ", 3, crc64(b[hdr:]), last, txn - 1 if txn else 0)
    return b + txn.to_bytes(16, "little") + struct.pack("<QQ", 1, crc64(pl)) + pl


def synced_files(d, ctl):
    """{relative path: the part of the file that is certain to survive a crash now} of the files still there (None: too much is going on)."""
    files = ctl.files()
    for _ in range(1000):
        out = {}
        for p, (n, _) in files.items():
            try:
                with open(os.path.join(d, p), "rb") as f:
                    out[p] = f.read(n)
            except OSError:
                pass
        now = ctl.files()
        if {p: x[0] for p, x in now.items()} == {p: x[0] for p, x in files.items()}:
            return out   # nothing was synchronised while these files were read
        files = now
    return None


def crashed(files):
    """These files with every journal closed after its last complete event."""
    return {p: close_journal(b, "gns" not in p.split("/")[-1]) for p, b in files.items() if len(b) >= HDR or "gns" in p}
