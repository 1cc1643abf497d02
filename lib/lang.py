"""BlueQL vocabulary, statement templates and value generators."""
import struct
from sky import V, P, NULL

KEYWORDS = """sysctl create alter drop use inspect describe insert select update delete exists table model space
index type function rename add remove transform set return order sort group limit asc desc all by with on from into as
to in of and or not if else where when allow auto default null transaction batch lock read write begin end key value
primary truncate""".split()
SYMBOLS = list("+-*/!&^|=()[]{}<>@#$%\\:;,.?~`'\"")
TYPES = ["bool", "uint8", "uint16", "uint32", "uint64", "sint8", "sint16", "sint32", "sint64", "float32", "float64",
         "binary", "string"]
URANGE = {"uint8": 2**8 - 1, "uint16": 2**16 - 1, "uint32": 2**32 - 1, "uint64": 2**64 - 1}
SRANGE = {"sint8": 2**7, "sint16": 2**15, "sint32": 2**31, "sint64": 2**63}
F32MAX = struct.unpack("<f", struct.pack("<I", 0x7F7FFFFF))[0]
KEYTYPES = ["uint8", "uint16", "uint32", "uint64", "sint8", "sint16", "sint32", "sint64", "binary", "string"]
WORDS = ["a", "b", "c", "d", "e", "f", "g", "h", "user", "pass", "email", "tags", "Alpha", "Beta_1", "_x", "x9", "zz",
         "data", "hello", "world", "longer_field_name_with_many_chars", "q1", "q2", "q3", "q4"]


KLASS = {"bool": "bool", "binary": "bin", "string": "str", "list": "list", "null": "list",
         **{x: "uint" for x in URANGE}, **{x: "sint" for x in SRANGE}, "float32": "float", "float64": "float"}
klass = KLASS.__getitem__


def f8(x):
    return struct.pack("<d", x)


def unf8(b):
    return struct.unpack("<d", b)[0]


# ------------------------------------------------------------ value generation
INTERESTING_STR = ["", " ", "'", '"', "\\", "a'b\"c", "?", "\n", "\r\n", "\t", "\0", "null", "select * from s", "/*x*/",
                   "é", "日本語", "\U0001F600", "a\u0301", "\u202e", "ÿ", "1", "-1", "1.5", "[", "{", ";--", "x" * 300]


def gen_text(r):
    k = r.random()
    if k < 0.3:
        return r.choice(INTERESTING_STR)
    n = r.choice([1, 2, 3, 5, 8, 13, 40]) if r.random() < 0.97 else r.choice([255, 256, 1000, 5000])
    if k < 0.75:
        return "".join(r.choice("abcdefghijklmnopqrstuvwxyzABC 0123456789_-.") for _ in range(n))
    return "".join(chr(r.choice([r.randrange(0x20, 0x7f), r.randrange(0xa0, 0x250), r.randrange(0x4e00, 0x4f00),
                                 r.randrange(0x1f300, 0x1f600), r.randrange(0, 0x20)])) for _ in range(n))


def gen_bytes(r):
    k = r.random()
    if k < 0.2:
        return r.choice([b"", b"\n", b"\0", b"\xff" * 3, b"\xc3\x28", b"5\nhello", b"\x06", bytes(range(256))])
    n = r.choice([1, 2, 3, 7, 16, 33]) if r.random() < 0.95 else r.choice([255, 256, 1000, 4096])
    return r.randbytes(n)


def gen_uint(r, mx):
    k = r.random()
    if k < 0.35:
        return r.choice([0, 1, 2, mx, mx - 1, mx // 2, mx // 2 + 1, 9, 10, 99, 100])
    if k < 0.7:
        return r.randrange(0, min(mx, 1000) + 1)
    return r.getrandbits(r.randrange(1, mx.bit_length() + 1)) & mx


def gen_sint(r, lim):
    k = r.random()
    if k < 0.35:
        return r.choice([0, 1, -1, lim - 1, -lim, lim - 2, -lim + 1, -10, 10])
    if k < 0.7:
        return r.randrange(-min(lim, 1000), min(lim, 1000))
    v = r.getrandbits(r.randrange(1, lim.bit_length()))
    return v if r.random() < 0.5 else -v


def gen_float(r, t):
    k = r.random()
    if k < 0.4:
        c = [0.0, -0.0, 1.0, -1.0, 0.1, 1 / 3, 1e-7, 123456.789, 1e15, 1e16, 1e21, 5e-324, 2.2250738585072014e-308,
             F32MAX, -F32MAX, 1.401298464324817e-45, 16777217.0, 9007199254740993.0]
        if t == "float64":
            c += [1.7976931348623157e308, -1.7976931348623157e308, 1e300, 3.5e38]
        return r.choice(c)
    if k < 0.7:
        return r.uniform(-1000, 1000)
    while True:
        f = struct.unpack("<d", r.randbytes(8))[0]
        if f == f and abs(f) != float("inf") and (t == "float64" or abs(f) <= F32MAX):
            return f


def gen_val(r, t, small=False):
    """A valid value of declared scalar type t."""
    k = klass(t)
    if k == "bool":
        return V(t, r.random() < 0.5)
    if k == "uint":
        return V(t, r.randrange(0, 12) if small else gen_uint(r, URANGE[t]))
    if k == "sint":
        return V(t, r.randrange(-6, 6) if small else gen_sint(r, SRANGE[t]))
    if k == "float":
        return V(t, f8(gen_float(r, t)))
    if k == "bin":
        return V(t, r.choice([b"", b"k", b"kk", b"\0", b"\xff\xfe", b"key3"]) if small else gen_bytes(r))
    return V(t, (r.choice(["", "k", "kk", "K", "é", "key3"]) if small else gen_text(r)).encode())


def gen_list(r, depth, t, maxn=4):
    """A valid list value; depth >= 1 levels around scalar type t."""
    if depth > 3:
        n = r.choice([0, 1, 1, 1, 1, 2]) if depth % 2 else 1
    else:
        n = r.choice([0, 1, 1, 2, 3, maxn])
    if depth == 1:
        return V("list", [gen_val(r, t) for _ in range(n)])
    return V("list", [gen_list(r, depth - 1, t, maxn) for _ in range(n)])


def gen_field_val(r, f, small=False):
    if f["null"] and r.random() < 0.2:
        return NULL
    if f["depth"]:
        return gen_list(r, f["depth"], f["type"])
    return gen_val(r, f["type"], small)


# ------------------------------------------------------------ rendering
def param(v):
    """A typed scalar as a query parameter."""
    k = klass(v.t) if v.t != "null" else "null"
    if k == "float":
        return P("float", repr(unf8(v.v)).encode())
    return P(k, v.v)


def render(v, params, r=None):
    """Query text for a value; parameters are appended to `params`."""
    if v.t == "null":
        return "null"
    if v.t == "list":
        return "[" + ",".join(render(x, params, r) for x in v.v) + "]"
    if v.t == "bool" and r is not None and r.random() < 0.5:
        return "true" if v.v else "false"
    params.append(param(v))
    return "?"


def type_text(f):
    return "list { type: " * f["depth"] + f["type"] + " }" * f["depth"]


def decl_name(t):
    return {"bool": "Bool", "binary": "Binary", "string": "String"}.get(
        t, t.replace("uint", "UInt").replace("sint", "SInt").replace("float", "Float"))


def decl(fields, pk):
    """The canonical declaration that INSPECT MODEL reports."""
    out = []
    for f in fields:
        m = "*" if f["name"] == pk else "?" if f["null"] else "!"
        out.append(f"{m}{f['name']}:" + "[" * f["depth"] + decl_name(f["type"]) + "]" * f["depth"])
    return "{" + ",".join(out) + "}"


def gen_fields(r, maxn=6, keytypes=KEYTYPES, types=TYPES, lists=True):
    """A model definition: (fields, primary key name, create clause)."""
    n = r.choice([0, 1, 2, 2, 3, 4, maxn])
    names = r.sample(WORDS, n + 1)
    fields = [{"name": names[0], "type": r.choice(keytypes), "depth": 0, "null": False}]
    for x in names[1:]:
        d = r.choice([1, 1, 1, 2, 3]) if lists and r.random() < 0.25 else 0
        fields.append({"name": x, "type": r.choice(types), "depth": d, "null": r.random() < 0.4})
    pk = fields[0]["name"]
    explicit = r.random() < 0.4
    if explicit:
        r.shuffle(fields)
    parts = []
    for f in fields:
        pre = "primary " if explicit and f["name"] == pk else "null " if f["null"] else ""
        parts.append(f"{pre}{f['name']}: {type_text(f)}")
    return fields, pk, ", ".join(parts)
