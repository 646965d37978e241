"""Independent codec of clibri's wire format, the value model, and the token text format
used to talk to the generated drivers.

Values: int | float bits (int) | bool | str | list | None / ("S", v) for optional |
struct -> list of field values | enum -> (index, value)
"""
import math, random, struct

SIZES = {"bool": 1, "i8": 1, "u8": 1, "i16": 2, "u16": 2, "i32": 4, "u32": 4, "i64": 8, "u64": 8, "f32": 4, "f64": 8}
RANGE = {"i8": (-2**7, 2**7 - 1), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1),
         "u8": (0, 2**8 - 1), "u16": (0, 2**16 - 1), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1)}


# ---------------------------------------------------------------- values
def rand_str(r, long=False):
    k = r.random()
    if k < 0.12:
        return ""
    if k < 0.2:
        return r.choice(["\u0000", "\ufeffbom", "a\u0000b", "\ud7ff\ue000", "\U0001F600" * 3, "\u202e", "é", "\uffff", "\U0010ffff", " ", "\n", "e\u0301", "\u212b", "a\r\nb", " a ", "\u1e9b\u0323\ufb01"])
    n = r.choice([1, 2, 5, 17, 63, 255, 256, 300]) if not long else r.choice([65535, 65536, 70001])
    alpha = r.choice(["abc", "aé€😀\n\t\"\\", "0123456789", "\ufeff日本語", "e\u0301\u212bA\u030a\r\n"])
    return "".join(r.choice(alpha) for _ in range(n))


def rand_int(r, t):
    lo, hi = RANGE[t]
    k = r.random()
    if k < 0.35:
        return r.choice([lo, hi, 0, 1, lo + 1, hi - 1] + ([-1] if lo < 0 else []))
    if k < 0.5:
        b = 1 << r.randint(0, hi.bit_length() - 1)
        return min(hi, max(lo, b + r.choice([-1, 0, 1])))
    return r.randint(lo, hi)


F32S = [0, 0x80000000, 0x7f800000, 0xff800000, 0x7fc00000, 0x00000001, 0x007fffff, 0x00800000, 0x7f7fffff, 0x3f800000, 0xbf800000]
F64S = [0, 1 << 63, 0x7ff0000000000000, 0xfff0000000000000, 0x7ff8000000000000, 1, 0x000fffffffffffff, 0x0010000000000000,
        0x7fefffffffffffff, 0x3ff0000000000000, 0xbff0000000000000]


def canon_float(t, bits):
    if t == "f32":
        if (bits & 0x7f800000) == 0x7f800000 and bits & 0x7fffff:
            return 0x7fc00000
    else:
        if (bits & 0x7ff0000000000000) == 0x7ff0000000000000 and bits & 0xfffffffffffff:
            return 0x7ff8000000000000
    return bits


def is_finite(t, bits):
    return (bits & 0x7f800000) != 0x7f800000 if t == "f32" else (bits & 0x7ff0000000000000) != 0x7ff0000000000000


def take_long(r, p):
    """at most three huge members per value"""
    if getattr(r, "longs", 0) <= 0 or r.random() >= p:
        return False
    r.longs -= 1
    return True


def rand_prim(r, t, long=False):
    if t == "bool":
        return r.random() < 0.5
    if t == "str":
        return rand_str(r, long and take_long(r, 0.5))
    if t in ("f32", "f64"):
        while True:
            v = canon_float(t, r.choice(F32S if t == "f32" else F64S) if r.random() < 0.5 else r.getrandbits(32 if t == "f32" else 64))
            if getattr(r, "finite", False) and not is_finite(t, v):
                continue
            return v
    return rand_int(r, t)


def rand_ent(r, e, depth=0, long=False):
    if depth == 0:
        r.longs = 3 if long else 0
    if e.kind == "struct":
        return [rand_field(r, f, depth + 1, long) for f in e.fields]
    i = r.randrange(len(e.fields))
    return (i, rand_field(r, e.fields[i], depth + 1, long))


def rand_one(r, f, depth, long):
    if f.ty.ref is not None:
        return rand_ent(r, f.ty.ref, depth, long)
    return rand_prim(r, f.ty.prim, long)


def rand_field(r, f, depth=0, long=False):
    if f.opt and r.random() < 0.4:
        return None
    if f.rep:
        n = r.choice([0, 1, 2, 3, 5]) if depth < 3 else r.choice([0, 1, 2])
        if long and f.ty.ref is None and take_long(r, 0.4):
            n = r.choice([255, 256, 65535, 65537]) if f.ty.prim != "str" else 300
        v = [rand_one(r, f, depth, long and n < 4) for _ in range(n)]
    else:
        v = rand_one(r, f, depth, long)
    return ("S", v) if f.opt else v


# ---------------------------------------------------------------- encoding
def enc_prim(t, v):
    if t == "bool":
        return b"\x01" if v else b"\x00"
    if t == "str":
        return v.encode("utf-8", "surrogatepass")
    if t == "f32":
        return struct.pack("<I", v)
    if t == "f64":
        return struct.pack("<Q", v)
    return v.to_bytes(SIZES[t], "little", signed=t[0] == "i")


def enc_value(f, v, hook=None):
    """Body bytes of a non-optional field value; hook sees every one and may replace it."""
    b = enc_value_(f, v, hook)
    return b if hook is None else hook(f, v, b)


def enc_value_(f, v, hook):
    t = f.ty
    if not f.rep:
        return enc_prim(t.prim, v) if t.ref is None else enc_ent(t.ref, v, hook)
    out = b""
    for x in v:
        if t.ref is None:
            b = enc_prim(t.prim, x)
            out += (len(b).to_bytes(4, "little") + b) if t.prim == "str" else b
        else:
            b = enc_ent(t.ref, x, hook)
            out += len(b).to_bytes(8, "little") + b
    return out


def enc_field(f, v, hook=None):
    head = f.id.to_bytes(2, "little")
    if f.opt:
        if v is None:
            return head + b"\x08\x00"
        v = v[1]
    b = enc_value(f, v, hook)
    if not f.rep and f.ty.ref is None and f.ty.prim != "str":
        return head + b"\x08" + bytes([len(b)]) + b
    return head + b"\x40" + len(b).to_bytes(8, "little") + b


def enc_ent(e, v, hook=None):
    if e.kind == "struct":
        return b"".join(enc_field(f, x, hook) for f, x in zip(e.fields, v))
    i, x = v
    return i.to_bytes(2, "little") + enc_value(e.fields[i], x, hook)


def header(mid, seq, ts, length, sig=0):
    return struct.pack("<IHIQQ", mid, sig, seq, ts, length)


HEADER = 26


def package(e, v, seq, ts=1700000000, sig=0):
    b = enc_ent(e, v)
    return header(e.id, seq, ts, len(b), sig) + b


def parse_header(b):
    mid, sig, seq, ts, ln = struct.unpack("<IHIQQ", b[:HEADER])
    return dict(id=mid, sig=sig, seq=seq, ts=ts, len=ln)


def split_stream(b):
    """[(header, body)], rest"""
    out = []
    while len(b) >= HEADER:
        h = parse_header(b)
        if len(b) < HEADER + h["len"]:
            break
        out.append((h, b[HEADER:HEADER + h["len"]]))
        b = b[HEADER + h["len"]:]
    return out, b


# ---------------------------------------------------------------- decoding (tolerant of nothing)
class Bad(Exception):
    pass


def dec_ent(e, b):
    if e.kind == "enum":
        if len(b) < 2:
            raise Bad("enum too short")
        i = int.from_bytes(b[:2], "little")
        if i >= len(e.fields):
            raise Bad("variant")
        return (i, dec_value(e.fields[i], b[2:]))
    tab = {}
    p = 0
    while p < len(b):
        if p + 3 > len(b):
            raise Bad("field head")
        fid = int.from_bytes(b[p:p + 2], "little")
        rank = b[p + 2]
        if rank not in (8, 16, 32, 64):
            raise Bad("rank")
        n = rank // 8
        if p + 3 + n > len(b):
            raise Bad("size")
        ln = int.from_bytes(b[p + 3:p + 3 + n], "little")
        p += 3 + n
        if p + ln > len(b):
            raise Bad("body")
        tab[fid] = (rank, b[p:p + ln])
        p += ln
    out = []
    for f in e.fields:
        if f.id not in tab:
            raise Bad("missing field")
        rank, body = tab[f.id]
        if f.opt:
            if rank == 8 and not body:
                out.append(None)
            else:
                out.append(("S", dec_value(f, body)))
        else:
            out.append(dec_value(f, body))
    return out


def dec_prim(t, b):
    if t == "str":
        return b.decode("utf-8", "replace")
    if len(b) != SIZES[t]:
        raise Bad("prim size")
    if t == "bool":
        return b[0] != 0
    if t in ("f32", "f64"):
        return int.from_bytes(b, "little")
    return int.from_bytes(b, "little", signed=t[0] == "i")


def dec_value(f, b):
    t = f.ty
    if not f.rep:
        return dec_prim(t.prim, b) if t.ref is None else dec_ent(t.ref, b)
    out = []
    p = 0
    while p < len(b):
        n = SIZES.get(t.prim) if t.ref is None and t.prim != "str" else None
        if n is None:
            k = 4 if t.ref is None else 8
            if p + k > len(b):
                raise Bad("item len")
            n = int.from_bytes(b[p:p + k], "little")
            p += k
        if p + n > len(b):
            raise Bad("item")
        out.append(dec_prim(t.prim, b[p:p + n]) if t.ref is None else dec_ent(t.ref, b[p:p + n]))
        p += n
    return out


# ---------------------------------------------------------------- token text
def tok_prim(t, v):
    if t == "bool":
        return "1" if v else "0"
    if t == "str":
        return "s" + v.encode("utf-8", "surrogatepass").hex()
    if t in ("f32", "f64"):
        return "x%x" % canon_float(t, v)
    return str(v)


def toks_ent(e, v, out):
    if e.kind == "struct":
        for f, x in zip(e.fields, v):
            toks_field(f, x, out)
    else:
        out.append(str(v[0]))
        toks_field(e.fields[v[0]], v[1], out)
    return out


def toks_field(f, v, out):
    if f.opt:
        if v is None:
            out.append("N")
            return
        out.append("S")
        v = v[1]
    if f.rep:
        out.append(str(len(v)))
        for x in v:
            toks_ent(f.ty.ref, x, out) if f.ty.ref is not None else out.append(tok_prim(f.ty.prim, x))
    elif f.ty.ref is not None:
        toks_ent(f.ty.ref, v, out)
    else:
        out.append(tok_prim(f.ty.prim, v))


def toks(e, v):
    return " ".join(toks_ent(e, v, []))


def size_class(e, v):
    """Structural signature of a value, to count distinct shapes."""
    def go_field(f, x):
        if f.opt:
            if x is None:
                return "-"
            x = x[1]
        if f.rep:
            return "[%s]" % (go_one(f, x[0]) + str(min(len(x), 3)) if x else "0")
        return go_one(f, x)

    def go_one(f, x):
        if f.ty.ref is not None:
            return go(f.ty.ref, x)
        if f.ty.prim == "str":
            return "s%d" % (0 if x == "" else 1 if len(x) < 256 else 2)
        return f.ty.prim[0] + ("0" if not x else "1")

    def go(e, x):
        if e.kind == "struct":
            return "{" + "".join(go_field(f, y) for f, y in zip(e.fields, x)) + "}"
        return "<%d%s>" % (x[0], go_field(e.fields[x[0]], x[1]))
    return e.full() + go(e, v)
