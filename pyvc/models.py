"""Models (trusted specifications) of the builtins and library functions the repository uses."""
import base64
import builtins
import copy
import functools
import inspect
import io
import json
import math
import operator
import os
import re
import struct
import sys
import types
import uuid
import zlib

from .terms import *
from .terms import _uid
from .values import *
from . import ops
from . import bytesops as B
from . import strops as S
from .ops import exc, MISSING, native_ok
from .interp import repo_file

SYMBOLIC = (Lin, SBool, SStr, SBytes, VList, VDict, VSet, VByteSeq, VBytearray, VBytesIO, VUuid, SFloat,
            SIntFloat, SFin, SRound32, SHash, VIter, VRange)


def deep_native(v):
    if native_ok(v) or isinstance(v, (type, types.ModuleType, types.BuiltinFunctionType)):
        return True
    if isinstance(v, (list, set)):
        return all(deep_native(x) for x in v)
    if isinstance(v, dict):
        return all(deep_native(x) for x in v.values())
    return False


def simp(v):
    if isinstance(v, Lin):
        return norm(v)
    if isinstance(v, SStr):
        return snorm(v)
    if isinstance(v, SBytes):
        return B.mk(v.toks)
    return v


# ------------------------------------------------------------------ parts of a string
def part_of(I, l):
    """an arbitrary one of the parts"""
    p = StrLeaf("part")
    I.ctx.memo[("part", id(p))] = l.tag
    I.ctx.keep.append(p)
    return SStr([p])


def part_tag(I, v):
    l = S.leaf_of(v) if isinstance(v, SStr) else None
    return None if l is None else I.ctx.memo.get(("part", id(l)))


def mapped(I, l, v, kind):
    t = part_tag(I, v)
    if t is None or t[: len(l.tag)] != l.tag:
        raise Unsupported("parts are mapped to something else")
    return SelList(t, kind)


def as_parts(I, v, kind):
    return SelList(v.tag, kind)


def text(name):
    return SStr((StrLeaf(name),))


# ------------------------------------------------------------------ types
def py_type(I, v):
    v = simp(v)
    if isinstance(v, SBool):
        return bool
    if isinstance(v, Lin):
        return int
    if isinstance(v, SStr):
        return str
    if isinstance(v, SBytes):
        return bytes
    if isinstance(v, VList):
        return list
    if isinstance(v, VDict):
        return dict
    if isinstance(v, VSet):
        return set
    if isinstance(v, (VObj, VExc)):
        return v.cls
    if isinstance(v, VByteSeq):
        return list if v.kind == "list" else tuple
    if isinstance(v, VBytearray):
        return bytearray
    if isinstance(v, VBytesIO):
        return io.BytesIO
    if isinstance(v, VUuid):
        return uuid.UUID
    if isinstance(v, SelList) and v.kind in ("list", "set"):
        return list if v.kind == "list" else set
    if isinstance(v, (SFloat, SIntFloat, SRound32)):
        return float
    if isinstance(v, SHash):
        return int
    if isinstance(v, SFin):
        n = norm(lin_atom(v.atom))
        a = n if not isinstance(n, Lin) else next(iter(n.t)).lo
        return type(v.fn(a))
    if isinstance(v, (VFunc, Bound, BMeth, VPartial)):
        return types.FunctionType
    if isinstance(v, (VRange,)):
        return range
    if isinstance(v, (VOpaque, Poison, VIter, VSuper)):
        raise Unsupported("type of " + repr(v))
    return type(v)


def py_isinstance(I, v, c):
    if isinstance(c, tuple):
        return any(py_isinstance(I, v, x) for x in c)
    if isinstance(c, types.UnionType):
        return any(py_isinstance(I, v, x) for x in c.__args__)
    if c is type(None):
        return v is None
    if not isinstance(c, type):
        o = getattr(c, "__origin__", None)
        if isinstance(o, type):
            c = o
        else:
            raise Unsupported("isinstance with " + repr(c))
    try:
        return issubclass(py_type(I, v), c)
    except TypeError:
        raise Unsupported("isinstance")


_rec = {}


def record_fields(cls):
    """field names of a recordclass/dataclass/namedtuple generated class, else None"""
    if cls in _rec:
        return _rec[cls]
    r = None
    f = inspect.getattr_static(cls, "__fields__", None)
    if f is not None and type(cls).__module__.startswith("recordclass") or (f is not None and any(b.__module__.startswith("recordclass") for b in cls.__mro__)):
        r = list(getattr(cls, "__fields__"))
        if inspect.getattr_static(cls, "__init__", None) is not object.__init__ and isinstance(inspect.getattr_static(cls, "__init__", None), types.FunctionType):
            r = None
    else:
        import dataclasses

        if dataclasses.is_dataclass(cls):
            init = inspect.getattr_static(cls, "__init__", None)
            if isinstance(init, types.FunctionType) and not repo_file(init.__code__.co_filename):
                r = [x.name for x in dataclasses.fields(cls) if x.init]
    _rec[cls] = r
    return r


def record_default(cls, f):
    import dataclasses

    if dataclasses.is_dataclass(cls):
        for x in dataclasses.fields(cls):
            if x.name == f:
                if x.default is not dataclasses.MISSING:
                    return x.default
                if x.default_factory is not dataclasses.MISSING:
                    raise Unsupported("default factory")
    d = getattr(cls, "__default_vals__", None)
    return MISSING


def all_slots(cls):
    if record_fields(cls) is not None:
        f = inspect.getattr_static(cls, "__fields__", None)
        if f is not None:
            return set(getattr(cls, "__fields__"))
        return None
    names = set()
    for c in cls.__mro__:
        if c is object:
            continue
        if "__slots__" not in c.__dict__:
            return None
        s = c.__dict__["__slots__"]
        names |= {s} if isinstance(s, str) else set(s)
    return names


# ------------------------------------------------------------------ text
def py_str(I, v):
    v = simp(v)
    ctx = I.ctx
    if isinstance(v, (str, SStr)):
        return v
    if native_ok(v) and not isinstance(v, tuple):
        return str(v)
    if isinstance(v, SBool):
        return str(ctx.decide(v))
    if isinstance(v, Lin):
        return SStr((DecTok(v),))
    if isinstance(v, VObj):
        for n in ("__str__", "__repr__"):
            f = inspect.getattr_static(v.cls, n, None)
            if I.is_repo_fn(f):
                return I.call(f, [v])
        return text("str")
    if isinstance(v, VUuid):
        return uuid_text(I, v)
    if isinstance(v, VExc):
        f = inspect.getattr_static(v.cls, "__str__", None)
        if I.is_repo_fn(f):
            return I.call(f, [v])
        if len(v.args) == 1 and isinstance(v.args[0], (str, SStr)):
            return v.args[0]
        return text("exc")
    if isinstance(v, SFin):
        return py_str(I, ops.fin_to_lin(ctx, v)) if py_type(I, v) is int else text("fin")
    if isinstance(v, Poison):
        raise Unsupported(v.why)
    return text("str")


def py_repr(I, v):
    v = simp(v)
    if isinstance(v, VObj):
        f = inspect.getattr_static(v.cls, "__repr__", None)
        if I.is_repo_fn(f):
            return I.call(f, [v])
    if native_ok(v):
        return repr(v)
    if isinstance(v, Lin):
        return SStr((DecTok(v),))
    return text("repr")


def py_format(I, v, conv, spec):
    v = simp(v)
    spec = snorm(spec) if isinstance(spec, SStr) else spec
    if conv == "r":
        return py_repr(I, v)
    if conv == "a":
        return text("ascii")
    if conv == "s":
        v = py_str(I, v)
    if spec == "":
        return py_str(I, v)
    if native_ok(v) and isinstance(spec, str):
        try:
            return format(v, spec)
        except Exception as e:
            raise PyExc(VExc(type(e), e.args))
    m = re.fullmatch(r"0(\d+)x", spec) if isinstance(spec, str) else None
    if m and isinstance(v, Lin):
        lo, hi = rng(v)
        w = int(m.group(1))
        if lo is not None and lo >= 0 and hi is not None and hi < 16**w:
            return SStr((HexTok(v, w),))
    if isinstance(v, Lin) and spec == "d":
        return SStr((DecTok(v),))
    if v is None or isinstance(v, (VList, VDict)):
        raise exc(TypeError, "unsupported format string")
    return text("fmt")


HEXP = (8, 4, 4, 4, 12)


def uuid_text(I, v):
    ctx = I.ctx
    lin = norm(v.lin)
    if not isinstance(lin, Lin):
        return str(uuid.UUID(int=lin))
    parts = []
    rest = lin
    pcs = []
    for w in reversed(HEXP):
        q, r = divmod_const(rest, 16**w, ctx)
        pcs.append((norm(r), w))
        rest = q
    for r, w in reversed(pcs):
        if parts:
            parts.append("-")
        parts.append(HexTok(r, w) if isinstance(r, Lin) else "%0*x" % (w, r))
    return snorm(SStr(parts))


def uuid_parse(I, s):
    """uuid.UUID(text)"""
    s = snorm(s)
    if isinstance(s, str):
        try:
            return VUuid(uuid.UUID(s).int)
        except ValueError as e:
            raise exc(ValueError, *e.args)
    if not isinstance(s, SStr):
        raise exc(AttributeError, "replace")
    lin = 0
    n = 0
    for p in s.parts:
        if isinstance(p, str):
            h = p.replace("urn:", "").replace("uuid:", "").strip("{}").replace("-", "")
            if not all(c in "0123456789abcdefABCDEF" for c in h):
                raise exc(ValueError, "badly formed hexadecimal UUID string")
            if h:
                lin = add(scale(lin, 16 ** len(h)), int(h, 16))
            n += len(h)
        elif isinstance(p, HexTok):
            lin = add(scale(lin, 16**p.width), p.lin)
            n += p.width
        else:
            raise Unsupported("uuid from symbolic text")
    if n != 32:
        raise exc(ValueError, "badly formed hexadecimal UUID string")
    return VUuid(norm(lin))


def uuid_bytes(I, v, order):
    """16 bytes; order: tuple of byte significance (15 = most significant)"""
    ctx = I.ctx
    lin = norm(v.lin)
    bs = []
    rest = lin
    for i in range(16):
        rest, r = divmod_const(rest, 256, ctx)
        bs.append(norm(r))
    return B.mk([LE(1, bs[k]) for k in order])


BE16 = tuple(range(15, -1, -1))
LE16 = (12, 13, 14, 15, 10, 11, 8, 9, 7, 6, 5, 4, 3, 2, 1, 0)


# ------------------------------------------------------------------ struct
SZ_STD = {"b": 1, "B": 1, "?": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "f": 4, "d": 8, "e": 2, "c": 1, "s": 1, "x": 1}


def parse_fmt(I, fmt):
    """[(count, code, size)], big?  counts may be Lin for 'B'"""
    fmt = simp(fmt)
    if isinstance(fmt, bytes):
        fmt = fmt.decode("ascii")
    if isinstance(fmt, SStr):
        ps = list(fmt.parts)
        if ps and isinstance(ps[0], str) and ps[0] in "<=@>!":
            ps = ps[1:]
        if len(ps) == 2 and isinstance(ps[0], DecTok) and ps[1] in ("B", "s"):
            n = norm(ps[0].lin)
            lo, _ = rng(n)
            if lo is None or lo < 0:
                if not I.truth(I.cmp("GtE", n, 0)):
                    raise exc(struct.error, "bad char in struct format")
            return [(n, ps[1], 1)], False
        raise Unsupported("struct format " + repr(fmt))
    if not isinstance(fmt, str):
        raise exc(TypeError, "Struct() argument 1 must be a str or bytes object")
    try:
        total = struct.calcsize(fmt)
    except struct.error as e:
        raise exc(struct.error, *e.args)
    f = fmt.strip()
    big = False
    native = True
    if f and f[0] in "<>=!@":
        big = f[0] in ">!"
        native = f[0] == "@"
        f = f[1:]
    out = []
    for m in re.finditer(r"\s*(\d*)([a-zA-Z?])", f):
        n = int(m.group(1)) if m.group(1) else 1
        c = m.group(2)
        if c not in SZ_STD:
            raise Unsupported("struct code " + c)
        sz = struct.calcsize(("@" if native else "<") + c)
        out.append((n, c, sz))
    if sum(n * s for n, c, s in out) != total:
        raise Unsupported("struct format with padding")
    return out, big


def int_range(c, sz):
    if c.islower():
        return -(1 << (8 * sz - 1)), (1 << (8 * sz - 1)) - 1
    return 0, (1 << (8 * sz)) - 1


def rev(I, toks, sz):
    bs = []
    rest = toks
    for _ in range(sz):
        b, rest = B.split_front(I.ctx, rest, 1)
        bs = b + bs
    return bs


def st_pack(I, fmt, args):
    ctx = I.ctx
    items, big = parse_fmt(I, fmt)
    out = []
    args = list(args)
    need = 0
    for n, c, sz in items:
        if isinstance(n, Lin):
            raise Unsupported("pack of symbolic count")
        need += 0 if c == "x" else (1 if c == "s" else n)
    if need != len(args):
        raise exc(struct.error, f"pack expected {need} items for packing (got {len(args)})")
    for n, c, sz in items:
        if c == "x":
            out.append(b"\0" * n)
            continue
        if c == "s":
            v = simp(args.pop(0))
            if not ops.is_bytes(v):
                raise exc(struct.error, "argument for 's' must be a bytes object")
            l = B.blen(v)
            if I.truth(I.cmp("GtE", l, n)):
                t, _ = B.split_front(ctx, B.toks_of(v), n)
                out += t
            else:
                u = ctx.unique(l) if isinstance(norm(l), Lin) else norm(l)
                if u is None:
                    raise Unsupported("padding of symbolic length")
                out += B.toks_of(v) + [b"\0" * (n - u)]
            continue
        for _ in range(n):
            v = simp(args.pop(0))
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            if c == "?":
                if isinstance(v, SBool) and sbool_int(v) is not None:
                    out.append(LE(1, sbool_int(v)))
                else:
                    out.append(b"\1" if I.truth(v) else b"\0")
                continue
            if c in "fd":
                out.append(ftok(I, c, v) if not big else None)
                if big:
                    raise Unsupported("big-endian float")
                continue
            if c in "ec":
                raise Unsupported("struct code " + c)
            if isinstance(v, SFin):
                v = ops.fin_to_lin(ctx, v) if py_type(I, v) is int else v
            if not ops.is_int(v):
                raise exc(struct.error, "required argument is not an integer")
            x = ops.as_lin(ctx, v)
            lo, hi = int_range(c, sz)
            ok = I.truth(I.cmp("GtE", x, lo)) and I.truth(I.cmp("LtE", x, hi))
            if not ok:
                raise exc(struct.error, f"'{c}' format requires {lo} <= number <= {hi}")
            t = [LE(sz, x)]
            out += rev(I, t, sz) if big and sz > 1 else t
    return B.mk(out)


def ftok(I, c, v):
    if isinstance(v, (SFloat, SIntFloat, SRound32, SFin)):
        if isinstance(v, SFin) and py_type(I, v) is int:
            pass
        if c == "f" and isinstance(v, SFloat) and v.width == 64 and v.cls not in ("nan", "inf", "ninf"):
            I.ctx.overapprox("double stored in a 32-bit field")
        return FTok(c, v)
    if isinstance(v, Lin):
        return FTok(c, ops.int_to_float(I.ctx, v))
    if isinstance(v, SBool):
        return FTok(c, float(I.ctx.decide(v)))
    if isinstance(v, (int, float)):
        try:
            return struct.pack("<" + c, v)
        except (OverflowError, struct.error) as e:
            raise PyExc(VExc(type(e), e.args))
    raise exc(struct.error, "required argument is not a float")


def st_unpack(I, fmt, data):
    ctx = I.ctx
    data = simp(data)
    if not ops.is_bytes(data):
        if isinstance(data, (VByteSeq, VList, tuple)) or data is None or S.is_str(data):
            raise exc(TypeError, "a bytes-like object is required")
        raise Unsupported("unpack of " + type(data).__name__)
    items, big = parse_fmt(I, fmt)
    total = 0
    for n, c, sz in items:
        total = add(total, scale(n, sz))
    if not I.truth(I.cmp("Eq", B.blen(data), total)):
        raise exc(struct.error, f"unpack requires a buffer of {total} bytes")
    toks = B.toks_of(data)
    if len(items) == 1 and items[0][1] == "B" and (isinstance(items[0][0], Lin) or items[0][0] > 16):
        return VByteSeq("tuple", SBytes(toks))
    if len(items) == 1 and items[0][1] == "s":
        return (B.mk(toks),)
    out = []
    for n, c, sz in items:
        if c == "x":
            _, toks = B.split_front(ctx, toks, n)
            continue
        if c == "s":
            t, toks = B.split_front(ctx, toks, n)
            out.append(B.mk(t))
            continue
        if isinstance(n, Lin):
            raise Unsupported("symbolic struct count")
        for _ in range(n):
            t, toks = B.split_front(ctx, toks, sz)
            if c == "?":
                v = B.to_int(ctx, t, 1, False)
                out.append(SBool("ne", v) if isinstance(v, Lin) else bool(v))
            elif c in "fd":
                if big:
                    raise Unsupported("big-endian float")
                out.append(B.to_float(ctx, t, c))
            elif c in "ec":
                raise Unsupported("struct code " + c)
            else:
                out.append(B.to_int(ctx, t, sz, c.islower(), big))
    return tuple(out)


# ------------------------------------------------------------------ conversions
def to_byte(I, x):
    x = simp(x)
    if isinstance(x, SFin):
        x = ops.fin_to_lin(I.ctx, x)
    if not ops.is_int(x):
        raise exc(TypeError, f"'{type(x).__name__}' object cannot be interpreted as an integer")
    x = ops.as_lin(I.ctx, x)
    if not (I.truth(I.cmp("GtE", x, 0)) and I.truth(I.cmp("LtE", x, 255))):
        raise exc(ValueError, "bytes must be in range(0, 256)")
    return LE(1, x)


def to_bytes_toks(I, v, enc=None, errors=None):
    ctx = I.ctx
    v = simp(v)
    if isinstance(v, (bytes, bytearray, SBytes, VBytearray, VByteSeq)):
        return B.toks_of(v)
    if isinstance(v, (str, SStr)):
        if enc is None:
            raise exc(TypeError, "string argument without an encoding")
        return B.toks_of(encode(I, v, enc, errors or "strict"))
    if ops.is_int(v):
        n = ops.as_lin(ctx, v)
        if isinstance(n, Lin):
            n = ctx.unique(n)
        if n is None:
            raise Unsupported("zero bytes of symbolic length")
        if n < 0:
            raise exc(ValueError, "negative count")
        return [b"\0" * n]
    if isinstance(v, (float, SFloat)) or v is None:
        raise exc(TypeError, "cannot convert to bytes")
    if isinstance(v, VObj):
        f = inspect.getattr_static(v.cls, "__bytes__", None)
        if I.is_repo_fn(f):
            return B.toks_of(I.call(f, [v]))
    from . import loops

    out = []
    for p in loops.pieces(I, v):
        if p[0] == "items":
            out += [to_byte(I, x) for x in p[1]]
        elif isinstance(p[3], SBytes):
            out += p[3].toks
        elif isinstance(p[3], Gen):
            t = to_byte(I, p[3].elems[0])
            out.append(Big(p[1], [t]))
        else:
            raise Unsupported("bytes from generic iterable")
    return flat(out)


CODECS = {"ascii": "ascii", "us-ascii": "ascii", "utf-16-le": "utf-16-le", "utf-16le": "utf-16-le", "utf_16_le": "utf-16-le", "utf-8": "utf-8", "utf8": "utf-8", "latin-1": "latin-1", "latin1": "latin-1"}


def surrogates(ctx, s, units=True):
    """does a symbolic string contain unpaired surrogates?"""
    s = snorm(s)
    if isinstance(s, str):
        try:
            s.encode("utf-16-le")
            return False
        except UnicodeEncodeError:
            return True
    for p in s.parts:
        if isinstance(p, StrLeaf):
            if p.ascii is True:
                continue
            k = ("surr", p.uid)
            if k not in ctx.memo:
                ctx.memo[k] = ctx.choose(2, f"{p} has unpaired surrogates") == 1
                if ctx.memo[k]:
                    p.ascii = False
            if ctx.memo[k]:
                return True
        elif isinstance(p, str):
            if surrogates(ctx, p):
                return True
    return False


def encode(I, s, enc, errors="strict"):
    ctx = I.ctx
    s = simp(s)
    enc = CODECS.get(enc.lower() if isinstance(enc, str) else enc, enc)
    if isinstance(s, str):
        try:
            return s.encode(enc, errors)
        except UnicodeError as e:
            raise exc(type(e), *e.args)
        except LookupError as e:
            raise exc(type(e), *e.args)
    if enc == "ascii" or enc == "utf-8" or enc == "latin-1":
        if S.is_ascii(ctx, s):
            return B.mk([Cod("ascii", s)])
        if enc == "ascii" and errors in ("strict", "surrogatepass"):
            raise exc(UnicodeEncodeError, "ascii")
        raise Unsupported("encoding of non-ASCII text")
    if enc == "utf-16-le":
        if errors == "surrogatepass":
            return B.mk([Cod("utf-16-le", s)])
        if errors == "strict":
            if surrogates(ctx, s):
                raise exc(UnicodeEncodeError, "utf-16-le")
            return B.mk([Cod("utf-16-le", s)])
    raise Unsupported("encoding " + repr(enc))


def decode(I, b, enc="utf-8", errors="strict"):
    ctx = I.ctx
    b = simp(b)
    enc = CODECS.get(enc.lower() if isinstance(enc, str) else enc, enc)
    if isinstance(b, (bytes, bytearray)):
        try:
            return b.decode(enc, errors)
        except (UnicodeError, LookupError) as e:
            raise exc(type(e), *e.args)
    f = flat(B.toks_of(b))
    if len(f) == 1 and isinstance(f[0], Enc) and f[0].kind == "B64" and enc in ("utf-8", "ascii"):
        l = StrLeaf("b64")
        l.ascii = True
        l.note = ("b64", f[0].obj)
        return SStr((l,))
    if len(f) == 1 and isinstance(f[0], Cod):
        t = f[0]
        if t.codec == enc or (t.codec == "ascii" and enc in ("utf-8", "latin-1")):
            if enc == "utf-16-le" and errors == "strict" and surrogates(ctx, t.s):
                raise exc(UnicodeDecodeError, enc)
            return snorm(t.s)
        raise Unsupported("decoding with a different codec")
    if len(f) == 1 and isinstance(f[0], Raw):
        r = f[0]
        n = norm(r.n)
        if enc == "ascii":
            if not any(x[0] == "notascii" and x[1] is r for x in ctx.notes) and ctx.choose(2, f"{r} is ascii") == 0:
                l = StrLeaf("text")
                l.ascii = True
                ctx.assume(SBool("eq", sub(lin_atom(l.n), n)))
                r.bind = [Cod("ascii", SStr((l,)))]
                return SStr((l,))
            ctx.notes.append(("notascii", r))
            if errors in ("strict", "surrogatepass"):
                raise exc(UnicodeDecodeError, "ascii")
        if enc == "utf-16-le":
            q, m = divmod_const(n, 2, ctx)
            if I.truth(I.cmp("NotEq", m, 0)):
                if errors in ("strict", "surrogatepass"):
                    raise exc(UnicodeDecodeError, "truncated data")
            else:
                l = StrLeaf("text")
                l.units = Atom("units(text)", 0, None)
                l.units.note = l.n
                ctx.assume(SBool("eq", sub(lin_atom(l.units), q)) if isinstance(q, Lin) else SBool("eq", sub(lin_atom(l.units), q)))
                r.bind = [Cod("utf-16-le", SStr((l,)))]
                if errors == "strict" and surrogates(ctx, SStr((l,))):
                    r.bind = [Cod("utf-16-le", SStr((l,)))]
                    raise exc(UnicodeDecodeError, enc)
                if errors in ("strict", "surrogatepass"):
                    return SStr((l,))
    raise Unsupported("decoding of " + repr(f))


# ------------------------------------------------------------------ numbers
def py_int(I, a, kw):
    ctx = I.ctx
    if not a:
        return 0
    v = simp(a[0])
    if len(a) > 1 or kw:
        if all(native_ok(x) for x in a):
            return nat(int, a, kw)
        raise Unsupported("int with base")
    if native_ok(v):
        return nat(int, [v], {})
    if ops.is_int(v):
        return ops.as_lin(ctx, v)
    if isinstance(v, SIntFloat):
        return norm(v.lin)
    if isinstance(v, SFin):
        f = v.fn
        return SFin(v.atom, lambda x: int(f(x)), f"int({v.desc})")
    if isinstance(v, VObj):
        for n in ("__int__", "__index__"):
            f = inspect.getattr_static(v.cls, n, None)
            if I.is_repo_fn(f):
                return I.call(f, [v])
    if isinstance(v, VUuid):
        return norm(v.lin)
    raise Unsupported("int of " + type(v).__name__)


def py_float(I, a, kw):
    if not a:
        return 0.0
    v = simp(a[0])
    if native_ok(v):
        return nat(float, [v], {})
    if isinstance(v, (SFloat, SIntFloat, SRound32)):
        return v
    if ops.is_int(v):
        return ops.int_to_float(I.ctx, ops.as_lin(I.ctx, v))
    if isinstance(v, SFin):
        f = v.fn
        return SFin(v.atom, lambda x: float(f(x)), f"float({v.desc})")
    raise Unsupported("float of " + type(v).__name__)


def py_round(I, a, kw):
    v = simp(a[0])
    if all(native_ok(x) for x in a):
        return nat(round, a, kw)
    if len(a) == 1:
        if ops.is_int(v):
            return v
        if isinstance(v, SIntFloat):
            return norm(v.lin)
        if isinstance(v, SFin):
            f = v.fn
            return SFin(v.atom, lambda x: round(f(x)), f"round({v.desc})")
    raise Unsupported("round")


def lin_abs(ctx, x):
    x = norm(x)
    if not isinstance(x, Lin):
        return abs(x)
    lo, hi = rng(x)
    if lo is not None and lo >= 0:
        return x
    if hi is not None and hi <= 0:
        return scale(x, -1)
    m = ctx.fresh_int("abs", 0, max(abs(lo), abs(hi)) if lo is not None and hi is not None else None)
    ctx.disj.append([[SBool("ge", x), SBool("eq", sub(m, x))], [SBool("ge", sub(-1, x)), SBool("eq", add(m, x))]])
    return m


def py_abs(I, a, kw):
    v = simp(a[0])
    if native_ok(v):
        return nat(abs, [v], {})
    if ops.is_int(v):
        return lin_abs(I.ctx, ops.as_lin(I.ctx, v))
    if isinstance(v, SIntFloat):
        return SIntFloat(lin_abs(I.ctx, v.lin))
    if isinstance(v, SBig):
        if v.nonneg:
            return v
        r = SBig("abs", True)
        r.note = v
        return r
    if isinstance(v, SFloat) and ops.float_in(I.ctx, v, ("finite",)):
        r = SFloat("abs", v.width)
        r.cls = "finite"
        I.ctx.over.append("absolute value abstracted")
        return r
    if isinstance(v, SFin):
        f = v.fn
        return SFin(v.atom, lambda x: abs(f(x)), f"abs({v.desc})")
    raise Unsupported("abs")


class SBig(SFloat):
    """a finite double of magnitude at least 2**62 (nonneg: known to be positive)"""

    __slots__ = ("nonneg", "note")

    def __init__(self, name, nonneg=False):
        super().__init__(name, 64)
        self.cls = "finite"
        self.nonneg = nonneg


def py_minmax(which):
    def f(I, a, kw):
        ctx = I.ctx
        if "key" in kw or "default" in kw:
            raise Unsupported("min/max with key")
        if len(a) == 1:
            a = I.concrete_items(a[0])
            if a is None:
                raise Unsupported("min/max of symbolic iterable")
            if not a:
                raise exc(ValueError, "empty sequence")
        a = [simp(x) for x in a]
        if all(native_ok(x) for x in a):
            return nat(max if which == "max" else min, a, {})
        if which == "max" and any(isinstance(x, SBig) and x.nonneg for x in a) and all(isinstance(x, (SBig, SIntFloat, SFloat, int, float)) for x in a):
            return SBig("max", True)
        isf = any(isinstance(x, (SIntFloat, float)) for x in a)
        lins = []
        for x in a:
            if isinstance(x, SIntFloat):
                lins.append(norm(x.lin))
            elif ops.is_int(x):
                lins.append(ops.as_lin(ctx, x))
            elif isinstance(x, float) and x == int(x):
                lins.append(int(x))
            else:
                raise Unsupported("min/max")
        los = [rng(x)[0] for x in lins]
        his = [rng(x)[1] for x in lins]
        for i, x in enumerate(lins):
            o = [j for j in range(len(lins)) if j != i]
            if which == "max" and los[i] is not None and all(his[j] is not None and his[j] <= los[i] for j in o):
                return SIntFloat(x) if isf and isinstance(x, Lin) else float(x) if isf else x
            if which == "min" and his[i] is not None and all(los[j] is not None and los[j] >= his[i] for j in o):
                return SIntFloat(x) if isf and isinstance(x, Lin) else float(x) if isf else x
        pick = max if which == "max" else min
        lo = pick(los) if None not in los else None
        hi = pick(his) if None not in his else None
        r = ctx.fresh_int(which, lo, hi)
        for x in lins:
            ctx.cons.append(SBool("ge", sub(r, x) if which == "max" else sub(x, r)))
        ctx.disj.append([[SBool("eq", sub(r, x))] for x in lins])
        return SIntFloat(r) if isf else r

    return f


def nat(f, a, kw):
    try:
        return f(*a, **kw)
    except RecursionError:
        raise
    except Exception as e:
        raise PyExc(VExc(type(e), e.args))


def py_bin(I, a, kw):
    v = simp(a[0])
    if native_ok(v):
        return nat(bin, [v], {})
    x = ops.as_lin(I.ctx, v)
    lo, hi = rng(x)
    if lo is None or hi is None:
        raise Unsupported("bin of unbounded value")
    l = StrLeaf("bin")
    l.ascii = True
    r = bit_length(I, x)
    if lo > 0 or hi < 0:
        n = add(r, 2 if lo > 0 else 3)
    elif lo == 0:
        n = lin_atom(Atom("binlen", 3, rng(r)[1] + 2))
        I.ctx.weak.append([[SBool("eq", norm(x)), SBool("eq", sub(n, 3))], [SBool("ge", sub(x, 1)), SBool("eq", sub(n, add(r, 2)))]])
    else:
        n = lin_atom(Atom("binlen", 3, rng(r)[1] + 3))
        I.ctx.weak.append([[SBool("eq", norm(x)), SBool("eq", sub(n, 3))], [SBool("ge", sub(x, 1)), SBool("eq", sub(n, add(r, 2)))], [SBool("ge", sub(-1, x)), SBool("eq", sub(n, add(r, 3)))]])
    l.n.bind = n
    return SStr((l,))


def bit_length(I, x):
    ctx = I.ctx
    x = norm(x)
    if not isinstance(x, Lin):
        return x.bit_length()
    lo, hi = rng(x)
    if lo is None or hi is None:
        raise Unsupported("bit_length of unbounded value")
    if lo >= 0 or hi <= 0:
        p, q = sorted((abs(lo), abs(hi)))
        if p.bit_length() == q.bit_length():
            return p.bit_length()
        lo_ = p.bit_length()
    else:
        lo_ = 0
    for y, r in ctx.memo.setdefault("bit_length", []):
        if norm(sub(x, y)) == 0 or norm(add(x, y)) == 0:
            return norm(r)
    m = max(abs(lo), abs(hi)).bit_length()
    r = ctx.fresh_int("bits", lo_, m)
    ctx.memo["bit_length"].append((x, r))
    cl = [[SBool("eq", norm(x)), SBool("eq", r)]] if lo <= 0 <= hi else []
    for k in range(max(lo_, 1), m + 1):
        if hi > 0:
            cl.append([SBool("ge", sub(x, 1 << (k - 1))), SBool("ge", sub((1 << k) - 1, x)), SBool("eq", sub(r, k))])
        if lo < 0:
            cl.append([SBool("ge", sub(scale(x, -1), 1 << (k - 1))), SBool("ge", add(x, (1 << k) - 1)), SBool("eq", sub(r, k))])
    ctx.weak.append(cl)
    return r


# ------------------------------------------------------------------ collections
def list_append(I, l, v):
    if l.poisoned:
        raise Unsupported(l.poisoned)
    ops.heap_note(I.ctx, l, ("append",))
    l._items.append(v)


def list_extend(I, l, v):
    from . import loops

    ps = loops.pieces(I, v)
    for p in ps:
        if p[0] == "items":
            for x in p[1]:
                list_append(I, l, x)
        else:
            ops.heap_note(I.ctx, l, ("append",))
            l._items.append(loops.gen_of(I, p))


def py_list(I, a, kw):
    if not a:
        return VList(I.ctx)
    v = simp(a[0])
    if isinstance(v, SelList) and v.kind != "set":
        return SelList(v.tag, "list")
    if isinstance(v, (VByteSeq, SBytes, VBytearray)):
        n = norm(B.blen(v))
        if isinstance(n, Lin) or n > 64:
            return VByteSeq("list", SBytes(B.toks_of(v)))
    from . import loops

    out = []
    for p in loops.pieces(I, v):
        if p[0] == "items":
            out += p[1]
        else:
            out.append(loops.gen_of(I, p))
    return I.mklist(out)


def py_tuple(I, a, kw):
    if not a:
        return ()
    v = simp(a[0])
    if isinstance(v, (VByteSeq, SBytes, VBytearray)):
        n = norm(B.blen(v))
        if isinstance(n, Lin) or n > 64:
            return VByteSeq("tuple", SBytes(B.toks_of(v)))
    r = I.concrete_items(v)
    if r is None:
        raise Unsupported("tuple of symbolic length")
    return tuple(r)


def py_dict(I, a, kw):
    d = VDict(I.ctx)
    if a:
        v = I.overlay(a[0])
        if not isinstance(v, (VDict, dict)):
            items = I.concrete_items(v)
            if items is None:
                raise Unsupported("dict of symbolic iterable")
            v = VList(I.ctx, items)
        ops.dict_update(I.ctx, d, v, I)
    for k, v in kw.items():
        ops.dict_set(I.ctx, d, k, v)
    return d


def py_set(I, a, kw):
    if not a:
        return VSet(I.ctx)
    if isinstance(a[0], SelList):
        return SelList(a[0].tag, "set")
    r = I.concrete_items(a[0])
    if r is None:
        raise Unsupported("set of symbolic iterable")
    out = []
    for x in r:
        if native_ok(x):
            if x not in [y for y in out if native_ok(y)]:
                out.append(x)
        else:
            raise Unsupported("set of symbolic values")
    return VSet(I.ctx, out)


def py_len(I, a, kw):
    v = simp(a[0])
    ctx = I.ctx
    if isinstance(v, (dict, list, set)):
        v = I.overlay(v)
    if isinstance(v, VList):
        return ops.list_len(v)
    if isinstance(v, VDict):
        return ops.dict_len(v)
    if isinstance(v, VSet):
        return len(v.items)
    if isinstance(v, SelList):
        if v.kind == "gen":
            raise exc(TypeError, "object of type 'generator' has no len()")
        key = ("number of parts", v.tag, v.kind)
        if key not in ctx.memo:
            ctx.memo[key] = ctx.fresh_int("parts", 1)
        return ctx.memo[key]
    if isinstance(v, (SBytes, VByteSeq, VBytearray)):
        return norm(B.blen(v))
    if isinstance(v, SStr):
        return norm(strlen(v))
    if isinstance(v, VIter):
        n = 0
        for p in v.pieces:
            n = add(n, len(p[1]) if p[0] == "items" else p[1])
        return norm(n)
    if isinstance(v, VObj):
        f = inspect.getattr_static(v.cls, "__len__", None)
        if I.is_repo_fn(f):
            return I.call(f, [v])
        raise exc(TypeError, "object has no len()")
    if isinstance(v, (str, bytes, tuple, dict, list, set, frozenset, range, bytearray)):
        return len(v)
    if isinstance(v, VRange):
        d = norm(sub(v.stop, v.start))
        return d if I.truth(I.cmp("GtE", d, 0)) else 0
    if v is None or ops.is_int(v) or isinstance(v, (float, SFloat)):
        raise exc(TypeError, "object has no len()")
    raise Unsupported("len of " + type(v).__name__)


def py_range(I, a, kw):
    a = [simp(x) for x in a]
    for x in a:
        if not ops.is_int(x):
            raise exc(TypeError, "range() argument must be an integer")
    a = [ops.as_lin(I.ctx, x) for x in a]
    if len(a) == 1:
        a = [0, a[0], 1]
    elif len(a) == 2:
        a = [a[0], a[1], 1]
    if not any(isinstance(x, Lin) for x in a):
        return range(*a)
    return VRange(*a)


def py_enumerate(I, a, kw):
    from . import loops

    start = a[1] if len(a) > 1 else kw.get("start", 0)
    pos = start
    out = []
    for p in loops.pieces(I, a[0]):
        if p[0] == "items":
            its = []
            for x in p[1]:
                its.append((pos, x))
                pos = add(pos, 1)
            out.append(("items", its))
        else:
            base = pos
            out.append(("gen", p[1], lambda L, base=base, p=p: (add(base, lin_atom(L.idx)) if L is not None else base, p[2](L)), None))
            pos = add(pos, p[1])
    return VIter(out)


def py_zip(I, a, kw):
    from . import loops

    pss = [loops.pieces(I, x) for x in a]
    if all(all(p[0] == "items" for p in ps) for ps in pss):
        lists = [[x for p in ps for x in p[1]] for ps in pss]
        return VIter([("items", list(zip(*lists)))])
    if all(len(ps) == 1 and ps[0][0] == "gen" for ps in pss):
        c = pss[0][0][1]
        if all(I.same_count(ps[0][1], c) for ps in pss):
            return VIter([("gen", c, lambda L: tuple(ps[0][2](L) for ps in pss), None)])
    raise Unsupported("zip of symbolic iterables")


def py_map(I, a, kw):
    from . import loops

    fn = a[0]
    if len(a) != 2:
        raise Unsupported("map of several iterables")
    if isinstance(a[1], SelList):
        return mapped(I, a[1], I.call(fn, [part_of(I, a[1])]), "gen")
    out = VList(I.ctx)
    from .interp import Frame

    for p in loops.pieces(I, a[1]):
        if p[0] == "items":
            for x in p[1]:
                list_append(I, out, I.call(fn, [x]))
        else:
            fr = Frame(set(), None, {}, "map")
            loops.generic(I, fr, p, lambda x: list_append(I, out, I.call(fn, [x])), set(), None)
    return I.mklist(out.items)


def py_anyall(which):
    def f(I, a, kw):
        items = I.concrete_items(a[0])
        if items is None:
            raise Unsupported(which + " over symbolic iterable")
        for x in items:
            t = I.truth(x)
            if which == "any" and t:
                return True
            if which == "all" and not t:
                return False
        return which == "all"

    return f


def py_sum(I, a, kw):
    items = I.concrete_items(a[0])
    if items is None:
        raise Unsupported("sum over symbolic iterable")
    r = a[1] if len(a) > 1 else kw.get("start", 0)
    for x in items:
        r = I.binop("Add", r, x)
    return r


def py_sorted(I, a, kw):
    items = I.concrete_items(a[0])
    if items is None or not all(native_ok(x) for x in items) or kw:
        raise Unsupported("sorted of symbolic values")
    return VList(I.ctx, nat(sorted, [items], {}))


def py_reversed(I, a, kw):
    items = I.concrete_items(a[0])
    if items is None:
        raise Unsupported("reversed of symbolic iterable")
    return VIter([("items", items[::-1])])


def py_hash(I, a, kw):
    v = simp(a[0])
    if isinstance(v, VObj):
        f = inspect.getattr_static(v.cls, "__hash__", None)
        if I.is_repo_fn(f):
            return I.call(f, [v])
        flds = record_fields(v.cls)
        if f is None and not (flds is not None and record_hashable(v.cls, flds)):
            raise exc(TypeError, "unhashable type")
        if flds is not None:
            return SHash(("rec", tuple(py_hash_term(I, v.attrs[n]) for n in flds)))
        return SHash(("id", id(v)))
    return SHash(py_hash_term(I, v))


def record_hashable(cls, flds):
    """recordclass sets the hash slot without a __hash__ attribute: ask it"""
    try:
        return hash(cls(*[b"x" for _ in flds])) == hash(cls(*[b"x" for _ in flds]))
    except Exception:
        return False


def py_hash_term(I, v):
    v = simp(v)
    if native_ok(v):
        return ("nat", v)
    if isinstance(v, SStr):
        return ("str", v)
    if isinstance(v, SBytes):
        return ("bytes", v)
    if isinstance(v, Lin):
        return ("int", v)
    if isinstance(v, VUuid):
        return ("int", v.lin)
    if isinstance(v, SHash):
        return v.term
    if isinstance(v, VObj):
        return py_hash(I, [v], {}).term
    if isinstance(v, (VList, VDict)):
        raise exc(TypeError, "unhashable type")
    raise Unsupported("hash")


def deepcopy(I, v, memo=None):
    memo = {} if memo is None else memo
    ctx = I.ctx
    if isinstance(v, Heap):
        if id(v) in memo:
            return memo[id(v)]
    v0 = v
    if isinstance(v, (dict, list, set)):
        v = I.overlay(v)
    if isinstance(v, dict):
        return VDict(ctx, [(k, deepcopy(I, x, memo)) for k, x in v.items()])
    if isinstance(v, list):
        return VList(ctx, [deepcopy(I, x, memo) for x in v])
    if isinstance(v, VDict):
        r = VDict(ctx)
        memo[id(v0)] = r
        r.rest, r.tag = v.rest, v.tag
        heap_read(v)
        for e in v.ents:
            if isinstance(e, GenEntry):
                r.ents.append(GenEntry(e.count, e.key, deepcopy(I, e.val, memo)))
            else:
                r.put(e[0], deepcopy(I, e[1], memo))
        return r
    if isinstance(v, VList):
        if v.poisoned:
            raise Unsupported(v.poisoned)
        r = VList(ctx)
        memo[id(v0)] = r
        r.items = [Gen(i.count, [deepcopy(I, x, memo) for x in i.elems]) if isinstance(i, Gen) else deepcopy(I, i, memo) for i in v.items]
        return r
    if isinstance(v, VObj):
        f = inspect.getattr_static(v.cls, "__deepcopy__", None)
        if I.is_repo_fn(f):
            raise Unsupported("__deepcopy__")
        r = VObj(ctx, v.cls)
        memo[id(v0)] = r
        for k, x in v.attrs.items():
            r.attrs[k] = deepcopy(I, x, memo)
        return r
    if isinstance(v, tuple):
        return tuple(deepcopy(I, x, memo) for x in v)
    if isinstance(v, VSet):
        return VSet(ctx, v.items)
    if isinstance(v, VBytearray):
        return VBytearray(ctx, v.toks)
    if isinstance(v, (VBytesIO, VIter)):
        raise Unsupported("deepcopy of stream")
    return v


def shallow(I, v):
    ctx = I.ctx
    v = I.overlay(v) if isinstance(v, (dict, list, set)) else v
    if isinstance(v, dict):
        return VDict(ctx, v.items())
    if isinstance(v, list):
        return VList(ctx, v)
    if isinstance(v, VDict):
        r = VDict(ctx)
        r.rest, r.tag = v.rest, v.tag
        heap_read(v)
        for e in v.ents:
            if isinstance(e, GenEntry):
                r.ents.append(GenEntry(e.count, e.key, e.val))
            else:
                r.put(e[0], e[1])
        return r
    if isinstance(v, VList):
        if v.poisoned:
            raise Unsupported(v.poisoned)
        return VList(ctx, [Gen(i.count, list(i.elems)) if isinstance(i, Gen) else i for i in v.items])
    if isinstance(v, VObj):
        r = VObj(ctx, v.cls)
        r.attrs = dict(v.attrs)
        return r
    if isinstance(v, VSet):
        return VSet(ctx, v.items)
    if isinstance(v, VBytearray):
        return VBytearray(ctx, v.toks)
    return v


# ------------------------------------------------------------------ values' attributes and methods
def value_attr(I, o, name):
    o = simp(o)
    if isinstance(o, VUuid):
        if name == "bytes":
            return uuid_bytes(I, o, BE16)
        if name == "bytes_le":
            return uuid_bytes(I, o, LE16)
        if name == "int":
            return norm(o.lin)
        if name == "hex":
            t = uuid_text(I, o)
            return t.replace("-", "") if isinstance(t, str) else snorm(SStr([p for p in t.parts if p != "-"]))
        return BMeth(o, name)
    if native_ok(o) and not isinstance(o, tuple):
        if not hasattr(o, name):
            raise exc(AttributeError, f"'{type(o).__name__}' object has no attribute '{name}'")
        if isinstance(o, (int, float)) and name in ("real", "imag", "numerator", "denominator"):
            return getattr(o, name)
        return BMeth(o, name)
    try:
        t = py_type(I, o)
    except Unsupported:
        t = None
    if t is not None and not hasattr(t, name):
        raise exc(AttributeError, f"'{t.__name__}' object has no attribute '{name}'")
    if name == "__class__":
        return t
    if isinstance(o, VBytesIO) and name == "closed":
        return o.closed
    return BMeth(o, name)


def set_value_attr(I, o, name, v):
    return False


def method(I, o, name, a, kw):
    ctx = I.ctx
    o = simp(o)
    a = [simp(x) for x in a]
    if isinstance(o, VBytesIO):
        return io_method(I, o, name, a, kw)
    if isinstance(o, (VDict, dict)):
        return dict_method(I, o, name, a, kw)
    if isinstance(o, (VList, list)):
        return list_method(I, o, name, a, kw)
    if isinstance(o, (str, SStr)):
        return str_method(I, o, name, a, kw)
    if isinstance(o, (bytes, SBytes, VBytearray)):
        return bytes_method(I, o, name, a, kw)
    if isinstance(o, (VSet, set, frozenset)):
        return set_method(I, o, name, a, kw)
    if isinstance(o, VUuid):
        if name == "__str__":
            return uuid_text(I, o)
    if isinstance(o, tuple):
        if name in ("index", "count") and native_ok(o) and all(native_ok(x) for x in a):
            return nat(getattr(o, name), a, kw)
        raise Unsupported("tuple." + name)
    if isinstance(o, int) and all(native_ok(x) for x in a) and all(native_ok(x) for x in kw.values()):
        return nat(getattr(o, name), a, kw)
    if isinstance(o, float):
        return nat(getattr(o, name), a, kw)
    if ops.is_int(o):
        x = ops.as_lin(ctx, o)
        if name == "to_bytes":
            return int_to_bytes(I, [x] + a, kw)
        if name == "bit_length":
            return bit_length(I, x)
        if name == "__index__" or name == "__int__":
            return x
    if isinstance(o, VByteSeq):
        if name == "copy":
            return o
        if name == "__len__":
            return norm(B.blen(o))
        raise Unsupported(o.kind + "." + name)
    if isinstance(o, VIter) and name == "__iter__":
        return o
    raise Unsupported(f"method {name} of {type(o).__name__}")


def int_to_bytes(I, a, kw):
    ctx = I.ctx
    x = a[0]
    n = a[1] if len(a) > 1 else kw.get("length", 1)
    order = a[2] if len(a) > 2 else kw.get("byteorder", "big")
    signed = kw.get("signed", False)
    if not ops.is_int(x):
        raise exc(TypeError, "int expected")
    x = ops.as_lin(ctx, x)
    n = ops.as_lin(ctx, n)
    if isinstance(n, Lin):
        n = ctx.unique(n)
        if n is None:
            raise Unsupported("to_bytes of symbolic length")
    signed = I.truth(signed)
    if not isinstance(x, Lin):
        return nat(int.to_bytes, [x, n, order], {"signed": signed})
    if n == 0:
        raise Unsupported("to_bytes length 0")
    lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)
    if not signed and not I.truth(I.cmp("GtE", x, 0)):
        raise exc(OverflowError, "can't convert negative int to unsigned")
    if not (I.truth(I.cmp("GtE", x, lo)) and I.truth(I.cmp("LtE", x, hi))):
        raise exc(OverflowError, "int too big to convert")
    t = [LE(n, x)]
    if order == "big" and n > 1:
        t = rev(I, t, n)
    return B.mk(t)


def int_from_bytes(I, a, kw):
    ctx = I.ctx
    b = simp(a[0])
    order = a[1] if len(a) > 1 else kw.get("byteorder", "big")
    signed = I.truth(kw.get("signed", False))
    if isinstance(b, (VList, tuple, VByteSeq)):
        b = B.mk(to_bytes_toks(I, b))
    if not ops.is_bytes(b):
        raise exc(TypeError, "cannot convert to bytes")
    if isinstance(b, (bytes, bytearray)):
        return int.from_bytes(b, order, signed=signed)
    n = B.blen(b)
    n = ctx.unique(n) if isinstance(norm(n), Lin) else norm(n)
    if n is None:
        raise Unsupported("from_bytes of symbolic length")
    return B.to_int(ctx, B.toks_of(b), n, signed, order == "big")


def io_method(I, o, name, a, kw):
    ctx = I.ctx
    if name == "read" or name == "read1":
        n = a[0] if a else kw.get("size")
        if n is not None and not ops.is_int(n):
            if isinstance(n, SFin):
                n = ops.fin_to_lin(ctx, n)
            else:
                raise exc(TypeError, "argument should be integer or None")
        return B.io_read(ctx, o, None if n is None else ops.as_lin(ctx, n))
    if name == "write":
        v = a[0]
        if not ops.is_bytes(v):
            if isinstance(v, VByteSeq) or isinstance(v, (VList, tuple, str, SStr)) or v is None or ops.is_int(v):
                raise exc(TypeError, f"a bytes-like object is required, not '{type(v).__name__}'")
            raise Unsupported("write of " + type(v).__name__)
        return B.io_write(ctx, o, v)
    if name == "tell":
        return B.io_tell(ctx, o)
    if name == "seek":
        return B.io_seek(ctx, o, ops.as_lin(ctx, a[0]), a[1] if len(a) > 1 else 0)
    if name == "close":
        o.closed = True
        return None
    if name in ("getvalue", "getbuffer"):
        if o.closed:
            raise exc(ValueError, "I/O operation on closed file.")
        if o.poisoned:
            raise Unsupported(o.poisoned)
        if any(id(o) in L.touched for L in I.ctx.loops):
            raise Unsupported("content of a stream a generic loop moves")
        return B.mk(o.toks)
    if name in ("flush",):
        return None
    if name in ("readable", "writable", "seekable"):
        return True
    raise Unsupported("BytesIO." + name)


def dict_method(I, o, name, a, kw):
    from . import loops

    ctx = I.ctx
    o = I.overlay(o) if isinstance(o, dict) else o
    if name in ("keys", "values", "items"):
        if isinstance(o, dict):
            return VIter([("items", list(getattr(o, name)()))])
        return VIter(loops.dict_pieces(I, o, name))
    if name == "get":
        d = a[1] if len(a) > 1 else None
        if isinstance(o, dict):
            if native_ok(a[0]):
                return o.get(a[0], d)
            if not I.truth(I.cmp("In", a[0], o)):
                return d
            return I.getitem(o, a[0])
        v = ops.dict_get(ctx, o, a[0], I)
        if isinstance(v, Poison):
            raise Unsupported(v.why)
        return d if v is MISSING else v
    if name == "copy":
        return shallow(I, o)
    if name == "__contains__":
        return I.cmp("In", a[0], o)
    if name == "__getitem__":
        return I.getitem(o, a[0])
    if isinstance(o, dict):
        o = I.mutable(o)
    if name == "update":
        if a:
            src = a[0]
            src = I.overlay(src)
            if not isinstance(src, (VDict, dict)):
                src = VList(ctx, I.concrete_items(src) or [])
            ops.dict_update(ctx, o, src, I)
        for k, v in kw.items():
            ops.dict_set(ctx, o, k, v)
        return None
    if name == "pop":
        v = ops.dict_get(ctx, o, a[0], I)
        if v is MISSING:
            if len(a) > 1:
                return a[1]
            raise exc(KeyError, a[0])
        I.delitem(o, a[0])
        return v
    if name == "setdefault":
        v = ops.dict_get(ctx, o, a[0], I)
        if v is MISSING:
            v = a[1] if len(a) > 1 else None
            ops.dict_set(ctx, o, a[0], v)
        return v
    if name == "__setitem__":
        return I.setitem(o, a[0], a[1])
    if name == "clear":
        if ctx.loops:
            raise Unsupported("clear in loop")
        o.ents, o.idx, o.rest = [], {}, None
        return None
    raise Unsupported("dict." + name)


def list_method(I, o, name, a, kw):
    ctx = I.ctx
    o = I.overlay(o) if isinstance(o, list) else o
    if name == "copy":
        return shallow(I, o)
    if name in ("index", "count"):
        items = ops.items_of(o)
        if all(native_ok(x) for x in items) and all(native_ok(x) for x in a):
            return nat(getattr(items, name), a, kw)
        raise Unsupported("list." + name)
    if isinstance(o, list):
        o = I.mutable(o)
    if name == "append":
        return list_append(I, o, a[0])
    if name == "extend":
        return list_extend(I, o, a[0])
    if o.poisoned:
        raise Unsupported(o.poisoned)
    if name == "pop":
        if not o.simple():
            raise Unsupported("pop from generic list")
        ops.heap_note(ctx, o, ("pop",))
        k = ops.as_lin(ctx, a[0]) if a else -1
        try:
            return o.items.pop(k)
        except IndexError:
            raise exc(IndexError, "pop from empty list")
    if name == "insert":
        k = ops.as_lin(ctx, a[0])
        if isinstance(k, Lin) or (not o.simple() and k != 0):
            raise Unsupported("insert")
        ops.heap_note(ctx, o, ("insert",))
        o.items.insert(k, a[1])
        return None
    if name == "reverse" and o.simple():
        ops.heap_note(ctx, o, ("reverse",))
        o.items.reverse()
        return None
    if name == "sort" and not kw and all(native_ok(x) for x in o.items):
        ops.heap_note(ctx, o, ("sort",))
        o.items.sort()
        return None
    if name == "clear":
        ops.heap_note(ctx, o, ("clear",))
        o.items = []
        return None
    raise Unsupported("list." + name)


def set_method(I, o, name, a, kw):
    if isinstance(o, VSet):
        if name == "add" and native_ok(a[0]):
            if I.ctx.loops:
                raise Unsupported("set.add in a generic loop")
            if a[0] not in o.items:
                o.items.append(a[0])
            return None
        if name == "copy":
            return VSet(I.ctx, o.items)
        items = set(o.items)
    else:
        if name in ("add", "remove", "discard", "update", "clear", "pop"):
            I.ctx.frame_events.append(("mutate", "set", id(o), o))
            raise Unsupported("mutation of a shared set")
        items = set(o)
    if all(native_ok(x) for x in a) and name in ("union", "intersection", "difference", "issubset", "issuperset"):
        r = nat(getattr(items, name), [set(x.items) if isinstance(x, VSet) else x for x in a], kw)
        return VSet(I.ctx, sorted(r, key=repr)) if isinstance(r, set) else r
    raise Unsupported("set." + name)


def str_method(I, o, name, a, kw):
    ctx = I.ctx
    o = snorm(o) if isinstance(o, SStr) else o
    if name == "encode":
        enc = a[0] if a else kw.get("encoding", "utf-8")
        err = a[1] if len(a) > 1 else kw.get("errors", "strict")
        return encode(I, o, enc, err)
    if name == "join":
        from . import loops

        ps = loops.pieces(I, a[0])
        out = []
        for p in ps:
            if p[0] != "items":
                return text("join")
            for x in p[1]:
                if not S.is_str(x):
                    raise exc(TypeError, "sequence item: expected str instance")
                if out:
                    out.append(o)
                out.append(x)
        return sconcat(*out)
    if name == "format":
        if isinstance(o, str) and all(native_ok(x) for x in a) and all(native_ok(x) for x in kw.values()):
            return nat(o.format, a, kw)
        if isinstance(o, str):
            return str_format(I, o, a, kw)
        raise Unsupported("format")
    if isinstance(o, str) and all(native_ok(x) for x in a) and all(native_ok(x) for x in kw.values()):
        r = nat(getattr(o, name), a, kw)
        return VList(ctx, r) if isinstance(r, list) else r
    if name == "isascii":
        return S.is_ascii(ctx, o)
    if name == "split" and len(a) == 1 and not kw and isinstance(a[0], str) and a[0]:
        l = S.leaf_of(o)
        if l is not None and l.name == "selection":
            return SelList(("selection", a[0]))
    t = part_tag(I, o)
    if t is not None and name in ("strip", "lstrip", "rstrip", "lower", "upper", "casefold") and not kw and all(isinstance(x, str) for x in a):
        p = StrLeaf("part")
        ctx.memo[("part", id(p))] = t + ((name,) + tuple(a),) if not (t[-1] == ("strip",) and name.endswith("strip") and not a) else t
        ctx.keep.append(p)
        return SStr([p])
    if name == "endswith":
        sufs = a[0] if isinstance(a[0], tuple) else (a[0],)
        for s in sufs:
            if not isinstance(s, str):
                raise Unsupported("endswith symbolic")
            if S.endswith(ctx, o, s):
                return True
        return False
    if name == "removesuffix" and isinstance(a[0], str):
        if S.endswith(ctx, o, a[0]):
            o = snorm(o)
            return I.getslice(o, slice(None, -len(a[0]), None)) if a[0] else o
        return snorm(o)
    if name in ("partition", "rpartition", "split", "rsplit", "rfind", "find") and a and isinstance(a[0], str) and a[0] and not kw:
        if len(a) == 1 and name in ("partition", "rpartition", "rfind", "find") or len(a) == 2 and name in ("split", "rsplit") and a[1] == 1 and type(a[1]) is int:
            r = S.cut(ctx, o, a[0], name[0] == "r")
            o = snorm(o)
            if name.endswith("partition"):
                return (r[0], a[0], r[1]) if r else ("", "", o) if name[0] == "r" else (o, "", "")
            if name.endswith("find"):
                return S.strlen(r[0]) if r else -1
            return VList(ctx, list(r) if r else [o])
    if name == "startswith" and isinstance(o, SStr) and isinstance(a[0], str):
        p = o.parts[0]
        if isinstance(p, str) and (len(p) >= len(a[0]) or not a[0].startswith(p)):
            return p.startswith(a[0])
        l = S.leaf_of(o)
        if l is not None and l.inset is not None:
            t = {k for k in l.inset if k.startswith(a[0])}
            if not t:
                return False
            if t == l.inset:
                return True
        key = ("startswith", repr(o), a[0])
        if key not in ctx.memo:
            ctx.memo[key] = ctx.choose(2, f"{o} startswith {a[0]!r}") == 0
            ctx.over.append("startswith abstracted")
        return ctx.memo[key]
    if name in ("casefold", "lower", "upper", "strip", "lstrip", "rstrip") and isinstance(o, SStr):
        h = I.hooks.get("str_case")
        if h is not None:
            return h(I, o, name)
        l = S.leaf_of(o)
        if l is not None and name in ("lower", "upper", "casefold") and not a:
            # an arbitrary string in that case; the original is kept for concretisation
            if l.lower_of is not None and l.lower_of[0] == name:
                return o
            key = ("case", name, id(l))
            if key not in ctx.memo:
                r = StrLeaf(l.name + "." + name)
                r.lower_of = (name, l)
                ctx.memo[key] = r
                ctx.keep.append(l)
            return SStr([ctx.memo[key]])
    if name == "__str__":
        return o
    raise Unsupported("str." + name)


def str_format(I, fmt, a, kw):
    import string

    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        out.append(lit)
        if field is None:
            continue
        if field == "":
            v = a[auto]
            auto += 1
        elif field.isdigit():
            v = a[int(field)]
        elif field in kw:
            v = kw[field]
        else:
            raise Unsupported("format field")
        out.append(py_format(I, v, conv or "", spec or ""))
    return sconcat(*out)


def bytes_method(I, o, name, a, kw):
    ctx = I.ctx
    if name == "decode":
        enc = a[0] if a else kw.get("encoding", "utf-8")
        err = a[1] if len(a) > 1 else kw.get("errors", "strict")
        return decode(I, B.mk(B.toks_of(o)) if isinstance(o, VBytearray) else o, enc, err)
    if isinstance(o, VBytearray):
        if name == "extend":
            t = to_bytes_toks(I, a[0])
            ops.heap_note(ctx, o, ("append",))
            o.toks = o.toks + t
            return None
        if name == "append":
            t = to_byte(I, a[0])
            ops.heap_note(ctx, o, ("append",))
            o.toks = o.toks + [t]
            return None
        if name == "copy":
            return VBytearray(ctx, o.toks)
        if name == "hex":
            return text("hex")
        if name == "reverse":
            n = ctx.unique(B.blen(o)) if isinstance(norm(B.blen(o)), Lin) else norm(B.blen(o))
            if n is None or n > 64:
                raise Unsupported("reverse")
            ops.heap_note(ctx, o, ("bytes",))
            o.toks = rev(I, o.toks, n)
            return None
        raise Unsupported("bytearray." + name)
    if name == "hex":
        if isinstance(o, bytes) and all(native_ok(x) for x in a):
            return nat(o.hex, a, kw)
        return text("hex")
    if name == "join":
        from . import loops

        out = []
        first = True
        for p in loops.pieces(I, a[0]):
            if p[0] == "items":
                for x in p[1]:
                    if not first:
                        out += B.toks_of(o)
                    first = False
                    if not ops.is_bytes(simp(x)):
                        raise exc(TypeError, "sequence item: expected a bytes-like object")
                    out += B.toks_of(simp(x))
            else:
                if o != b"" or not isinstance(p[3], Gen):
                    raise Unsupported("join of generic list with separator")
                out.append(Big(p[1], B.toks_of(simp(p[3].elems[0]))))
                first = False
        return B.mk(out)
    if name in ("startswith", "endswith") and isinstance(o, SBytes) and isinstance(a[0], bytes):
        k = len(a[0])
        n = B.blen(o)
        if not I.truth(I.cmp("GtE", n, k)):
            return False
        if name == "startswith":
            t = I.getslice(o, slice(0, k))
        else:
            t = I.getslice(o, slice(sub(n, k), None))
        return I.cmp("Eq", t, a[0])
    if isinstance(o, bytes) and all(native_ok(x) for x in a):
        r = nat(getattr(o, name), a, kw)
        return VList(ctx, r) if isinstance(r, list) else r
    raise Unsupported("bytes." + name)


# ------------------------------------------------------------------ zlib / base64
def zl_compress(I, a, kw):
    ctx = I.ctx
    b = simp(a[0])
    if not ops.is_bytes(b):
        raise exc(TypeError, "a bytes-like object is required")
    sb = SBytes(B.toks_of(b))
    for o in ctx.memo.setdefault("zlibs", []):
        if B.toks_same(o.obj.toks, sb.toks):
            return SBytes([o])
    e = Enc("ZLIB", sb)
    e.n.lo = 8
    # axiom: deflate never expands by more than an eighth plus a constant
    ctx.assume(SBool("ge", sub(add(scale(toks_len(sb.toks), 9), 512), scale(lin_atom(e.n), 8))))
    ctx.memo["zlibs"].append(e)
    return SBytes([e])


def zl_decompress(I, a, kw):
    ctx = I.ctx
    b = simp(a[0])
    if not ops.is_bytes(b):
        raise exc(TypeError, "a bytes-like object is required")
    f = flat(B.toks_of(b))
    if len(f) == 1 and isinstance(f[0], Enc) and f[0].kind == "ZLIB":
        return B.mk(f[0].obj.toks)
    if isinstance(b, bytes):
        try:
            return zlib.decompress(b)
        except zlib.error as e:
            raise exc(zlib.error, *e.args)
    key = ("inflate", tuple(id(t) for t in f))
    if key in ctx.memo:
        r = ctx.memo[key]
        if r is None:
            raise exc(zlib.error, "invalid")
        return r
    ctx.keep.append(f)
    if ctx.choose(2, "zlib stream valid") == 0:
        n = ctx.fresh_int("inflated", 0, None, is_len=True)
        r = SBytes([Raw("inflated", n)])
        ctx.memo[key] = r
        ctx.events.append(("inflate", f, r))
        return r
    ctx.memo[key] = None
    raise exc(zlib.error, "invalid")


def b64enc(I, a, kw):
    b = simp(a[0])
    if not ops.is_bytes(b):
        raise exc(TypeError, "a bytes-like object is required")
    if isinstance(b, bytes):
        return base64.b64encode(b)
    return SBytes([Enc("B64", SBytes(B.toks_of(b)))])


def b64dec(I, a, kw):
    s = simp(a[0])
    if isinstance(s, (str, bytes)):
        return nat(base64.b64decode, [s], kw)
    if isinstance(s, SBytes):
        f = flat(s.toks)
        if len(f) == 1 and isinstance(f[0], Enc) and f[0].kind == "B64":
            return B.mk(f[0].obj.toks)
    l = S.leaf_of(s) if isinstance(s, SStr) else None
    if l is not None and l.note and l.note[0] == "b64":
        return B.mk(l.note[1].toks)
    if s is None:
        raise exc(TypeError, "argument should be a bytes-like object or ASCII string")
    raise Unsupported("base64 of unknown text")


# ------------------------------------------------------------------ JSON
class JsonError(Exception):
    pass


def json_copy(I, v, encoder=None, allow_nan=True):
    """the value after json.dump(cls=encoder) and json.load"""
    ctx = I.ctx
    v = simp(v)
    if v is None or isinstance(v, (bool, int, str, float, SStr, Lin, SBool)):
        return v
    if isinstance(v, (SFloat, SIntFloat, SRound32, SFin)):
        return v
    if isinstance(v, (list, dict)):
        v = I.overlay(v)
    if isinstance(v, VByteSeq):
        return VByteSeq("list", v.sb)
    if isinstance(v, (VList, tuple, list)):
        items = ops.items_of(v)
        return VList(ctx, [Gen(i.count, [json_copy(I, x, encoder) for x in i.elems]) if isinstance(i, Gen) else json_copy(I, i, encoder) for i in items])
    if isinstance(v, dict):
        v = VDict(ctx, v.items())
    if isinstance(v, VDict):
        r = VDict(ctx)
        r.rest, r.tag = v.rest, v.tag
        heap_read(v)
        for e in v.ents:
            if isinstance(e, GenEntry):
                if not S.is_str(e.key):
                    raise Unsupported("json key")
                r.ents.append(GenEntry(e.count, e.key, json_copy(I, e.val, encoder)))
            else:
                k = e[0]
                if not isinstance(k, (str, SStr)):
                    if k is None or isinstance(k, (bool, int, float)):
                        k = json.loads(json.dumps({k: 0})).popitem()[0] if False else next(iter(json.loads(json.dumps({k: 0}))))
                    else:
                        raise exc(TypeError, "keys must be str, int, float, bool or None")
                r.put(k, json_copy(I, e[1], encoder))
        return r
    if isinstance(v, VOpaque):
        return v
    if isinstance(v, Poison):
        raise Unsupported(v.why)
    # JSONEncoder.default
    if encoder is None:
        raise exc(TypeError, "not JSON serializable")
    f = inspect.getattr_static(encoder, "default")
    if not I.is_repo_fn(f):
        raise exc(TypeError, "not JSON serializable")
    o = VObj(ctx, encoder)
    return json_copy(I, I.call(f, [o, v]), encoder)


# ------------------------------------------------------------------ context managers
def ctx_enter(I, m):
    if isinstance(m, VObj):
        f = inspect.getattr_static(m.cls, "__enter__", None)
        if f is None:
            raise exc(TypeError, "not a context manager")
        return I.call(f, [m])
    if isinstance(m, VBytesIO):
        return m
    h = I.hooks.get("ctx_enter")
    if h is not None:
        return h(I, m)
    raise Unsupported("with " + type(m).__name__)


def may_swallow(m):
    """can leaving this context manager swallow an exception?"""
    if isinstance(m, VObj):
        f = inspect.getattr_static(m.cls, "__exit__", None)
        if isinstance(f, types.FunctionType):
            import ast as _ast
            from .interp import fn_node

            try:
                n = fn_node(f)
                return int(any(isinstance(x, _ast.Return) and x.value is not None for x in _ast.walk(n)))
            except Exception:
                return 1
        return 1
    if isinstance(m, VBytesIO):
        return 0
    return 1


def ctx_exit(I, m, e):
    if isinstance(m, VObj):
        f = inspect.getattr_static(m.cls, "__exit__", None)
        r = I.call(f, [m, e.cls if e else None, e, None])
        return e is not None and I.truth(r)
    if isinstance(m, VBytesIO):
        m.closed = True
        return False
    h = I.hooks.get("ctx_exit")
    if h is not None:
        return h(I, m, e)
    raise Unsupported("with")


# ------------------------------------------------------------------ native calls
PURE_MODULES = {"builtins", "math", "struct", "_struct", "binascii", "operator", "_operator", "re", "uuid", "posixpath", "genericpath_x", "string", "zlib", "base64", "typing"}


def call_native(I, fn, a, kw):
    ctx = I.ctx
    a = [simp(x) for x in a]
    s = getattr(fn, "__self__", None)
    name = getattr(fn, "__name__", "?")
    if isinstance(s, struct.Struct):
        if name == "unpack":
            return st_unpack(I, s.format, a[0])
        if name == "pack":
            return st_pack(I, s.format, a)
        if name == "unpack_from":
            off = a[1] if len(a) > 1 else kw.get("offset", 0)
            return st_unpack(I, s.format, I.getslice(a[0], slice(off, add(off, s.size))))
        raise Unsupported("Struct." + name)
    if isinstance(s, (str, bytes, dict, list, set, int)) and not isinstance(s, type) and isinstance(fn, types.BuiltinMethodType):
        return method(I, s, name, a, kw)
    if type(fn).__name__ in ("method_descriptor", "wrapper_descriptor") and a:
        oc = getattr(fn, "__objclass__", None)
        if isinstance(a[0], VObj):
            if oc is object and name == "__setattr__":
                slots = all_slots(a[0].cls)
                ops.heap_note(ctx, a[0], ("attr", a[1]))
                a[0].attrs[a[1]] = a[2]
                return None
            if oc is object and name == "__init__":
                return None
            if oc is object and name == "__eq__":
                return a[0] is a[1]
            raise Unsupported("native method " + name)
        return method(I, a[0], name, a[1:], kw)
    h = I.hooks.get("native")
    if h is not None:
        r = h(I, fn, a, kw)
        if r is not NotImplemented:
            return r
    if isinstance(fn, struct.Struct):
        raise Unsupported("Struct call")
    mod = getattr(fn, "__module__", None) or getattr(type(s), "__module__", None)
    if mod in PURE_MODULES and all(deep_native(x) for x in a) and all(deep_native(x) for x in kw.values()):
        if fn in (eval, exec, open, input, __import__, compile) or name in ("breakpoint",):
            raise Unsupported("call of " + name)
        r = nat(fn, a, kw)
        if isinstance(r, list):
            return VList(ctx, r)
        if isinstance(r, dict):
            return VDict(ctx, r.items())
        return r
    if isinstance(s, json.JSONEncoder):
        pass
    if fn is json.JSONEncoder.default:
        raise exc(TypeError, "Object is not JSON serializable")
    raise Unsupported(f"call of {mod}.{name}")


def _isfin(pred):
    def f(I, a, kw):
        v = simp(a[0])
        if native_ok(v):
            return nat(getattr(math, pred), [v], {})
        if isinstance(v, SFloat):
            return ops.float_in(I.ctx, v, {"isfinite": ("finite",), "isnan": ("nan",), "isinf": ("inf", "ninf")}[pred])
        if isinstance(v, (Lin, SBool, SIntFloat)):
            return pred == "isfinite"
        if v is None or isinstance(v, SStr):
            raise exc(TypeError, "must be real number")
        raise Unsupported(pred)

    return f


def _exit(I, a, kw):
    raise PyExc(VExc(SystemExit, tuple(a)))


def _print(I, a, kw):
    I.ctx.printed += 1
    for x in a:
        if isinstance(x, Poison):
            raise Unsupported(x.why)
    return None


def _getattr(I, a, kw):
    n = simp(a[1])
    if not isinstance(n, str):
        raise Unsupported("getattr with symbolic name")
    if len(a) > 2:
        try:
            return I.getattr(a[0], n)
        except PyExc as e:
            if issubclass(e.exc.cls, AttributeError):
                return a[2]
            raise
    return I.getattr(a[0], n)


def _hasattr(I, a, kw):
    try:
        I.getattr(a[0], simp(a[1]))
        return True
    except PyExc as e:
        if issubclass(e.exc.cls, AttributeError):
            return False
        raise


def _setattr(I, a, kw):
    n = simp(a[1])
    if not isinstance(n, str):
        raise Unsupported("setattr with symbolic name")
    I.setattr(a[0], n, a[2])


def _bytesio(I, a, kw):
    if a or kw:
        v = simp(a[0] if a else kw["initial_bytes"])
        if v is None:
            r = VBytesIO(I.ctx, [])
            return r
        if not ops.is_bytes(v):
            if isinstance(v, (VByteSeq, VList, tuple)) or S.is_str(v) or ops.is_int(v):
                raise exc(TypeError, "a bytes-like object is required")
            raise Unsupported("BytesIO of " + type(v).__name__)
        r = VBytesIO(I.ctx, B.toks_of(v))
        r.mode = "r"
        return r
    return VBytesIO(I.ctx, [])


def _uuid(I, a, kw):
    names = ["hex", "bytes", "bytes_le", "fields", "int"]
    d = dict(zip(names, a))
    d.update(kw)
    d = {k: simp(v) for k, v in d.items() if v is not None}
    if set(d) == {"hex"}:
        if isinstance(d["hex"], (str, SStr)):
            return uuid_parse(I, d["hex"])
        if isinstance(d["hex"], (VObj, VUuid)):
            raise exc(AttributeError, "no attribute 'replace'")
        raise Unsupported("uuid")
    if set(d) == {"int"}:
        x = ops.as_lin(I.ctx, d["int"])
        if not (I.truth(I.cmp("GtE", x, 0)) and I.truth(I.cmp("Lt", x, 1 << 128))):
            raise exc(ValueError, "int is out of range (need a 128-bit value)")
        return VUuid(norm(x))
    if set(d) == {"bytes"} or set(d) == {"bytes_le"}:
        b = d.get("bytes", d.get("bytes_le"))
        if not I.truth(I.cmp("Eq", B.blen(b), 16)):
            raise exc(ValueError, "bytes is not a 16-char string")
        if "bytes" in d:
            return VUuid(B.to_int(I.ctx, B.toks_of(b), 16, False, True))
        rest = B.toks_of(b)
        lin = 0
        for k in LE16:
            t, rest = B.split_front(I.ctx, rest, 1)
            lin = add(lin, scale(B.to_int(I.ctx, t, 1, False), 256**k))
        return VUuid(norm(lin))
    raise Unsupported("uuid.UUID")


def _super(I, a, kw):
    return VSuper(a[0], a[1])


def _type(I, a, kw):
    if len(a) != 1:
        raise Unsupported("type()")
    return py_type(I, a[0])


def _issubclass(I, a, kw):
    return nat(issubclass, a, kw)


def _divmod(I, a, kw):
    return (I.binop("FloorDiv", a[0], a[1]), I.binop("Mod", a[0], a[1]))


def _pow(I, a, kw):
    return I.binop("Pow", a[0], a[1])


def _ord(I, a, kw):
    v = simp(a[0])
    if native_ok(v):
        return nat(ord, [v], {})
    if isinstance(v, SBytes):
        if I.truth(I.cmp("Eq", B.blen(v), 1)):
            return B.byte_at(I.ctx, v, 0)
        raise exc(TypeError, "ord() expected a character")
    raise Unsupported("ord")


def _partial(I, a, kw):
    return VPartial(a[0], tuple(a[1:]), kw)


def _bool(I, a, kw):
    if not a:
        return False
    v = simp(a[0])
    if isinstance(v, SBool):
        return v
    if isinstance(v, Lin):
        return SBool("ne", v)
    return I.truth(v)


def _str(I, a, kw):
    if not a and not kw:
        return ""
    v = simp(a[0])
    if len(a) > 1 or kw:
        return decode(I, v, *(list(a[1:]) + [kw[k] for k in ("encoding", "errors") if k in kw]))
    return py_str(I, v)


def _json_default(I, a, kw):
    raise exc(TypeError, "Object is not JSON serializable")


def _memoryview(I, a, kw):
    return simp(a[0])


def _calcsize(I, a, kw):
    items, _ = parse_fmt(I, a[0])
    t = 0
    for n, c, sz in items:
        t = add(t, scale(n, sz))
    return norm(t)


def _iter(I, a, kw):
    from . import loops

    if len(a) != 1:
        raise Unsupported("iter with sentinel")
    return VIter(loops.pieces(I, a[0]))


def _fromkeys(I, a, kw):
    raise Unsupported("fromkeys")


_T = None


def table():
    global _T
    if _T is not None:
        return _T
    t = {
        len: py_len, range: py_range, enumerate: py_enumerate, zip: py_zip, map: py_map,
        isinstance: lambda I, a, kw: py_isinstance(I, a[0], a[1]), issubclass: _issubclass,
        print: _print, int: py_int, float: py_float, bool: _bool, str: _str, repr: lambda I, a, kw: py_repr(I, a[0]),
        bytes: lambda I, a, kw: B.mk(to_bytes_toks(I, a[0], *a[1:], **({"enc": kw["encoding"]} if "encoding" in kw else {}))) if a else b"",
        bytearray: lambda I, a, kw: VBytearray(I.ctx, flat(to_bytes_toks(I, a[0]))) if a else VBytearray(I.ctx, []),
        list: py_list, tuple: py_tuple, dict: py_dict, set: py_set, frozenset: py_set,
        max: py_minmax("max"), min: py_minmax("min"), abs: py_abs, round: py_round, sum: py_sum,
        any: py_anyall("any"), all: py_anyall("all"), sorted: py_sorted, reversed: py_reversed, bin: py_bin,
        hash: py_hash, getattr: _getattr, hasattr: _hasattr, setattr: _setattr, super: _super, type: _type,
        divmod: _divmod, pow: _pow, ord: _ord, iter: _iter, memoryview: _memoryview,
        callable: lambda I, a, kw: isinstance(a[0], (VFunc, Bound, BMeth, VPartial)) or callable(a[0]),
        struct.pack: lambda I, a, kw: st_pack(I, a[0], a[1:]),
        struct.unpack: lambda I, a, kw: st_unpack(I, a[0], a[1]),
        struct.unpack_from: lambda I, a, kw: st_unpack(I, a[0], I.getslice(a[1], slice(a[2] if len(a) > 2 else 0, add(a[2] if len(a) > 2 else 0, _calcsize(I, [a[0]], {}))))),
        struct.calcsize: _calcsize,
        io.BytesIO: _bytesio, uuid.UUID: _uuid,
        int.from_bytes: int_from_bytes, int.to_bytes: int_to_bytes,
        zlib.compress: zl_compress, zlib.decompress: zl_decompress,
        base64.b64encode: b64enc, base64.b64decode: b64dec, base64.standard_b64encode: b64enc, base64.standard_b64decode: b64dec,
        math.isfinite: _isfin("isfinite"), math.isnan: _isfin("isnan"), math.isinf: _isfin("isinf"),
        sys.exit: _exit, functools.partial: _partial,
        copy.deepcopy: lambda I, a, kw: deepcopy(I, a[0]), copy.copy: lambda I, a, kw: shallow(I, a[0]),
        json.JSONEncoder.default: _json_default,
    }
    if hasattr(builtins, "exit"):
        t[builtins.exit] = _exit
        t[builtins.quit] = _exit
    _T = t
    return t
