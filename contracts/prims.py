"""Contracts of the archive primitives.

Each handler is the specification of one repository function, stated over byte tokens; callers are
verified against it instead of the body.  refine.py proves that every body meets its contract.
A handler returns NotImplemented when its precondition on the representation does not hold (then
the body is interpreted)."""
import math

from pyvc.terms import *
from pyvc.values import *
from pyvc.ops import exc, assume_flag
from pyvc import bytesops as B
from pyvc import strops as S
from pyvc import models as M
from pyvc import ops

from palworld_save_tools import archive as A

R, W = A.FArchiveReader, A.FArchiveWriter
CONTRACTS = {}
SPEC = {}  # name -> (function, handler)


def fn_of(cls, name):
    f = cls.__dict__.get(name)
    if isinstance(f, (staticmethod, classmethod)):
        f = f.__func__
    return f


def contract(cls, name, arity=None):
    f = fn_of(cls, name)

    def deco(h):
        if f is not None and hasattr(f, "__code__"):
            CONTRACTS[f] = h
            SPEC[f"{cls.__name__}.{name}"] = (f, h)
        return h

    return deco


def stream(o):
    d = o.attrs.get("data") if isinstance(o, VObj) else None
    return d if isinstance(d, VBytesIO) and not d.closed else None


def take(I, o, n):
    """exactly n bytes from the stream, or the read fails"""
    io = stream(o)
    if nofail(I):
        # the caller ends here with an error otherwise, which the obligation accepts
        n = norm(n)
        if not (not isinstance(n, Lin) and n == 0):
            B.io_touch(I.ctx, io)
            if io.cur < len(io.toks) and not isinstance(io.toks[io.cur], Big):
                d = norm(sub(toks_len(B.io_remaining(I.ctx, io)), n))
                if isinstance(d, Lin):
                    I.ctx.assume(SBool("ge", d))
    b = B.io_read(I.ctx, io, n)
    ln = B.blen(b)
    d = norm(sub(ln, n))
    if isinstance(d, Lin):
        if not I.ctx.provable_eq(ln, n):
            if I.ctx.decide(SBool("eq", d)):
                return b
            raise exc(Exception, "short read")
        return b
    if d != 0:
        raise exc(Exception, "short read")
    return b


def nofail(I):
    return I.ctx.opts.get("no_fail") and I.ctx.try_depth == 0


def put(I, o, v):
    B.io_write(I.ctx, stream(o), v)


# ------------------------------------------------------------------ reader
def r_int(name, w, signed):
    @contract(R, name)
    def h(I, a, kw):
        if len(a) != 1 or kw or stream(a[0]) is None:
            return NotImplemented
        b = take(I, a[0], w)
        return norm(B.to_int(I.ctx, B.toks_of(b), w, signed))


for _n, _w, _s in (("i16", 2, True), ("u16", 2, False), ("i32", 4, True), ("u32", 4, False), ("i64", 8, True), ("u64", 8, False), ("byte", 1, False)):
    r_int(_n, _w, _s)


@contract(R, "bool")
def r_bool(I, a, kw):
    if len(a) != 1 or kw or stream(a[0]) is None:
        return NotImplemented
    v = norm(B.to_int(I.ctx, B.toks_of(take(I, a[0], 1)), 1, False))
    if not isinstance(v, Lin):
        return v > 0
    if I.ctx.opts.get("canonical", True):
        assume_flag(I.ctx, SBool("ge", sub(v, 1)))
    v = norm(v)
    return SBool("ge", sub(v, 1)) if isinstance(v, Lin) else v > 0


def r_float(name, kind):
    @contract(R, name)
    def h(I, a, kw):
        if len(a) != 1 or kw or stream(a[0]) is None:
            return NotImplemented
        an = a[0].attrs.get("allow_nan")
        if not isinstance(an, bool):
            return NotImplemented
        b = take(I, a[0], 4 if kind == "f" else 8)
        v = B.to_float(I.ctx, B.toks_of(b), kind)
        if an:
            return v
        if isinstance(v, (float, int)):
            return v if math.isfinite(v) else None
        if I.truth(I.call(math.isfinite, [v])):
            return v
        return None

    return h


h_rfloat = r_float("float", "f")
h_rdouble = r_float("double", "d")


@contract(R, "read")
def r_read(I, a, kw):
    if len(a) != 2 or kw or stream(a[0]) is None or not ops.is_int(a[1]):
        return NotImplemented
    n = norm(ops.as_lin(I.ctx, a[1]))
    neg = n < 0 if not isinstance(n, Lin) else not I.ctx.decide(SBool("ge", n), "read size >= 0")
    if neg:
        raise exc(Exception, "negative read")
    return take(I, a[0], n)


@contract(R, "byte_list")
def r_byte_list(I, a, kw):
    if len(a) != 2 or kw or stream(a[0]) is None or not ops.is_int(a[1]):
        return NotImplemented
    n = norm(ops.as_lin(I.ctx, a[1]))
    neg = n < 0 if not isinstance(n, Lin) else not I.ctx.decide(SBool("ge", n), "read size >= 0")
    if neg:
        raise exc(Exception, "negative read")
    b = take(I, a[0], n)
    return VByteSeq("tuple", b if isinstance(b, SBytes) else SBytes([b] if b else []))


@contract(R, "guid")
def r_guid(I, a, kw):
    if len(a) != 1 or kw or stream(a[0]) is None:
        return NotImplemented
    return I.call(A.UUID, [take(I, a[0], 16)])


@contract(R, "optional_guid")
def r_optional_guid(I, a, kw):
    if len(a) != 1 or kw or stream(a[0]) is None:
        return NotImplemented
    if I.truth(r_bool(I, a, {})):
        return r_guid(I, a, {})
    return None


def vdict(keys):
    def h(I, a, kw):
        if len(a) != 1 or kw or stream(a[0]) is None:
            return NotImplemented
        return VDict(I.ctx, [(k, h_rdouble(I, [a[0]], {})) for k in keys])

    return h


contract(R, "vector_dict")(vdict("xyz"))
contract(R, "quat_dict")(vdict("xyzw"))


@contract(R, "ftransform")
def r_ftransform(I, a, kw):
    if len(a) != 1 or kw or stream(a[0]) is None:
        return NotImplemented
    q = vdict("xyzw")(I, a, {})
    t = vdict("xyz")(I, a, {})
    s = vdict("xyz")(I, a, {})
    return VDict(I.ctx, [("rotation", q), ("translation", t), ("scale3d", s)])


@contract(R, "fstring")
def r_fstring(I, a, kw):
    if len(a) != 1 or kw:
        return NotImplemented
    io = stream(a[0])
    if io is None:
        return NotImplemented
    ctx = I.ctx
    B.io_touch(ctx, io)
    if io.poisoned:
        raise Unsupported(io.poisoned)
    io.toks[io.cur :] = flat(io.toks[io.cur :])
    while io.cur < len(io.toks) and isinstance(io.toks[io.cur], Big):
        B._open_big(ctx, io)
        io.toks[io.cur :] = flat(io.toks[io.cur :])
    if io.cur >= len(io.toks):
        ctx.short_read = True
        raise exc(Exception, "short read")
    t = io.toks[io.cur]
    if isinstance(t, FStrTok):
        io.cur += 1
        reg_fstr(ctx, t)
        return snorm(t.s)
    if not isinstance(t, Raw) or not ctx.opts.get("canonical", True):
        return NotImplemented
    # uninterpreted input: the read fails, or a string in stored form is there
    if any(n[0] == "badstr" and n[1] is t for n in ctx.notes) or not nofail(I) and ctx.choose(2, "string readable") == 1:
        io.cur = len(io.toks)
        ctx.notes.append(("badstr", t))
        raise exc(Exception, "string cannot be read")
    leaf = StrLeaf("str")
    leaf.n.hi = 1 << 29
    k = FStrTok(SStr([leaf]))
    reg_fstr(ctx, k)
    rest = Raw(t.name, sub(t.n, lin_atom(k.n)))
    ctx.trail.append((t, "rawbind", None))
    t.bind = [k, rest]
    ctx.assume(SBool("ge", sub(t.n, lin_atom(k.n))))
    io.toks[io.cur : io.cur + 1] = [k, rest]
    io.cur += 1
    return snorm(k.s)


@contract(R, "properties_until_end")
def r_props(I, a, kw):
    """In uninterpreted input: the read fails, or a well-formed property list is there (C07)."""
    if not I.ctx.opts.get("props", True) or stream(a[0]) is None:
        return NotImplemented
    io = stream(a[0])
    ctx = I.ctx
    B.io_touch(ctx, io)
    if io.poisoned:
        raise Unsupported(io.poisoned)
    path = a[1] if len(a) > 1 else kw.get("path", "")
    io.toks[io.cur :] = flat(io.toks[io.cur :])
    while io.cur < len(io.toks) and isinstance(io.toks[io.cur], Big):
        B._open_big(ctx, io)
        io.toks[io.cur :] = flat(io.toks[io.cur :])
    if io.cur >= len(io.toks):
        ctx.short_read = True
        raise exc(Exception, "short read")
    t = io.toks[io.cur]
    if isinstance(t, Enc) and t.kind == "PROPS":
        io.cur += 1
        want = ctx.__dict__.get("paths", {}).get(getattr(t.obj, "tag", None))
        if want is not None and not S.same_str(snorm(want), snorm(path)):
            raise Refuted(f"a nested property list is read under the path {path} instead of {want}")
        return t.obj
    if not isinstance(t, Raw) or not ctx.opts.get("canonical", True):
        return NotImplemented
    if any(n[0] == "badprops" and n[1] is t for n in ctx.notes) or not nofail(I) and ctx.choose(2, "property list readable") == 1:
        io.cur = len(io.toks)
        ctx.notes.append(("badprops", t))
        ctx.nested_failed = True
        raise exc(Exception, "property list cannot be read")
    o = VOpaque(f"props{len(ctx.trace)}", "props")
    k = enc_tok(ctx, "PROPS", o, 9)
    rest = Raw(t.name, sub(t.n, lin_atom(k.n)))
    ctx.trail.append((t, "rawbind", None))
    t.bind = [k, rest]
    ctx.assume(SBool("ge", sub(t.n, lin_atom(k.n))))
    io.toks[io.cur : io.cur + 1] = [k, rest]
    io.cur += 1
    return o


def fails(I, t, why):
    """uninterpreted input: the read may fail here (the same way every time)"""
    ctx = I.ctx
    if any(n[0] == why and n[1] is t for n in ctx.notes) or not nofail(I) and ctx.choose(2, why) == 1:
        ctx.notes.append((why, t))
        return True
    return False


def r_compact(name, kind, lo, hi, nargs, conc):
    """C06: a rotator or packed vector in the form the writer gives it; three numbers that the
    writer stores as the same bytes"""

    @contract(R, name)
    def h(I, a, kw):
        ctx = I.ctx
        io = stream(a[0]) if a else None
        if len(a) != 1 + nargs or kw or io is None or not ctx.opts.get("canonical", True) or nargs and a[1] != 1:
            return NotImplemented
        B.io_touch(ctx, io)
        if io.poisoned:
            raise Unsupported(io.poisoned)
        io.toks[io.cur :] = flat(io.toks[io.cur :])
        if io.cur >= len(io.toks):
            return NotImplemented
        t = io.toks[io.cur]
        if isinstance(t, Enc) and t.kind == kind:
            io.cur += 1
            return t.obj
        if not isinstance(t, Raw):
            return NotImplemented
        if fails(I, t, kind + " cannot be read"):
            io.cur = len(io.toks)
            raise exc(Exception, kind + " cannot be read")
        n = len(ctx.trace), len(ctx.__dict__.get("encs", ()))
        o = tuple(VOpaque((kind, n, i), "num") for i in range(3))
        k = enc_tok(ctx, kind, o, lo)
        k.n.hi = hi
        k.conc = conc
        rest = Raw(t.name, sub(t.n, lin_atom(k.n)))
        ctx.trail.append((t, "rawbind", None))
        t.bind = [k, rest]
        ctx.assume(SBool("ge", sub(t.n, lin_atom(k.n))))
        io.toks[io.cur : io.cur + 1] = [k, rest]
        io.cur += 1
        return o

    @contract(W, name)
    def w(I, a, kw):
        if len(a) != 4 + nargs or kw or stream(a[0]) is None or nargs and a[1] != 1:
            return NotImplemented
        v = a[1 + nargs :]
        for t in I.ctx.__dict__.get("encs", ()):
            if t.kind == kind and all(isinstance(x, VOpaque) and x.tag == y.tag for x, y in zip(v, t.obj)):
                put(I, a[0], SBytes([enc_tok(I.ctx, kind, t.obj)]))
                return None
        if any(isinstance(x, VOpaque) and x.kind == "num" for x in v):
            raise Refuted(f"{name} is written with other values than the ones read")
        return NotImplemented


r_compact("compressed_short_rotator", "ROT", 3, 9, 0, lambda c: [b"\0\0\0", b"\1\1\0\0\1\xff\xff", b"\1\3\x80\1\2\0\1\1\x40"][c.variant % 3])
r_compact("packed_vector", "PVEC", 7, 28, 1, lambda c: [bytes([65, 0, 0, 0, 0, 0, 0]), bytes([67, 0, 0, 0, 3, 0xFE, 2]), b"\x40\0\0\0" + _struct.pack("<3d", 1e300, 0.5, -2.0)][c.variant % 3])


# ------------------------------------------------------------------ writer
import struct as _struct


def w_int(name, fmt):
    @contract(W, name)
    def h(I, a, kw):
        if len(a) != 2 or kw or stream(a[0]) is None:
            return NotImplemented
        if not ops.is_int(a[1]):
            return NotImplemented
        put(I, a[0], I.call(_struct.pack, ["<" + fmt, a[1]]))
        return None


for _n, _f in (("i16", "h"), ("u16", "H"), ("i32", "i"), ("u32", "I"), ("i64", "q"), ("u64", "Q"), ("u", "B"), ("byte", "B")):
    w_int(_n, _f)


@contract(W, "bool")
def w_bool(I, a, kw):
    if len(a) != 2 or kw or stream(a[0]) is None:
        return NotImplemented
    put(I, a[0], I.call(_struct.pack, ["?", a[1]]))


def w_float(name, kind):
    @contract(W, name)
    def h(I, a, kw):
        if len(a) != 2 or kw or stream(a[0]) is None:
            return NotImplemented
        v = a[1]
        if v is None:
            v = float("nan")
        put(I, a[0], I.call(_struct.pack, ["<" + kind, v]))

    return h


h_wfloat = w_float("float", "f")
h_wdouble = w_float("double", "d")


@contract(W, "write")
def w_write(I, a, kw):
    if len(a) != 2 or kw or stream(a[0]) is None:
        return NotImplemented
    if not isinstance(a[1], (bytes, bytearray, SBytes, VBytearray)):
        return NotImplemented
    put(I, a[0], a[1])


@contract(W, "fstring")
def w_fstring(I, a, kw):
    if len(a) != 2 or kw or stream(a[0]) is None or not S.is_str(a[1]):
        return NotImplemented
    s = snorm(a[1])
    ctx = I.ctx
    if isinstance(s, str):
        b = fstr_bytes(s)
        put(I, a[0], b)
        return len(b)
    k = fstr_tok(ctx, s)
    put(I, a[0], SBytes([k]))
    return norm(lin_atom(k.n))


def reg_fstr(ctx, t):
    l = ctx.__dict__.setdefault("fstrs", [])
    if not any(x is t for x in l):
        l.append(t)


def fstr_tok(ctx, s):
    """stored form of s; the same string has the same stored length"""
    k = FStrTok(s)
    for q in ctx.__dict__.setdefault("fstrs", []):
        if S.same_str(q.s, s):
            k.n = q.n
            return k
    ctx.fstrs.append(k)
    return k


def enc_tok(ctx, kind, obj, lo=0):
    for t in ctx.__dict__.setdefault("encs", []):
        if t.kind == kind and t.obj is obj:
            k = Enc(kind, obj)
            k.n = t.n
            return k
    k = Enc(kind, obj)
    k.n.lo = lo
    ctx.encs.append(k)
    return k


@contract(W, "guid")
def w_guid(I, a, kw):
    if len(a) != 2 or kw or stream(a[0]) is None:
        return NotImplemented
    b = guid_bytes(I, a[1])
    if b is None:
        return NotImplemented
    put(I, a[0], b)


def guid_bytes(I, v):
    if isinstance(v, VObj) and v.cls is A.UUID:
        b = v.attrs.get("raw_bytes")
        if isinstance(b, (bytes, SBytes)) and not isinstance(toks_len(B.toks_of(b)), Lin) and toks_len(B.toks_of(b)) == 16:
            return b
    if isinstance(v, VGuidStr):
        return v.b
    return None


class VGuidStr:
    pass


@contract(W, "optional_guid")
def w_optional_guid(I, a, kw):
    if len(a) != 2 or kw or stream(a[0]) is None:
        return NotImplemented
    if a[1] is None:
        put(I, a[0], b"\0")
        return None
    b = guid_bytes(I, a[1])
    if b is None:
        return NotImplemented
    put(I, a[0], b"\1")
    put(I, a[0], b)


def w_vec(name, keys):
    @contract(W, name)
    def h(I, a, kw):
        if len(a) != 2 or kw or stream(a[0]) is None or not isinstance(a[1], VDict):
            return NotImplemented
        for k in keys:
            h_wdouble(I, [a[0], I.getitem(a[1], k)], {})

    return h


h_wvec = w_vec("vector_dict", "xyz")
h_wquat = w_vec("quat_dict", "xyzw")


@contract(W, "ftransform")
def w_ftransform(I, a, kw):
    if len(a) != 2 or kw or stream(a[0]) is None or not isinstance(a[1], VDict):
        return NotImplemented
    h_wquat(I, [a[0], I.getitem(a[1], "rotation")], {})
    h_wvec(I, [a[0], I.getitem(a[1], "translation")], {})
    h_wvec(I, [a[0], I.getitem(a[1], "scale3d")], {})


@contract(W, "properties")
def w_props(I, a, kw):
    if len(a) != 2 or kw or stream(a[0]) is None or not isinstance(a[1], VOpaque):
        return NotImplemented
    put(I, a[0], SBytes([enc_tok(I.ctx, "PROPS", a[1], 9)]))
