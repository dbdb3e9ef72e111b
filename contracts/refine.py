"""Every primitive body meets its contract (prims.py)."""
import struct

from .base import *
from . import prims
from .prims import CONTRACTS, SPEC, R, W


def without(*fns):
    return {f: h for f, h in CONTRACTS.items() if f not in fns}


READ_OPS = ["i16", "u16", "i32", "u32", "i64", "u64", "byte", "bool", "float", "double", "guid", "optional_guid", "vector_dict", "quat_dict", "ftransform"]


def read_refines(name, args=None, allow_nan=True):
    f, spec = SPEC["FArchiveReader." + name]

    def body(I):
        ctx = I.ctx
        raw = free_bytes(I)
        extra = args(I) if args else []
        r1 = reader_on(I, [raw], allow_nan=allow_nan)
        io1 = r1.attrs["data"]
        toks = list(io1.toks)
        k1, v1 = outcome(I, lambda: I.call_body(f, [r1] + extra, {}))
        r2 = reader_on(I, [raw], allow_nan=allow_nan)
        io2 = r2.attrs["data"]
        io2.toks = flat(toks)
        io2.cur = 1
        k2, v2 = outcome(I, lambda: spec(I, [r2] + extra, {}))
        if v2 is NotImplemented:
            raise Unsupported("contract not applicable")
        if k1 != k2:
            raise Refuted(f"{name}: {'raises ' + repr(v1) if k1 == 'raise' else 'returns ' + repr(v1)}, the contract says {k2} {v2!r}")
        if k1 == "raise":
            return
        same_value(I, v1, v2, name)
        must_equal(ctx, rest_of(r1), rest_of(r2), name + ": bytes left to read")

    return body


def write_refines(name, args):
    f, spec = SPEC["FArchiveWriter." + name]

    def body(I):
        ctx = I.ctx
        a = args(I)
        w1 = I.call(W, [], {})
        w2 = I.call(W, [], {})
        pre = Raw("pre", ctx.fresh_int("npre", 0, None, is_len=True))
        for w in (w1, w2):
            io = w.attrs["data"]
            io.toks, io.cur = [pre], 1
        k1, v1 = outcome(I, lambda: I.call_body(f, [w1] + a, {}))
        k2, v2 = outcome(I, lambda: spec(I, [w2] + a, {}))
        if v2 is NotImplemented:
            raise Unsupported("contract not applicable")
        if k1 != k2:
            raise Refuted(f"{name}: {'raises ' + repr(v1) if k1 == 'raise' else 'returns'}, the contract says {k2} {v2!r}")
        if k1 == "raise":
            return
        must_equal(ctx, w1.attrs["data"].toks, w2.attrs["data"].toks, name + ": bytes written")
        if v2 is not None:
            same_value(I, v1, v2, name + ": returned size")

    return body


def fstring_reads_back():
    """the stored form of any string is read back as that string, consuming exactly it"""
    f = SPEC["FArchiveReader.fstring"][0]

    def body(I):
        ctx = I.ctx
        s = any_str(I, "s")
        rest = Raw("rest", ctx.fresh_int("nrest", 0, None, is_len=True))
        r = reader_on(I, [prims.fstr_tok(ctx, s), rest])
        try:
            v = I.call_body(f, [r], {})
        except PyExc as e:
            raise Refuted(f"stored string cannot be read: {e.exc}")
        same_value(I, v, s, "string read back")
        must_equal(ctx, rest_of(r), [rest], "bytes left after the string")

    return body


def any_float(I, name="value", bits=64):
    v = SFloat(name, bits)
    I.ctx.inputs[name] = v
    return v


def float_or_none(bits):
    def f(I):
        if I.ctx.choose(2, "null") == 0:
            I.ctx.inputs["value"] = None
            return [None]
        return [any_float(I, "value", bits)]

    return f


def any_bool(I):
    a = Atom("flag", 0, 1)
    v = SBool("ge", Lin(-1, {a: 1}))
    I.ctx.inputs["value"] = v
    return [v]


def guid_form(I, opt=False):
    """a GUID as object, as text or as uuid.UUID"""
    ctx = I.ctx
    raw = Raw("raw", 16)
    ctx.inputs["raw"] = raw
    k = ctx.choose(4 if opt else 3, "GUID form")
    ctx.inputs["form"] = k
    if k == 3:
        return [None]
    g = I.call(A.UUID, [SBytes([raw])])
    if k == 0:
        return [g]
    return [I.call(str, [g]) if k == 1 else I.call(g_method(g, "UUID"), [g])]


def g_method(g, n):
    return getattr(g.cls, n)


def fdict(keys, name="value"):
    def f(I):
        d = VDict(I.ctx)
        for k in keys:
            if I.ctx.choose(2, "null " + k) == 0:
                d.put(k, None)
            else:
                d.put(k, SFloat(k, 64))
        I.ctx.inputs[name] = d
        return [d]

    return f


def transform(I):
    d = VDict(I.ctx)
    for k, ks in (("rotation", "xyzw"), ("translation", "xyz"), ("scale3d", "xyz")):
        d.put(k, VDict(I.ctx, [(x, SFloat(k + x, 64)) for x in ks]))
    I.ctx.inputs["value"] = d
    return [d]
