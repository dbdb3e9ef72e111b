"""C06: compressed rotators and packed vectors."""
import struct

from .base import *
from .prims import CONTRACTS, SPEC, R, W
from palworld_save_tools import json_tools as J


def rot_toks(I, name="code"):
    """stored form of three angle codes: a flag, then the code if it is not zero"""
    toks, codes = [], []
    for i in range(3):
        if I.ctx.choose(2, "angle code zero") == 0:
            toks.append(b"\0")
            codes.append(0)
        else:
            a = Atom(f"{name}{i}", 1, 65535)
            toks += [b"\1", LE(2, lin_atom(a))]
            codes.append(lin_atom(a))
    return toks, codes


def rotator():
    def body(I):
        ctx = I.ctx
        toks, codes = rot_toks(I)
        ctx.inputs["codes"] = tuple(codes)
        rest = Raw("rest", ctx.fresh_int("nrest", 0, None, is_len=True))
        r = reader_on(I, toks + [rest])
        try:
            v = I.call_body(R.compressed_short_rotator, [r], {})
        except PyExc as e:
            raise Refuted(f"rotator cannot be read: {e.exc}")
        must_equal(ctx, rest_of(r), [rest], "bytes after the rotator")
        if ctx.choose(2, "through JSON"):
            v = M.json_copy(I, v, J.CustomEncoder)
        w = I.call(W, [], {})
        try:
            I.call_body(W.compressed_short_rotator, [w] + list(ops.items_of(v)), {})
        except PyExc as e:
            raise Refuted(f"rotator cannot be written: {e.exc}")
        must_equal(ctx, w.attrs["data"].toks, toks, "rotator written back")

    return body


def write_pvec(I, v):
    w = I.call(W, [], {})
    try:
        I.call_body(W.packed_vector, [w, 1] + list(v), {})
    except PyExc as e:
        raise Refuted(f"packed vector cannot be written: {e.exc}")
    return w.attrs["data"].toks


def read_pvec(I, toks):
    ctx = I.ctx
    rest = Raw("rest", ctx.fresh_int("nrest", 0, None, is_len=True))
    r = reader_on(I, flat(toks) + [rest])
    try:
        v = I.call_body(R.packed_vector, [r, 1], {})
    except PyExc as e:
        raise Refuted(f"packed vector cannot be read: {e.exc}")
    must_equal(ctx, rest_of(r), [rest], "bytes after the packed vector")
    return v


def num(I, v):
    """value of a number as an integer term, when it is one"""
    v = M.simp(v)
    if isinstance(v, SIntFloat):
        return norm(v.lin)
    if isinstance(v, (Lin, int)):
        return norm(v)
    if isinstance(v, float) and v == int(v):
        return int(v)
    return None


def same_num(I, a, b, what):
    x, y = num(I, a), num(I, b)
    if x is not None and y is not None:
        d = norm(sub(x, y))
        prove(I.ctx, SBool("eq", d) if isinstance(d, Lin) else d == 0, f"{what}: {a} versus {b}")
        return
    same_value(I, a, b, what)


def pvec(lo_bits, hi_bits):
    """coordinates whose largest magnitude needs a bit count in the range; whole-number doubles"""

    def body(I):
        ctx = I.ctx
        b = lo_bits + ctx.choose(hi_bits - lo_bits + 1, "bits")
        vs = []
        big = ctx.choose(3, "largest coordinate")
        for i in range(3):
            # bits needed for v: v in [-2^(b-1), 2^(b-1))
            a = Atom("xyz"[i], -(1 << (b - 1)), (1 << (b - 1)) - 1)
            vs.append(a)
        if b > 1:
            h = 1 << (b - 2)
            if ctx.choose(2, "sign of the largest") == 0:
                vs[big].lo = h
            else:
                vs[big].hi = -h - 1
        ctx.inputs["v"] = ctx.inputs["exact"] = tuple(lin_atom(a) for a in vs)
        v = [SIntFloat(lin_atom(a)) for a in vs]
        toks = write_pvec(I, v)
        o = read_pvec(I, toks)
        o2 = list(ops.items_of(o))
        if len(o2) != 3:
            raise Refuted("packed vector has not three coordinates")
        for i in range(3):
            same_num(I, o2[i], v[i], f"coordinate {i}")
        t2 = write_pvec(I, o2)
        must_equal(ctx, t2, toks, "packed vector written again")
        o3 = M.json_copy(I, VList(ctx, o2), J.CustomEncoder)
        must_equal(ctx, write_pvec(I, list(ops.items_of(o3))), toks, "packed vector written again after JSON")

    return body


def pvec_large():
    """a coordinate too large for packing: stored as doubles; the others are any finite doubles"""

    def body(I):
        ctx = I.ctx
        big = ctx.choose(3, "largest coordinate")
        v = [M.SBig("xyz"[i]) if i == big else SFloat("xyz"[i], 64) for i in range(3)]
        for x in v:
            x.cls = "finite"
        ctx.inputs["big"] = big
        toks = write_pvec(I, v)
        o = read_pvec(I, toks)
        o2 = list(ops.items_of(o))
        if len(o2) != 3:
            raise Refuted("packed vector has not three coordinates")
        for i in range(3):
            same_num(I, o2[i], v[i], f"coordinate {i}")
        must_equal(ctx, write_pvec(I, o2), toks, "packed vector written again")
        o3 = M.json_copy(I, VList(ctx, o2), J.CustomEncoder)
        must_equal(ctx, write_pvec(I, list(ops.items_of(o3))), toks, "packed vector written again after JSON")

    return body


BIG = [2.0**62, -(2.0**62), 2.0**62 + 1024, 2.0**63, 2.0**64, -1e19, 1e25, -1e38, 1e200, -1.7976931348623157e308]
SMALL = [0.0, -0.0, 0.5, -0.25, 1.0, 123456.75, -3e18, 5e-324, 2.0**52, 2.0**61 + 512]


def large_cases(i):
    out = []
    for b in BIG:
        for k, x in enumerate(SMALL):
            v = [x, SMALL[(k + 3) % len(SMALL)]]
            v.insert(i["big"], b)
            out.append(("o_pvec", dict(v=tuple(v))))
    return out
