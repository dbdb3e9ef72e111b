"""C01/C02: the SAV container.

zlib is trusted by two axioms: compress is a function whose result decompress maps back to its
argument, and decompress of anything else either fails or returns some bytes (the same ones for
the same input)."""
from .base import *
from .prims import CONTRACTS
from palworld_save_tools import palsav


def roundtrip(typ):
    def body(I):
        ctx = I.ctx
        n = ctx.fresh_int("n", 0, 3 << 30, is_len=True)  # the length fields have 32 bits
        p = Raw("payload", n)
        ctx.inputs["payload"] = p
        ctx.inputs["length"] = n
        try:
            c = I.call(palsav.compress_gvas_to_sav, [SBytes([p]), typ])
        except PyExc as e:
            raise Refuted(f"payload cannot be put into a container: {e.exc}")
        if kind(c) != "bytes":
            raise Refuted("container is not a bytes object")
        once = I.call(zlib_compress, [SBytes([p])])
        body_ = once if typ == 0x31 else I.call(zlib_compress, [once])
        try:
            r = I.call(palsav.decompress_sav_to_gvas, [c])
        except PyExc as e:
            raise Refuted(f"own container is refused: {e.exc}")
        out = list(ops.items_of(r)) if isinstance(r, (tuple, VList)) else None
        if out is None or len(out) != 2:
            raise Refuted("decompression does not return payload and type")
        must_equal(ctx, B.toks_of(out[0]), [p], "payload")
        same_value(I, out[1], typ, "save type")
        # layout
        ln = toks_len(B.toks_of(once))
        want = [LE(4, n), LE(4, ln), b"PlZ" + bytes([typ])] + flat(B.toks_of(body_))
        must_equal(ctx, B.toks_of(c), want, "container layout")

    return body


def accepts(typ, wrapped):
    """an intact container is accepted, also wrapped: 8 bytes of any content, CNK and any byte before it"""

    def body(I):
        ctx = I.ctx
        n = ctx.fresh_int("n", 0, 3 << 30, is_len=True)
        p = Raw("payload", n)
        ctx.inputs["payload"] = p
        ctx.inputs["length"] = n
        once = I.call(zlib_compress, [SBytes([p])])
        body_ = once if typ == 0x31 else I.call(zlib_compress, [once])
        c = [LE(4, n), LE(4, toks_len(B.toks_of(once))), b"PlZ" + bytes([typ])] + flat(B.toks_of(body_))
        if wrapped:
            a, b, d = (lin_atom(Atom("w", 0, (1 << w) - 1)) for w in (32, 32, 8))
            ctx.inputs["wrap"] = (a, b, d)
            c = [LE(4, a), LE(4, b), b"CNK", LE(1, d)] + c
        try:
            r = I.call(palsav.decompress_sav_to_gvas, [SBytes(c)])
        except PyExc as e:
            raise Refuted(f"an intact container is refused: {e.exc}")
        out = list(ops.items_of(r)) if isinstance(r, (tuple, VList)) else None
        if out is None or len(out) != 2:
            raise Refuted("decompression does not return payload and type")
        must_equal(ctx, B.toks_of(out[0]), [p], "payload")
        same_value(I, out[1], typ, "save type")

    return body


import zlib

zlib_compress = zlib.compress


def u32_at(I, toks, o):
    return norm(B.to_int(I.ctx, B.toks_of(I.getslice(SBytes(toks), slice(o, o + 4))), 4, False))


def byte_at(I, toks, o):
    return norm(B.to_int(I.ctx, B.toks_of(I.getslice(SBytes(toks), slice(o, o + 1))), 1, False))


def refuses():
    """whatever is accepted carries the right magic, type and lengths"""

    def body(I):
        ctx = I.ctx
        raw = free_bytes(I, "data")
        # containers shorter than a header: free length below 24 is split exactly
        case = ctx.choose(25, "length")
        if case < 24:
            ctx.assume(SBool("eq", sub(raw.n, case)))
        else:
            ctx.assume(SBool("ge", sub(raw.n, 24)))
        data = SBytes([raw])
        try:
            r = I.call(palsav.decompress_sav_to_gvas, [data])
        except PyExc:
            return
        out = list(ops.items_of(r)) if isinstance(r, (tuple, VList)) else None
        if out is None or len(out) != 2:
            raise Refuted("decompression does not return payload and type")
        payload, typ = out
        toks = [raw]
        off = 0
        total = raw.n
        if case < 12:
            raise Refuted("a container without a full header is accepted")
        m = I.getslice(data, slice(8, 11))
        if I.truth(I.cmp("Eq", m, b"CNK")):
            off = 12
            if case < 24:
                raise Refuted("a wrapped container without a full header is accepted")
            m = I.getslice(data, slice(20, 23))
        is_eq(I, m, b"PlZ", "magic")
        t = byte_at(I, toks, off + 11)
        same_value(I, typ, t, "save type returned")
        if isinstance(t, Lin):
            prove_any(ctx, [SBool("eq", sub(t, 0x31)), SBool("eq", sub(t, 0x32))], "save type 0x31 or 0x32")
            single = ctx.decide(SBool("eq", sub(t, 0x31)))
        else:
            if t not in (0x31, 0x32):
                raise Refuted(f"save type {t} accepted")
            single = t == 0x31
        cl = u32_at(I, toks, off + 4)
        ul = u32_at(I, toks, off)
        stream = I.getslice(data, slice(off + 12, None))
        first = inflated(I, stream, "container body")
        if single:
            same_value(I, cl, norm(sub(total, off + 12)), "declared compressed length")
            last = first
        else:
            same_value(I, cl, toks_len(B.toks_of(first)), "declared compressed length")
            last = inflated(I, first, "once-inflated body")
        must_equal(ctx, B.toks_of(payload), B.toks_of(last), "payload returned")
        same_value(I, ul, toks_len(B.toks_of(last)), "declared uncompressed length")

    return body


def inflated(I, b, what):
    f = flat(B.toks_of(b))
    for k, src, r in I.ctx.events:
        if k == "inflate" and B.toks_same(src, f):
            return r
    raise Refuted(f"{what} was not inflated")


def is_eq(I, a, b, what):
    v = I.cmp("Eq", a, b)
    if v is False:
        raise Refuted(f"{what} is not checked")
    if v is True:
        return
    prove(I.ctx, v, f"{what} is not checked")


def prove_any(ctx, bs, msg):
    import z3

    if any(ctx.quick(b) is True for b in bs):
        return
    r = ctx.check([b.neg() for b in bs])
    if r == z3.unsat:
        return
    if r == z3.unknown:
        raise Unsupported("unknown: " + msg)
    raise Refuted(msg, [b.neg() for b in bs])


def pay(i):
    """the payload to replay; a long one is given by its length"""
    n = i.get("length", 0)
    return n if n > 1 << 16 else i["payload"]
