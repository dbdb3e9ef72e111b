"""C16: the NaN setting reaches every reader that reads floats, at every depth.

Each obligation runs a real reading function under a reader with the setting chosen; every float,
vector, transform, packed vector and nested property list it reads must be read by a reader with
the same setting, and every float in the result must have come from such a read.  The contract of
the float readers (reader.float/nan, reader.double/nan) then gives the property; nested property
lists are covered by the same obligations, by induction on nesting."""
from .base import *
from . import prims, tree, wrap, gvas
from .prims import CONTRACTS, R, W, stream, enc_tok
from .blobs import blob_input
from palworld_save_tools import gvas as V, paltypes as PT


def setting(I, o, want, what):
    an = o.attrs.get("allow_nan") if isinstance(o, VObj) else None
    if not isinstance(an, bool):
        raise Unsupported("representation of the NaN setting")
    if an != want:
        raise Refuted(f"{what} read with allow_nan={an} in data read with allow_nan={want}")


def contracts(want, base=None):
    c = dict(CONTRACTS if base is None else base)

    def flt(kind):
        def h(I, a, kw):
            if len(a) != 1 or kw or stream(a[0]) is None:
                return NotImplemented
            setting(I, a[0], want, "a float is")
            v = B.to_float(I.ctx, B.toks_of(prims.take(I, a[0], 4 if kind == "f" else 8)), kind)
            I.ctx.__dict__.setdefault("nan_ok", []).append(v)
            return v

        return h

    hf, hd = flt("f"), flt("d")

    def vec(keys):
        def h(I, a, kw):
            if len(a) != 1 or kw or stream(a[0]) is None:
                return NotImplemented
            return VDict(I.ctx, [(k, hd(I, [a[0]], {})) for k in keys])

        return h

    def tr(I, a, kw):
        if len(a) != 1 or kw or stream(a[0]) is None:
            return NotImplemented
        return VDict(I.ctx, [("rotation", vec("xyzw")(I, a, {})), ("translation", vec("xyz")(I, a, {})), ("scale3d", vec("xyz")(I, a, {}))])

    def then(h, what):
        def g(I, a, kw):
            if a and stream(a[0]) is not None:
                setting(I, a[0], want, what)
            return h(I, a, kw)

        return g

    for n, h in (("float", hf), ("double", hd), ("vector_dict", vec("xyz")), ("quat_dict", vec("xyzw")), ("ftransform", tr)):
        f = prims.fn_of(R, n)
        if f in c:
            c[f] = h
    for n in ("properties_until_end", "packed_vector"):
        f = prims.fn_of(R, n)
        if f in c:
            c[f] = then(c[f], n + " is")
    return c


def floats(v, out, seen):
    if id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, (SFloat, SRound32, SIntFloat)):
        out.append(v)
    elif isinstance(v, VDict):
        for e in v.ents:
            floats(e[1] if isinstance(e, list) else e.val, out, seen)
    elif isinstance(v, (VList, list, tuple)):
        for x in ops.items_of(v):
            if isinstance(x, Gen):
                for y in x.elems:
                    floats(y, out, seen)
            else:
                floats(x, out, seen)


def judge(I, v):
    fs = []
    floats(v, fs, set())
    ok = I.ctx.__dict__.get("nan_ok", [])
    for f in fs:
        if not any(f is x for x in ok):
            raise Refuted(f"a float is in the result that was not read by the float readers: {f}")


def with_setting(make):
    """make(I, want) -> value"""

    def body(I):
        want = I.ctx.choose(2, "allow_nan") == 1
        I.contracts = contracts(want, I.contracts)
        try:
            v = make(I, want)
        except PyExc:
            raise PrunePath()
        judge(I, v)

    return body


def blob(dec, kinds):
    def make(I, want):
        raw = blob_input(I)
        rd = I.call(A.FArchiveReader, [b""], {"allow_nan": want})
        return I.call(dec, [rd, VByteSeq("tuple", SBytes([raw]))] + ([kinds(I)] if kinds else []), {})

    return with_setting(make)


def prop(ty, sub=None):
    def make(I, want):
        ctx = I.ctx
        g = tree.G(I)
        path = leaf_str_path(I)
        hints = VDict(ctx)
        _, head, pay = tree.prop_body(g, ty, sub, path, hints)
        size = toks_len(pay)
        ctx.inputs["body"] = SBytes(head + pay)
        ctx.inputs["size"] = size
        ctx.inputs["hints"] = hints
        r = reader_on(I, head + pay, pre=False, allow_nan=want)
        r.attrs["type_hints"] = hints
        r.attrs["custom_properties"] = VDict(ctx)
        return I.call(R.property, [r, ty, size, path], {})

    return with_setting(make)


def leaf_str_path(I):
    p = tree.leaf_str(I, "path", [""])
    p.parts[0].n.lo = 1
    return p


def file():
    def make(I, want):
        ctx = I.ctx
        toks = gvas.header_toks(I)
        k = enc_tok(ctx, "PROPS", VOpaque("props", "props"), 9)
        k.conc = lambda c: fstr_bytes("Zq") + fstr_bytes("FloatProperty") + b"\4\0\0\0\0\0\0\0\0\0\0\xc0\x7f" + fstr_bytes("None")
        ctx.inputs["file"] = SBytes(toks + [k])
        args = [SBytes(toks + [k]), VDict(ctx), VDict(ctx)]
        # not given: conversion is off
        if want and ctx.choose(2, "setting given") == 0:
            return I.call(V.GvasFile.read, args, {}).attrs["properties"]
        return I.call(V.GvasFile.read, args, {"allow_nan": want}).attrs["properties"]

    return with_setting(make)


def carried(path, ty, build, decs):
    """the property codec hands its own reader, or a copy with the same setting, to the blob decoder"""

    def make(I, want):
        ctx = I.ctx
        if path not in wrap.table():
            raise Unsupported(path + " is not a custom property any more")
        head, pay = build(tree.G(I))
        size = toks_len(pay)
        if isinstance(size, Lin):
            ctx.assume(SBool("ge", tree.sub_(1 << 40, size)))
        ctx.inputs["body"] = SBytes(head + pay)
        ctx.inputs["size"] = size
        r = reader_on(I, head + pay, pre=False, allow_nan=want)
        r.attrs["type_hints"] = PT.PALWORLD_TYPE_HINTS
        r.attrs["custom_properties"] = wrap.table()
        for d in decs:
            old = I.contracts.get(d)

            def h(I, a, kw, old=old):
                if not a or not isinstance(a[0], VObj):
                    return NotImplemented
                setting(I, a[0], want, "a blob is")
                if old is not None:
                    return old(I, a, kw)
                return VOpaque("decoded", "decoded")

            I.contracts[d] = h
        return I.call(R.property, [r, ty, size, path], {})

    return with_setting(make)
