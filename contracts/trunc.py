"""C14 (and C03): reads of composite fields on arbitrary input.

refines(fn, ref): the function reads exactly what the reference text reads (ref uses the primitive
contracts), or both fail.  complete(fn): whenever the function returns, every byte it asked for was
there.  Both on input of any content and any length."""
from .base import *
from .prims import CONTRACTS, SPEC, R, W, stream, fails, enc_tok
from . import tree


# ---- reference texts, over primitive contracts
def ref_skip(r, n):
    r.read(n)


def ref_vector(r):
    return (r.double(), r.double(), r.double())


def ref_quat(r):
    return (r.double(), r.double(), r.double(), r.double())


def ref_uuid(r):
    return r.guid()


def ref_instance_id(r):
    return {"guid": r.guid(), "instance_id": r.guid()}


def ref_tarray(r, f):
    n = r.u32()
    return [f(r) for _ in range(n)]


def refines(fn, ref, args=None):
    """fn: callable of the repository"""

    def body(I):
        ctx = I.ctx
        raw = free_bytes(I)
        extra = args(I) if args else []
        r1 = reader_on(I, [raw])
        io1 = r1.attrs["data"]
        toks = list(io1.toks)
        k1, v1 = outcome(I, lambda: I.call_body(fn, [r1] + extra, {}))
        if k1 == "ok" and ctx.short_read:
            raise Refuted("returns a value although the data ends inside the field")
        r2 = reader_on(I, [raw])
        io2 = r2.attrs["data"]
        io2.toks = flat(toks)
        io2.cur = 1
        k2, v2 = outcome(I, lambda: I.call_body(ref, [r2] + extra, {}))
        if k1 != k2:
            raise Refuted(f"{'raises ' + repr(v1) if k1 == 'raise' else 'returns ' + repr(v1)}, the contract says {k2} {v2!r}")
        if k1 == "raise":
            return
        same_value(I, v1, v2, "value read")
        must_equal(ctx, rest_of(r1), rest_of(r2), "bytes left to read")

    return body


def complete(fn, args=None, head=None):
    def body(I):
        ctx = I.ctx
        h = head(I) if head else []
        raw = free_bytes(I, "tail" if head else "in")
        if head:
            ctx.inputs["in"] = SBytes(h + [raw])
        extra = args(I) if args else []
        r = reader_on(I, h + [raw])
        k, v = outcome(I, lambda: I.call_body(fn, [r] + extra, {}))
        if k == "ok" and ctx.short_read:
            raise Refuted("returns a value although the data ends inside the field")
        if k == "ok" and getattr(ctx, "nested_failed", False):
            raise Refuted("returns a value although nested data cannot be read")

    return body


def pvec_head(I):
    """first word of a packed vector: any bit count, any extra information"""
    b = I.ctx.choose(64, "bit count")
    q = Atom("extra", 0, (1 << 26) - 1)
    return [LE(4, Lin(b, {q: 64}))]


# ---- properties: sub-lists and sub-properties consume complete data or fail (hypothesis)
def some_bytes(I, r, kind):
    ctx = I.ctx
    io = stream(r)
    B.io_touch(ctx, io)
    io.toks[io.cur :] = flat(io.toks[io.cur :])
    t = io.toks[io.cur] if io.cur < len(io.toks) else None
    if not isinstance(t, Raw):
        raise Unsupported("nested data of known shape")
    if fails(I, t, kind + " cannot be read"):
        ctx.nested_failed = True
        raise exc_(kind)
    o = VOpaque((kind, len(ctx.trace), len(ctx.__dict__.get("encs", ()))), "props")
    k = enc_tok(ctx, kind, o, 0)
    rest = Raw(t.name, sub(t.n, lin_atom(k.n)))
    ctx.trail.append((t, "rawbind", None))
    t.bind = [k, rest]
    ctx.assume(SBool("ge", sub(t.n, lin_atom(k.n))))
    io.toks[io.cur : io.cur + 1] = [k, rest]
    io.cur += 1
    return o


def exc_(why):
    return PyExc(VExc(Exception, (why,)))


def h_sub_property(I, a, kw):
    return VDict(I.ctx, [("value", some_bytes(I, a[0], "PBODY"))])


def h_some_string(I, a, kw):
    """trunc.fstring: a string is read from complete data, or the read fails"""
    if len(a) != 1 or kw or stream(a[0]) is None:
        return NotImplemented
    some_bytes(I, a[0], "FSTR")
    return SStr([StrLeaf("name")])


def prop_complete(ty, types=None):
    """types: key and value type of a map"""

    def body(I):
        ctx = I.ctx
        raw = free_bytes(I, "tail")
        toks = [raw] if types is None else [fstr_bytes(t) for t in types] + [raw]
        ctx.inputs["in"] = SBytes(toks)
        path = tree.leaf_str(I, "path")
        hints = VDict(ctx)
        for t, suf in zip(types or (), (".Key", ".Value")):
            if t == "StructProperty" and ctx.choose(2, "type hint for " + suf):
                hints.put(sconcat(path, suf), tree.G(I).struct_type("hint" + suf)[1])
        ctx.inputs["hints"] = hints
        size = Atom("size", 0, (1 << 64) - 1)
        ctx.inputs["size"] = size
        r = tree.mk_reader(I, toks, hints)
        k, v = outcome(I, lambda: I.call_body(R.property, [r, ty, lin_atom(size), path], {}))
        if k == "ok" and ctx.short_read:
            raise Refuted("returns a value although the data ends inside the property")
        if k == "ok" and getattr(ctx, "nested_failed", False):
            raise Refuted("returns a value although nested data cannot be read")

    return body


# ---- composite writes
def ref_wvector(w, x, y, z):
    w.double(x)
    w.double(y)
    w.double(z)


def ref_wquat(w, x, y, z, a):
    w.double(x)
    w.double(y)
    w.double(z)
    w.double(a)


def ref_winstance(w, d):
    w.guid(d["guid"])
    w.guid(d["instance_id"])


def ref_wtarray(w, f, l):
    w.u32(len(l))
    for x in l:
        f(w, x)


def wrefines(fn, ref, args):
    def body(I):
        ctx = I.ctx
        a = args(I)
        ws = []
        for f in (fn, ref):
            w = I.call(W, [], {})
            pre = ctx.memo.setdefault("wpre", Raw("pre", ctx.fresh_int("npre", 0, None, is_len=True)))
            w.attrs["data"].toks, w.attrs["data"].cur = [pre], 1
            ws.append((w, outcome(I, lambda: I.call_body(f, [w] + a, {}))))
        (w1, (k1, v1)), (w2, (k2, v2)) = ws
        if k1 != k2:
            raise Refuted(f"{'raises ' + repr(v1) if k1 == 'raise' else 'returns'}, the contract says {k2} {v2!r}")
        if k1 == "ok":
            must_equal(ctx, w1.attrs["data"].toks, w2.attrs["data"].toks, "bytes written")

    return body


def floats(n):
    def f(I):
        out = []
        for i in range(n):
            out.append(None if I.ctx.choose(2, "null") == 0 else SFloat("v%d" % i, 64))
        I.ctx.inputs["value"] = tuple(out)
        return out

    return f


def guid_obj(I, name):
    r = Raw(name, 16)
    I.ctx.inputs[name] = r
    return I.call(A.UUID, [SBytes([r])])


def instance(I):
    return [VDict(I.ctx, [("guid", guid_obj(I, "raw")), ("instance_id", guid_obj(I, "other"))])]


def array_of(kind):
    def f(I):
        ctx = I.ctx
        c = Atom("count", 0, (1 << 32) - 1)
        g = tree.G(I)
        v = {"u32": lambda: g.int(4, False)[0], "i32": lambda: g.int(4, True)[0], "byte": lambda: g.int(1, False)[0], "fstring": lambda: g.s("elem")[0], "guid": lambda: guid_obj(I, "raw"), "float": lambda: g.float("f")[0]}[kind]()
        if kind != "guid":
            ctx.inputs["elem"] = v
        ctx.inputs["count"] = c
        return [getattr(W, kind), VList(ctx, [Gen(lin_atom(c), [v])])]

    return f
