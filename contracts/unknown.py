"""C22: what the tool has no rule for is refused.

The type name is an arbitrary string other than the supported ones; the data that follows is
arbitrary.  Every path on which the read or the write returns is a refutation.  That a refusal
inside nested data is not swallowed on the way out is a separate obligation per level (read.nested,
write.nested), so that by induction it reaches the caller from any depth."""
from .base import *
from .prims import CONTRACTS, R, W
from . import tree, trunc, write, refine
from .tree import G, leaf_str, TYPES, READ_ARRAYS, WRITE_ARRAYS

PROP_VALUES = G.PROP_VALUES


def strange(I, known, name="kind"):
    return leaf_str(I, name, known)


def must_raise(I, f, what):
    k, v = outcome(I, f)
    if k == "ok":
        raise Refuted(what + " is accepted")


def some_count(I, lo=1):
    c = Atom("count", lo, (1 << 32) - 1)
    I.ctx.inputs["count"] = c
    return c


def read_property():
    def body(I):
        ctx = I.ctx
        ty = strange(I, TYPES)
        raw = free_bytes(I, "tail")
        path = leaf_str(I, "path")
        size = Atom("size", 0, (1 << 64) - 1)
        kw = {"nested_caller_path": path} if ctx.choose(2, "asked for by its own decoder") else {}
        ctx.inputs["size"] = size
        r = tree.mk_reader(I, [raw], VDict(ctx))
        must_raise(I, lambda: I.call_body(R.property, [r, ty, lin_atom(size), path], kw), "a property of an unsupported type")

    return body


def read_array():
    def body(I):
        ctx = I.ctx
        ty = strange(I, READ_ARRAYS + WRITE_ARRAYS)
        c = some_count(I)
        i, t = G(I).opt()
        raw = free_bytes(I, "tail")
        head = [tree.fstr_tok(ctx, ty)] + t + [LE(4, lin_atom(c))]
        size = Atom("size", 0, (1 << 64) - 1)
        ctx.inputs["size"] = size
        r = tree.mk_reader(I, head + [raw], VDict(ctx))
        must_raise(I, lambda: I.call_body(R.property, [r, "ArrayProperty", lin_atom(size), leaf_str(I, "path")], {}), "an array of an unsupported element type")

    return body


def read_labelled():
    """an array of bytes whose size field leaves another number of bytes than its count"""

    def body(I):
        ctx = I.ctx
        c = some_count(I, 0)
        i, t = G(I).opt()
        raw = free_bytes(I, "tail")
        size = Atom("size", 0, (1 << 64) - 1)
        ctx.inputs["size"] = size
        d = sub(sub(lin_atom(size), 4), lin_atom(c))
        ctx.assume(SBool("ge", sub(d, 1) if ctx.choose(2, "size too large") else sub(scale(d, -1), 1)))
        r = tree.mk_reader(I, [fstr_bytes("ByteProperty")] + t + [LE(4, lin_atom(c)), raw], VDict(ctx))
        must_raise(I, lambda: I.call_body(R.property, [r, "ArrayProperty", lin_atom(size), leaf_str(I, "path")], {}), "an array of labelled bytes")

    return body


def read_map(which):
    def body(I):
        ctx = I.ctx
        ty = strange(I, PROP_VALUES)
        other = PROP_VALUES[ctx.choose(len(PROP_VALUES), "the other type")]
        ctx.inputs["sub"] = other
        c = some_count(I)
        i, t = G(I).opt()
        raw = free_bytes(I, "tail")
        kt, vt = (ty, other) if which == "key" else (other, ty)
        path = leaf_str(I, "path")
        size = Atom("size", 0, (1 << 64) - 1)
        ctx.inputs["size"] = size
        r = tree.mk_reader(I, [tree.fstr_tok(ctx, x) if not isinstance(x, str) else fstr_bytes(x) for x in (kt, vt)] + t + [LE(4, 0), LE(4, lin_atom(c)), raw], VDict(ctx))
        must_raise(I, lambda: I.call_body(R.property, [r, "MapProperty", lin_atom(size), path], {}), f"a map with an unsupported {which} type")

    return body


# ------------------------------------------------------------------ writing
def values(I, g):
    """element of a kind some supported type would take"""
    k = I.ctx.choose(5, "kind of value")
    I.ctx.inputs["form"] = k
    return [lambda: g.int(1, False)[0], lambda: g.s("elem")[0], lambda: g.flag()[0], lambda: g.guid()[0], lambda: VDict(I.ctx)][k]()


def prop(I, pairs):
    return VDict(I.ctx, pairs)


def write_it(I, v, what):
    w = I.call(W, [], {})
    must_raise(I, lambda: I.call_body(W.property, [w, v], {}), what)


def write_property():
    def body(I):
        g = G(I)
        ty = strange(I, TYPES)
        write_it(I, prop(I, [("id", g.opt()[0]), ("value", values(I, g)), ("type", ty)]), "a property of an unsupported type")

    return body


def write_array():
    def body(I):
        ctx = I.ctx
        g = G(I)
        ty = strange(I, READ_ARRAYS + WRITE_ARRAYS)
        c = some_count(I)
        l = VList(ctx, [Gen(lin_atom(c), [values(I, g)])])
        write_it(I, prop(I, [("array_type", ty), ("id", g.opt()[0]), ("value", prop(I, [("values", l)])), ("type", "ArrayProperty")]), "an array of an unsupported element type")

    return body


def write_map(which):
    def body(I):
        ctx = I.ctx
        g = G(I)
        ty = strange(I, PROP_VALUES)
        other = PROP_VALUES[1 + ctx.choose(len(PROP_VALUES) - 1, "the other type")]
        ctx.inputs["sub"] = other
        good = g.prop_value(other, None)[0]
        bad = values(I, g)
        c = some_count(I)
        kt, vt, k, v = (ty, other, bad, good) if which == "key" else (other, ty, good, bad)
        l = VList(ctx, [Gen(lin_atom(c), [prop(I, [("key", k), ("value", v)])])])
        write_it(I, prop(I, [("key_type", kt), ("value_type", vt), ("key_struct_type", None), ("value_struct_type", None), ("id", g.opt()[0]), ("value", l), ("type", "MapProperty")]), f"a map with an unsupported {which} type")

    return body


# ------------------------------------------------------------------ a refusal below is a refusal above
class Watch:
    def __init__(self):
        self.hit = False

    def wrap(self, I, f, h):
        def g(I2, a, kw):
            if I2.ctx.choose(2, f.__qualname__ + " refuses") == 1:
                self.hit = True
                raise PyExc(VExc(Exception, ("unsupported",)))
            return h(I2, a, kw) if h else NotImplemented

        I.contracts = dict(I.contracts)
        I.contracts[f] = g

    def judge(self, k, what):
        if k == "ok" and self.hit:
            raise Refuted(what + ": a refusal inside is ignored")


def read_nested(ty, types=None):
    def body(I):
        w = Watch()
        w.wrap(I, R.properties_until_end, CONTRACTS[R.properties_until_end])
        ctx = I.ctx
        raw = free_bytes(I, "tail")
        toks = [raw] if types is None else [fstr_bytes(t) for t in types] + [raw]
        path = leaf_str(I, "path")
        hints = VDict(ctx)
        for t, suf in zip(types or (), (".Key", ".Value")):
            if t == "StructProperty":
                hints.put(sconcat(path, suf), "Nested")
        size = Atom("size", 0, (1 << 64) - 1)
        r = tree.mk_reader(I, toks, hints)
        k, v = outcome(I, lambda: I.call_body(R.property, [r, ty, lin_atom(size), path], {}))
        w.judge(k, ty)

    return body


def read_list():
    def body(I):
        w = Watch()
        w.wrap(I, R.property, trunc.h_sub_property)
        r = tree.mk_reader(I, [free_bytes(I, "in")], VDict(I.ctx))
        k, v = outcome(I, lambda: I.call_body(R.properties_until_end, [r, leaf_str(I, "path")], {}))
        w.judge(k, "property list")

    return body


def write_nested(ty, types=None):
    def body(I):
        ctx = I.ctx
        w0 = Watch()
        w0.wrap(I, W.properties, CONTRACTS[W.properties])
        g = write.GV(I, False)
        hints = VDict(ctx)
        v, head, pay = tree.prop_body(g, ty, types, leaf_str(I, "path"), hints)
        w = I.call(W, [], {})
        k, e = outcome(I, lambda: I.call_body(W.property, [w, v], {}))
        w0.judge(k, ty)

    return body


def write_list():
    def body(I):
        ctx = I.ctx
        w0 = Watch()
        w0.wrap(I, W.property, lambda I2, a, kw: None)
        names = [leaf_str(I, "name%d" % i, ["None"]) for i in range(3)]
        for i, a in enumerate(names):
            for b in names[:i]:
                ctx.memo[("streq", repr(a), repr(b))] = ctx.memo[("streq", repr(b), repr(a))] = False
        n = ctx.choose(4, "number of properties")
        d = VDict(ctx, [(s, VOpaque("p%d" % i, "prop")) for i, s in enumerate(names[:n])])
        w = I.call(W, [], {})
        k, e = outcome(I, lambda: I.call_body(W.properties, [w, d], {}))
        w0.judge(k, "property list")

    return body


def write_outer():
    def body(I):
        w0 = Watch()
        w0.wrap(I, W.property_inner, lambda I2, a, kw: 4)
        w = I.call(W, [], {})
        ty = TYPES[I.ctx.choose(len(TYPES), "type")]
        k, e = outcome(I, lambda: I.call_body(W.property, [w, VDict(I.ctx, [("type", ty), ("value", 1)])], {}))
        w0.judge(k, "property")

    return body
