"""C08: whatever a user hands to the writer, the stored form has the right sizes and counts.

The value is drawn from the grammar of tree.py with every form a user may give it in: GUIDs as
objects, text or uuid.UUID; the optional id absent, null or given; byte arrays as bytes, tuple or
list; null floats.  The bytes written are exactly the stored form, whose size and count fields are
the lengths of what follows them."""
from .base import *
from .prims import CONTRACTS, R, W, put, enc_tok
from .tree import G, prop_body, leaf_str, READ_ARRAYS, WRITE_ARRAYS, TYPES, sub_
from . import wrap

ARRAYS = READ_ARRAYS + WRITE_ARRAYS


class GV(G):
    """values as a user may give them"""

    def __init__(self, I, full=True):
        super().__init__(I)
        self.form = None
        self.full = full

    def guid(self):
        v, t = super().guid()
        if self.form is None:
            self.form = self.ctx.choose(3, "form of GUIDs")
        if self.form == 1:
            v = self.I.call(str, [v])
        elif self.form == 2:
            v = self.I.call(A.UUID.UUID, [v])
        return v, t

    def float(self, kind="f"):
        if self.full and self.ctx.choose(2, "null") == 1:
            return None, [FTok(kind, float("nan"))]
        return super().float(kind)

    def nbytes(self, name="bytes"):
        k = self.ctx.choose(4, "form of the byte array")
        if k == 3:
            return super().rep(lambda: self.int(1, False))
        self.as_bytes = k == 0
        v, n, t = super().nbytes(name)
        return [v, VByteSeq("tuple", v), VByteSeq("list", v)][k], n, t


def value(ty, sub=None):
    def body(I):
        ctx = I.ctx
        g = GV(I, ty != "MapProperty")
        hints = VDict(ctx)
        v, head, pay = prop_body(g, ty, sub, leaf_str(I, "path"), hints)
        if ty == "ArrayProperty" and sub == "ByteProperty":
            x = v.idx["value"][1].idx["values"][1]
            if isinstance(x, VByteSeq) and (isinstance(x.sb, (VByteSeq, VList)) or getattr(g, "as_bytes", False)):
                v.idx["value"][1].put("values", x.sb)
        if v.idx["id"][1] is None and ctx.choose(2, "id") == 1:
            v = VDict(ctx, [(e[0], e[1]) for e in v.ents if e[0] != "id"])
        size = toks_len(pay)
        if isinstance(size, Lin):
            ctx.assume(SBool("ge", sub_(1 << 40, size)))
        ctx.inputs["value"] = v
        w = I.call(W, [], {})
        try:
            I.call(W.property, [w, v], {})
        except PyExc as e:
            raise Refuted(f"{ty}: cannot be written: {e.exc}")
        must_equal(ctx, w.attrs["data"].toks, [fstr_bytes(ty), LE(8, size)] + head + pay, f"{ty} written")

    return body


def cases(i):
    return [("o_sizes", dict(tree={"N": i["value"]})), ("o_sizes", dict(tree={"N": i["value"], "M": {"type": "IntProperty", "id": None, "value": 5}}))]


def custom(path, key):
    """a property whose blob was edited: the bytes encode_bytes gives now, with their size and count"""

    def body(I):
        ctx = I.ctx
        tab = wrap.table()
        if path not in tab:
            raise Unsupported(path + " is not a custom property any more")
        from .registry import blob_fns

        dec, enc = blob_fns(key)
        n = Atom("count", 0, (1 << 32) - 1)
        new = Raw("edited", lin_atom(n))
        val = VOpaque("edited", "decoded")
        g = GV(I)
        i, ti = g.opt()

        def h(I, a, kw):
            if a != [val] and tuple(a) != (val,):
                return NotImplemented
            return SBytes([new])

        I.contracts = dict(I.contracts)
        I.contracts[enc] = h
        v = VDict(ctx, [("array_type", "ByteProperty"), ("id", i), ("value", val), ("type", "ArrayProperty"), ("custom_type", path)])
        w = I.call(W, [tab], {})
        try:
            I.call(W.property, [w, v], {})
        except PyExc as e:
            raise Refuted(f"{key}: cannot be written: {e.exc}")
        pay = [LE(4, lin_atom(n)), new]
        must_equal(ctx, w.attrs["data"].toks, [fstr_bytes("ArrayProperty"), LE(8, toks_len(pay)), fstr_bytes("ByteProperty")] + ti + pay, f"{key} written")

    return body
