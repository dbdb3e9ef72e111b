"""C23: what is stored is what is shown, and edits survive.

stored.*: reading the stored form of a value, as the grammar of tree.py states it, gives that value.
edit.<type>: a value as a user may give it is written, and reading that gives the value back.
edit.<codec>, edit.carry.*: what any blob (or property that carries blobs) decodes to is encoded to
something that decodes to it; and no two places of the decoded value (list lengths included) hold the
same stored field, so that a value changed at one place is again the decoding of some bytes, to
which the first part applies."""
from .base import *
from .prims import CONTRACTS, R, W, enc_tok, fstr_tok
from .tree import G, prop_body, leaf_str, mk_reader, rejected, sub_
from .blobs import blob_input, form_of, as_bytes
from .write import GV
from . import wrap
from . import tree
import base64
from .gvas import header_parts, V as GF, J


def prop_value(ty, sub=None):
    def body(I):
        ctx = I.ctx
        g = G(I)
        path = leaf_str(I, "path", [""])
        path.parts[0].n.lo = 1
        hints = VDict(ctx)
        want, head, pay = prop_body(g, ty, sub, path, hints)
        size = toks_len(pay)
        if isinstance(size, Lin):
            ctx.assume(SBool("ge", sub_(1 << 40, size)))
        ctx.inputs["body"] = SBytes(head + pay)
        ctx.inputs["size"] = size
        ctx.inputs["hints"] = hints
        r = mk_reader(I, head + pay, hints, VDict(ctx))
        try:
            v = I.call(R.property, [r, ty, size, path], {})
        except PyExc as e:
            rejected(e.exc)
        same_value(I, v, want, ty, loose=True)

    return body


def read_prop(I, toks, hints, path, custom=None):
    """what a reader makes of a written property"""
    r = mk_reader(I, toks, hints, custom if custom is not None else VDict(I.ctx))
    try:
        ty = I.call(R.fstring, [r], {})
        n = I.call(R.u64, [r], {})
        v = I.call(R.property, [r, ty, n, path], {})
    except PyExc as e:
        raise Refuted(f"what was written cannot be read: {e.exc}")
    must_equal(I.ctx, rest_of(r), [], "bytes left after the property")
    return v


class GE(GV):
    def nbytes(self, name="bytes"):
        k = self.ctx.choose(3, "form of the byte array")
        self.as_bytes = k == 0
        v, n, t = G.nbytes(self, name)
        return [v, VByteSeq("tuple", v), VByteSeq("list", v)][k], n, t


def written(ty, sub=None):
    """write, read back"""

    def body(I):
        ctx = I.ctx
        g = GE(I, False)
        path = leaf_str(I, "path", [""])
        path.parts[0].n.lo = 1
        hints = VDict(ctx)
        v, head, pay = prop_body(g, ty, sub, path, hints)
        if ty == "ArrayProperty" and sub == "ByteProperty":
            x = v.idx["value"][1].idx["values"][1]
            if isinstance(x, VByteSeq) and (isinstance(x.sb, (VByteSeq, VList)) or getattr(g, "as_bytes", False)):
                v.idx["value"][1].put("values", x.sb)
        size = toks_len(pay)
        if isinstance(size, Lin):
            ctx.assume(SBool("ge", sub_(1 << 40, size)))
        ctx.inputs["body"] = SBytes(head + pay)
        ctx.inputs["size"] = size
        ctx.inputs["hints"] = hints
        w = I.call(W, [], {})
        try:
            I.call(W.property, [w, v], {})
        except PyExc as e:
            raise Refuted(f"{ty}: cannot be written: {e.exc}")
        got = read_prop(I, w.attrs["data"].toks, hints, path)
        if isinstance(got, VDict):
            x = got.idx.get("type")
            if x is None:
                raise Refuted("the property read has no type")
        same_value(I, got, v, ty, loose=True)

    return body


def list_value():
    """the entries of a property list, under their names and in their order"""

    def body(I):
        ctx = I.ctx
        path = leaf_str(I, "path")
        name = leaf_str(I, "name", ["None"])
        ty = leaf_str(I, "type")
        size = Atom("size", 0, 1 << 40)
        o = VOpaque("body", "prop")
        k = enc_tok(ctx, "PBODY", o)
        tree.o_size[o] = lin_atom(size)
        tree.o_path[o] = sconcat(sconcat(path, "."), name)
        c = Atom("count", 0, None)
        b = Big(lin_atom(c), [fstr_tok(ctx, name), fstr_tok(ctx, ty), LE(8, lin_atom(size)), k])
        ctx.bigs.append(b)
        end = fstr_bytes("None")
        ctx.inputs["list"] = SBytes([b, end])
        k.conc = lambda c: tree.conc_body(c, ty, size)
        r = mk_reader(I, [b, end], VDict(ctx))
        try:
            v = I.call(R.properties_until_end, [r, path], {})
        except PyExc as e:
            rejected(e.exc)
        check(I, v, c, name, ty, o)
        w = I.call(W, [], {})
        try:
            I.call(W.properties, [w, v], {})
        except PyExc as e:
            raise Refuted(f"a property list cannot be written: {e.exc}")
        r = mk_reader(I, w.attrs["data"].toks, VDict(ctx))
        try:
            v = I.call(R.properties_until_end, [r, path], {})
        except PyExc as e:
            raise Refuted(f"the list written cannot be read: {e.exc}")
        check(I, v, c, name, ty, o)

    return body


def check(I, v, c, name, ty, o):
    ctx = I.ctx
    if not isinstance(v, VDict):
        raise Unsupported("property list is not a dict")
    ents = [e for e in v.ents if not (isinstance(e, GenEntry) and not isinstance(norm(e.count), Lin) and norm(e.count) <= 0)]
    if len(ents) != 1 or not isinstance(ents[0], GenEntry):
        if not ents and ctx.prove(SBool("eq", lin_atom(c))) is True:
            return
        raise Refuted(f"property list: entries {[e[0] if isinstance(e, list) else e.key for e in ents]} instead of those stored")
    e = ents[0]
    same_value(I, e.count, lin_atom(c), "number of entries")
    same_value(I, e.key, name, "name of an entry")
    d = VDict(ctx, [("type", ty)])
    d.rest = "property"
    d.tag = o
    same_value(I, e.val, d, "entry")


# ------------------------------------------------------------------ blobs
def fields(v, where="", out=None):
    """[(place, kind, the symbolic things it shows)] of a decoded value"""
    out = [] if out is None else out
    v = M.simp(v)
    if isinstance(v, Lin):
        out.append((where, "value", frozenset(v.t)))
    elif isinstance(v, SBool):
        out.append((where, "value", frozenset(v.lin.t) if isinstance(v.lin, Lin) else frozenset()))
    elif isinstance(v, SFloat):
        out.append((where, "value", frozenset([v])))
    elif isinstance(v, SStr):
        out.append((where, "value", frozenset(p for p in v.parts if isinstance(p, StrLeaf))))
    elif isinstance(v, VObj):
        for k, x in v.attrs.items():
            if k == "raw_bytes":
                fields(x, where, out)
    elif isinstance(v, (SBytes, VByteSeq, VBytearray)):
        out.append((where, "value", frozenset(t for t in B.toks_of(v) if not isinstance(t, bytes))))
    elif isinstance(v, (VDict, dict)):
        if isinstance(v, dict):
            for k, x in v.items():
                fields(x, f"{where}.{k}", out)
            return out
        if v.tag is not None:
            out.append((where, "value", frozenset([v.tag])))
        for e in v.ents:
            if isinstance(e, GenEntry):
                out.append((where, "length", frozenset(e.count.t) if isinstance(e.count, Lin) else frozenset()))
                fields(e.val, where + ".*", out)
            else:
                fields(e[1], f"{where}.{e[0]}", out)
    elif isinstance(v, (VList, list, tuple)):
        for x in ops.items_of(v):
            if isinstance(x, Gen):
                out.append((where, "length", frozenset(x.count.t) if isinstance(x.count, Lin) else frozenset()))
                for y in x.elems:
                    fields(y, where + "[i]", out)
            else:
                fields(x, where + "[]", out)
    elif isinstance(v, VOpaque):
        out.append((where, "value", frozenset([v])))
    return out


def distinct(v):
    seen = {}
    for where, k, things in fields(v):
        for x in things:
            if x in seen:
                raise Refuted(f"{seen[x][1]} of {seen[x][0] or 'the result'} and {k} of {where} hold the same stored field: a change of one is lost or contradicts the other")
            seen[x] = (where, k)


def again(I, toks, want, decode, v, what):
    """the bytes written are the ones v came from, or else decode to v as well"""
    try:
        must_equal(I.ctx, toks, want, what)
    except Refuted:
        same_value(I, decode(toks), v, what, loose=True)


def blob(dec, enc, kinds=None, enc_kind=False):
    def body(I):
        ctx = I.ctx
        raw = blob_input(I)
        rd = I.call(A.FArchiveReader, [b""], {})
        a = [kinds(I)] if kinds is not None else []

        def decode(toks):
            try:
                return I.call(dec, [rd, VByteSeq("tuple", SBytes(list(toks)))] + a, {})
            except PyExc as e:
                raise Refuted(f"the re-encoded blob is refused: {e.exc}")

        try:
            d = I.call(dec, [rd, VByteSeq("tuple", SBytes([raw]))] + a, {})
        except PyExc:
            raise PrunePath()
        distinct(d)
        if form_of(d) == "raw":
            out = as_bytes(I, d.idx["values"][1])
        else:
            if ctx.choose(2, "through JSON"):
                d = M.json_copy(I, d, J.CustomEncoder)
            try:
                out = B.toks_of(I.call(enc, [d] + (a if enc_kind else []), {}))
            except PyExc as e:
                raise Refuted(f"a decoded blob cannot be encoded: {e.exc}")
        again(I, out, [raw], decode, d, "re-encoded blob")

    return body


def carried(path, ty, build):
    def body(I):
        ctx = I.ctx
        if path not in wrap.table():
            raise Unsupported(path + " is not a custom property any more")
        head, pay = build(G(I))
        size = toks_len(pay)
        if isinstance(size, Lin):
            ctx.assume(SBool("ge", sub_(1 << 40, size)))
        toks = head + pay
        ctx.inputs["body"] = SBytes(toks)
        ctx.inputs["size"] = size
        hints = wrap.PT.PALWORLD_TYPE_HINTS
        r = mk_reader(I, toks, hints, wrap.table())
        try:
            v = I.call(R.property, [r, ty, size, path], {})
        except PyExc:
            raise PrunePath()
        distinct(v)
        if ctx.choose(2, "through JSON"):
            v = M.json_copy(I, v, J.CustomEncoder)
        w = I.call(W, [wrap.table()], {})
        try:
            I.call(W.property, [w, v], {})
        except PyExc as e:
            raise Refuted(f"what was read cannot be written: {e.exc}")
        again(I, w.attrs["data"].toks, [fstr_bytes(ty), LE(8, size)] + toks, lambda t: read_prop(I, t, hints, path, wrap.table()), v, "property written")

    return body


# ------------------------------------------------------------------ header and file
def header():
    """the JSON form of a file shows every header field under its name; what is written from it
    (whatever the values are) shows the same again"""

    def body(I):
        ctx = I.ctx
        d, toks = header_parts(I)
        want = VDict(ctx, d)
        ctx.inputs["header"] = SBytes(toks)
        raw = Raw("trailer", ctx.fresh_int("ntrailer", 0, None, is_len=True))
        o = VOpaque("props", "props")
        k = enc_tok(ctx, "PROPS", o, 9)
        k.conc = lambda c: fstr_bytes("None")
        cust = VDict(ctx)

        def look(data, what):
            try:
                f = I.call(GF.GvasFile.read, [SBytes(data), VDict(ctx), cust])
                j = M.json_copy(I, I.call(GF.GvasFile.dump, [f]), J.CustomEncoder)
            except PyExc as e:
                raise Refuted(f"{what}: {e.exc}")
            if not isinstance(j, VDict) or "header" not in j.idx:
                raise Refuted(f"{what}: no header")
            same_value(I, j.idx["header"][1], want, what, loose=True)
            same_value(I, I.call(base64.b64decode, [j.idx["trailer"][1]]), SBytes([raw]), what + ": trailer", loose=True)
            return j

        j = look(toks + [k, raw], "JSON form of a file")
        h = j.idx["header"][1]
        if ctx.choose(2, "header given as plain values"):
            h = want
        v = VDict(ctx, [("header", h), ("properties", j.idx["properties"][1]), ("trailer", j.idx["trailer"][1])])
        try:
            b = I.call(GF.GvasFile.write, [I.call(GF.GvasFile.load, [v]), cust])
        except PyExc as e:
            raise Refuted(f"a file cannot be written: {e.exc}")
        look(B.toks_of(b), "JSON form of the file written")

    return body
