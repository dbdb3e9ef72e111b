"""C07/C08: the property tree, by induction on nesting.

The grammar of one property body (by type) and of a property list is stated here; nested property
lists and, for lists, nested property bodies are opaque tokens covered by the induction hypothesis."""
from .base import *
from .prims import CONTRACTS, SPEC, R, W, stream, take, put, fstr_tok, enc_tok, contract, fn_of
from palworld_save_tools import json_tools as J

ID_KINDS = 2


def leaf_str(I, name, ne=()):
    l = StrLeaf(name)
    l.n.hi = 1 << 29
    l.ne |= set(ne)
    I.ctx.inputs.setdefault("str:" + name, l)
    return SStr([l])


class G:
    """grammar of well-formed data: each method returns tokens (and records the value)"""

    def __init__(self, I):
        self.I = I
        self.ctx = I.ctx
        self.path = None  # path under which a nested property list belongs

    def int(self, w, signed, name="v"):
        h = 1 << (8 * w - 1)
        a = Atom(name, -h if signed else 0, h - 1 if signed else 2 * h - 1)
        return lin_atom(a), [LE(w, lin_atom(a))]

    def flag(self):
        a = Atom("flag", 0, 1)
        return SBool("ge", Lin(-1, {a: 1})), [LE(1, lin_atom(a))]

    def float(self, kind="f"):
        v = SFloat("x", 32 if kind == "f" else 64)
        return v, [FTok(kind, v)]

    def guid(self):
        r = Raw("guid", 16)
        return self.I.call(A.UUID, [SBytes([r])]), [r]

    def opt(self):
        """optional id"""
        if self.ctx.choose(2, "optional id present") == 0:
            return None, [b"\0"]
        v, t = self.guid()
        return v, [b"\1"] + t

    def s(self, name="s", ne=()):
        v = leaf_str(self.I, name, ne)
        return v, [fstr_tok(self.ctx, v)]

    def props(self, name="props"):
        o = VOpaque(name + str(len(self.ctx.trace)) + "_" + str(len(self.ctx.__dict__.get("encs", []))), "props")
        self.ctx.__dict__.setdefault("paths", {})[o.tag] = self.path
        return o, [enc_tok(self.ctx, "PROPS", o, 9)]

    def vec(self, keys="xyz"):
        d = VDict(self.ctx)
        t = []
        for k in keys:
            v, x = self.float("d")
            d.put(k, v)
            t += x
        return d, t

    STRUCTS = ["Vector", "DateTime", "Guid", "Quat", "LinearColor", None]

    def struct_value(self, st):
        if st == "Vector":
            return self.vec()
        if st == "Quat":
            return self.vec("xyzw")
        if st == "DateTime":
            return self.int(8, False)
        if st == "Guid":
            return self.guid()
        if st == "LinearColor":
            d = VDict(self.ctx)
            t = []
            for k in "rgba":
                v, x = self.float("f")
                d.put(k, v)
                t += x
            return d, t
        return self.props()

    def struct_type(self, name="struct_type"):
        i = self.ctx.choose(len(self.STRUCTS), "struct type")
        st = self.STRUCTS[i]
        if st is None:
            v = leaf_str(self.I, name, [x for x in self.STRUCTS if x])
            return None, v
        return st, st

    PROP_VALUES = ["StructProperty", "EnumProperty", "NameProperty", "IntProperty", "BoolProperty"]

    def prop_value(self, t, st):
        if t == "StructProperty":
            return self.struct_value(st)
        if t in ("EnumProperty", "NameProperty"):
            return self.s("elem")
        if t == "IntProperty":
            return self.int(4, True)
        return self.flag()

    def rep(self, fn, wmax=None):
        """count-fold repetition: (list value, count, tokens)"""
        c = Atom("count", 0, (1 << 32) - 1)
        v, t = fn()
        b = Big(lin_atom(c), flat(t))
        b.n.hi = 1 << 50
        self.ctx.bigs.append(b)
        return VList(self.ctx, [Gen(lin_atom(c), [v])]), lin_atom(c), [b]

    def nbytes(self, name="bytes"):
        n = Atom("count", 0, (1 << 32) - 1)
        r = Raw(name, lin_atom(n))
        return SBytes([r]), lin_atom(n), [r]


SIMPLE = {
    "IntProperty": lambda g: g.int(4, True),
    "Int64Property": lambda g: g.int(8, True),
    "FixedPoint64Property": lambda g: g.int(4, True),
    "FloatProperty": lambda g: g.float("f"),
    "StrProperty": lambda g: g.s("text"),
    "NameProperty": lambda g: g.s("text"),
}
READ_ARRAYS = ["EnumProperty", "NameProperty", "Guid", "ByteProperty", "StructProperty"]
WRITE_ARRAYS = ["IntProperty", "Int64Property", "FloatProperty", "StrProperty", "BoolProperty"]
TYPES = list(SIMPLE) + ["EnumProperty", "BoolProperty", "StructProperty", "ArrayProperty", "MapProperty"]


def tstr(g, v):
    return [fstr_tok(g.ctx, v)] if not isinstance(v, str) else [fstr_bytes(v)]


def prop_body(g, ty, sub=None, path=None, hints=None, arrays=READ_ARRAYS):
    """(value dict, header tokens, payload tokens) of a well-formed property of type ty"""
    ctx = g.ctx
    D = lambda *p: VDict(ctx, list(p) + [("type", ty)])
    if ty in SIMPLE:
        i, ti = g.opt()
        v, tv = SIMPLE[ty](g)
        return D(("id", i), ("value", v)), ti, tv
    if ty == "EnumProperty":
        e, te = g.s("enum_type")
        i, ti = g.opt()
        v, tv = g.s("enum_value")
        return D(("id", i), ("value", VDict(ctx, [("type", e), ("value", v)]))), te + ti, tv
    if ty == "BoolProperty":
        v, tv = g.flag()
        i, ti = g.opt()
        return D(("value", v), ("id", i)), tv + ti, []
    if ty == "StructProperty":
        k, st = g.struct_type() if sub is None else sub
        sid, tsid = g.guid()
        i, ti = g.opt()
        g.path = path
        v, tv = g.struct_value(k)
        return D(("struct_type", st), ("struct_id", sid), ("id", i), ("value", v)), tstr(g, st) + tsid + ti, tv
    if ty == "ArrayProperty":
        at = sub if sub is not None else arrays[ctx.choose(len(arrays), "array type")]
        i, ti = g.opt()
        if at == "ByteProperty":
            b, c, tb = g.nbytes()
            val = VDict(ctx, [("values", VByteSeq("tuple", b))])
            pay = [LE(4, c)] + tb
        elif at == "StructProperty":
            pn, tpn = g.s("prop_name")
            pt, tpt = g.s("prop_type")
            k, st = g.struct_type()
            aid, taid = g.guid()
            g.path = sconcat(sconcat(path, "."), pn) if path is not None else None
            vals, c, tv = g.rep(lambda: g.struct_value(k))
            val = VDict(ctx, [("prop_name", pn), ("prop_type", pt), ("values", vals), ("type_name", st), ("id", aid)])
            pay = [LE(4, c)] + tpn + tpt + [LE(8, toks_len(tv))] + tstr(g, st) + taid + [b"\0"] + tv
        else:
            el = {
                "EnumProperty": lambda: g.s("elem"),
                "NameProperty": lambda: g.s("elem"),
                "StrProperty": lambda: g.s("elem"),
                "Guid": lambda: g.guid(),
                "IntProperty": lambda: g.int(4, True),
                "Int64Property": lambda: g.int(8, True),
                "FloatProperty": lambda: g.float("f"),
                "BoolProperty": lambda: g.flag(),
            }[at]
            vals, c, tv = g.rep(el)
            val = VDict(ctx, [("values", vals)])
            pay = [LE(4, c)] + tv
        return D(("array_type", at), ("id", i), ("value", val)), [fstr_bytes(at)] + ti, pay
    if ty == "MapProperty":
        kt, vt = sub
        i, ti = g.opt()
        kk = vk = None
        ks = vs = None
        if kt == "StructProperty":
            kk, ks = map_struct(g, path, ".Key", "Guid", hints)
        if vt == "StructProperty":
            vk, vs = map_struct(g, path, ".Value", "StructProperty", hints)

        def entry():
            g.path = sconcat(path, ".Key") if path is not None else None
            a, ta = g.prop_value(kt, kk)
            g.path = sconcat(path, ".Value") if path is not None else None
            b, tb = g.prop_value(vt, vk)
            return VDict(ctx, [("key", a), ("value", b)]), ta + tb

        vals, c, tv = g.rep(entry)
        val = D(("key_type", kt), ("value_type", vt), ("key_struct_type", ks), ("value_struct_type", vs), ("id", i), ("value", vals))
        return val, [fstr_bytes(kt), fstr_bytes(vt)] + ti, [b"\0\0\0\0", LE(4, c)] + tv
    raise KeyError(ty)


def map_struct(g, path, suffix, default, hints):
    """struct type of map keys/values: a hint for the path, or the default"""
    if g.ctx.choose(2, "type hint for " + suffix) == 0:
        return (default if default in G.STRUCTS else None), default
    k, st = g.struct_type("hint" + suffix)
    hints.put(sconcat(path, suffix), st)
    return k, st


def mk_reader(I, toks, hints, custom=None):
    r = reader_on(I, toks, pre=False)
    r.attrs["type_hints"] = hints
    r.attrs["custom_properties"] = custom if custom is not None else VDict(I.ctx)
    return r


def tree_opts():
    return {"canonical": True, "props": True}


def not_contract(*fs):
    return {f: h for f, h in CONTRACTS.items() if f not in fs}


def rejected(e):
    raise Refuted(f"well-formed data is refused: {e}")


def forbidden_dec(reader, type_name, size, path):
    raise RuntimeError("decoder called")


def forbidden_enc(writer, property_type, properties):
    raise RuntimeError("encoder called")


def tables(I, path, mode):
    """custom tables under which a property is carried generically: 0 a table without its path;
    1 a table with it, when its own decoder asks"""
    ctx = I.ctx

    def wrong(I, a, kw):
        raise Refuted("the custom codec of another path is called" if mode == 0 else "a decoder that asks for the generic form is called again")

    I.contracts = dict(I.contracts)
    I.contracts[forbidden_dec] = I.contracts[forbidden_enc] = wrong
    if mode == 1:
        return VDict(ctx, [(path, (forbidden_dec, forbidden_enc))]), {"nested_caller_path": path}
    other = leaf_str(I, "other_path")
    ctx.memo[("streq", repr(SStr([path.parts[0]])), repr(other))] = False
    ctx.memo[("streq", repr(other), repr(SStr([path.parts[0]])))] = False
    ctx.notes.append(("strne", path, other))
    return VDict(ctx, [(other, (forbidden_dec, forbidden_enc))]), {}


def prop_roundtrip(ty, sub=None, mode=0):
    """reader.property then writer.property reproduces type, size and body"""

    def body(I):
        ctx = I.ctx
        g = G(I)
        path = leaf_str(I, "path", [""])  # paths start with a dot
        path.parts[0].n.lo = 1
        hints = VDict(ctx)
        s = sub
        if ty == "StructProperty" and sub is not None:
            s = g.struct_type()
        _, head, pay = prop_body(g, ty, s, path, hints)
        size = toks_len(pay)
        ctx.assume(SBool("ge", sub_(1 << 40, size))) if isinstance(size, Lin) else None
        toks = head + pay
        ctx.inputs["body"] = SBytes(toks)
        ctx.inputs["size"] = size
        ctx.inputs["hints"] = hints
        rest = Raw("rest", ctx.fresh_int("nrest", 0, None, is_len=True))
        tab, kw = tables(I, path, mode)
        r = mk_reader(I, toks + [rest], hints, tab)
        try:
            v = I.call(R.property, [r, ty, size, path], kw)
        except PyExc as e:
            rejected(e.exc)
        must_equal(ctx, rest_of(r), [rest], f"{ty}: bytes consumed")
        v = M.json_copy(I, v, J.CustomEncoder)
        w = I.call(W, [tab], {})
        try:
            I.call(W.property, [w, v], {})
        except PyExc as e:
            raise Refuted(f"{ty}: what was read cannot be written: {e.exc}")
        must_equal(ctx, w.attrs["data"].toks, [fstr_bytes(ty), LE(8, size)] + toks, f"{ty} written back")

    return body


sub_ = sub


def list_roundtrip():
    """properties_until_end / properties over any number of properties; bodies by hypothesis"""

    def body(I):
        ctx = I.ctx
        path = leaf_str(I, "path")
        name = leaf_str(I, "name", ["None"])
        ty = leaf_str(I, "type")
        size = Atom("size", 0, 1 << 40)
        o = VOpaque("body", "prop")
        k = enc_tok(ctx, "PBODY", o)
        o_size[o] = lin_atom(size)
        o_path[o] = sconcat(sconcat(path, "."), name)
        c = Atom("count", 0, None)
        b = Big(lin_atom(c), [fstr_tok(ctx, name), fstr_tok(ctx, ty), LE(8, lin_atom(size)), k])
        ctx.bigs.append(b)
        rest = Raw("rest", ctx.fresh_int("nrest", 0, None, is_len=True))
        end = fstr_bytes("None")
        ctx.inputs["list"] = SBytes([b, end])
        k.conc = lambda c: conc_body(c, ty, size)
        r = mk_reader(I, [b, end, rest], VDict(ctx))
        try:
            v = I.call(R.properties_until_end, [r, path], {})
        except PyExc as e:
            rejected(e.exc)
        must_equal(ctx, rest_of(r), [rest], "property list: bytes consumed")
        v = M.json_copy(I, v, J.CustomEncoder)
        w = I.call(W, [], {})
        try:
            I.call(W.properties, [w, v], {})
        except PyExc as e:
            raise Refuted(f"property list: what was read cannot be written: {e.exc}")
        must_equal(ctx, w.attrs["data"].toks, [b, end], "property list written back")

    return body


def conc_body(c, ty, size):
    """a concrete property body for the list obligation: fixes the type to IntProperty"""
    import struct

    c.strs[id(ty.parts[0])] = "IntProperty"
    c.prefer(SBool("eq", sub(lin_atom(size), 4)))
    return struct.pack("<Bi", 0, 7)


o_size = {}
o_path = {}


def h_property(I, a, kw):
    """contract of FArchiveReader.property: consumes the body of a property of the given type and
    size and returns a dict that remembers it"""
    io = stream(a[0])
    B.io_touch(I.ctx, io)
    io.toks[io.cur :] = flat(io.toks[io.cur :])
    t = io.toks[io.cur] if io.cur < len(io.toks) else None
    if not (isinstance(t, Enc) and t.kind == "PBODY"):
        raise Refuted("property body read at the wrong place")
    same_value(I, a[2], o_size[t.obj], "property size passed on")
    want = o_path.get(t.obj)
    if want is not None and (kw or len(a) != 4 or not S.same_str(snorm(a[3]), snorm(want))):
        raise Refuted(f"a property is read under the path {a[3:]} {kw} instead of {want}")
    io.cur += 1
    d = VDict(I.ctx, [("type", a[1])])
    d.rest = "property"
    d.tag = t.obj
    return d


def h_property_inner(I, a, kw):
    """contract of FArchiveWriter.property_inner: writes the body and returns its payload size"""
    d = a[2]
    if not (isinstance(d, VDict) and d.tag in o_size):
        return NotImplemented
    same_value(I, a[1], d.idx["type"][1], "property type passed on")
    put(I, a[0], SBytes([enc_tok(I.ctx, "PBODY", d.tag)]))
    return o_size[d.tag]


# ------------------------------------------------------------------ dispatch to the custom codecs
def dummy_dec(reader, type_name, size, path):
    raise RuntimeError("used through its contract")


def dummy_enc(writer, property_type, properties):
    raise RuntimeError("used through its contract")


def read_dispatch():
    """a property whose path is in the table is given to its decoder, with type, size and path, and
    marked with that path; its own decoder's nested call is generic (prop_roundtrip, mode 1)"""

    def body(I):
        ctx = I.ctx
        path = leaf_str(I, "path")
        ty = TYPES[ctx.choose(len(TYPES), "type")]
        ctx.inputs["type"] = ty
        size = Atom("size", 0, 1 << 40)
        inner = VOpaque("custom", "prop")
        tab = VDict(ctx, [(path, (dummy_dec, dummy_enc))])
        rest = Raw("rest", ctx.fresh_int("nrest", 0, None, is_len=True))
        r = mk_reader(I, [enc_tok(ctx, "PBODY", inner), rest], VDict(ctx), tab)
        calls = []

        def h(I, a, kw):
            if kw or len(a) != 4:
                return NotImplemented
            if a[0] is not r:
                raise Refuted("the decoder is given another reader")
            same_value(I, a[1], ty, "type passed to the decoder")
            same_value(I, a[2], lin_atom(size), "size passed to the decoder")
            same_value(I, a[3], path, "path passed to the decoder")
            calls.append(1)
            stream(r).cur += 1
            return VDict(ctx, [("value", inner), ("type", ty)])

        I.contracts = dict(I.contracts)
        I.contracts[dummy_dec] = h
        try:
            v = I.call(R.property, [r, ty, lin_atom(size), path], {})
        except PyExc as e:
            raise Refuted(f"custom property refused: {e.exc}")
        if len(calls) != 1:
            raise Refuted(f"the decoder is called {len(calls)} times")
        same_value(I, v, VDict(ctx, [("value", inner), ("type", ty), ("custom_type", path)]), "custom property")
        must_equal(ctx, rest_of(r), [rest], "bytes consumed")

    return body


def write_dispatch():
    """a property marked with a path in the table is written by its encoder, whose result is the
    size field; an unknown mark is an error and nothing else"""

    def body(I):
        ctx = I.ctx
        path = leaf_str(I, "path")
        ty = TYPES[ctx.choose(len(TYPES), "type")]
        ctx.inputs["type"] = ty
        size = Atom("size", 0, 1 << 40)
        inner = VOpaque("custom", "prop")
        k = enc_tok(ctx, "PBODY", inner)
        known = ctx.choose(2, "path in the table") == 0
        ctx.inputs["known"] = known
        tab = VDict(ctx, [(path, (dummy_dec, dummy_enc))]) if known else tables(I, path, 0)[0]
        v = VDict(ctx, [("value", inner), ("type", ty), ("custom_type", path)])
        w = I.call(W, [tab], {})
        calls = []

        def h(I, a, kw):
            if kw or len(a) != 3:
                return NotImplemented
            same_value(I, a[1], ty, "type passed to the encoder")
            if a[2] is not v:
                same_value(I, a[2], VDict(ctx, [("value", inner), ("type", ty), ("custom_type", path)]), "property passed to the encoder")
            same_value(I, a[0].attrs["custom_properties"], tab, "table passed to the encoder")
            calls.append(1)
            put(I, a[0], SBytes([enc_tok(ctx, "PBODY", inner)]))
            return lin_atom(size)

        I.contracts = dict(I.contracts)
        I.contracts[dummy_enc] = h
        k1, e = outcome(I, lambda: I.call(W.property, [w, v], {}))
        if not known:
            if k1 != "raise":
                raise Refuted("a property with an unknown custom type is written")
            return
        if k1 == "raise":
            raise Refuted(f"custom property cannot be written: {e}")
        if len(calls) != 1:
            raise Refuted(f"the encoder is called {len(calls)} times")
        must_equal(ctx, w.attrs["data"].toks, [fstr_bytes(ty), LE(8, lin_atom(size)), k], "custom property written")

    return body
