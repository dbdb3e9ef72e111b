"""C10-C13, C15, C20: the properties that carry the blobs.

Each obligation reads one property at a registered path with the tool's own table of custom
properties, optionally sends the result through JSON, and writes it: the bytes are the ones read,
and a second write of the same object gives them again.

A property list nested inside is a token holding a PList: the entries the decoder looks at, each
with its own bytes, and any further entries as an opaque rest.  Reading such a list is by the
contract of properties_until_end (tree.list): a dict with the entries as FArchiveReader.property
reads them at <path>.<name>, and the rest.  Writing is by the contract of properties: each entry
as FArchiveWriter.property writes it."""
from .base import *
from . import tree, prims
from .tree import G, prop_body, mk_reader, leaf_str, tstr
from .prims import CONTRACTS, R, W, stream, put, enc_tok, fstr_tok
from palworld_save_tools import json_tools as J, paltypes as PT


class PList:
    """entries: [(name, type, size, tokens of the body)]; rest: further entries, opaque"""

    def __init__(self, ents):
        self.ents = ents

    def __repr__(self):
        return "PList(" + ", ".join(n for n, *_ in self.ents) + ", ...)"


def plist(g, **ents):
    """ents: name -> (type, head tokens, payload tokens)"""
    o = PList([(n, ty, toks_len(pay), flat(head + pay)) for n, (ty, head, pay) in ents.items()])
    k = enc_tok(g.ctx, "PROPS", o, 9)
    k.n.hi = 1 << 40
    k.conc = lambda c: conc_plist(c, o)
    return [k]


def conc_plist(c, o):
    from native import spec as NS

    out = b""
    order = list(o.ents)
    if c.variant % 2:
        order.reverse()
    for n, ty, size, toks in order:
        out += NS.fstr(n) + NS.fstr(ty) + c.tok(LE(8, size)) + c.toks(toks)
    if c.variant % 3 == 0:
        out += NS.fstr("Other") + NS.fstr("IntProperty") + NS.u64(4) + b"\0" + b"\7\0\0\0"
    return out + NS.fstr("None")


def head_tok(I, io):
    """the token at the read position"""
    B.io_touch(I.ctx, io)
    io.toks[io.cur :] = flat(io.toks[io.cur :])
    while io.cur < len(io.toks) and isinstance(io.toks[io.cur], Big):
        B._open_big(I.ctx, io)
        io.toks[io.cur :] = flat(io.toks[io.cur :])
    return io.toks[io.cur] if io.cur < len(io.toks) else None


def r_props(I, a, kw):
    io = stream(a[0]) if a else None
    path = a[1] if len(a) > 1 else kw.get("path", "")
    if io is not None:
        t = head_tok(I, io)
        if isinstance(t, Enc) and t.kind == "PROPS" and isinstance(t.obj, PList):
            io.cur += 1
            d = VDict(I.ctx)
            d.rest = "entries"
            d.tag = t.obj
            for n, ty, size, toks in t.obj.ents:
                r = I.call(R.internal_copy, [a[0], SBytes(toks)], {"debug": False})
                v = I.call(R.property, [r, ty, size, sconcat(sconcat(path, "."), n)], {})
                must_equal(I.ctx, rest_of(r), [], f"{n}: bytes consumed")
                d.put(n, v)
            return d
    return prims.r_props(I, a, kw)


def w_props(I, a, kw):
    if len(a) == 2 and not kw and stream(a[0]) is not None and isinstance(a[1], VDict) and isinstance(a[1].tag, PList):
        d, o = a[1], a[1].tag
        if d.rest is None:
            raise Refuted("property list: other entries lost")
        if sorted(d.idx) != sorted(n for n, *_ in o.ents) or len(d.ents) != len(o.ents):
            raise Refuted(f"property list: entries {[e[0] for e in d.ents]} instead of {[n for n, *_ in o.ents]}")
        for n, ty, size, toks in o.ents:
            w = I.call(W.copy, [a[0]], {})
            try:
                I.call(W.property, [w, d.idx[n][1]], {})
            except PyExc as e:
                raise Refuted(f"{n}: what was read cannot be written: {e.exc}")
            must_equal(I.ctx, w.attrs["data"].toks, [fstr_bytes(ty), LE(8, size)] + toks, f"{n} written back")
        put(I, a[0], SBytes([enc_tok(I.ctx, "PROPS", o)]))
        return None
    return prims.w_props(I, a, kw)


def contracts(extra=None):
    c = dict(CONTRACTS)
    c[R.properties_until_end] = r_props
    c[W.properties] = w_props
    c.update(extra or {})
    return c


def table():
    return PT.PALWORLD_CUSTOM_PROPERTIES


def raw_entry(g, name="bytes"):
    """a RawData property: byte array of any content"""
    _, head, pay = prop_body(g, "ArrayProperty", "ByteProperty")
    return ("ArrayProperty", head, pay)


def carried(path, ty, build, twice=True, how=None):
    """build(g) -> (head, payload) tokens of the property"""

    def body(I):
        ctx = I.ctx
        if path not in table():
            raise Unsupported(path + " is not a custom property any more")
        g = G(I)
        head, pay = build(g)
        size = toks_len(pay)
        if isinstance(size, Lin):
            ctx.assume(SBool("ge", tree.sub_(1 << 40, size)))
        toks = head + pay
        ctx.inputs["body"] = SBytes(toks)
        ctx.inputs["size"] = size
        rest = Raw("rest", ctx.fresh_int("nrest", 0, None, is_len=True))
        hints = PT.PALWORLD_TYPE_HINTS
        r = mk_reader(I, toks + [rest], hints, table())
        try:
            v = I.call(R.property, [r, ty, size, path], {})
        except PyExc:
            raise PrunePath()
        must_equal(ctx, rest_of(r), [rest], "bytes consumed")
        if not (isinstance(v, VDict) and v.idx.get("custom_type") and v.idx["custom_type"][1] == path):
            raise Refuted("the decoded property is not marked with its path")
        if (ctx.choose(2, "through JSON") if how is None else how) == 0:
            v = M.json_copy(I, v, J.CustomEncoder)
        want = [fstr_bytes(ty), LE(8, size)] + toks
        for k in (1, 2) if twice else (1,):
            w = I.call(W, [table()], {})
            try:
                I.call(W.property, [w, v], {})
            except PyExc as e:
                raise Refuted(f"write {k}: what was read cannot be written: {e.exc}")
            must_equal(ctx, w.attrs["data"].toks, want, f"write {k}")

    return body


def b_simple(g):
    _, head, pay = prop_body(g, "ArrayProperty", "ByteProperty")
    return head, pay


SIMPLE = {
    ".worldSaveData.CharacterSaveParameterMap.Value.RawData": ("character", "C10"),
    ".worldSaveData.ItemContainerSaveData.Value.RawData": ("item_container", "C10"),
    ".worldSaveData.ItemContainerSaveData.Value.Slots.Slots.RawData": ("item_container_slots", "C10"),
    ".worldSaveData.CharacterContainerSaveData.Value.Slots.Slots.RawData": ("character_container", "C10"),
    ".worldSaveData.DynamicItemSaveData.DynamicItemSaveData.RawData": ("dynamic_item", "C10 C13"),
    ".worldSaveData.FoliageGridSaveDataMap.Value.ModelMap.Value.RawData": ("foliage_model", "C12"),
    ".worldSaveData.FoliageGridSaveDataMap.Value.ModelMap.Value.InstanceDataMap.Value.RawData": ("foliage_model_instance", "C12"),
    ".worldSaveData.BaseCampSaveData.Value.RawData": ("base_camp", "C12"),
    ".worldSaveData.BaseCampSaveData.Value.WorkerDirector.RawData": ("worker_director", "C12"),
    ".worldSaveData.BaseCampSaveData.Value.WorkCollection.RawData": ("work_collection", "C12"),
}


def cases(path, ty):
    return lambda i: [(o, dict(path=path, ty=ty, size=i["size"], body=i["body"])) for o in ("o_custom", "o_custom_twice")]


# ------------------------------------------------------------------ optional ids as opaque values
def opt_id(g):
    """an optional id of either form, carried unopened"""
    o = VOpaque(f"optid{len(g.ctx.__dict__.get('encs', ()))}", "optid")
    k = enc_tok(g.ctx, "OPTID", o, 1)
    k.n.hi = 17
    k.conc = lambda c: b"\0" if c.variant % 2 else b"\1" + bytes(range(16))
    return o, [k]


def r_optional_guid(I, a, kw):
    io = stream(a[0]) if len(a) == 1 and not kw else None
    if io is not None:
        t = head_tok(I, io)
        if isinstance(t, Enc) and t.kind == "OPTID":
            io.cur += 1
            return t.obj
    return prims.r_optional_guid(I, a, kw)


def w_optional_guid(I, a, kw):
    if len(a) == 2 and not kw and stream(a[0]) is not None and isinstance(a[1], VOpaque) and a[1].kind == "optid":
        put(I, a[0], SBytes([enc_tok(I.ctx, "OPTID", a[1])]))
        return None
    return prims.w_optional_guid(I, a, kw)


class GO(G):
    def opt(self):
        return opt_id(self)


def composite():
    c = contracts()
    c[R.optional_guid] = r_optional_guid
    c[W.optional_guid] = w_optional_guid
    return c


# ------------------------------------------------------------------ the composite properties
def enum_entry(g, leaf):
    e, te = g.s("enum_type")
    i, ti = g.opt()
    return ("EnumProperty", te + ti, [fstr_tok(g.ctx, leaf)])


def name_entry(g, leaf):
    i, ti = g.opt()
    return ("NameProperty", ti, [fstr_tok(g.ctx, leaf)])


def struct_entry(g, toks):
    st = leaf_str(g.I, "struct_type", [x for x in G.STRUCTS if x])
    sid, tsid = g.guid()
    i, ti = g.opt()
    return ("StructProperty", tstr(g, st) + tsid + ti, toks)


def map_of(g, kt, entry):
    """(type, head, payload) of a map with struct values"""
    i, ti = g.opt()
    _, c, tv = g.rep(lambda: (None, entry()))
    return ("MapProperty", [fstr_bytes(kt), fstr_bytes("StructProperty")] + ti, [b"\0\0\0\0", LE(4, c)] + tv)


def struct_array(g, name, entry):
    i, ti = g.opt()
    pt, tpt = g.s("prop_type")
    st = leaf_str(g.I, "type_name", [x for x in G.STRUCTS if x])
    aid, taid = g.guid()
    _, c, tv = g.rep(lambda: (None, entry()))
    pay = [LE(4, c), fstr_bytes(name)] + tpt + [LE(8, toks_len(tv))] + tstr(g, st) + taid + [b"\0"] + tv
    return ("ArrayProperty", [fstr_bytes("StructProperty")] + ti, pay)


def b_group(g):
    g = GO(g.I)
    return map_of(g, "StructProperty", lambda: g.guid()[1] + plist(g, GroupType=enum_entry(g, leaf_str(g.I, "kind")), RawData=raw_entry(g)))[1:]


def b_base_camp_module(g):
    g = GO(g.I)
    return map_of(g, "EnumProperty", lambda: g.s("kind")[1] + plist(g, RawData=raw_entry(g)))[1:]


def b_work(g):
    g = GO(g.I)

    def el():
        assign = map_of(g, "IntProperty", lambda: g.int(4, True)[1] + plist(g, RawData=raw_entry(g)))
        return plist(g, RawData=raw_entry(g), WorkableType=enum_entry(g, leaf_str(g.I, "kind")), WorkAssignMap=assign)

    return struct_array(g, "WorkSaveData", el)[1:]


def b_map_object(g):
    g = GO(g.I)

    def el():
        sub = lambda: struct_entry(g, plist(g, RawData=raw_entry(g)))
        model = struct_entry(g, plist(g, RawData=raw_entry(g), Connector=sub(), BuildProcess=sub()))
        mods = map_of(g, "EnumProperty", lambda: g.s("module")[1] + plist(g, RawData=raw_entry(g)))
        conc = struct_entry(g, plist(g, RawData=raw_entry(g), ModuleMap=mods))
        return plist(g, MapObjectId=name_entry(g, leaf_str(g.I, "kind")), Model=model, ConcreteModel=conc)

    return struct_array(g, "MapObjectSaveData", el)[1:]


COMPOSITE = {
    ".worldSaveData.GroupSaveDataMap": ("group", "C10", "MapProperty", b_group),
    ".worldSaveData.BaseCampSaveData.Value.ModuleMap": ("base_camp_module", "C12 C13", "MapProperty", b_base_camp_module),
    ".worldSaveData.WorkSaveData": ("work", "C12 C13", "ArrayProperty", b_work),
    ".worldSaveData.MapObjectSaveData": ("map_object", "C11 C13", "ArrayProperty", b_map_object),
}
