"""All obligations: name -> Obl.  Bodies are built lazily, in the worker that discharges them, so a
function missing from the repository makes its own obligations undecided and no others."""
import importlib
import struct

from . import base, prims, refine, tree, guid, compact, sav, gvas, cli, resave, trunc, wrap, write, nan, canaries
from .base import *
from .blobs import blob, FLAG_KEYS, FORMS, pair_contract
from .prims import CONTRACTS, SPEC, R, W
from native import spec as NS

REG = {}


class Obligation:
    def __init__(self, name, props, make, cases=None, opts=None, hooks=None, max_paths=20000, budget=45, doc="", fns=(), bounded=None, instead=None):
        self.name, self.props, self.make, self.cases = name, props, make, cases
        self.opts, self.hooks, self.max_paths, self.budget = opts or {}, hooks, max_paths, budget
        self.doc = doc
        self.fns = fns
        self.bounded = bounded
        self.instead = instead  # a bounded obligation run only while that one is not proved


def add(name, props, make, **kw):
    assert name not in REG, name
    REG[name] = Obligation(name, tuple(props.split()), make, **kw)


ALLTREE = "C07 C08 C09 C10 C11 C12 C15 C16 C20"


# ------------------------------------------------------------------ primitives meet their contracts
def anyint(I):
    a = Atom("v", None, None)
    I.ctx.inputs["value"] = a
    return [lin_atom(a)]


def anybytes(I):
    return [SBytes([free_bytes(I, "value")])]


def spec_fn(k):
    if k not in SPEC:
        raise Unsupported(k + " is gone")
    return SPEC[k][0]


def _read(name, args=None, allow_nan=True):
    return lambda: (refine.read_refines(name, args, allow_nan), refine.without(spec_fn("FArchiveReader." + name)))


def _write(name, args):
    return lambda: (refine.write_refines(name, args), refine.without(spec_fn("FArchiveWriter." + name)))


def prim_cases(name, nan=True):
    def f(i):
        return [("o_prim_read", dict(name=name, data=i["in"], allow_nan=nan))]

    return f


def trunc_cases(*op):
    def f(i):
        o = tuple(i["value"] if x == "value" else x for x in op)
        return [("o_trunc", dict(op=o, data=i["in"]))]

    return f


for _n in ("i16", "u16", "i32", "u32", "i64", "u64", "byte", "bool"):
    add("reader." + _n, "C03 C14", _read(_n), cases=prim_cases(_n))
for _n in ("float", "double"):
    add("reader." + _n, "C03 C14 C16", _read(_n), cases=prim_cases(_n))
    add("reader.%s/nan" % _n, "C16", _read(_n, allow_nan=False), cases=prim_cases(_n, False))
for _n in ("vector_dict", "quat_dict", "ftransform"):
    add("reader." + _n, "C03 C14 C16", _read(_n), cases=prim_cases(_n))
    add("reader.%s/nan" % _n, "C16", _read(_n, allow_nan=False), cases=prim_cases(_n, False))
add("reader.guid", "C05 C14", _read("guid"), cases=lambda i: [("o_guid_read", dict(data=i["in"])), ("o_trunc", dict(op=("guid",), data=i["in"]))])
add("reader.optional_guid", "C05 C14", _read("optional_guid"), cases=lambda i: [("o_trunc", dict(op=("optional_guid",), data=i["in"]))])
for _n in ("read", "byte_list"):
    add("reader." + _n, "C14", _read(_n, anyint), cases=trunc_cases(_n, "value"))
for _n in ("i16", "u16", "i32", "u32", "i64", "u64", "byte", "u"):
    add("writer." + _n, "C03", _write(_n, anyint), cases=lambda i, n=_n: [("o_prim_write", dict(name=n, value=i["value"]))])
add("writer.fstring", "C04", _write("fstring", lambda I: [any_str(I, "s")]), cases=lambda i: [("o_fstr", dict(s=i["s"]))])

wcase = lambda n: (lambda i: [("o_prim_write", dict(name=n, value=i["value"]))])
add("reader.fstring", "C04", lambda: (refine.fstring_reads_back(), refine.without(spec_fn("FArchiveReader.fstring"))), cases=lambda i: [("o_fstr", dict(s=i["s"]))])
add("writer.bool", "C03", _write("bool", refine.any_bool), cases=wcase("bool"))
add("writer.float", "C03 C16", _write("float", refine.float_or_none(32)), cases=wcase("float"))
add("writer.double", "C03 C16", _write("double", refine.float_or_none(64)), cases=wcase("double"))
add("writer.vector_dict", "C03 C16", _write("vector_dict", refine.fdict("xyz")), cases=wcase("vector_dict"))
add("writer.quat_dict", "C03 C16", _write("quat_dict", refine.fdict("xyzw")), cases=wcase("quat_dict"))
add("writer.ftransform", "C03", _write("ftransform", refine.transform), cases=wcase("ftransform"))
add("writer.write", "C07", _write("write", anybytes))


def gcase(i):
    o = i.get("other")
    out = [("o_guid", dict(raw=i["raw"], other=o, ops=()))]
    for a in "suhrew":
        for b in "suhrew":
            out.append(("o_guid", dict(raw=i["raw"], other=o, ops=("a" + a + ("b" if a == "e" else ""), "b" + b + ("c" if b == "e" else ""), "c" + a + ("a" if a == "e" else "")))))
    return out


add("writer.guid", "C05", lambda: (guid.forms(), refine.without(spec_fn("FArchiveWriter.guid"), spec_fn("FArchiveWriter.optional_guid"))), cases=gcase, doc="guid, optional_guid and uuid_writer write the 16 bytes of a GUID given as object, text, uuid.UUID or from_str")
add("writer.optional_guid", "C05", lambda: (guid.forms(), refine.without(spec_fn("FArchiveWriter.guid"), spec_fn("FArchiveWriter.optional_guid"))), cases=gcase)
add("guid.shown", "C05", lambda: (guid.shown(), CONTRACTS), cases=gcase)
add("guid.history", "C05", lambda: (guid.history(), CONTRACTS), cases=gcase)
add("guid.different", "C05", lambda: (guid.different(), CONTRACTS), cases=gcase)


# ------------------------------------------------------------------ composite reads on arbitrary input
NC = {"canonical": False}


def _fn(get):
    try:
        f = get()
    except AttributeError as e:
        raise Unsupported(str(e))
    return f


def _refines(get, ref, args=None):
    return lambda: (trunc.refines(_fn(get), ref, args), refine.without(_fn(get)))


def _complete(get, args=None, head=None):
    return lambda: (trunc.complete(_fn(get), args, head), refine.without(_fn(get)))


add("reader.skip", "C14", _refines(lambda: R.skip, trunc.ref_skip, anyint), opts=NC, cases=trunc_cases("skip", "value"))
add("reader.vector", "C03 C14 C16", _refines(lambda: R.vector, trunc.ref_vector), opts=NC, cases=trunc_cases("vector"))
add("reader.quat", "C03 C14", _refines(lambda: R.quat, trunc.ref_quat), opts=NC, cases=trunc_cases("quat"))
add("reader.uuid_reader", "C05 C14", _refines(lambda: base.A.uuid_reader, trunc.ref_uuid), opts=NC, cases=trunc_cases("uuid_reader"))
add("reader.instance_id_reader", "C05 C14", _refines(lambda: base.A.instance_id_reader, trunc.ref_instance_id), opts=NC, cases=trunc_cases("instance_id_reader"))
for _n in ("byte", "bool", "i16", "u16", "i32", "u32", "i64", "u64", "float", "double", "guid", "vector_dict", "fstring"):
    add("reader.tarray." + _n, "C14", _refines(lambda: R.tarray, trunc.ref_tarray, lambda I, n=_n: [getattr(R, n)]), opts=NC if _n != "fstring" else {}, cases=lambda i, n=_n: [("o_trunc", dict(op=("tarray", (n,)), data=i["in"]))])
add("reader.tarray.uuid", "C14", _refines(lambda: R.tarray, trunc.ref_tarray, lambda I: [base.A.uuid_reader]), opts=NC, cases=lambda i: [("o_trunc", dict(op=("tarray", ("uuid_reader",)), data=i["in"]))])
add("trunc.fstring", "C14 C04", _complete(lambda: R.fstring), opts=NC, cases=trunc_cases("fstring"))
add("trunc.rotator", "C14", _complete(lambda: R.compressed_short_rotator), opts=NC, cases=trunc_cases("compressed_short_rotator"))
for _s in (1, 10, 100):
    add(f"trunc.packed_vector.{_s}", "C14", _complete(lambda: R.packed_vector, lambda I, s=_s: [s], trunc.pvec_head), opts=dict(NC, abstract_float=True), cases=trunc_cases("packed_vector", _s))


def _list_complete():
    c = refine.without(R.properties_until_end)
    c[R.property] = trunc.h_sub_property
    c[R.fstring] = trunc.h_some_string
    return trunc.complete(R.properties_until_end, lambda I: [tree.leaf_str(I, "path")]), c


add("trunc.list", "C14", _list_complete, opts=dict(NC, forget_dicts=True), cases=lambda i: [("o_trunc", dict(op=("properties_until_end",), data=i["in"]))])
add("trunc.header", "C14 C09", lambda: (trunc.complete(gvas.V.GvasHeader.read), CONTRACTS), opts=NC, cases=lambda i: [("o_gvas_refuse", dict(data=i["in"]))])
for _t in tree.TYPES:
    for _k in [(k, v) for k in tree.G.PROP_VALUES for v in tree.G.PROP_VALUES] if _t == "MapProperty" else (None,):
        add("trunc.property." + ".".join((_t,) + (_k or ())), "C14", lambda t=_t, k=_k: (trunc.prop_complete(t, k), refine.without(R.property)), cases=lambda i, t=_t: [("o_trunc", dict(op=("property", t, i["size"], ".N"), data=i["in"]))])


def _wrefines(get, ref, args):
    return lambda: (trunc.wrefines(_fn(get), ref, args), refine.without(_fn(get)))


add("writer.vector", "C03", _wrefines(lambda: W.vector, trunc.ref_wvector, trunc.floats(3)), cases=lambda i: [("o_prim_write", dict(name="vector", value=i["value"]))])
add("writer.quat", "C03", _wrefines(lambda: W.quat, trunc.ref_wquat, trunc.floats(4)), cases=lambda i: [("o_prim_write", dict(name="quat", value=i["value"]))])
add("writer.instance_id_writer", "C05", _wrefines(lambda: base.A.instance_id_writer, trunc.ref_winstance, trunc.instance), cases=gcase)
for _n in ("u32", "i32", "byte", "fstring", "guid", "float"):
    add("writer.tarray." + _n, "C03" if _n not in ("fstring", "guid") else "C04" if _n == "fstring" else "C05", _wrefines(lambda: W.tarray, trunc.ref_wtarray, trunc.array_of(_n)), cases=lambda i, n=_n: [("o_warray", dict(name=n, elem=base.A.UUID(i["raw"]) if n == "guid" else i["elem"], count=c)) for c in (i["count"], 0, 1, 2)])


# ------------------------------------------------------------------ SAV container
for _t in (0x31, 0x32):
    add(f"sav.roundtrip.{_t:x}", "C01", lambda t=_t: (sav.roundtrip(t), CONTRACTS), cases=lambda i, t=_t: [("o_container", dict(payload=sav.pay(i), typ=t))])
    for _w in (False, True):
        add(f"sav.accepts.{_t:x}" + (".wrapped" if _w else ""), "C02", lambda t=_t, w=_w: (sav.accepts(t, w), CONTRACTS), cases=lambda i, t=_t: [("o_intact", dict(payload=sav.pay(i), typ=t, wrap=i.get("wrap")))])
add("sav.refuses", "C02", lambda: (sav.refuses(), CONTRACTS), cases=lambda i: [("o_sav", dict(data=i["data"]))])


# ------------------------------------------------------------------ GVAS
add("gvas.header", "C09", lambda: (gvas.header(), CONTRACTS), cases=lambda i: [("o_gvas", dict(data=i["header"] + NS.fstr("None") + t)) for t in (b"", b"\0\0\0\0", b"\1\2")])
add("gvas.file", "C09", lambda: (gvas.file(), CONTRACTS), cases=lambda i: [("o_gvas", dict(data=i["file"]))])
add("gvas.refuses", "C09", lambda: (gvas.refuses(), CONTRACTS), opts={"canonical": False}, cases=lambda i: [("o_gvas_refuse", dict(data=i["data"] + x)) for x in (b"", bytes(8) + NS.fstr("None"))])


# ------------------------------------------------------------------ command line
CLI_OPTS = {"unroll_forks": True}
for _p in ("C15", "C16", "C17", "C18", "C19", "C20"):
    for _n, _f in (("ext", ()), ("to", ("--to-json",)), ("from", ("--from-json",)), ("both", ("--to-json", "--from-json"))):
        if _n == "both" and _p in ("C15", "C16", "C19"):
            continue
        if _n == "from" and _p in ("C15", "C16"):
            continue
        add(f"cli.{_p}.{_n}", _p, lambda p=_p, f=_f: (cli.request(p, f), cli.contracts()), opts=CLI_OPTS, hooks=cli.HOOKS, cases=cli.cases(_p))
for _p in ("C15", "C20"):
    add("cli.select.any." + _p, _p, lambda p=_p: (cli.anyselect(p), cli.contracts()), opts=CLI_OPTS, hooks=cli.HOOKS, cases=cli.any_cases(_p))
    add("cli.select." + _p, _p, lambda p=_p: (cli.select(p), cli.contracts()), opts=CLI_OPTS, hooks=cli.HOOKS, cases=cli.cases(_p), instead="cli.select.any." + _p, bounded="the selections listed in contracts/cli.py (each known path alone, all but it, its proper prefix, ...)")
for _n in (0, 1, 2, 3):
    add(f"resave.{_n}", "C21", lambda n=_n: (resave.request(n), resave.contracts()), opts=CLI_OPTS, hooks=resave.HOOKS, cases=resave.cases)


# ------------------------------------------------------------------ compact forms
COMPACT = {f: h for f, h in CONTRACTS.items() if f.__name__ not in ("compressed_short_rotator", "packed_vector")}
add("compact.rotator", "C06", lambda: (compact.rotator(), COMPACT), cases=lambda i: [("o_rot", dict(codes=i["codes"]))])
for _lo, _hi in [(1, 8), (9, 16), (17, 24), (25, 32), (33, 40), (41, 48)] + [(i, min(i + 1, 63)) for i in range(49, 64, 2)]:
    add(f"compact.pvec.{_lo}-{_hi}", "C06", lambda lo=_lo, hi=_hi: (compact.pvec(lo, hi), COMPACT), cases=lambda i: [("o_pvec", dict(v=tuple(float(x) for x in i["v"])))])
add("compact.pvec.large", "C06", lambda: (compact.pvec_large(), COMPACT), cases=compact.large_cases)


# ------------------------------------------------------------------ blobs
def any_kind(I):
    l = StrLeaf("kind")
    I.ctx.inputs["kind"] = l
    return SStr([l])


BLOB_PROPS = {
    "C10": ["character", "character_container", "item_container", "item_container_slots", "dynamic_item", "group"],
    "C11": ["map_model", "map_concrete_model", "map_concrete_model_module", "connector", "build_process"],
    "C12": ["base_camp", "base_camp_module", "worker_director", "work_collection", "work", "work_assign", "foliage_model", "foliage_model_instance"],
}
def kinds_of(key, i):
    """the kind of a counterexample, and the known ones (a lookup by kind is abstract in the model)"""
    from native.gen import KINDS

    return [i.get("kind")] + KINDS.get(key, [])


WITH_KIND = {"group": False, "base_camp_module": True, "map_concrete_model_module": True, "map_concrete_model": False, "work": True}


def blob_fns(key):
    if key == "work_assign":
        m = importlib.import_module("palworld_save_tools.rawdata.work")
        return m.decode_work_assign_bytes, m.encode_work_assign_bytes
    m = importlib.import_module("palworld_save_tools.rawdata." + key)
    return m.decode_bytes, m.encode_bytes


def _blob(key):
    def make():
        d, e = blob_fns(key)
        return blob(d, e, any_kind if key in WITH_KIND else None, WITH_KIND.get(key, False), FORMS.get(key)), CONTRACTS

    return make


for _p, _ks in BLOB_PROPS.items():
    for _k in _ks:
        add("blob." + _k, _p + " C13", _blob(_k), opts={"flag_keys": FLAG_KEYS, "no_fail": True}, cases=lambda i, k=_k: [("o_blob", dict(key=k, kind=n, data=i["blob"])) for n in kinds_of(k, i)])


# ------------------------------------------------------------------ property tree
def tree_cases(ty, mode=0):
    def f(i):
        p = i.get("str:path", "")
        hints = {(".N" + k[len(p) :] if k.startswith(p) else k): v for k, v in i["hints"].items()}
        data = NS.fstr("N") + NS.fstr(ty) + NS.u64(i["size"]) + i["body"] + NS.fstr("None")
        out = [("o_tree", dict(data=data, hints=hints))]
        if mode == 1:
            out.append(("o_own", dict(ty=ty, size=i["size"], body=i["body"], hints=hints)))
        else:
            out.append(("o_paths", dict(data=data, hints=hints)))
        return out

    return f


def list_cases(i):
    return [("o_tree", dict(data=i["list"], hints={})), ("o_paths", dict(data=i["list"], hints={}))]


for _m, _x, _c in ((0, "", "C07 C15"), (1, "/own", "C15")):
    for _t in tree.TYPES:
        if _t == "MapProperty":
            for _k in tree.G.PROP_VALUES:
                for _v in tree.G.PROP_VALUES:
                    if _m == 0 or (_k, _v) in (("StructProperty", "StructProperty"), ("EnumProperty", "StructProperty"), ("IntProperty", "BoolProperty"), ("NameProperty", "EnumProperty")):
                        add(f"tree.map.{_k}.{_v}{_x}", _c, lambda k=_k, v=_v, m=_m: (tree.prop_roundtrip("MapProperty", (k, v), m), CONTRACTS), cases=tree_cases("MapProperty", _m))
        elif _t == "ArrayProperty":
            for _a in tree.READ_ARRAYS:
                add(f"tree.array.{_a}{_x}", _c, lambda a=_a, m=_m: (tree.prop_roundtrip("ArrayProperty", a, m), CONTRACTS), cases=tree_cases("ArrayProperty", _m))
        else:
            add(f"tree.{_t}{_x}", _c, lambda t=_t, m=_m: (tree.prop_roundtrip(t, mode=m), CONTRACTS), cases=tree_cases(_t, _m))
for _n in ("read", "write"):
    add(f"dispatch.{_n}", "C15", lambda n=_n: (getattr(tree, n + "_dispatch")(), CONTRACTS), cases=lambda i, n=_n: [("o_dispatch", dict(way=n, path=i["str:path"] or ".N", ty=i["type"], known=i.get("known", True), size=z)) for z in (0, 5, 300)])


def _list():
    c = tree.not_contract(R.properties_until_end, W.properties)
    c[R.property] = tree.h_property
    c[W.property_inner] = tree.h_property_inner
    return tree.list_roundtrip(), c


add("tree.list", "C07 C08 C15", _list, cases=list_cases)


# ------------------------------------------------------------------ properties that carry blobs
BLOB_OPTS = {"flag_keys": FLAG_KEYS, "no_fail": True}
for _p, (_k, _c) in wrap.SIMPLE.items():
    add("carry." + _k, _c + " C15 C20", lambda p=_p: (wrap.carried(p, "ArrayProperty", wrap.b_simple), wrap.contracts()), opts=BLOB_OPTS, cases=wrap.cases(_p, "ArrayProperty"))


PAIRS = {"work": ["work", "work_assign"], "map_object": ["map_model", "connector", "build_process", "map_concrete_model", "map_concrete_model_module"], "group": ["group"], "base_camp_module": ["base_camp_module"]}


def _composite(key, path, ty, build, how=None, only={}):
    def make():
        c = wrap.composite()
        for k in PAIRS[key]:
            d, e = blob_fns(k)
            c.update(pair_contract(k, d, e, k in WITH_KIND, WITH_KIND.get(k, False), same_value, only.get(k)))
        return wrap.carried(path, ty, build, how=how), c

    return make


for _p, (_k, _c, _t, _b) in wrap.COMPOSITE.items():
    if _k == "map_object":
        # split into four for speed; together they cover every form
        for _i, _j in enumerate(("json", "direct")):
            for _f in FORMS["connector"]:
                add(f"carry.map_object.{_j}.{_f}", _c + " C15 C20", _composite(_k, _p, _t, _b, _i, {"connector": _f}), opts=BLOB_OPTS, cases=wrap.cases(_p, _t), budget=150)
        continue
    add("carry." + _k, _c + " C15 C20", _composite(_k, _p, _t, _b), opts=BLOB_OPTS, cases=wrap.cases(_p, _t), budget=120)


# ------------------------------------------------------------------ what a user hands to the writer
for _t in tree.TYPES:
    if _t == "MapProperty":
        for _k in tree.G.PROP_VALUES:
            for _v in tree.G.PROP_VALUES:
                add(f"write.map.{_k}.{_v}", "C08", lambda k=_k, v=_v: (write.value("MapProperty", (k, v)), CONTRACTS), cases=write.cases)
    elif _t == "ArrayProperty":
        for _a in write.ARRAYS:
            add("write.array." + _a, "C08", lambda a=_a: (write.value("ArrayProperty", a), CONTRACTS), cases=write.cases)
    else:
        add("write." + _t, "C08", lambda t=_t: (write.value(t), CONTRACTS), cases=write.cases)
for _p, (_k, _c) in wrap.SIMPLE.items():
    add("write.custom." + _k, "C08", lambda p=_p, k=_k: (write.custom(p, k), CONTRACTS), opts=BLOB_OPTS, cases=lambda i, p=_p: [("o_sizes_world", dict(seed=s, only=[p.split(".")[2]])) for s in range(40)])


# ------------------------------------------------------------------ the NaN setting
def nan_cases(key, seeds=24):
    """the path's own input, then blobs in known layouts with floats of every kind"""
    from native.gen import Gen

    def f(i):
        for n in kinds_of(key, i):
            yield "o_nan_blob", dict(key=key, kind=n, data=i["blob"])
        for s in range(seeds):
            g = Gen(s)
            k = g.kind(key)
            yield "o_nan_blob", dict(key=key, kind=k, data=g.blob(key, k))

    return f


def nan_custom(path, ty, seeds=24):
    from native.gen import Gen

    def f(i):
        yield "o_nan_custom", dict(path=path, ty=ty, size=i["size"], body=i["body"])
        for s in range(seeds):
            yield "o_nan_tree", dict(data=NS.props(Gen(s).world([path.split(".")[2]])), hints={}, custom=True)

    return f


def _nan_blob(key):
    return lambda: (nan.blob(blob_fns(key)[0], any_kind if key in WITH_KIND else None), CONTRACTS)


for _p, _ks in BLOB_PROPS.items():
    for _k in _ks:
        add("nan.blob." + _k, "C16", _nan_blob(_k), opts=BLOB_OPTS, cases=nan_cases(_k))
for _t in tree.TYPES:
    for _s in [(k, v) for k in tree.G.PROP_VALUES for v in tree.G.PROP_VALUES if "StructProperty" in (k, v)] if _t == "MapProperty" else tree.READ_ARRAYS if _t == "ArrayProperty" else (None,):
        _n = _s if isinstance(_s, str) else ".".join(_s or ())
        add(f"nan.{_t}" + ("." + _n if _n else ""), "C16", lambda t=_t, s=_s: (nan.prop(t, s), CONTRACTS), cases=lambda i, t=_t: [("o_nan_tree", dict(data=NS.fstr("N") + NS.fstr(t) + NS.u64(i["size"]) + i["body"] + NS.fstr("None"), hints={(".N" + k[len(i.get("str:path", "")) :] if k.startswith(i.get("str:path", "")) else k): v for k, v in i["hints"].items()}))])
add("nan.file", "C16", lambda: (nan.file(), CONTRACTS), cases=lambda i: [("o_nan_gvas", dict(data=i["file"]))])


def _nan_simple(path, key):
    return lambda: (nan.carried(path, "ArrayProperty", wrap.b_simple, [blob_fns(key)[0]]), wrap.contracts())


def _nan_composite(path, key, ty, build):
    def make():
        c = wrap.composite()
        for k in PAIRS[key]:
            d, e = blob_fns(k)
            c.update(pair_contract(k, d, e, k in WITH_KIND, WITH_KIND.get(k, False), same_value))
        return nan.carried(path, ty, build, [blob_fns(k)[0] for k in PAIRS[key]]), c

    return make


for _p, (_k, _c) in wrap.SIMPLE.items():
    add("nan.carry." + _k, "C16", _nan_simple(_p, _k), opts=BLOB_OPTS, cases=nan_custom(_p, "ArrayProperty"))
for _p, (_k, _c, _t, _b) in wrap.COMPOSITE.items():
    add("nan.carry." + _k, "C16", _nan_composite(_p, _k, _t, _b), opts=BLOB_OPTS, budget=120, cases=nan_custom(_p, _t))


# ------------------------------------------------------------------ C22: unsupported types
from . import unknown as U  # noqa: E402


def unknown_cases(way, what):
    """the name found, and nonsense, with data of several shapes"""

    def f(i):
        n = i.get("str:kind")
        out = []
        for k in dict.fromkeys(([n] if n is not None else []) + ["FooProperty", "", "intproperty", "SetProperty"]):
            for seed in range(6):
                out.append(("o_unknown", dict(way=way, what=what, name=k, seed=seed, other=i.get("sub"))))
        return out

    return f


def _unk(fn, drop=(), **more):
    return lambda: (fn(), refine.without(*drop) | more)


for _n, _f in (("property", U.read_property), ("array", U.read_array), ("labelled", U.read_labelled)):
    add("refuse.read." + _n, "C22", _unk(_f, [R.property]), cases=unknown_cases("read", _n))
for _n in ("key", "value"):
    add("refuse.read.map." + _n, "C22", _unk(lambda n=_n: U.read_map(n), [R.property]), cases=unknown_cases("read", _n))
    add("refuse.write.map." + _n, "C22", _unk(lambda n=_n: U.write_map(n), [W.property]), cases=unknown_cases("write", _n))
for _n, _f in (("property", U.write_property), ("array", U.write_array)):
    add("refuse.write." + _n, "C22", _unk(_f, [W.property]), cases=unknown_cases("write", _n))
REG["dispatch.write"].props += ("C22",)
for _n, _ty, _k in (("struct", "StructProperty", None), ("array", "ArrayProperty", None), ("map.key", "MapProperty", ("StructProperty", "IntProperty")), ("map.value", "MapProperty", ("IntProperty", "StructProperty"))):
    add("refuse.nested.read." + _n, "C22", _unk(lambda t=_ty, k=_k: U.read_nested(t, k), [R.property]), cases=unknown_cases("read", "property"))
    add("refuse.nested.write." + _n, "C22", _unk(lambda t=_ty, k=_k: U.write_nested(t, k if k else ("StructProperty" if t == "ArrayProperty" else None)), [W.property]), cases=unknown_cases("write", "property"))
add("refuse.nested.read.list", "C22", lambda: (U.read_list(), refine.without(R.properties_until_end) | {R.fstring: trunc.h_some_string}), opts=dict(NC, forget_dicts=True), cases=unknown_cases("read", "property"))
add("refuse.nested.write.list", "C22", _unk(U.write_list, [W.properties]), cases=unknown_cases("write", "property"))
add("refuse.nested.write.property", "C22", _unk(U.write_outer, [W.property]), cases=unknown_cases("write", "property"))


# ------------------------------------------------------------------ C23: shown as stored, edits survive
from . import stored  # noqa: E402


def stored_cases(ty):
    def f(i):
        p = i.get("str:path", "")
        hints = {(".N" + k[len(p) :] if k.startswith(p) else k): v for k, v in i["hints"].items()}
        return [("o_shown", dict(data=NS.fstr("N") + NS.fstr(ty) + NS.u64(i["size"]) + i["body"] + NS.fstr("None"), hints=hints))]

    return f


def edit_cases(key):
    first = [True]

    def f(i):
        l = [("o_edit", dict(key=key, kind=n, data=i["blob"], seed=0, everywhere=True)) for n in kinds_of(key, i)]
        if first:
            first.clear()
            l += [("o_edit", dict(key=key, kind=None, data=None, seed=s, everywhere=True)) for s in range(60)]
        return l

    return f


def edit_world_cases(path, n=40):
    return lambda i: [("o_edit_world", dict(seed=s, only=[path.split(".")[2]])) for s in range(n)]


for _t in tree.TYPES:
    for _s in [(k, v) for k in tree.G.PROP_VALUES for v in tree.G.PROP_VALUES] if _t == "MapProperty" else tree.READ_ARRAYS if _t == "ArrayProperty" else (None,):
        _n = _s if isinstance(_s, str) else ".".join(_s or ())
        add(f"stored.{_t}" + ("." + _n if _n else ""), "C23", lambda t=_t, s=_s: (stored.prop_value(t, s), CONTRACTS), cases=stored_cases(_t))
        add(f"edit.{_t}" + ("." + _n if _n else ""), "C23", lambda t=_t, s=_s: (stored.written(t, s), CONTRACTS), cases=stored_cases(_t))


def _stored_list():
    c = tree.not_contract(R.properties_until_end, W.properties)
    c[R.property] = tree.h_property
    c[W.property_inner] = tree.h_property_inner
    return stored.list_value(), c


add("stored.list", "C23", _stored_list, cases=lambda i: [("o_shown", dict(data=i["list"], hints={}))])
add("stored.file", "C23", lambda: (stored.header(), CONTRACTS), cases=lambda i: [("o_header", dict(data=i["header"] + NS.fstr("None") + t)) for t in (b"", b"\0\0\0\0", b"\1\2")])
for _p, _ks in BLOB_PROPS.items():
    for _k in _ks:
        add("edit." + _k, "C23", lambda k=_k: (stored.blob(*blob_fns(k), any_kind if k in WITH_KIND else None, WITH_KIND.get(k, False)), CONTRACTS), opts=BLOB_OPTS, cases=edit_cases(_k))
for _p, (_k, _c) in wrap.SIMPLE.items():
    add("edit.carry." + _k, "C23", lambda p=_p: (stored.carried(p, "ArrayProperty", wrap.b_simple), wrap.contracts()), opts=BLOB_OPTS, cases=edit_world_cases(_p))


def _edit_composite(path, key, ty, build, only={}):
    def make():
        c = wrap.composite()
        for k in PAIRS[key]:
            d, e = blob_fns(k)
            c.update(pair_contract(k, d, e, k in WITH_KIND, WITH_KIND.get(k, False), same_value, only.get(k)))
        return stored.carried(path, ty, build), c

    return make


for _p, (_k, _c, _t, _b) in wrap.COMPOSITE.items():
    for _f in FORMS["connector"] if _k == "map_object" else (None,):
        add("edit.carry." + _k + ("." + _f if _f else ""), "C23", _edit_composite(_p, _k, _t, _b, {"connector": _f} if _f else {}), opts=BLOB_OPTS, cases=edit_world_cases(_p), budget=120)


# ------------------------------------------------------------------ which obligations establish a contract
def establishing(c):
    """c: module.qualname of a repository function used through its contract"""
    q = c.split("palworld_save_tools.archive.", 1)[-1]
    cls, _, m = q.partition(".")
    if ".palsav." in c:
        return [n for n in REG if n.startswith("sav.")]
    if ".gvas." in c:
        return ["gvas.header", "gvas.file", "gvas.refuses"]
    pre = {"FArchiveReader": "reader.", "FArchiveWriter": "writer."}.get(cls)
    if ".rawdata." in c:
        mod, fn = c.split(".rawdata.", 1)[1].split(".", 1)
        key = "work_assign" if "assign" in fn else mod
        return ["blob." + key] if "blob." + key in REG else []
    if m in ("compressed_short_rotator", "packed_vector"):
        return [n for n in REG if n.startswith("compact." + ("rot" if m[0] == "c" else "pvec"))]
    if m in ("properties_until_end", "properties", "property", "property_inner"):
        return [n for n in REG if n.startswith("tree.")]
    if pre:
        return [n for n in REG if n == pre + m or n.startswith(pre + m + "/")]
    return []


def variant_only(n):
    return False


# ------------------------------------------------------------------ canaries: must be refuted
def _canary_blob():
    from palworld_save_tools.rawdata import base_camp

    def h(I, a, kw):
        return SBytes(B.toks_of(I.call(base_camp.encode_bytes, list(a), kw)) + [b"\0"])

    return blob(base_camp.decode_bytes, canaries.extra_byte), dict(CONTRACTS) | {canaries.extra_byte: h}


add("canary.blob", "", _canary_blob, opts={"flag_keys": FLAG_KEYS, "no_fail": True})
add("canary.skip", "", lambda: (trunc.refines(canaries.short_skip, trunc.ref_skip, anyint), CONTRACTS), opts=NC)
add("canary.vector", "", lambda: (trunc.refines(canaries.short_vector, trunc.ref_vector), CONTRACTS), opts=NC)
add("canary.array", "", lambda: (trunc.refines(canaries.lossy_array, trunc.ref_tarray, lambda I: [R.u32]), CONTRACTS), opts=NC)
add("canary.carried", "", lambda: (trunc.refines(canaries.fading, trunc.ref_tarray, lambda I: [R.u32]), CONTRACTS), opts=NC)
add("canary.endian", "", lambda: (trunc.wrefines(canaries.big_endian, canaries.ref_array, lambda I: trunc.array_of("u32")(I)[1:]), CONTRACTS))
add("canary.wrap", "", lambda: (trunc.wrefines(canaries.wrapping, canaries.ref_u16, anyint), CONTRACTS))
add("canary.strip", "", lambda: (trunc.wrefines(canaries.stripped, canaries.ref_str, lambda I: [any_str(I, "s")]), CONTRACTS))
add("canary.frame", "", lambda: (trunc.refines(canaries.remembers, canaries.ref_u32), CONTRACTS), opts=NC)
CANARIES = [n for n in REG if n.startswith("canary.")]
