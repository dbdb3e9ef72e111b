"""C22: properties of unsupported types, at any depth of well-formed data."""
from . import spec as S
from .gen import Gen

PROPS = ["IntProperty", "Int64Property", "FixedPoint64Property", "FloatProperty", "StrProperty", "NameProperty", "EnumProperty", "BoolProperty", "StructProperty", "ArrayProperty", "MapProperty"]
ARRAYS = ["EnumProperty", "NameProperty", "Guid", "ByteProperty", "StructProperty", "IntProperty", "Int64Property", "FloatProperty", "StrProperty", "BoolProperty"]
VALUES = ["StructProperty", "EnumProperty", "NameProperty", "IntProperty", "BoolProperty"]
NAMES = ["FooProperty", "", "intproperty", "IntProperty ", "SetProperty", "TextProperty", "DoubleProperty", "UInt32Property", "ObjectProperty", "Int8Property", "ByteProperty", "Guid", "Vector", "None", "StrProperty", "Int64Property", "Struct", "Int", "PropertyInt", "BoolProperty2", "MapProperty", "ArrayProperty", "FixedPoint64Property", "FloatProperty", "Été"]
KNOWN = {"property": PROPS, "array": ARRAYS, "key": VALUES, "value": VALUES, "labelled": [], "custom": []}


def scalar(g, t):
    """(bytes, value) of a map key or value of a supported plain type"""
    if t == "IntProperty":
        v = g.int(32, True)
        return S.i32(v), v
    if t == "BoolProperty":
        v = g.flag()
        return S.flag(v), v
    v = g.str()
    return S.fstr(v), v


def payload(g):
    r = g.r
    return r.choice([b"", b"", S.i32(g.int(32, True)), S.fstr(g.str()), g.guid(), b"\1", S.fstr("None"), S.opt(g.opt()) + S.i32(7), S.u64(g.int(64, False)), g.bytes(r.randrange(40)), S.fstr("None") * 3])


def element(g):
    r = g.r
    return r.choice([0, 1, 255, -1, "", "abc", "None", True, b"\0" * 16, "00000000-0000-0000-0000-000000000000", 1.5, None, {}, {"x": 0.0, "y": 0.0, "z": 0.0}, {"a": {"type": "IntProperty", "id": None, "value": 3}}])


def bad(g, what, name, other=None):
    """(type, body, size, tree value) of a property the tool has no rule for"""
    r = g.r
    o = g.opt()
    if what == "property":
        b = payload(g)
        return name, b, len(b) if r.random() < 0.7 else 0, {"type": name, "id": o, "value": element(g)}
    if what == "array":
        n = r.choice([1, 1, 2, 3, 300])
        b = r.choice([b"".join(payload(g) for _ in range(n)), g.bytes(n), b"\0" * n])
        e = element(g)
        return "ArrayProperty", S.fstr(name) + S.opt(o) + S.u32(n) + b, 4 + len(b), {"type": "ArrayProperty", "array_type": name, "id": o, "value": {"values": [e if r.random() < 0.7 else element(g) for _ in range(n)]}}
    if what == "labelled":
        n = r.choice([0, 1, 2, 3, 4, 16, 100])
        k = r.choice([0, 1, 2, 3, 5, n + 1, 2 * n + 1, n * r.choice([2, 4, 5, 8, 12, 16]), n * r.randrange(40), r.randrange(200)])
        k = k if k != n else n + 1
        b = g.bytes(max(n, k))
        if r.random() < 0.3:
            b = b"".join(S.fstr(g.str()) for _ in range(n))
            if len(b) == n:
                b += b"\0"
            k = len(b)
        return "ArrayProperty", S.fstr("ByteProperty") + S.opt(o) + S.u32(n) + b, 4 + k, None
    if what == "custom":
        return None, None, None, {"type": r.choice(PROPS + ["FooProperty"]), "id": o, "value": element(g), "custom_type": r.choice([".no.such", "", ".worldSaveData", ".worldSaveData.GroupSaveDataMap "])}
    ot = other if other in VALUES and other != "StructProperty" else r.choice(VALUES[1:])
    n = r.choice([1, 1, 2, 3])
    kt, vt = (name, ot) if what == "key" else (ot, name)
    bs, es = b"", []
    for _ in range(n):
        x, v = scalar(g, ot)
        p, e = payload(g), element(g)
        bs += p + x if what == "key" else x + p
        es.append({"key": e, "value": v} if what == "key" else {"key": v, "value": e})
    return "MapProperty", S.fstr(kt) + S.fstr(vt) + S.opt(o) + S.u32(0) + S.u32(n) + bs, 8 + len(bs), {"type": "MapProperty", "key_type": kt, "value_type": vt, "key_struct_type": None, "value_struct_type": None, "id": o, "value": es}


def in_list(g, t):
    """a property list with t in the middle of good ones: (bytes, dict)"""
    ty, b, size, v = t
    out, d = b"", {}
    names = ["P%d" % i for i in range(g.r.choice([1, 1, 2, 3, 4]))]
    at = g.r.randrange(len(names))
    for i, n in enumerate(names):
        if i == at:
            d[n] = v
            if b is not None:
                out += S.fstr(n) + S.fstr(ty) + S.u64(size) + b
        else:
            x = g.int(32, True)
            d[n] = {"type": "IntProperty", "id": None, "value": x}
            out += S.fstr(n) + S.fstr("IntProperty") + S.u64(4) + b"\0" + S.i32(x)
    return out + S.fstr("None"), d


def wrap(g, t):
    """a supported property that holds a list with t"""
    lb, ld = in_list(g, t)
    k = g.r.randrange(3)
    z = b"\0" * 16
    if k == 0:
        return "StructProperty", S.fstr("PalNested") + z + b"\0" + lb, len(lb), {"type": "StructProperty", "struct_type": "PalNested", "struct_id": z, "id": None, "value": ld}
    n = g.r.choice([1, 2, 3])
    at = g.r.randrange(n)
    bs, es = b"", []
    for i in range(n):
        bs += lb if i == at else S.fstr("None")
        es.append(ld if i == at else {})
    if k == 1:
        h = S.u32(n) + S.fstr("Elems") + S.fstr("StructProperty") + S.u64(len(bs)) + S.fstr("PalNested") + z + b"\0"
        return "ArrayProperty", S.fstr("StructProperty") + b"\0" + h + bs, len(h) + len(bs), {"type": "ArrayProperty", "array_type": "StructProperty", "id": None, "value": {"prop_name": "Elems", "prop_type": "StructProperty", "values": es, "type_name": "PalNested", "id": z}}
    bs, ent = b"", []
    for i in range(n):
        e = lb if i == at else S.fstr("None")
        bs += S.i32(i) + e
        ent.append({"key": i, "value": es[i]})
    return "MapProperty", S.fstr("IntProperty") + S.fstr("StructProperty") + b"\0" + S.u32(0) + S.u32(n) + bs, 8 + len(bs), {"type": "MapProperty", "key_type": "IntProperty", "value_type": "StructProperty", "key_struct_type": None, "value_struct_type": "StructProperty", "id": None, "value": ent}


def build(what, name, seed, other=None):
    g = Gen(seed * 7919 + len(what))
    t = bad(g, what, name, other)
    for _ in range(g.r.choice([0, 0, 0, 1, 1, 2, 4])):
        t = wrap(g, t)
    return in_list(g, t)
