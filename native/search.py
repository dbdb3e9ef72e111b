"""Seeded streams of concrete cases per property, judged by the oracles on the real code.

    python3-vt -m native.search --prop C07 --seed 1 --seconds 10 --out FILE [--hot FILE]

Bounded: they never count as proof.  They stand in for undecided obligations and supply failing
inputs for refuted ones."""
import argparse
import itertools
import json
import os
import random
import struct
import sys
import time
import uuid
import zlib

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PYVC_REPO", "/repo")


def paths():
    for p in (HERE, REPO):
        if p not in sys.path:
            sys.path.insert(0, p)
    v = "/opt/venv/lib/python3.12/site-packages"
    if v not in sys.path:
        sys.path.append(v)


paths()
from native import spec as S
from native.gen import Gen, BLOBS, KINDS
from native import oracles as O
from native import cli as C
from native import resave as RS
from native import unknown as U


# ------------------------------------------------------------------ tagged JSON
def enc(v):
    if isinstance(v, bytes):
        return {"$b": v.hex()}
    if isinstance(v, tuple):
        return {"$t": [enc(x) for x in v]}
    if isinstance(v, list):
        return [enc(x) for x in v]
    if isinstance(v, dict):
        return {"$d": [[enc(k), enc(x)] for k, x in v.items()]}
    if isinstance(v, uuid.UUID):
        return {"$u": str(v)}
    if type(v).__name__ == "UUID":
        return {"$g": bytes(v.raw_bytes).hex()}
    if isinstance(v, float):
        return {"$f": struct.pack("<d", v).hex()}
    if isinstance(v, str):
        return v if v.isascii() else {"$s": v.encode("utf-8", "surrogatepass").hex()}
    return v


def dec(v):
    if isinstance(v, list):
        return [dec(x) for x in v]
    if isinstance(v, dict):
        (k, x), = v.items()
        if k == "$b":
            return bytes.fromhex(x)
        if k == "$t":
            return tuple(dec(y) for y in x)
        if k == "$d":
            return {dec(a): dec(b) for a, b in x}
        if k == "$u":
            return uuid.UUID(x)
        if k == "$g":
            return O.A.UUID(bytes.fromhex(x))
        if k == "$f":
            return struct.unpack("<d", bytes.fromhex(x))[0]
        if k == "$s":
            return bytes.fromhex(x).decode("utf-8", "surrogatepass")
    return v


# ------------------------------------------------------------------ streams
def sizes(r):
    return r.choice([0, 1, 2, 3, 7, 8, 11, 12, 13, 63, 64, 100, 255, 256, 1000, 4096, 70000])


def payload(g):
    r = g.r
    n = g.length(1 << 20, 0.2)
    if n is None:
        n = sizes(r)
    k = r.random()
    if k < 0.4:
        return g.bytes(min(n, 5000))
    if k < 0.7:
        return bytes([r.randrange(256)]) * n
    return (g.bytes(9) * (n // 9 + 1))[:n]


def c01(g):
    yield "o_container", dict(payload=payload(g), typ=g.r.choice([0x31, 0x32]))


def container(p, typ, cnk):
    once = zlib.compress(p)
    body = zlib.compress(once) if typ == 0x32 else once
    c = struct.pack("<II", len(p), len(once)) + b"PlZ" + bytes([typ]) + body
    if cnk:
        c = struct.pack("<II", 1, 2) + b"CNK\x30" + c
    return c


def c02(g):
    r = g.r
    typ = r.choice([0x31, 0x32])
    cnk = r.random() < 0.4
    p = payload(g)[:3000]
    if r.random() < 0.15:
        yield "o_intact", dict(payload=p, typ=typ, wrap=(g.r.getrandbits(32), g.r.getrandbits(32), g.r.getrandbits(8)) if cnk else None)
    c = bytearray(container(p, typ, cnk))
    o = 12 if cnk else 0
    k = r.randrange(12)
    if k == 0:
        pass
    elif k == 1:
        c = c[: r.randrange(len(c) + 1)]
    elif k == 2:
        i = r.randrange(min(len(c), o + 14))
        c[i] ^= 1 << r.randrange(8)
    elif k == 3:
        struct.pack_into("<I", c, o + 4 * r.randrange(2), r.choice([0, 1, len(p) - 1 & 0xFFFFFFFF, len(p) + 1, len(c) - 12, len(c), 0xFFFFFFFF, len(p)]))
    elif k == 4:
        c[o + 11] = r.choice([0x30, 0x33, 0x00, 0x31, 0x32, 0xB1, 0x2A, 0x20, 0x50])
    elif k == 5:
        c += g.bytes(r.choice([1, 2, 4, 16]))
    elif k == 6:
        c[o + 8 : o + 11] = r.choice([b"PlX", b"plZ", b"CNK", b"\0\0\0", b"ZlP", b"PLZ"])
    elif k == 7:
        # lengths measured at the wrong stage
        once = zlib.compress(p)
        body = zlib.compress(once)
        v = [len(p), len(once), len(body), len(c)]
        c = bytearray((b"\1\0\0\0\2\0\0\0CNK0" if cnk else b"") + struct.pack("<II", r.choice(v), r.choice(v)) + b"PlZ" + bytes([typ]) + (body if typ == 0x32 else once))
    elif k == 8:
        i = r.randrange(len(c))
        c[i] ^= r.randrange(1, 256)
    elif k == 9:
        # type byte of the other kind
        c[o + 11] = 0x31 + 0x32 - typ
    elif k == 10:
        # zlib with trailing data or concatenated streams inside
        once = zlib.compress(p) + g.bytes(r.choice([0, 1, 3]))
        body = zlib.compress(once) if typ == 0x32 else once
        c = bytearray((b"\1\0\0\0\2\0\0\0CNK0" if cnk else b"") + struct.pack("<II", len(p), len(once)) + b"PlZ" + bytes([typ]) + body)
    else:
        # decoy magic further on
        c = bytearray(g.bytes(8) + r.choice([b"CNK", b"PlZ", b"XXX"]) + g.bytes(1) + bytes(c))
    yield "o_sav", dict(data=bytes(c))


INTS = [("i16", 16, True), ("u16", 16, False), ("i32", 32, True), ("u32", 32, False), ("i64", 64, True), ("u64", 64, False), ("byte", 8, False), ("u", 8, False)]
LEN = {"i16": 2, "u16": 2, "i32": 4, "u32": 4, "i64": 8, "u64": 8, "byte": 1, "bool": 1, "float": 4, "double": 8, "vector": 24, "quat": 32, "vector_dict": 24, "quat_dict": 32, "ftransform": 80}


def fbytes(g, name):
    n = LEN[name]
    if name == "float":
        b = S.f32(g.f32())
    elif name == "double":
        b = S.f64(g.f64())
    elif n >= 24:
        b = b"".join(S.f64(g.f64()) for _ in range(n // 8))
    elif name == "bool":
        b = bytes([g.r.randrange(2)])
    else:
        b = S.u64(g.int(64, False))[:n] if g.r.random() < 0.5 else g.bytes(n)
    return b


def c03(g):
    r = g.r
    name = r.choice(list(LEN))
    yield "o_prim_read", dict(name=name, data=fbytes(g, name) + g.bytes(r.choice([0, 1, 9])), allow_nan=True)
    n, b, s = r.choice(INTS)
    v = g.int(b, s)
    k = r.random()
    if k < 0.3:
        v = r.choice([-1, 1, 0]) * (1 << r.choice([7, 8, 15, 16, 31, 32, 63, 64, 65])) + r.randrange(-2, 3)
    yield "o_prim_write", dict(name=n, value=v)
    n = r.choice(["bool", "float", "double", "vector_dict", "quat_dict", "ftransform", "vector", "quat"])
    yield "o_prim_write", dict(name=n, value=fval(g, n))


def fval(g, n, none=False):
    if n == "bool":
        return g.flag()
    if n == "float":
        return g.f32()
    if n == "double":
        return g.f64()
    if n == "vector_dict":
        return g.vec()
    if n == "quat_dict":
        return g.vec("xyzw")
    if n == "ftransform":
        return {"rotation": g.vec("xyzw"), "translation": g.vec(), "scale3d": g.vec()}
    return tuple(g.f64() for _ in range(3 if n == "vector" else 4))


def pairless(s):
    """without an adjacent high-low pair of separate surrogates"""
    return not any("\ud800" <= a <= "\udbff" and "\udc00" <= b <= "\udfff" for a, b in zip(s, s[1:]))


def c04(g):
    s = g.str()
    r = g.r
    if r.random() < 0.3:
        n = r.choice([1, 2, 3, 126, 127, 128, 255, 256, 1000, 65535 if r.random() < 0.05 else 2])
        a = r.choice([["a"], ["a", "\0"], ["\u0100"], ["\x7f", "\x80"], ["\U00010000"], ["\udc00"], ["\ud800", "x"], ["a", "\u20ac"]])
        s = "".join(r.choice(a) for _ in range(n))
    if pairless(s):
        yield "o_fstr", dict(s=s)


def c05(g):
    r = g.r
    raw = g.guid()
    o = None
    if r.random() < 0.6:
        i = r.randrange(16)
        o = raw[:i] + bytes([raw[i] ^ (1 << r.randrange(8))]) + raw[i + 1 :]
        if r.random() < 0.3:
            o = g.guid()
        if r.random() < 0.3:
            o = raw[::-1] if r.random() < 0.5 else raw[4:8] + raw[:4] + raw[8:]
    ops = ["".join([r.choice("abc"), r.choice("suhrenwjtd")] + [r.choice("abc")]) for _ in range(r.choice([0, 0, 1, 2, 3, 5, 9]))]
    ops = [x if x[1] in "en" else x[:2] for x in ops]
    yield "o_guid", dict(raw=raw, other=o, ops=tuple(ops))
    yield "o_guid_read", dict(data=g.bytes(r.choice([0, 1, 15, 16, 17, 40])))


def c06(g):
    r = g.r
    yield "o_rot", dict(codes=tuple(g.int(16, False) for _ in range(3)))
    m = [r.choice([0, 1, 2, 7, 8, 9, 15, 16, 23, 24, 31, 32, 33, 40, 47, 52, 53, 60, 61, 62]) for _ in range(3)]
    if r.random() < 0.5:
        m = [m[0]] * 3

    def co(b):
        v = r.choice([1, -1]) * (r.choice([(1 << b) - 1, 1 << b, (1 << b) + 1, r.getrandbits(b + 1), 0, 1]))
        v = int(float(v))
        return v if abs(v) < 1 << 62 else 0

    v = tuple(co(b) for b in m)
    yield "o_pvec", dict(v=tuple(float(x) for x in v))
    if r.random() < 0.3:
        w = [x for x in g.large()]
        if all(abs(x) != float("inf") for x in w):
            yield "o_pvec", dict(v=tuple(w))


def c07(g):
    t, h = g.tree(g.r.choice([0, 1, 2, 2, 3]))
    yield "o_tree", dict(data=S.props(t), hints=h)


def c08(g):
    r = g.r
    h = {}
    t = {}
    for _ in range(r.choice([1, 1, 2, 3])):
        k = g.name(t)
        t[k] = g.prop(r.choice([0, 1, 2]), "." + k, h, arrays=Gen.ARRAYS + ["IntProperty", "Int64Property", "FloatProperty", "BoolProperty", "StrProperty"] if r.random() < 0.7 else None)
    yield "o_sizes", dict(tree=O.restyle(t, g, None))
    if r.random() < 0.15:
        yield "o_sizes_world", dict(seed=r.randrange(1 << 30))


def c09(g):
    r = g.r
    t, h = g.tree(r.choice([0, 1, 2]))
    hd = g.header()
    b = S.gvas_header(hd) + S.props(t) + g.trailer()
    yield "o_gvas", dict(data=b, hints=h)
    bad = dict(hd)
    k = r.choice(["magic", "save_game_version", "custom_version_format"])
    bad[k] = r.choice([0, 1, 2, 3, 4, -1, 0x53415647, 0x47564153, 0x53415646, 259, bad[k] ^ (1 << r.randrange(31))])
    yield "o_gvas_refuse", dict(data=S.gvas_header(bad) + S.props(t) + g.trailer())


PARTS = {
    "C10": (["character", "character_container", "item_container", "item_container_slots", "dynamic_item", "group"], ["GroupSaveDataMap", "CharacterSaveParameterMap", "ItemContainerSaveData", "CharacterContainerSaveData", "DynamicItemSaveData"]),
    "C11": (["map_model", "map_concrete_model", "map_concrete_model_module", "connector", "build_process"], ["MapObjectSaveData"]),
    "C12": (["base_camp", "base_camp_module", "worker_director", "work_collection", "work", "work_assign", "foliage_model", "foliage_model_instance"], ["BaseCampSaveData", "WorkSaveData", "FoliageGridSaveDataMap"]),
}


def cblob(p):
    keys, parts = PARTS[p]

    def f(g):
        r = g.r
        for _ in range(4):
            k = r.choice(keys)
            kind = g.kind(k)
            b = g.blob(k, kind)
            yield "o_blob", dict(key=k, kind=kind, data=b)
        if r.random() < 0.35:
            yield "o_world", dict(data=S.props(g.world(r.sample(parts, 1))))

    return f


def spoil(g, b):
    """bytes near a known layout"""
    r = g.r
    m = r.randrange(7)
    if m == 0:
        return b + g.bytes(r.choice([1, 2, 4, 5, 8, 16, 17, 32]))
    if m == 1:
        return b + b"\0" * r.choice([1, 2, 3, 4, 8, 12, 16, 20])
    if m == 2:
        return g.bytes(r.choice([0, 1, 4, 20, 60, 200]))
    if m == 3 and b:
        return b[: r.randrange(len(b))]
    if m == 4 and b:
        i = r.randrange(len(b))
        return b[:i] + g.bytes(1) + b[i + 1 :]
    if m == 5 and b:
        return b + b[-r.randrange(1, min(len(b), 20) + 1) :]
    return b


def c13(g):
    r = g.r
    k = r.choice(list(BLOBS))
    kind = g.kind(k)
    if kind is not None and r.random() < 0.3:
        kind = r.choice(["unknown", "", "EPalWorkableType::New", "EPalBaseCampModuleType::New", "EPalMapObjectConcreteModelModuleType::New", "EPalGroupType::New", "newobject", kind + "X", kind.lower()])
    b = g.blob(k, kind if k not in KINDS or kind in KINDS[k] else g.kind(k))
    yield "o_blob", dict(key=k, kind=kind, data=spoil(g, b))
    if r.random() < 0.1:
        yield "o_world", dict(data=S.props(unknown_world(g)))


def unknown_world(g):
    """worlds whose kinds and blobs are often unknown"""
    r = g.r
    g2 = Gen(r.randrange(1 << 30))
    k0, b0 = g2.kind, g2.blob

    def kind(key):
        k = k0(key)
        return r.choice(["unknown", "Newtype", k, ""]) if k is not None and key in ("work", "map_concrete_model") and r.random() < 0.6 else (r.choice(["EPalBaseCampModuleType::New", k]) if key == "base_camp_module" else k)

    def blob(key, kind=None):
        if kind is not None and key in KINDS and kind not in KINDS[key] and kind.lower() not in KINDS[key]:
            return g2.bytes(r.choice([0, 1, 5, 40]))
        b = b0(key, kind)
        if key in ("dynamic_item", "base_camp_module", "work") and r.random() < 0.3:
            b += g2.bytes(r.choice([1, 4, 12]))
        return b

    g2.kind, g2.blob = kind, blob
    return g2.world(r.sample(["BaseCampSaveData", "WorkSaveData", "MapObjectSaveData", "DynamicItemSaveData"], 1))


def op_cut(op, b, k):
    from .oracles import op_len

    return op_len(op, S.u32(k) + b[4:])


def c14(g):
    r = g.r
    simple = list(LEN) + ["guid", "uuid_reader", "instance_id_reader", "optional_guid", "fstring", "compressed_short_rotator"]
    k = r.random()
    if k < 0.45:
        op = (r.choice(simple),)
    elif k < 0.6:
        op = (r.choice(["read", "byte_list", "skip"]), r.choice([0, 1, 2, 5, 16, 100, 1000, -1]))
    elif k < 0.75:
        op = ("packed_vector", r.choice([1, 10]))
    else:
        op = ("tarray", (r.choice(["guid", "u32", "byte", "fstring", "i16", "float", "bool", "uuid_reader", "vector_dict"]),))
    n = op[0]
    if n == "fstring":
        b = S.fstr(g.str())
    elif n == "tarray":
        c = g.length(3000, 0.1)
        if c is None:
            c = r.choice([0, 1, 2, 5, 70] * 12 + [127, 255, 256, 257, 258, 300, 513, 1025])
        elif r.random() < 0.5:
            c += r.choice([1, 2, 3])
        e = op[1][0]
        b = S.u32(c) + b"".join(S.fstr(g.str()) if e == "fstring" else g.bytes({"guid": 16, "uuid_reader": 16}.get(e, LEN.get(e, 16))) for _ in range(c))
    elif n == "optional_guid":
        b = S.opt(g.opt())
    elif n == "compressed_short_rotator":
        b = b"".join(r.choice([b"\0", b"\1" + g.bytes(2), b"\xff" + g.bytes(2)]) for _ in range(3))
    elif n == "packed_vector":
        w = r.choice([0, 64, 128, r.randrange(64) + 64 * r.randrange(2), 63, 127])
        b = S.u32(w) + g.bytes(r.choice([0, 3, 6, 12, 24, 30]))
    else:
        b = g.bytes(r.choice([0, 1, 3, 4, 8, 15, 16, 31, 32, 79, 80, 100, 999, 1000]))
    yield "o_trunc", dict(op=op, data=b)
    if b:
        yield "o_trunc", dict(op=op, data=b[: r.randrange(len(b))])
        yield "o_trunc", dict(op=op, data=b[:-1])
    if n == "tarray" and c > 3 and len(b) > 250:
        # cut between elements, close to the end, and claimed longer than it is
        for m in (op_cut(op, b, c - 1), op_cut(op, b, c - 2), op_cut(op, b, c // 2)):
            yield "o_trunc", dict(op=op, data=b[:m])
        yield "o_trunc", dict(op=op, data=S.u32(c + 1) + b[4:])
    if r.random() < 0.01:
        c = g.length(3000, 0.4) or r.choice([256, 257, 300, 1025])
        c += r.choice([0, 1, 2])
        e = r.choice(["EnumProperty", "NameProperty", "ByteProperty", "Guid"])
        v = [g.str() for _ in range(c)] if e in ("EnumProperty", "NameProperty") else g.bytes(c) if e == "ByteProperty" else g.bytes(16 * c)
        v = S.u32(c) + (b"".join(map(S.fstr, v)) if isinstance(v, list) else v)
        d = S.fstr("L") + S.fstr("ArrayProperty") + S.u64(len(v)) + S.fstr(e) + b"\0" + v
        for cut in (len(d) - 1, len(d) - len(v) // 4, len(d)):
            yield "o_trunc_list", dict(data=d + S.fstr("None"), hints={}, cut=cut)
    if r.random() < 0.1:
        t, h = g.tree(2)
        d = S.props(t)
        for _ in range(6):
            yield "o_trunc_list", dict(data=d, hints=h, cut=r.randrange(len(d)))
        yield "o_trunc_list", dict(data=d, hints=h, cut=len(d) - 1)


def c15(g):
    r = g.r
    keys = C.KEYS
    k = r.choice([0, 1, 1, 2, 3, len(keys) - 1, len(keys), r.randrange(len(keys) + 1)])
    d = C.make_save(r.randrange(1 << 30), only=r.sample(["GroupSaveDataMap", "CharacterSaveParameterMap", "ItemContainerSaveData", "CharacterContainerSaveData", "DynamicItemSaveData", "FoliageGridSaveDataMap", "BaseCampSaveData", "WorkSaveData", "MapObjectSaveData"], r.choice([1, 2, 9])))
    yield "o_subset", dict(data=d, keys=tuple(sorted(r.sample(keys, k))))
    for _ in range(3):
        t, h = g.tree(r.choice([1, 2, 3]))
        yield "o_paths", dict(data=S.props(t), hints=h)
        yield "o_near", dict(path=r.choice(keys) if r.random() < 0.5 else "." + ".".join(r.choice(["A", "Ab", "aB", "Value", "Key", "A.A"]) for _ in range(r.choice([1, 2, 3]))), how=r.randrange(12), n=r.randrange(64))


def c16(g):
    r = g.r
    for n in ("float", "double", r.choice(["vector_dict", "quat_dict", "ftransform", "vector", "quat"])):
        yield "o_prim_read", dict(name=n, data=fbytes(g, n) if r.random() < 0.7 else g.bytes(LEN[n]), allow_nan=r.random() < 0.5)
    for n in ("float", "double"):
        yield "o_prim_write", dict(name=n, value=r.choice([None, fval(g, n)]))
        yield "o_prim_write", dict(name=n, value=None)
    n = r.choice(["vector_dict", "quat_dict"])
    v = fval(g, n)
    v[r.choice(list(v))] = None
    yield "o_prim_write", dict(name=n, value=v)
    t, h = g.tree(2)
    yield "o_nan_tree", dict(data=S.props(t), hints=h)
    for _ in range(2):
        k = r.choice(list(BLOBS))
        kind = g.kind(k)
        yield "o_nan_blob", dict(key=k, kind=kind, data=g.blob(k, kind))
    if r.random() < 0.15:
        yield "o_nan_tree", dict(data=S.props(g.world()), hints={}, custom=True)
        yield "o_nan_gvas", dict(data=C.make_save(r.randrange(1 << 30), only=["BaseCampSaveData", "DynamicItemSaveData"]))


def c20(g):
    r = g.r
    parts = ["GroupSaveDataMap", "CharacterSaveParameterMap", "ItemContainerSaveData", "CharacterContainerSaveData", "DynamicItemSaveData", "FoliageGridSaveDataMap", "BaseCampSaveData", "WorkSaveData", "MapObjectSaveData"]
    d = C.make_save(r.randrange(1 << 30), only=r.sample(parts, r.choice([1, 1, 2, 4])))
    yield "o_twice", dict(data=d, keys=None if r.random() < 0.7 else tuple(r.sample(C.KEYS, 5)))
    if r.random() < 0.3:
        yield "o_history", dict(first=C.make_save(r.randrange(1 << 30), only=r.sample(parts, 2)), data=d)


def c22(g):
    r = g.r
    what = r.choice(["property", "property", "array", "array", "key", "value", "labelled", "custom"])
    way = "write" if what == "custom" else "read" if what == "labelled" else r.choice(["read", "write"])
    for _ in range(4):
        k = r.choice(U.NAMES) if r.random() < 0.8 else g.str()
        yield "o_unknown", dict(way=way, what=what, name=k, seed=r.randrange(1 << 30), other=r.choice(U.VALUES))


def c23(g):
    r = g.r
    for _ in range(3):
        t, h = g.tree(r.choice([0, 1, 2, 2, 3]))
        yield "o_stored", dict(tree=t, hints=h)
    keys = sum((k for k, _ in PARTS.values()), [])
    for _ in range(6):
        yield "o_edit", dict(key=r.choice(keys), kind=None, data=None, seed=r.randrange(1 << 30))
    yield "o_edit", dict(key=r.choice(keys), kind=None, data=None, seed=r.randrange(1 << 30), everywhere=True)
    if r.random() < 0.1:
        yield "o_edit_world", dict(seed=r.randrange(1 << 30))
    hd, tr = g.header(), g.trailer()
    yield "o_header", dict(data=S.gvas_header(hd) + S.fstr("None") + tr, header=hd, trailer=tr)


STREAMS = {"C23": c23, "C22": c22, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07, "C08": c08, "C09": c09, "C10": cblob("C10"), "C11": cblob("C11"), "C12": cblob("C12"), "C13": c13, "C14": c14, "C15": c15, "C16": c16, "C20": c20}
CLI = {"C15": 0.5, "C16": 0.3, "C17": 1, "C18": 1, "C19": 1, "C20": 0.3, "C21": 1}


def stream(prop, seed, hot=None):
    r = random.Random(f"{prop}/{seed}")
    sc = (RS if prop == "C21" else C).scenarios(r.randrange(1 << 30)) if prop in CLI else None
    while True:
        g = Gen(r.randrange(1 << 60))
        g.hot = hot or {}
        g.lit = LIT
        if prop == "C21":
            yield "o_resave", next(sc)
            yield "o_compare", dict(seed=r.randrange(1 << 30), how=r.choice(RS.HOW), at=r.choice([0, 4, 50, 150, 1000, 4096, 65536, r.randrange(1 << 17)]), types=r.choice([(0x32, 0x32)] * 3 + [(0x31, 0x31), (0x31, 0x32), (0x32, 0x31)]), size=r.choice([None, 100, 2000, 70000]))
        elif sc is not None and r.random() < CLI[prop]:
            k = next(sc)
            if prop == "C15" and k.get("custom") is None and r.random() < 0.5:
                k["custom"] = ",".join(r.sample(C.KEYS, r.randrange(1, 4)))
            yield "o_cli", dict(k, prop=prop)
        else:
            yield from STREAMS[prop](g)


def judge(name, kw):
    """None or a message; errors of the oracle itself are not findings"""
    return O.ORACLES[name](**kw)


def fixed(prop):
    """cases tried first: boundary values"""
    if prop in ("C01", "C02"):
        ks = {x for x in LIT.get("int", ()) if 0 < x <= 1 << 22}
        for p in [1 << b for b in (20, 16, 15, 14, 12, 13, 17, 18, 19, 10, 8)] + sorted(ks):
            for n in {p - 1, p, p + 1, 2 * p, 2 * p + 1, 3 * p + 1} if p < 1 << 20 else {p - 1, p, p + 1}:
                yield "o_container" if prop == "C01" else "o_intact", dict(payload=n, typ=0x31 + n % 2)
    if prop == "C03":
        for n, b, s in INTS:
            lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
            for v in (lo, hi, lo - 1, hi + 1, 0, 1, -1, hi // 2, hi // 2 + 1, hi - 1, lo + 1):
                yield "o_prim_write", dict(name=n, value=v)
    if prop == "C04":
        for s in ["", "a", "\0", "\x7f", "\x80", "\xff", "\ud800", "\udfff", "\U0010ffff", "a\0", "\0\0", "é\0", "None", "a" * 70000, "é" * 40000]:
            yield "o_fstr", dict(s=s)
    if prop == "C06":
        for b in range(0, 63):
            for v in ((1 << b) - 1, 1 << b, (1 << b) + 1):
                f = int(float(v))
                if f < 1 << 62:
                    for t in ((f, 0, 0), (-f, f, -1), (0, -f, 0), (1, 0, f), (-f, -f, -f)):
                        yield "o_pvec", dict(v=tuple(float(x) for x in t))
    if prop in ("C10", "C11", "C12", "C13"):
        keys = PARTS[prop][0] if prop in PARTS else list(BLOBS)
        for k in keys:
            for kind in KINDS.get(k, [None]):
                for i in range(2):
                    g = Gen(hash_(k, kind, i))
                    yield "o_blob", dict(key=k, kind=kind, data=g.blob(k, kind))
    if prop in ("C17", "C18", "C19"):
        for k in C.systematic(prop):
            yield "o_cli", dict(k, prop=prop)
    if prop == "C21":
        for k in RS.compare_cases():
            yield "o_compare", k
        for k in RS.systematic():
            yield "o_resave", k
    if prop in ("C15", "C20"):
        for i, k in enumerate(C.KEYS):
            for c in (k, k[:-1], ",".join(x for x in C.KEYS if x != k)):
                yield "o_cli", dict(name="a.sav", content="sav2", seed=5, custom=c, small=False, prop=prop)


def alternate(a, b):
    """two of a, one of b"""
    for i, x in enumerate(a):
        yield x
        if i % 2:
            yield next(b)
    yield from b


def hash_(*a):
    return zlib.crc32(repr(a).encode())


from .lits import novel

LIT = C.LIT = novel(REPO)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--seconds", type=float, default=10)
    ap.add_argument("--out")
    ap.add_argument("--hot")
    a = ap.parse_args()
    hot = dec(json.load(open(a.hot))) if a.hot else None
    res = search(a.prop, a.seed, a.seconds, hot)
    s = json.dumps(res)
    if a.out:
        with open(a.out, "w") as f:
            f.write(s)
    else:
        print(s[:3000])


def search(prop, seed, seconds, hot=None):
    t0 = time.time()
    n = 0
    by = {}
    seen = set()
    errors = []
    samples = []
    found = None
    src = alternate(fixed(prop), stream(prop, seed, hot)) if prop in CLI else itertools.chain(fixed(prop), stream(prop, seed, hot))
    while time.time() - t0 < seconds:
        try:
            name, kw = next(src)
            m = judge(name, kw)
        except Exception as e:
            import traceback

            errors.append("".join(traceback.format_exception_only(type(e), e)).strip() + " @ " + "; ".join(f"{f.filename.rsplit('/',1)[-1]}:{f.lineno}" for f in traceback.extract_tb(e.__traceback__)[-3:]))
            if len(errors) > 50:
                break
            src = stream(prop, seed + 1000 + len(errors), hot)
            continue
        n += 1
        by[name] = by.get(name, 0) + 1
        seen.add(hash(repr(kw)))
        if len(samples) < 3 and n % 7 == 1:
            samples.append((name + " " + repr(kw))[:300])
        if m:
            found = {"oracle": name, "args": enc(kw), "message": m[:4000]}
            break
    return {"evaluations": n, "distinct": len(seen), "by": by, "errors": errors[:5], "nerrors": len(errors), "samples": samples, "found": found, "wall": round(time.time() - t0, 2), "variant": "stdlib" if os.environ.get("FORCE_STDLIB_ONLY") else "recordclass"}


if __name__ == "__main__":
    main()
