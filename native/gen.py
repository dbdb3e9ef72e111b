"""Random well-formed data.  Blob bytes come from running the reference decoders (ref/) on a
reader whose primitives invent values and record their encoding, so every field layout the tool
knows is covered without restating it."""
import math
import os
import random
import struct
import sys

sys.path.append(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "ref"))
from . import spec as S
from pst_ref import archive as RA
from pst_ref import paltypes as RP
from pst_ref.rawdata import (base_camp, base_camp_module, build_process, character, character_container, connector,
                             dynamic_item, foliage_model, foliage_model_instance, group, item_container,
                             item_container_slots, map_concrete_model, map_concrete_model_module, map_model, work,
                             work_collection, worker_director)

class NoHints(dict):
    def __contains__(self, k):
        return True

    def __getitem__(self, k):
        return None


NH = NoHints()
ALPHA = "abcXYZ019_ .:/"


class Gen:
    def __init__(self, seed=1):
        self.r = random.Random(seed)
        self.hot = {}  # values taken from counterexamples: {"int": [...], "str": [...], "float": [...], "guid": [...]}
        self.lit = {}  # the same for literals only the current source has (lits.py)

    def heat(self, kind):
        h = self.hot.get(kind)
        if h and self.r.random() < 0.4:
            return self.r.choice(h)
        h = self.lit.get(kind)
        return self.r.choice(h) if h and self.r.random() < 0.15 else None

    def length(self, most, p=0.03):
        """a length named by the current source, now and then"""
        h = [x for x in self.lit.get("int", ()) if 0 <= x <= most]
        return self.r.choice(h) if h and self.r.random() < p else None

    def int(self, bits, signed):
        r = self.r
        lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
        k = self.heat("int")
        if k is not None and lo <= k <= hi:
            return k
        k = r.random()
        if k < 0.25:
            return r.choice([lo, hi, 0, 1, hi - 1, lo + 1, hi >> 1, (hi >> 1) + 1])
        if k < 0.5:
            return max(lo, min(hi, r.choice([1, -1]) * (1 << r.randrange(bits)) + r.randrange(-1, 2)))
        return r.randint(lo, hi)

    def flag(self):
        return self.r.random() < 0.5

    def f32(self):
        r = self.r
        h = self.heat("float")
        if h is not None and abs(h) < 3e38:
            return struct.unpack("<f", struct.pack("<f", h))[0]
        if r.random() < 0.3:
            return r.choice([0.0, -0.0, 1.0, -1.0, float("inf"), float("-inf"), float("nan"), 1.401298464324817e-45, 3.4028234663852886e38, 16777216.0, 0.5])
        while True:
            v = struct.unpack("<f", struct.pack("<I", r.getrandbits(32)))[0]
            if v == v:
                return v

    def f64(self):
        r = self.r
        h = self.heat("float")
        if h is not None:
            return h
        if r.random() < 0.3:
            return r.choice([0.0, -0.0, 1.0, -1.0, float("inf"), float("-inf"), float("nan"), 5e-324, 1.7976931348623157e308, 0.1, 9007199254740993.0])
        while True:
            v = struct.unpack("<d", struct.pack("<Q", r.getrandbits(64)))[0]
            if v == v:
                return v

    def str(self):
        r = self.r
        h = self.heat("str")
        if h is not None:
            return h
        k = r.random()
        if k < 0.12:
            return ""
        if k < 0.2:
            return r.choice(["None", "\0", "a\0b", "\ud800", "x\udfffy", "\U0001f600", "é", "日本", "~", "\x7f", "\x80", "ascii\0", "\uffff", "values"])
        n = r.choice([1, 2, 3, 5, 8, 20]) if k < 0.97 else r.randrange(100, 400)
        h = self.length(70000)
        if h is not None:
            return r.choice(["a", "é", "None", "\U0001f600"])[:1] * h if r.random() < 0.5 else "".join(r.choice(ALPHA) for _ in range(h))
        if k < 0.7:
            return "".join(r.choice(ALPHA) for _ in range(n))
        return "".join(r.choice(["a", "Z", "é", "\u3042", "\U00010437", "\ud83d", "\0"]) for _ in range(n))

    def bytes(self, n):
        b = bytes(self.r.getrandbits(8) for _ in range(n))
        h = self.lit.get("bytes")
        if h and self.r.random() < 0.1:
            x = self.r.choice(h)
            if len(x) <= n:
                i = self.r.choice([0, n - len(x), self.r.randrange(n - len(x) + 1)])
                b = b[:i] + x + b[i + len(x) :]
        return b

    def guid(self):
        r = self.r
        h = self.heat("guid")
        if h is not None:
            return h
        k = r.random()
        if k < 0.1:
            return b"\0" * 16
        if k < 0.15:
            return b"\xff" * 16
        return self.bytes(16)

    def opt(self):
        return self.guid() if self.r.random() < 0.3 else None

    def count(self, big=3):
        h = self.length(1100, 0.01)
        if h is not None:
            return h
        return self.r.choice([0, 1, 1, 2, 2, big, 5])

    # -------------------------------------------------------------- property trees
    def vec(self, keys="xyz"):
        return {k: self.f64() for k in keys}

    STRUCTS = ["Vector", "DateTime", "Guid", "Quat", "LinearColor"]

    def struct_type(self):
        if self.r.random() < 0.6:
            return self.r.choice(self.STRUCTS)
        return self.r.choice(["PalFoo", "", "Été", "StructProperty", "guid"])

    def struct_value(self, st, depth, path, hints):
        if st == "Vector":
            return self.vec()
        if st == "Quat":
            return self.vec("xyzw")
        if st == "DateTime":
            return self.int(64, False)
        if st == "Guid":
            return self.guid()
        if st == "LinearColor":
            return {k: self.f32() for k in "rgba"}
        return self.props(depth - 1, path, hints)

    def prop_value(self, t, st, depth, path, hints):
        if t == "StructProperty":
            return self.struct_value(st, depth, path, hints)
        return {"EnumProperty": self.str, "NameProperty": self.str, "IntProperty": lambda: self.int(32, True), "BoolProperty": self.flag}[t]()

    def name(self, used):
        while True:
            n = self.r.choice(["A", "B", "C", "Name", "None2", "value", "type", "é"]) if self.r.random() < 0.7 else self.str()
            if n != "None" and n not in used:
                return n

    def props(self, depth, path="", hints=None):
        d = {}
        n = 0 if depth < 0 else self.count()
        for _ in range(n):
            k = self.name(d)
            d[k] = self.prop(depth, f"{path}.{k}", hints)
        return d

    PTYPES = ["IntProperty", "Int64Property", "FixedPoint64Property", "FloatProperty", "StrProperty", "NameProperty", "EnumProperty", "BoolProperty", "StructProperty", "ArrayProperty", "MapProperty"]
    ARRAYS = ["EnumProperty", "NameProperty", "Guid", "ByteProperty", "StructProperty"]

    def hint(self, path, default, hints):
        """the struct type of a map's keys or values at that path: fixed per path"""
        if path in hints:
            return hints[path] if hints[path] is not None else default
        if self.r.random() < 0.4:
            hints[path] = None  # no hint: default
            return default
        hints[path] = self.struct_type()
        return hints[path]

    def prop(self, depth, path, hints, t=None, arrays=None):
        r = self.r
        t = t or r.choice(self.PTYPES if depth > 0 else self.PTYPES[:8])
        i = self.opt()
        D = lambda v, **k: {**k, "id": i, "value": v, "type": t}
        if t in ("IntProperty", "FixedPoint64Property"):
            return D(self.int(32, True))
        if t == "Int64Property":
            return D(self.int(64, True))
        if t == "FloatProperty":
            return D(self.f32())
        if t in ("StrProperty", "NameProperty"):
            return D(self.str())
        if t == "EnumProperty":
            return D({"type": self.str(), "value": self.str()})
        if t == "BoolProperty":
            return D(self.flag())
        if t == "StructProperty":
            st = self.struct_type()
            return D(self.struct_value(st, depth, path, hints), struct_type=st, struct_id=self.guid())
        if t == "ArrayProperty":
            at = r.choice(arrays or self.ARRAYS)
            if at == "StructProperty":
                st = self.struct_type()
                pn = r.choice(["A", "Slots", self.str()])
                v = {"prop_name": pn, "prop_type": r.choice(["StructProperty", self.str()]), "values": [self.struct_value(st, depth, f"{path}.{pn}", hints) for _ in range(self.count())], "type_name": st, "id": self.guid()}
            elif at == "ByteProperty":
                v = {"values": self.bytes(r.choice([0, 1, 3, 17, 300]))}
            else:
                el = {"EnumProperty": self.str, "NameProperty": self.str, "StrProperty": self.str, "Guid": self.guid, "IntProperty": lambda: self.int(32, True), "Int64Property": lambda: self.int(64, True), "FloatProperty": self.f32, "BoolProperty": self.flag}[at]
                v = {"values": [el() for _ in range(self.count())]}
            return D(v, array_type=at)
        pv = ["StructProperty", "EnumProperty", "NameProperty", "IntProperty", "BoolProperty"]
        kt, vt = r.choice(pv), r.choice(pv)
        ks = self.hint(path + ".Key", "Guid", hints) if kt == "StructProperty" else None
        vs = self.hint(path + ".Value", "StructProperty", hints) if vt == "StructProperty" else None
        vals = [{"key": self.prop_value(kt, ks, depth, path + ".Key", hints), "value": self.prop_value(vt, vs, depth, path + ".Value", hints)} for _ in range(self.count())]
        return D(vals, key_type=kt, value_type=vt, key_struct_type=ks, value_struct_type=vs)

    def tree(self, depth=3):
        hints = {}
        t = self.props(depth, "", hints)
        return t, {k: v for k, v in hints.items() if v is not None}

    # -------------------------------------------------------------- blobs
    def reader(self):
        return GenReader(self)

    def blob(self, key, kind=None):
        """canonical bytes of a blob that the reference decodes"""
        if key == "dynamic_item":
            return self.dynamic_item()
        if key == "connector":
            if self.r.random() < 0.1:
                return b""
            def info():
                n = self.count()
                return S.u32(n) + b"".join(self.guid() + self.bytes(1) for _ in range(n))
            return S.i32(self.int(32, True)) + self.bytes(1) + info() + b"".join(self.bytes(1) + info() for _ in range(self.r.choice([0, 0, 1, 2, 3, 4])))
        if key in ("item_container", "item_container_slots", "character_container", "map_concrete_model", "map_concrete_model_module") and self.r.random() < 0.08:
            try:
                BLOBS[key][0](RA.FArchiveReader(b""), b"", *([kind] if kind is not None else []))
                return b""
            except Exception:
                pass
        rd = self.reader()
        try:
            BLOBS[key][0](rd, b"\0", *([kind] if kind is not None else []))
        except GenRaw:
            pass
        if not rd.out and not rd.used:
            # kept raw, or nothing to read
            return self.bytes(self.r.choice([0, 1, 7, 40])) if raw_kind(key, kind) else b""
        return bytes(rd.out)

    def dynamic_item(self):
        r = self.r
        if r.random() < 0.08:
            return b""
        out = self.guid() + self.guid() + S.fstr(self.str())
        k = r.random()
        if k < 0.3:
            return out + S.fstr(self.str()) + S.props(self.props(2, "", NH)) + self.bytes(4) + self.guid()
        if k < 0.5:
            return out + S.f32(self.f32())
        if k < 0.8:
            n = self.count()
            return out + S.f32(self.f32()) + S.i32(self.int(32, True)) + S.u32(n) + b"".join(S.fstr(self.str()) for _ in range(n))
        return out + self.bytes(r.choice([0, 1, 2, 3, 5, 9, 13, 40]))

    def kind(self, key):
        ks = KINDS.get(key)
        if ks is None:
            return None
        k = self.r.choice(ks)
        if key == "map_concrete_model" and self.r.random() < 0.3:
            k = "".join(c.upper() if self.r.random() < 0.5 else c for c in k)
        return k

    # -------------------------------------------------------------- a world
    def raw(self, b):
        return {"array_type": "ByteProperty", "id": self.opt(), "value": {"values": b}, "type": "ArrayProperty"}

    def st(self, v, st="PalX"):
        return {"struct_type": st, "struct_id": self.guid(), "id": self.opt(), "value": v, "type": "StructProperty"}

    def arr(self, name, vals):
        return {"array_type": "StructProperty", "id": self.opt(), "value": {"prop_name": name, "prop_type": "StructProperty", "values": vals, "type_name": "PalX", "id": self.guid()}, "type": "ArrayProperty"}

    def mp(self, kt, ks, vals):
        return {"key_type": kt, "value_type": "StructProperty", "key_struct_type": ks, "value_struct_type": "StructProperty", "id": self.opt(), "value": vals, "type": "MapProperty"}

    def enum(self, v):
        return {"id": self.opt(), "value": {"type": self.str(), "value": v}, "type": "EnumProperty"}

    def mix(self, **fields):
        """a struct's properties with some unrelated ones, in random order"""
        ex = {}
        for _ in range(self.r.choice([0, 0, 1])):
            ex["Extra" + self.str()] = self.prop(0, "", {})
        items = list({**fields, **ex}.items())
        self.r.shuffle(items)
        return dict(items)

    def world(self, only=None):
        """properties of a level save containing every custom path; RawData are canonical blobs"""
        n = self.count
        g = self
        B = lambda k, kind=None: g.raw(g.blob(k, kind))
        keyp = lambda: g.mix(ID=g.st(g.guid(), "Guid"))
        def group_(): 
            k = g.kind("group")
            return {"key": g.guid(), "value": g.mix(GroupType=g.enum(k), RawData=B("group", k))}
        def modmap(key):
            k = g.kind(key)
            return {"key": k, "value": g.mix(RawData=B(key, k))}
        def foliage():
            inst = [{"key": keyp(), "value": g.mix(RawData=B("foliage_model_instance"))} for _ in range(n())]
            return {"key": g.str(), "value": g.mix(RawData=B("foliage_model"), InstanceDataMap=g.mp("StructProperty", "StructProperty", inst))}
        def camp():
            return {"key": g.guid(), "value": g.mix(RawData=B("base_camp"), WorkerDirector=g.st(g.mix(RawData=B("worker_director"))), WorkCollection=g.st(g.mix(RawData=B("work_collection"))), ModuleMap=g.mp("EnumProperty", None, [modmap("base_camp_module") for _ in range(n())]))}
        def work_():
            k = g.kind("work")
            return g.mix(RawData=B("work", k), WorkableType=g.enum(k), WorkAssignMap=g.mp("IntProperty", None, [{"key": g.int(32, True), "value": g.mix(RawData=B("work_assign"))} for _ in range(n())]))
        def mapobj():
            k = g.kind("map_concrete_model")
            model = g.st(g.mix(RawData=B("map_model"), Connector=g.st(g.mix(RawData=B("connector"))), BuildProcess=g.st(g.mix(RawData=B("build_process")))))
            conc = g.st(g.mix(RawData=B("map_concrete_model", k), ModuleMap=g.mp("EnumProperty", None, [modmap("map_concrete_model_module") for _ in range(n())])))
            return g.mix(MapObjectId={"id": g.opt(), "value": k, "type": "NameProperty"}, Model=model, ConcreteModel=conc)
        parts = {
            "GroupSaveDataMap": lambda: g.mp("StructProperty", "Guid", [group_() for _ in range(n())]),
            "CharacterSaveParameterMap": lambda: g.mp("StructProperty", "StructProperty", [{"key": keyp(), "value": g.mix(RawData=B("character"))} for _ in range(n())]),
            "ItemContainerSaveData": lambda: g.mp("StructProperty", "StructProperty", [{"key": keyp(), "value": g.mix(RawData=B("item_container"), Slots=g.arr("Slots", [g.mix(RawData=B("item_container_slots")) for _ in range(n())]))} for _ in range(n())]),
            "CharacterContainerSaveData": lambda: g.mp("StructProperty", "StructProperty", [{"key": keyp(), "value": g.mix(Slots=g.arr("Slots", [g.mix(RawData=B("character_container")) for _ in range(n())]))} for _ in range(n())]),
            "DynamicItemSaveData": lambda: g.arr("DynamicItemSaveData", [g.mix(RawData=B("dynamic_item")) for _ in range(n())]),
            "FoliageGridSaveDataMap": lambda: g.mp("StructProperty", "StructProperty", [{"key": keyp(), "value": g.mix(ModelMap=g.mp("NameProperty", None, [foliage() for _ in range(n())]))} for _ in range(n())]),
            "BaseCampSaveData": lambda: g.mp("StructProperty", "Guid", [camp() for _ in range(n())]),
            "WorkSaveData": lambda: g.arr("WorkSaveData", [work_() for _ in range(n())]),
            "MapObjectSaveData": lambda: g.arr("MapObjectSaveData", [mapobj() for _ in range(n())]),
        }
        names = [k for k in parts if only is None or k in only]
        self.r.shuffle(names)
        return {"worldSaveData": g.st({k: parts[k]() for k in names}, "PalWorldSaveData"), "Version": g.prop(0, "", {})}

    def header(self, cls=None):
        return {"magic": 0x53415647, "save_game_version": 3, "package_file_version_ue4": self.int(32, True), "package_file_version_ue5": self.int(32, True), "engine_version_major": self.int(16, False), "engine_version_minor": self.int(16, False), "engine_version_patch": self.int(16, False), "engine_version_changelist": self.int(32, False), "engine_version_branch": self.str(), "custom_version_format": 3, "custom_versions": [(self.guid(), self.int(32, True)) for _ in range(self.count(9))], "save_game_class_name": self.str() if cls is None else cls}

    def trailer(self):
        return b"\0\0\0\0" if self.r.random() < 0.5 else self.bytes(self.r.choice([0, 1, 3, 4, 5, 50]))


class GenRaw(Exception):
    pass


class _Pos:
    def __init__(self, r):
        self.r = r

    def tell(self):
        return len(self.r.out)

    def seek(self, p, w=0):
        del self.r.out[p:]

    def read(self, n=-1):
        return self.r.read(n)


class GenReader(RA.FArchiveReader):
    def __init__(self, g):
        super().__init__(b"")
        self.g = g
        self.out = bytearray()
        self.used = False
        self.depth = 0
        self.data = _Pos(self)
        self.eofs = None

    def internal_copy(self, data, debug):
        return self

    def rec(self, b, v):
        self.out += b
        self.used = True
        return v

    def eof(self):
        # optional parts are there or not at random; no unread data at the end
        self.used = True
        fr = sys._getframe(1)
        nxt = linecache.getline(fr.f_code.co_filename, fr.f_lineno + 1)
        if "data[" in nxt:
            return self.g.flag()
        return True

    def read(self, n):
        b = self.g.bytes(n)
        return self.rec(b, b)

    def read_to_end(self):
        return self.read(self.g.r.choice([0, 1, 4, 30]))

    def bool(self):
        v = self.g.flag()
        return self.rec(S.flag(v), v)

    def fstring(self):
        v = self.g.str()
        return self.rec(S.fstr(v), v)

    def i16(self):
        v = self.g.int(16, True)
        return self.rec(S.i16(v), v)

    def u16(self):
        v = self.g.int(16, False)
        return self.rec(S.u16(v), v)

    def i32(self):
        v = self.g.int(32, True)
        return self.rec(S.i32(v), v)

    def u32(self):
        # either a stored flag, a count or a number: small values satisfy all uses
        fr = sys._getframe(1)
        line = open_line(fr)
        if "> 0" in line:
            v = self.g.r.randrange(2)
        elif "count" in line:
            v = self.g.count()
        else:
            v = self.g.int(32, False)
        return self.rec(S.u32(v), v)

    def i64(self):
        v = self.g.int(64, True)
        return self.rec(S.i64(v), v)

    def u64(self):
        v = self.g.int(64, False)
        return self.rec(S.u64(v), v)

    def float(self):
        v = self.g.f32()
        return self.rec(S.f32(v), v)

    def double(self):
        v = self.g.f64()
        return self.rec(S.f64(v), v)

    def byte(self):
        r = self.g.r
        v = r.choice([0, 1, 2, 3, 4]) if r.random() < 0.7 else r.randrange(256)
        if "transform_type" in open_line(sys._getframe(1)) and r.random() < 0.9:
            v = r.choice([1, 2, 3])
        return self.rec(bytes([v]), v)

    def byte_list(self, n):
        b = self.g.bytes(n)
        return self.rec(b, tuple(b))

    def guid(self):
        b = self.g.guid()
        return self.rec(b, RA.UUID(b))

    def optional_guid(self):
        b = self.g.opt()
        return self.rec(S.opt(b), None if b is None else RA.UUID(b))

    def tarray(self, f):
        n = self.g.count()
        self.rec(S.u32(n), None)
        return [f(self) for _ in range(n)]

    def properties_until_end(self, path=""):
        d = self.g.props(2, "", NH)
        return self.rec(S.props(d), d)

    def compressed_short_rotator(self):
        a = [self.g.int(16, False) for _ in range(3)]
        return self.rec(b"".join(b"\0" if x == 0 else b"\1" + S.u16(x) for x in a), tuple(x * (360.0 / 65536.0) for x in a))

    def packed_vector(self, s):
        v = self.g.r.choice([self.g.whole, self.g.large])()
        w = RA.FArchiveWriter()
        w.packed_vector(1, *v)
        return self.rec(w.bytes(), v)


def _whole(self):
    r = self.r
    m = r.choice([1, 8, 20, 40, 52, 61])
    return tuple(float(r.randrange(-(1 << m), 1 << m)) for _ in range(3)) if m <= 52 else tuple(float(r.randrange(-(1 << 52), 1 << 52)) * 512 for _ in range(3))


def _large(self):
    r = self.r
    v = [float(r.choice([1e300, -2.0**62, 2.0**63, 1.5e19])), self.f64(), self.f64()]
    v = [x if x == x else 0.0 for x in v]
    r.shuffle(v)
    return tuple(v)


Gen.whole = _whole
Gen.large = _large

import linecache


def open_line(fr):
    return linecache.getline(fr.f_code.co_filename, fr.f_lineno)


BLOBS = {
    m.__name__.rsplit(".", 1)[1]: (m.decode_bytes, m.encode_bytes)
    for m in (base_camp, base_camp_module, build_process, character, character_container, connector, dynamic_item, foliage_model, foliage_model_instance, group, item_container, item_container_slots, map_concrete_model, map_concrete_model_module, map_model, work, work_collection, worker_director)
}
BLOBS["work_assign"] = (work.decode_work_assign_bytes, work.encode_work_assign_bytes)
ENC_KIND = {"work", "base_camp_module", "map_concrete_model_module"}

_mods = ["None", "ItemContainer", "CharacterContainer", "Workee", "Energy", "StatusObserver", "ItemStack", "Switch", "PlayerRecord", "BaseCampPassiveEffect", "PasswordLock"]
_cls = {}
for _n, _c in map_concrete_model.MAP_OBJECT_NAME_TO_CONCRETE_MODEL_CLASS.items():
    _cls.setdefault(_c, []).append(_n)
KINDS = {
    "group": ["EPalGroupType::Guild", "EPalGroupType::IndependentGuild", "EPalGroupType::Organization", "EPalGroupType::Neutral", "other"],
    "work": sorted(work.WORK_BASE_TYPES) + ["EPalWorkableType::Assign", "EPalWorkableType::LevelObject", "EPalWorkableType::Illegal", "unknown"],
    "base_camp_module": base_camp_module.NO_OP_TYPES + ["EPalBaseCampModuleType::TransportItemDirector", "EPalBaseCampModuleType::PassiveEffect", "EPalBaseCampModuleType::Unknown"],
    "map_concrete_model_module": ["EPalMapObjectConcreteModelModuleType::" + m for m in _mods],
    "map_concrete_model": [v[0] for v in _cls.values()] + [v[-1] for v in _cls.values()] + ["not_in_database"],
}


def raw_kind(key, kind):
    if key == "map_concrete_model":
        return kind.lower() not in map_concrete_model.MAP_OBJECT_NAME_TO_CONCRETE_MODEL_CLASS
    if key == "work":
        return kind not in work.WORK_BASE_TYPES and kind not in ("EPalWorkableType::Assign", "EPalWorkableType::LevelObject")
    if key == "base_camp_module":
        return kind == "EPalBaseCampModuleType::Unknown"
    return False
