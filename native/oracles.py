"""Native judges: each takes concrete inputs, runs the real code in the repository and returns
None (the property held) or a message.  They decide whether a counterexample is real, and are the
bounded stand-in where an obligation is undecided."""
import contextlib
import io
import json
import math
import os
import struct
import sys
import uuid
import zlib

from . import spec as S
from .gen import BLOBS as REF_BLOBS, ENC_KIND, RA, Gen

from palworld_save_tools import archive as A, gvas as V, json_tools as J, palsav as Z, paltypes as P
import pst_ref.json_tools as RJ
import pst_ref.gvas as RV
import pst_ref.paltypes as RP

ORACLES = {}
# oracles that judge some properties only (the others judge whatever obligation they replay)
JUDGES = {"o_near": ("C15",), 
    "o_paths": {"C15"},
    "o_own": {"C15"},
    "o_dispatch": {"C15"},
    "o_custom": {"C10", "C11", "C12", "C13", "C15"},
    "o_custom_twice": {"C20"},
}


def oracle(f):
    ORACLES[f.__name__] = f
    return f


class Sink(io.TextIOBase):
    def write(self, s):
        str(s)
        return len(s)


_sink = Sink()


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(_sink):
        yield


def run(f, *a, **k):
    """('ok', value) | ('raise', exception)"""
    try:
        with quiet():
            return "ok", f(*a, **k)
    except Exception as e:
        return "raise", e


def js(v, enc=None):
    return json.loads(json.dumps(v, cls=enc or J.CustomEncoder))


# ------------------------------------------------------------------ blobs
def mod_fns(key):
    import importlib

    if key == "work_assign":
        m = importlib.import_module("palworld_save_tools.rawdata.work")
        return m.decode_work_assign_bytes, m.encode_work_assign_bytes
    m = importlib.import_module("palworld_save_tools.rawdata." + key)
    return m.decode_bytes, m.encode_bytes


def blob_rt(dec, enc, key, kind, data, reader, encoder, through_json):
    a = [kind] if kind is not None else []
    ea = a if key in ENC_KIND else []
    d = dec(reader, tuple(data), *a)
    if through_json:
        d = js(d, encoder)
    if isinstance(d, dict) and "values" in d:
        return bytes(d["values"])
    return enc(d, *ea)


@oracle
def o_blob(key, kind, data):
    dec, enc = mod_fns(key)
    a = [kind] if kind is not None else []
    st, d = run(dec, A.FArchiveReader(b""), tuple(data), *a)
    if st == "raise":
        rd, re = REF_BLOBS[key]
        rs, ro = run(blob_rt, rd, re, key, kind, data, RA.FArchiveReader(b""), RJ.CustomEncoder, True)
        if rs == "ok" and ro == data:
            return f"{key} blob (kind {kind!r}) in a known layout is refused: {d!r}; {data.hex()}"
        return None
    for tj in (False, True):
        st, out = run(blob_rt, dec, enc, key, kind, data, A.FArchiveReader(b""), J.CustomEncoder, tj)
        if st == "ok" and out == data:
            continue
        # not in stored form (the reference also normalises it): outside the property
        rd, re = REF_BLOBS[key]
        rs, ro = run(blob_rt, rd, re, key, kind, data, RA.FArchiveReader(b""), RJ.CustomEncoder, tj)
        if rs == "ok" and ro != data:
            return None
        how = " through JSON" if tj else ""
        if st == "raise":
            return f"{key} blob (kind {kind!r}) is decoded but cannot be encoded again{how}: {out!r}"
        return f"{key} blob (kind {kind!r}) is re-encoded differently{how}: {data.hex()} -> {bytes(out).hex()}"
    return None


# ------------------------------------------------------------------ property trees
def tree_rt(AA, VV, data, hints, custom, tj, encoder):
    r = AA.FArchiveReader(data, hints, custom)
    v = r.properties_until_end()
    left = len(data) - r.data.tell() if hasattr(r.data, "tell") else 0
    if tj:
        v = js(v, encoder)
    w = AA.FArchiveWriter(custom)
    w.properties(v)
    return w.bytes(), left


@oracle
def o_tree(data, hints):
    for tj in (False, True):
        st, out = run(tree_rt, A, V, data, hints, {}, tj, J.CustomEncoder)
        if st == "ok" and out == (data, 0):
            continue
        rs, ro = run(tree_rt, RA, RV, data, hints, {}, tj, RJ.CustomEncoder)
        if rs != "ok" or ro != (data, 0):
            return None  # not well-formed
        how = " through JSON" if tj else ""
        if st == "raise":
            return f"well-formed property list cannot be round-tripped{how}: {out!r}"
        return f"property list changes{how} ({out[1]} bytes not consumed): {data.hex()} -> {out[0].hex()}"
    return None


@oracle
def o_own(ty, size, body, hints):
    """a custom decoder that asks for the generic form of its own property gets it"""

    def go(AA):
        def dec(reader, type_name, size, path):
            v = reader.property(type_name, size, path, nested_caller_path=path)
            v["seen"] = (type_name, size, path)
            return v

        def enc(writer, property_type, properties):
            p = dict(properties)
            del p["custom_type"]
            return writer.property_inner(property_type, p)

        tab = {".N": (dec, enc)}
        r = AA.FArchiveReader(body, hints, tab)
        v = r.property(ty, size, ".N")
        left = len(r.read_to_end())
        w = AA.FArchiveWriter(tab)
        w.property(v)
        return bytes(w.bytes()), left, v.get("seen"), v.get("custom_type"), v.get("type")

    want = (S.fstr(ty) + S.u64(size) + body, 0, (ty, size, ".N"), ".N", ty)
    rs, ro = run(go, RA)
    if rs != "ok" or ro != want:
        return None
    st, out = run(go, A)
    if st == "raise":
        return f"custom {ty} whose decoder asks for the generic form: {out!r}; {body.hex()}"
    if out != want:
        return f"custom {ty} whose decoder asks for the generic form: {out!r} instead of {want!r}"
    return None


class Seen(dict):
    """a custom table that notes which paths are looked up"""

    def __init__(self):
        super().__init__()
        self.asked = set()

    def __contains__(self, k):
        self.asked.add(k)
        return False

    def get(self, k, d=None):
        self.asked.add(k)
        return d

    def __getitem__(self, k):
        self.asked.add(k)
        raise KeyError(k)


@oracle
def o_paths(data, hints):
    """every property is reached under its path: a custom codec registered there is called"""

    def asked(AA):
        t = Seen()
        AA.FArchiveReader(data, hints, t).properties_until_end()
        return sorted(t.asked)

    rs, ro = run(asked, RA)
    if rs != "ok":
        return None

    def calls(p):
        got = []

        def dec(reader, type_name, size, path):
            got.append(path)
            return reader.property(type_name, size, path, nested_caller_path=path)

        A.FArchiveReader(data, hints, {p: (dec, None)}).properties_until_end()
        return got

    for p in ro[:40]:
        st, out = run(calls, p)
        if st == "ok" and not out:
            return f"the custom codec registered for {p!r} is not called for the property stored there; {data.hex()}"
    return None


def near(path, how, n):
    i = n % len(path)
    return [path + "x", path[:-1], path[1:], path.upper(), path.lower(), "." + path, path + ".RawData", ".X" + path, path[:i] + path[i + 1 :], path[:i] + "_" + path[i:], path + ".", path.replace("Value", "Key")][how]


@oracle
def o_near(path, how, n):
    """a property at another path, however similar, is not given to the codec"""
    other = near(path, how, n)
    if other == path or not other:
        return None
    calls = []

    def dec(reader, type_name, size, p):
        calls.append(p)
        return reader.property(type_name, size, p, nested_caller_path=p)

    body = b"\0" + struct.pack("<i", n)
    for tab in ({path: (dec, None)}, {".Q": (None, None), path: (dec, None), ".R": (None, None)}):
        st, v = run(lambda: A.FArchiveReader(body, {}, tab).property("IntProperty", 4, other))
        if st == "raise":
            return f"a property at {other!r} cannot be read with a codec for {path!r}: {v!r}"
        if calls or "custom_type" in v:
            return f"a property at {other!r} is decoded with the codec of {path!r}"
        if other not in P.PALWORLD_CUSTOM_PROPERTIES:
            st, v = run(lambda: A.FArchiveReader(body, {}, P.PALWORLD_CUSTOM_PROPERTIES).property("IntProperty", 4, other))
            if st == "raise" or "custom_type" in v:
                return f"a property at the unknown path {other!r} is not carried generically: {v!r}"
    return None


@oracle
def o_dispatch(way, path, ty, known, size):
    """custom codecs are called exactly for the paths in the table"""
    seen = []

    def dec(reader, t, n, p):
        seen.append((t, n, p))
        return {"value": reader.read(3), "type": t}

    def enc(writer, t, p):
        seen.append((t, p.get("custom_type", path)))
        writer.write(b"xyz")
        return size

    if way == "read":
        r = A.FArchiveReader(b"xyz+", {}, {path: (dec, enc)})
        st, v = run(r.property, ty, size, path)
        if st == "raise":
            return f"custom property at {path!r} refused: {v!r}"
        if seen != [(ty, size, path)]:
            return f"decoder of {path!r} called with {seen} instead of once with {(ty, size, path)}"
        if v != {"value": b"xyz", "type": ty, "custom_type": path}:
            return f"custom property at {path!r} read as {v!r}"
        if r.read_to_end() != b"+":
            return "wrong number of bytes consumed"
        return None
    w = A.FArchiveWriter({path if known else path + "x": (dec, enc)})
    st, v = run(w.property, {"value": b"xyz", "type": ty, "custom_type": path})
    if not known:
        return None if st == "raise" else f"custom type {path!r} is not in the table but is written"
    if st == "raise":
        return f"custom property {path!r} cannot be written: {v!r}"
    want = S.fstr(ty) + S.u64(size) + b"xyz"
    if w.bytes() != want:
        return f"custom property {path!r} of size {size}: {bytes(w.bytes()).hex()} instead of {want.hex()}"
    return None


def custom_rt(AA, PP, path, ty, size, body, keys, tj, encoder, times=2):
    tab = {k: v for k, v in PP.PALWORLD_CUSTOM_PROPERTIES.items() if keys is None or k in keys}
    r = AA.FArchiveReader(body, PP.PALWORLD_TYPE_HINTS, tab)
    v = r.property(ty, size, path)
    left = len(r.read_to_end())
    v["type"] = ty
    if tj:
        v = js(v, encoder)
    out = []
    for _ in range(times):
        w = AA.FArchiveWriter(PP.PALWORLD_CUSTOM_PROPERTIES)
        w.property(v)
        out.append(bytes(w.bytes()))
    return out, left


@oracle
def o_custom(path, ty, size, body, keys=None):
    """one property at a registered path: read and written"""
    b = S.fstr(ty) + S.u64(size) + body
    for tj in (False, True):
        st, out = run(custom_rt, A, P, path, ty, size, body, keys, tj, J.CustomEncoder)
        if st == "ok" and out[0][0] == b and out[1] == 0:
            continue
        rs, ro = run(custom_rt, RA, RP, path, ty, size, body, keys, tj, RJ.CustomEncoder)
        if rs != "ok" or ro[0][0] != b or ro[1]:
            continue
        how = " through JSON" if tj else ""
        if st == "raise":
            return f"{path}{how}: {out!r}; {body.hex()}"
        return f"{path}{how}: {b.hex()} -> {out[0][0].hex()}, {out[1]} bytes left"
    return None


@oracle
def o_custom_twice(path, ty, size, body, keys=None):
    """the same property written twice"""
    b = S.fstr(ty) + S.u64(size) + body
    for tj in (False, True):
        st, out = run(custom_rt, A, P, path, ty, size, body, keys, tj, J.CustomEncoder)
        if st == "ok" and out[0][0] == out[0][1]:
            continue
        rs, ro = run(custom_rt, RA, RP, path, ty, size, body, keys, tj, RJ.CustomEncoder)
        if rs != "ok" or ro[0] != [b, b]:
            continue
        if st == "raise" and run(custom_rt, A, P, path, ty, size, body, keys, tj, J.CustomEncoder, 1)[0] == "raise":
            continue
        return f"{path}{' through JSON' if tj else ''}: a second write gives another result: {out!r}; {body.hex()}"[:3000]
    return None


def conv(t, style, r=None):
    """values as a user may give them: GUIDs as object, text or uuid.UUID; byte arrays as list, tuple or bytes"""
    if isinstance(t, bytes):
        return t
    return t


def restyle(p, g, ids):
    """copy of a spec tree (GUIDs as bytes) with GUIDs in one of the accepted forms"""
    def gd(b):
        if b is None:
            return None
        k = g.r.randrange(3)
        return A.UUID(b) if k == 0 else S.guid_text(b) if k == 1 else uuid.UUID(S.guid_text(b))

    def stv(st, v):
        if st == "Guid":
            return gd(v)
        if st in ("Vector", "Quat", "DateTime", "LinearColor"):
            return v
        return {k: pr(x) for k, x in v.items()}

    def pv(t, st, v):
        return stv(st, v) if t == "StructProperty" else v

    def pr(p):
        q = dict(p)
        t = p["type"]
        q["id"] = gd(p.get("id"))
        if q["id"] is None and g.r.random() < 0.3:
            del q["id"]
        if t == "StructProperty":
            q["struct_id"] = gd(p["struct_id"])
            q["value"] = stv(p["struct_type"], p["value"])
        elif t == "ArrayProperty":
            v = dict(p["value"])
            at = p["array_type"]
            if at == "StructProperty":
                v["id"] = gd(v["id"])
                v["values"] = [stv(v["type_name"], x) for x in v["values"]]
            elif at == "Guid":
                v["values"] = [gd(x) for x in v["values"]]
            elif at == "ByteProperty":
                v["values"] = g.r.choice([list, tuple, bytes])(v["values"])
            q["value"] = v
        elif t == "MapProperty":
            q["value"] = [{"key": pv(p["key_type"], p["key_struct_type"], e["key"]), "value": pv(p["value_type"], p["value_struct_type"], e["value"])} for e in p["value"]]
        return q

    return {k: pr(x) for k, x in p.items()}


class Bad(Exception):
    pass


class Walk:
    """follow written bytes by their structure and compare every size and count with the data"""

    def __init__(self, b, edited=False):
        self.b, self.p, self.edited = b, 0, edited

    def take(self, n):
        if n < 0 or self.p + n > len(self.b):
            raise Bad(f"data ends inside a field at {self.p}")
        self.p += n
        return self.b[self.p - n : self.p]

    def num(self, f):
        return struct.unpack("<" + f, self.take(struct.calcsize("<" + f)))[0]

    def fstr(self):
        n = self.num("i")
        self.take(n if n >= 0 else -2 * n)

    def expect(self, s, what):
        e = S.fstr(s)
        if self.take(len(e)) != e:
            raise Bad(f"{what}: expected {s!r}")

    def opt(self):
        if self.num("B"):
            self.take(16)

    def stv(self, st, v):
        n = {"Vector": 24, "Quat": 32, "DateTime": 8, "Guid": 16, "LinearColor": 16}.get(st)
        if n is not None:
            self.take(n)
        else:
            self.props(v)

    def pv(self, t, st, v):
        if t == "StructProperty":
            self.stv(st, v)
        elif t in ("EnumProperty", "NameProperty"):
            self.fstr()
        else:
            self.take(4 if t == "IntProperty" else 1)

    def size(self, want, start, what):
        if self.p - start != want:
            raise Bad(f"{what}: declared size {want}, {self.p - start} bytes of payload")

    def props(self, d):
        for k, p in d.items():
            self.expect(k, "property name")
            self.expect(p["type"], "property type")
            self.prop(p, k)
        self.expect("None", "end of property list")

    def prop(self, p, k):
        t = p["type"]
        n = self.num("Q")
        if t == "EnumProperty":
            self.fstr()
        elif t == "BoolProperty":
            self.take(1)
        elif t == "StructProperty":
            self.fstr()
            self.take(16)
        elif t == "ArrayProperty":
            self.expect(p["array_type"], "array type")
        elif t == "MapProperty":
            self.fstr()
            self.fstr()
        self.opt()
        s = self.p
        v = p["value"]
        if t in ("IntProperty", "FixedPoint64Property", "FloatProperty"):
            self.take(4)
        elif t == "Int64Property":
            self.take(8)
        elif t in ("StrProperty", "NameProperty", "EnumProperty"):
            self.fstr()
        elif t == "StructProperty":
            self.stv(p["struct_type"], v)
        elif t == "ArrayProperty":
            c = self.num("I")
            vals = v["values"]
            if self.edited and p["array_type"] == "ByteProperty":
                vals = range(c)  # an edited blob: its bytes fill the declared size
            if c != len(vals):
                raise Bad(f"{k}: count {c} for {len(vals)} elements")
            at = p["array_type"]
            if at == "StructProperty":
                self.fstr()
                self.fstr()
                m = self.num("Q")
                self.fstr()
                self.take(17)
                s2 = self.p
                for x in vals:
                    self.stv(v["type_name"], x)
                self.size(m, s2, k + " struct array")
            else:
                for x in vals:
                    w = {"Guid": 16, "IntProperty": 4, "Int64Property": 8, "FloatProperty": 4, "BoolProperty": 1, "ByteProperty": 1}.get(at)
                    self.fstr() if w is None else self.take(w)
        elif t == "MapProperty":
            self.take(4)
            c = self.num("I")
            if c != len(v):
                raise Bad(f"{k}: count {c} for {len(v)} entries")
            for e in v:
                self.pv(p["key_type"], p["key_struct_type"], e["key"])
                self.pv(p["value_type"], p["value_struct_type"], e["value"])
        self.size(n, s, f"{k} ({t})")


@oracle
def o_world(data):
    """a property list with custom properties, decoded and written back"""
    for tj in (False, True):
        st, out = run(tree_rt, A, V, data, P.PALWORLD_TYPE_HINTS, P.PALWORLD_CUSTOM_PROPERTIES, tj, J.CustomEncoder)
        if st == "ok" and out == (data, 0):
            continue
        rs, ro = run(tree_rt, RA, RV, data, RP.PALWORLD_TYPE_HINTS, RP.PALWORLD_CUSTOM_PROPERTIES, tj, RJ.CustomEncoder)
        if rs != "ok" or ro != (data, 0):
            return None
        how = " through JSON" if tj else ""
        if st == "raise":
            return f"world data cannot be round-tripped{how}: {out!r}"
        return f"world data changes{how}: {diff(data, out[0])}"
    return None


@oracle
def o_sizes(tree):
    """tree: property values as given by a user"""
    import copy

    w = A.FArchiveWriter()
    st, e = run(w.properties, copy.deepcopy(tree))
    if st == "raise":
        return f"property tree cannot be written: {e!r}"
    b = w.bytes()
    k = Walk(b)
    try:
        k.props(tree)
        if k.p != len(b):
            raise Bad("bytes after the end of the list")
    except Bad as e:
        return f"written sizes or counts are wrong: {e}; written {b.hex()}"
    return None


def edit_blobs(v, r, inside=False, depth=0):
    """change strings and list lengths inside decoded blobs"""
    if isinstance(v, dict):
        blob = inside or (v.get("array_type") == "ByteProperty" and isinstance(v.get("value"), dict) and "values" not in v["value"])
        for k, x in list(v.items()):
            if blob and isinstance(x, str) and k not in ("type", "array_type", "custom_type", "struct_type", "key_type", "value_type", "enum_type", "concrete_model_type", "group_type", "id") and len(x) != 36 and r.random() < 0.3:
                v[k] = r.choice(["", "x", "Wort\u00e4", x + "!", "\U0001f600" * 3])
            elif blob and isinstance(x, list) and x and r.random() < 0.3 and k != "values":
                if r.random() < 0.5:
                    x.append(x[-1])
                else:
                    x.pop()
            else:
                edit_blobs(x, r, blob, depth + 1)
    elif isinstance(v, list):
        for x in v:
            edit_blobs(x, r, inside, depth + 1)


@oracle
def o_sizes_world(seed, only=None, edit=True):
    """custom properties of a world, decoded, edited, written"""
    g = Gen(seed)
    w = g.world(only)
    data = S.props(w)
    st, v = run(lambda: A.FArchiveReader(data, P.PALWORLD_TYPE_HINTS, P.PALWORLD_CUSTOM_PROPERTIES).properties_until_end())
    if st == "raise":
        return None
    if edit:
        edit_blobs(v, g.r)
    wr = A.FArchiveWriter(P.PALWORLD_CUSTOM_PROPERTIES)
    st, e = run(wr.properties, v)
    if st == "raise":
        return None
    b = wr.bytes()
    k = Walk(b, edit)
    try:
        k.props(w)
        if k.p != len(b):
            raise Bad("bytes after the end of the list")
    except Bad as e:
        return f"written sizes or counts are wrong: {e}"
    return None


# ------------------------------------------------------------------ GVAS
def gvas_rt(VV, data, hints, cr, cw, tj, encoder):
    f = VV.GvasFile.read(data, hints, cr)
    d = f.dump()
    if tj:
        d = js(d, encoder)
    return VV.GvasFile.load(d).write(cw)


@oracle
def o_gvas(data, hints=None, custom=False):
    hints = P.PALWORLD_TYPE_HINTS if custom else hints or {}
    c, rc = (P.PALWORLD_CUSTOM_PROPERTIES, RP.PALWORLD_CUSTOM_PROPERTIES) if custom else ({}, {})
    for tj in (False, True):
        st, out = run(gvas_rt, V, data, hints, c, c, tj, J.CustomEncoder)
        if st == "ok" and out == data:
            continue
        rs, ro = run(gvas_rt, RV, data, hints, rc, rc, tj, RJ.CustomEncoder)
        if rs != "ok" or ro != data:
            return None
        how = " through JSON" if tj else ""
        return f"GVAS file changes{how}: {'raises %r' % out if st == 'raise' else diff(data, out)}"
    return None


def diff(a, b):
    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"lengths {len(a)}/{len(b)}, first difference at {i}: {a[max(0,i-8):i+24].hex()} versus {b[max(0,i-8):i+24].hex()}"


@oracle
def o_gvas_refuse(data):
    """data: header and anything after it"""
    if len(data) < 8:
        bad = True
    else:
        m, v = struct.unpack("<ii", data[:8])
        bad = m != 0x53415647 or v != 3
        if not bad:
            try:
                n = struct.unpack("<i", data[26:30])[0]
                p = 30 + (n if n >= 0 else -2 * n)
                bad = struct.unpack("<i", data[p : p + 4])[0] != 3
            except struct.error:
                bad = True
    st, f = run(V.GvasFile.read, data)
    if bad and st == "ok":
        return f"foreign file is accepted: {data[:64].hex()}"
    return None


# ------------------------------------------------------------------ SAV container
def long(n):
    b = bytes((i * 37 + 11) % 256 for i in range(256))
    return b * (n >> 8) + b[: n & 255]


@oracle
def o_container(payload, typ):
    """payload: bytes, or the length of a long one"""
    if isinstance(payload, int):
        payload = long(payload)
    st, c = run(Z.compress_gvas_to_sav, payload, typ)
    if st == "raise":
        return f"payload of {len(payload)} bytes cannot be compressed with type {typ:#x}: {c!r}"
    once = None
    try:
        once = zlib.decompress(c[12:]) if typ == 0x32 else c[12:]
    except zlib.error:
        pass
    want = struct.pack("<I", len(payload)) + (struct.pack("<I", len(once)) if once is not None else b"") + b"PlZ" + bytes([typ])
    if once is None or c[:12] != want:
        return f"container header {c[:12].hex()} for a payload of {len(payload)} bytes, type {typ:#x}; expected {want.hex()}"
    st, r = run(Z.decompress_sav_to_gvas, c)
    if st == "raise":
        return f"container cannot be decompressed: {r!r} (payload {payload[:40].hex()}, {len(payload)} bytes, type {typ:#x})"
    if r[0] != payload or r[1] != typ:
        return f"container decompresses to {len(r[0])} bytes, type {r[1]}; expected {len(payload)} bytes, type {typ}"
    return None


def spec_sav(data):
    """payload or None"""
    off = 0
    if data[8:11] == b"CNK":
        off = 12
    if len(data) < off + 12 or data[off + 8 : off + 11] != b"PlZ" or data[off + 11] not in (0x31, 0x32):
        return None
    ul, cl = struct.unpack("<II", data[off : off + 8])
    rest = data[off + 12 :]
    try:
        if data[off + 11] == 0x31:
            if cl != len(rest):
                return None
            out = zlib.decompress(rest)
        else:
            mid = zlib.decompress(rest)
            if cl != len(mid):
                return None
            out = zlib.decompress(mid)
    except zlib.error:
        return None
    return (out, data[off + 11]) if len(out) == ul else None


@oracle
def o_sav(data):
    want = spec_sav(data)
    st, r = run(Z.decompress_sav_to_gvas, data)
    if want is None:
        if st == "ok":
            return f"corrupt container is accepted: {data[:60].hex()} ({len(data)} bytes)"
        return None
    if st == "ok" and (r[0] != want[0] or r[1] != want[1]):
        return f"container gives {len(r[0])} bytes, type {r[1]}; expected {len(want[0])}, {want[1]}"
    return None


@oracle
def o_intact(payload, typ, wrap=None):
    """wrap: None or (word, word, byte) around the CNK magic"""
    if isinstance(payload, int):
        payload = long(payload)
    once = zlib.compress(payload)
    c = struct.pack("<II", len(payload), len(once)) + b"PlZ" + bytes([typ]) + (zlib.compress(once) if typ == 0x32 else once)
    if wrap:
        c = struct.pack("<II", *wrap[:2]) + b"CNK" + bytes([wrap[2]]) + c
    st, r = run(Z.decompress_sav_to_gvas, c)
    if st == "raise":
        return f"an intact container ({len(payload)} bytes, type {typ:#x}{', CNK-wrapped' if wrap else ''}) is refused: {r!r}"
    if r[0] != payload or r[1] != typ:
        return f"an intact container gives {len(r[0])} bytes, type {r[1]}; expected {len(payload)}, {typ}"
    return None


# ------------------------------------------------------------------ primitives
FIX = {"i16": "h", "u16": "H", "i32": "i", "u32": "I", "i64": "q", "u64": "Q", "byte": "B", "float": "f", "double": "d", "u": "B", "bool": "?"}


def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return struct.pack("<d", a) == struct.pack("<d", b) or (a != a and b != b)
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float)) and type(a) in (int, float) and type(b) in (int, float)):
        return False
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) or isinstance(b, float):
        return same(float(a), float(b))
    return a == b


def spec_read(name, data, nan=True):
    """(value, consumed) or None when data is too short"""
    def num(f, p):
        n = struct.calcsize("<" + f)
        if len(data) < p + n:
            return None
        v = struct.unpack("<" + f, data[p : p + n])[0]
        if f in "fd" and not nan and not math.isfinite(v):
            v = NULL
        return v

    def seq(n, p=0):
        out = [num("d", p + 8 * i) for i in range(n)]
        return None if any(x is None for x in out) else [None if x is NULL else x for x in out]

    if name in FIX:
        v = num("B" if name == "bool" else FIX[name], 0)
        if v is None:
            return None
        if name == "bool":
            v = v > 0
        return (None if v is NULL else v), struct.calcsize("<" + FIX[name])
    if name in ("vector", "quat"):
        s = seq(3 if name == "vector" else 4)
        return None if s is None else (tuple(s), 8 * len(s))
    if name in ("vector_dict", "quat_dict"):
        ks = "xyz" if name == "vector_dict" else "xyzw"
        s = seq(len(ks))
        return None if s is None else (dict(zip(ks, s)), 8 * len(s))
    if name == "ftransform":
        s = seq(10)
        return None if s is None else ({"rotation": dict(zip("xyzw", s[:4])), "translation": dict(zip("xyz", s[4:7])), "scale3d": dict(zip("xyz", s[7:]))}, 80)
    raise KeyError(name)


NULL = object()


@oracle
def o_prim_read(name, data, allow_nan=True, pre=b"\x5a\xa5\x01"):
    want = spec_read(name, data, allow_nan)
    if want is not None and name == "bool" and data[0] > 1:
        pass
    r = A.FArchiveReader(pre + data, allow_nan=allow_nan)
    r.read(len(pre))
    st, v = run(getattr(r, name))
    if want is None:
        if st == "ok":
            return f"{name} reads {v!r} from only {len(data)} bytes: {data.hex()}"
        return None
    if st == "raise":
        return f"{name} refuses {data.hex()}: {v!r}"
    if not same(v, want[0]):
        return f"{name} of {data[:want[1]].hex()} (allow_nan={allow_nan}) is {v!r}, expected {want[0]!r}"
    if bytes(r.read_to_end()) != data[want[1] :]:
        return f"{name} does not consume exactly {want[1]} bytes"
    return None


def spec_write(name, v):
    if name in ("i16", "u16", "i32", "u32", "i64", "u64", "byte", "u"):
        return struct.pack("<" + FIX[name], v)
    if name == "bool":
        return S.flag(v)
    if name == "float":
        return S.f32(v)
    if name == "double":
        return S.f64(v)
    if name in ("vector_dict", "quat_dict"):
        return S.vec(v, "xyz" if name == "vector_dict" else "xyzw")
    if name in ("vector", "quat"):
        return b"".join(S.f64(x) for x in v)
    if name == "ftransform":
        return S.vec(v["rotation"], "xyzw") + S.vec(v["translation"]) + S.vec(v["scale3d"])
    if name == "guid":
        return S.guid(v)
    if name == "optional_guid":
        return S.opt(v)
    raise KeyError(name)


def canon_nan(name, v, b):
    return b


@oracle
def o_prim_write(name, value):
    try:
        want = spec_write(name, value)
    except (struct.error, OverflowError):
        want = None
    w = A.FArchiveWriter()
    w.write(b"\x5a\xa5\x01")
    args = value if name in ("vector", "quat") else [value]
    st, e = run(getattr(w, name), *args)
    if want is None:
        if st == "ok":
            return f"{name} writes {w.bytes()[3:].hex()} for {value!r}, which does not fit"
        return None
    if st == "raise":
        return f"{name} refuses {value!r}: {e!r}"
    if w.bytes() != b"\x5a\xa5\x01" + want:
        return f"{name} writes {w.bytes()[3:].hex()} for {value!r}, expected {want.hex()}"
    return None


@oracle
def o_warray(name, elem, count):
    """tarray writes the 32-bit count and the elements in order"""
    l = [elem] * min(count, 300)
    a, b = A.FArchiveWriter(), A.FArchiveWriter()
    f = getattr(A.FArchiveWriter, name)
    st, e = run(a.tarray, f, l)
    b.u32(len(l))
    for x in l:
        f(b, x)
    if st == "raise":
        return f"array of {len(l)} {name} elements {elem!r} cannot be written: {e!r}"
    if a.bytes() != b.bytes():
        return f"array of {len(l)} {name} elements {elem!r} is written as {a.bytes().hex()}, expected {b.bytes().hex()}"
    return None


@oracle
def o_fstr(s, pre=b"\x01\x02\x03", post=b"\xff\x00\x41\x00\x42"):
    w = A.FArchiveWriter()
    w.write(pre)
    st, n = run(w.fstring, s)
    want = S.fstr(s)
    if st == "raise":
        return f"string {s!r:.200} cannot be written: {n!r}"
    b = w.bytes()[len(pre) :]
    if b != want:
        return f"string {s!r:.200} is stored as {b[:80].hex()}, expected {want[:80].hex()}"
    if n != len(b):
        return f"string {s!r:.200}: reported size {n}, {len(b)} bytes written"
    r = A.FArchiveReader(pre + b + post)
    r.read(len(pre))
    st, t = run(r.fstring)
    if st == "raise":
        return f"string {s!r:.200} cannot be read back: {t!r}"
    if t != s:
        return f"string {s!r:.200} reads back as {t!r:.200}"
    if bytes(r.read_to_end()) != post:
        return f"string {s!r:.200}: wrong number of bytes consumed"
    return None


# ------------------------------------------------------------------ GUIDs
@oracle
def o_guid(raw, other=None, ops=(), seed=None):
    """ops: what is done with the objects before the final checks"""
    def rd(b):
        return A.FArchiveReader(b).guid()

    def wr(x, f="guid"):
        w = A.FArchiveWriter()
        getattr(w, f)(x)
        return w.bytes()

    def go():
        a, b = rd(raw), rd(other if other is not None else raw)
        c = rd(raw)
        for o in ops:
            x = {"a": a, "b": b, "c": c}[o[0]]
            y = {"a": a, "b": b, "c": c}[o[2]] if len(o) > 2 else None
            {"s": lambda: str(x), "u": lambda: x.UUID(), "h": lambda: hash(x), "r": lambda: repr(x), "e": lambda: x == y, "n": lambda: x != y,
             "w": lambda: wr(x), "j": lambda: json.dumps(x, cls=J.CustomEncoder), "t": lambda: x == S.guid_text(raw), "d": lambda: {x: 1}}[o[1]]()
        text = S.guid_text(raw)
        if str(a) != text:
            return f"text of GUID {raw.hex()} is {str(a)}, expected {text}"
        if a.UUID() != uuid.UUID(text) or type(a.UUID()) is not uuid.UUID:
            return f"UUID form of GUID {raw.hex()} is {a.UUID()}, expected {text}"
        for form in (a, str(a), a.UUID(), A.UUID.from_str(text), uuid.UUID(text)):
            for f, want in (("guid", raw), ("optional_guid", b"\1" + raw)):
                out = wr(form, f)
                if out != want:
                    return f"GUID {raw.hex()} given as {type(form).__module__}.{type(form).__name__} is written as {out.hex()}"
        if json.dumps(a, cls=J.CustomEncoder) != json.dumps(text) or json.dumps(a.UUID(), cls=J.CustomEncoder) != json.dumps(text):
            return f"GUID {raw.hex()} is shown in JSON as {json.dumps(a, cls=J.CustomEncoder)}"
        if wr(None, "optional_guid") != b"\0":
            return "absent GUID written wrongly"
        for x, y, eq in ((a, b, raw == (other if other is not None else raw)), (a, c, True), (b, a, raw == (other if other is not None else raw)), (a, A.UUID.from_str(text), True), (a, a, True)):
            if (x == y) is not eq or (x != y) is eq:
                return f"GUIDs {raw.hex()} and {(other or raw).hex()} after {list(ops)}: equality says {x == y}, inequality says {x != y}, expected equal={eq}"
            if eq and hash(x) != hash(y):
                return f"equal GUIDs {raw.hex()} have different hashes after {list(ops)}"
        if a.raw_bytes != raw or rd(raw) != a:
            return "GUID changed"
        return None

    st, m = run(go)
    return f"GUID handling raises {m!r} for {raw.hex()} after {list(ops)}" if st == "raise" else m


@oracle
def o_guid_read(data):
    """uuid_reader and guid read the same 16 bytes"""
    for f in (lambda r: r.guid(), A.uuid_reader):
        r = A.FArchiveReader(data)
        st, g = run(f, r)
        if len(data) < 16:
            if st == "ok":
                return f"GUID read from {len(data)} bytes"
            continue
        if st == "raise" or g.raw_bytes != data[:16] or bytes(r.read_to_end()) != data[16:]:
            return f"GUID read wrongly from {data.hex()}"
    return None


# ------------------------------------------------------------------ compact forms
@oracle
def o_rot(codes):
    data = b"".join(b"\0" if c == 0 else b"\1" + S.u16(c) for c in codes)
    r = A.FArchiveReader(data + b"\x77")
    st, v = run(r.compressed_short_rotator)
    if st == "raise":
        return f"rotator {codes} cannot be read: {v!r}"
    if bytes(r.read_to_end()) != b"\x77":
        return f"rotator {codes}: wrong number of bytes consumed"
    w = A.FArchiveWriter()
    st, e = run(w.compressed_short_rotator, *v)
    if st == "raise" or w.bytes() != data:
        return f"rotator codes {codes} read as {v} and written as {e if st == 'raise' else w.bytes().hex()}, expected {data.hex()}"
    return None


@oracle
def o_pvec(v):
    w = A.FArchiveWriter()
    st, e = run(w.packed_vector, 1, *v)
    if st == "raise":
        return f"packed vector {v} cannot be written: {e!r}"
    b = w.bytes()
    r = A.FArchiveReader(b + b"\x77\x78")
    st, o = run(r.packed_vector, 1)
    if st == "raise":
        return f"packed vector {v} cannot be read back: {o!r}"
    if not all(x == y for x, y in zip(o, v)) or len(o) != 3:
        return f"packed vector {v} reads back as {o}"
    if bytes(r.read_to_end()) != b"\x77\x78":
        return f"packed vector {v}: wrong number of bytes consumed"
    w2 = A.FArchiveWriter()
    st, e = run(w2.packed_vector, 1, *o)
    if st == "raise" or w2.bytes() != b:
        return f"packed vector {v}: re-written as {w2.bytes().hex()}, expected {b.hex()}"
    w3 = A.FArchiveWriter()
    st, e = run(w3.packed_vector, 1, *js(list(o)))
    if st == "raise" or w3.bytes() != b:
        return f"packed vector {v}: written differently after JSON"
    return None


# ------------------------------------------------------------------ truncation
def reader_op(op):
    name, *args = op
    if name == "tarray":
        f = reader_op(args[0])
        return lambda r: r.tarray(f)
    if name == "uuid_reader":
        return A.uuid_reader
    if name == "instance_id_reader":
        return A.instance_id_reader
    if name == "property":
        return lambda r: r.property(*args)
    return lambda r: getattr(r, name)(*args)


def op_len(op, data):
    """encoded length of the field at the start of data, or None when data is too short for it"""
    name, *args = op
    n = len(data)
    need = {"guid": 16, "uuid_reader": 16, "instance_id_reader": 32, "vector": 24, "vector_dict": 24, "quat": 32, "quat_dict": 32, "ftransform": 80}
    if name in FIX:
        k = struct.calcsize("<" + FIX[name])
    elif name in need:
        k = need[name]
    elif name in ("read", "byte_list", "skip"):
        k = args[0]
        if k < 0:
            return None
    elif name == "fstring":
        if n < 4:
            return None
        c = struct.unpack("<i", data[:4])[0]
        k = 4 + (c if c >= 0 else -2 * c)
    elif name == "optional_guid":
        if n < 1:
            return None
        k = 17 if data[0] else 1
    elif name == "compressed_short_rotator":
        k = 0
        for _ in range(3):
            if n <= k:
                return None
            k += 3 if data[k] else 1
    elif name == "packed_vector":
        if n < 4:
            return None
        w = struct.unpack("<I", data[:4])[0]
        b = w & 63
        k = 4 + (3 * ((b + 7) // 8) if b else (24 if w >> 6 else 12))
    elif name == "tarray":
        if n < 4:
            return None
        c = struct.unpack("<I", data[:4])[0]
        k = 4
        data = memoryview(data)
        for _ in range(c):
            m = op_len(args[0], data[k:])
            if m is None:
                return None
            k += m
    else:
        return -1
    return k if k <= n else None


@oracle
def o_trunc(op, data):
    """reading a field from data that ends inside it raises; otherwise it is read in full"""
    want = op_len(op, data)
    r = A.FArchiveReader(data)
    st, v = run(reader_op(op), r)
    if st != "ok":
        return None
    left = len(bytes(r.read_to_end()))
    used = len(data) - left
    if want is None:
        return f"{op} returns {v!r:.100} although the data ends inside the field: {data[:60].hex()} ({len(data)} bytes)"
    if want >= 0 and used < want:
        return f"{op} consumes {used} of the {want} bytes of the field: {data[:60].hex()}"
    return None


@oracle
def o_trunc_list(data, hints, cut):
    """a strict prefix of a property list is refused"""
    r = A.FArchiveReader(data, hints)
    st, v = run(r.properties_until_end)
    if st != "ok" or len(bytes(r.read_to_end())):
        return None
    rs, _ = run(RA.FArchiveReader(data, hints).properties_until_end)
    if rs != "ok":
        return None
    r = A.FArchiveReader(data[:cut], hints)
    st, v = run(r.properties_until_end)
    if st == "ok":
        return f"property list cut after {cut} of {len(data)} bytes is accepted: {data.hex()}"
    return None


# ------------------------------------------------------------------ NaN
def nullify(v):
    if isinstance(v, float):
        return v if math.isfinite(v) else None
    if isinstance(v, dict):
        return {k: nullify(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [nullify(x) for x in v]
    return v


def plain(v):
    """comparable form"""
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple, bytes)):
        return [plain(x) for x in v]
    if isinstance(v, float):
        return ("nan",) if v != v else ("f", struct.pack("<d", v))
    if isinstance(v, (A.UUID, RA.UUID)):
        return str(v)
    return v


@oracle
def o_nan_tree(data, hints, custom=False):
    """with conversion on, exactly the non-finite floats become null, at every depth"""
    c = P.PALWORLD_CUSTOM_PROPERTIES if custom else {}
    rc = RP.PALWORLD_CUSTOM_PROPERTIES if custom else {}
    h = P.PALWORLD_TYPE_HINTS if custom else hints
    rs, ref = run(lambda: RA.FArchiveReader(data, h, rc, allow_nan=True).properties_until_end())
    if rs != "ok":
        return None
    for an in (True, False):
        st, v = run(lambda: A.FArchiveReader(data, h, c, allow_nan=an).properties_until_end())
        if st != "ok":
            return f"data cannot be read with allow_nan={an}: {v!r}"
        want = ref if an else nullify(ref)
        if plain(v) != plain(want):
            return f"float values differ with allow_nan={an}: {first_diff(plain(v), plain(want))}"
    return None


def first_diff(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + list(b):
            if k not in a or k not in b:
                return f"{path}.{k} only on one side"
            m = first_diff(a[k], b[k], f"{path}.{k}")
            if m:
                return m
        return None
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return f"{path}: lengths {len(a)} and {len(b)}"
        for i, (x, y) in enumerate(zip(a, b)):
            m = first_diff(x, y, f"{path}[{i}]")
            if m:
                return m
        return None
    return None if a == b else f"{path}: {a!r} versus {b!r}"


@oracle
def o_nan_blob(key, kind, data):
    """the setting reaches the readers of nested blobs"""
    dec, enc = mod_fns(key)
    a = [kind] if kind is not None else []
    for an in (True, False):
        st, v = run(dec, A.FArchiveReader(b"", allow_nan=an), tuple(data), *a)
        rs, ref = run(REF_BLOBS[key][0], RA.FArchiveReader(b"", allow_nan=True), tuple(data), *a)
        if rs != "ok" or st != "ok":
            continue
        want = ref if an else nullify(ref)
        if plain(v) != plain(want):
            return f"{key} blob with allow_nan={an}: {first_diff(plain(v), plain(want))}"
    return None


@oracle
def o_nan_custom(path, ty, size, body):
    """the setting reaches the blobs of a custom property"""
    rs, ref = run(lambda: RA.FArchiveReader(body, RP.PALWORLD_TYPE_HINTS, RP.PALWORLD_CUSTOM_PROPERTIES, allow_nan=True).property(ty, size, path))
    if rs != "ok":
        return None
    for an in (True, False):
        st, v = run(lambda: A.FArchiveReader(body, P.PALWORLD_TYPE_HINTS, P.PALWORLD_CUSTOM_PROPERTIES, allow_nan=an).property(ty, size, path))
        if st != "ok":
            return f"{path} cannot be read with allow_nan={an}: {v!r}"
        want = ref if an else nullify(ref)
        if plain(v) != plain(want):
            return f"{path} with allow_nan={an}: {first_diff(plain(v), plain(want))}"
    return None


@oracle
def o_nan_gvas(data):
    """the setting reaches a whole file"""
    rs, ref = run(lambda: RV.GvasFile.read(data, RP.PALWORLD_TYPE_HINTS, RP.PALWORLD_CUSTOM_PROPERTIES, allow_nan=True).dump())
    if rs != "ok":
        return None
    for an in (True, False):
        st, v = run(lambda: V.GvasFile.read(data, P.PALWORLD_TYPE_HINTS, P.PALWORLD_CUSTOM_PROPERTIES, allow_nan=an).dump())
        if st != "ok":
            return f"file cannot be read with allow_nan={an}: {v!r}"
        want = ref if an else nullify(ref)
        if plain(v) != plain(want):
            return f"file with allow_nan={an}: {first_diff(plain(v), plain(want))}"
    return None


# ------------------------------------------------------------------ custom properties
@oracle
def o_subset(data, keys, unread=()):
    """decode only the chosen paths, write with all of them known"""
    allc = P.PALWORLD_CUSTOM_PROPERTIES
    c = {k: allc[k] for k in allc if k in keys}
    rc = {k: RP.PALWORLD_CUSTOM_PROPERTIES[k] for k in RP.PALWORLD_CUSTOM_PROPERTIES if k in keys}
    st, out = run(gvas_rt, V, data, P.PALWORLD_TYPE_HINTS, c, allc, True, J.CustomEncoder)
    if st == "ok" and out == data:
        st, out = run(gvas_rt, V, data, P.PALWORLD_TYPE_HINTS, c, allc, False, J.CustomEncoder)
        if st == "ok" and out == data:
            return decoded_exactly(data, c, keys)
    rs, ro = run(gvas_rt, RV, data, RP.PALWORLD_TYPE_HINTS, rc, RP.PALWORLD_CUSTOM_PROPERTIES, True, RJ.CustomEncoder)
    if rs != "ok" or ro != data:
        return None
    return f"decoding {sorted(keys)} changes the save: {'raises %r' % out if st == 'raise' else diff(data, out)}"


def decoded_exactly(data, c, keys):
    """a chosen path is decoded, an unchosen one is generic"""
    st, f = run(V.GvasFile.read, data, P.PALWORLD_TYPE_HINTS, c)
    if st == "raise":
        return None
    seen = set()

    def walk(v):
        if isinstance(v, dict):
            if isinstance(v.get("custom_type"), str) and "type" in v:
                seen.add(v["custom_type"])
            for x in v.values():
                walk(x)
        elif isinstance(v, list):
            for x in v:
                walk(x)

    walk(f.properties)
    if not seen <= set(keys):
        return f"paths {sorted(seen - set(keys))} are decoded although not chosen"
    return None


@oracle
def o_twice(data, keys=None):
    """second write equals the first; shared tables stay as they were; history does not matter"""
    allc = P.PALWORLD_CUSTOM_PROPERTIES
    c = allc if keys is None else {k: allc[k] for k in allc if k in keys}
    before = snap()

    def go():
        f = V.GvasFile.read(data, P.PALWORLD_TYPE_HINTS, c)
        a = f.write(allc)
        b = f.write(allc)
        g = V.GvasFile.read(data, P.PALWORLD_TYPE_HINTS, c)
        d = js(g.dump())
        h = V.GvasFile.load(d)
        x = h.write(allc)
        y = h.write(allc)
        return a, b, x, y

    st, r = run(go)
    m = snap_diff(before, snap())
    if m:
        return f"conversion changes shared state: {m}"
    if st == "raise":
        s2, r2 = run(lambda: V.GvasFile.read(data, P.PALWORLD_TYPE_HINTS, c).write(allc))
        if s2 == "ok":
            return f"a second write of the same save raises {r!r}"
        return None
    a, b, x, y = r
    if a != b:
        return f"second write differs: {diff(a, b)}"
    if x != y:
        return f"second write of a loaded JSON differs: {diff(x, y)}"
    return None


def snap():
    """state outside the objects being converted"""
    import copy
    import types

    out = {}
    for name, m in sorted(sys.modules.items()):
        if not name.startswith("palworld_save_tools") or m is None:
            continue
        for k, v in sorted(vars(m).items()):
            if k.startswith("__"):
                continue
            if isinstance(v, (dict, list, set, tuple, str, int, float, bytes, bytearray)):
                out[f"{name}.{k}"] = frozen(v)
            fs = [(k, v)] if isinstance(v, types.FunctionType) else []
            if isinstance(v, type) and v.__module__ == name:
                for a, b in sorted(vars(v).items()):
                    if isinstance(b, (staticmethod, classmethod)):
                        b = b.__func__
                    if isinstance(b, types.FunctionType):
                        fs.append((f"{k}.{a}", b))
                    elif not a.startswith("__") and isinstance(b, (dict, list, set, str, int, float, bytes, bytearray)):
                        out[f"{name}.{k}.{a}"] = frozen(b)
            for a, f in fs:
                if f.__defaults__:
                    out[f"{name}.{a}.defaults"] = frozen(f.__defaults__)
                if f.__kwdefaults__:
                    out[f"{name}.{a}.kwdefaults"] = frozen(f.__kwdefaults__)
                if f.__dict__:
                    out[f"{name}.{a}.attributes"] = frozen(f.__dict__)
    return out


def frozen(v):
    if isinstance(v, dict):
        return ("d",) + tuple((repr(k), frozen(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(frozen(x) for x in v)
    if isinstance(v, (set, frozenset)):
        return ("s",) + tuple(sorted(map(repr, v)))
    if isinstance(v, (str, int, float, bytes, bytearray)) or v is None:
        return repr(v)
    return f"{type(v).__name__}@{id(v)}"


def snap_diff(a, b):
    for k in a:
        if k not in b:
            return f"{k} removed"
        if a[k] != b[k]:
            return f"{k} changed"
    for k in b:
        if k not in a:
            return f"{k} added"
    return None


@oracle
def o_frame(oracle, kw):
    """whatever this does, it leaves shared state alone"""
    before = snap()
    run(ORACLES[oracle], **kw)
    m = snap_diff(before, snap())
    return f"conversion changes shared state: {m} ({oracle} {kw!r})"[:3000] if m else None


@oracle
def o_history(first, data):
    """the result of a conversion does not depend on an earlier one"""
    allc = P.PALWORLD_CUSTOM_PROPERTIES

    def conv(d):
        f = V.GvasFile.read(d, P.PALWORLD_TYPE_HINTS, allc)
        j = json.dumps(f.dump(), cls=J.CustomEncoder)
        return j, V.GvasFile.load(json.loads(j)).write(allc)

    r0 = run(conv, data)
    run(conv, first)
    with contextlib.suppress(Exception), quiet():
        V.GvasFile.read(first, {}, {})
    r1 = run(conv, data)
    if r0[0] != r1[0] or (r0[0] == "ok" and r0[1] != r1[1]):
        return "a conversion gives another result after an earlier conversion in the same process"
    return None


# ------------------------------------------------------------------ C22
@oracle
def o_unknown(way, what, name, seed, other=None):
    """data of an unsupported type is refused, wherever it is"""
    from . import unknown as U

    if name in U.KNOWN[what] or way == "read" and what == "custom" or way == "write" and what == "labelled":
        return None
    b, t = U.build(what, name, seed, other)
    if way == "read":
        r = A.FArchiveReader(b)
        st, v = run(r.properties_until_end)
        if st == "ok":
            return f"reading accepts an unsupported {what} ({name!r}) as {v!r:.300}: {b[:200].hex()}"
        return None
    w = A.FArchiveWriter()
    st, v = run(w.properties, restyled(t))
    if st == "ok":
        return f"writing accepts an unsupported {what} ({name!r}): {t!r:.300} gives {bytes(w.bytes())[:120].hex()}"
    return None


def restyled(v):
    """16-byte values as GUID objects"""
    if isinstance(v, dict):
        return {k: restyled(x) for k, x in v.items()}
    if isinstance(v, list):
        return [restyled(x) for x in v]
    if isinstance(v, bytes):
        return A.UUID(v) if len(v) == 16 else v
    return v


# ------------------------------------------------------------------ C23
def shown(p):
    """the JSON form of a spec tree (GUIDs as 16 bytes there)"""

    def guid(b):
        return None if b is None else S.guid_text(b)

    def stv(st, v):
        return guid(v) if st == "Guid" else v if st in ("Vector", "Quat", "DateTime", "LinearColor") else shown(v)

    def pv(t, st, v):
        return stv(st, v) if t == "StructProperty" else bool(v) if t == "BoolProperty" else v

    out = {}
    for n, q in p.items():
        t, v = q["type"], q["value"]
        o = dict(q, id=guid(q.get("id")))
        if t == "StructProperty":
            o["struct_id"] = guid(q["struct_id"])
            o["value"] = stv(q["struct_type"], v)
        elif t == "BoolProperty":
            o["value"] = bool(v)
        elif t == "ArrayProperty":
            at = q["array_type"]
            o["value"] = dict(v)
            if at == "StructProperty":
                o["value"]["id"] = guid(v["id"])
                o["value"]["values"] = [stv(v["type_name"], x) for x in v["values"]]
            elif at == "Guid":
                o["value"]["values"] = [guid(x) for x in v["values"]]
            else:
                o["value"]["values"] = list(v["values"])
        elif t == "MapProperty":
            o["value"] = [{"key": pv(q["key_type"], q["key_struct_type"], e["key"]), "value": pv(q["value_type"], q["value_struct_type"], e["value"])} for e in v]
        out[n] = o
    return out


def order(v):
    return list(v) if isinstance(v, dict) else None


@oracle
def o_stored(tree, hints):
    """the stored form of a tree is read as that tree, and the tree is written in that form"""
    want = shown(tree)
    data = S.props(tree)
    st, v = run(lambda: A.FArchiveReader(data, hints).properties_until_end())
    if st == "raise":
        return f"well-formed data is refused: {v!r}; {data.hex()}"
    if plain(v) != plain(want):
        return f"what is read differs from what is stored: {first_diff(plain(v), plain(want))}; {data.hex()}"
    if list(v) != list(want):
        return f"properties are read in another order: {list(v)} instead of {list(want)}"
    w = A.FArchiveWriter()
    st, e = run(w.properties, restyled_tree(want))
    if st == "raise":
        return f"a tree cannot be written: {e!r}; {want!r}"[:3000]
    b = bytes(w.bytes())
    st, v = run(lambda: A.FArchiveReader(b, hints).properties_until_end())
    if st == "raise":
        return f"what was written cannot be read: {v!r}; {want!r}"[:3000]
    if plain(v) != plain(want):
        return f"the tree written reads back differently: {first_diff(plain(v), plain(want))}; {want!r}"[:3000]
    return None


def restyled_tree(v):
    return json.loads(json.dumps(v, default=lambda b: list(b)))


@oracle
def o_shown(data, hints):
    """stored data is read as the values stored in it"""
    rs, ref = run(lambda: RA.FArchiveReader(data, hints).properties_until_end())
    st, v = run(lambda: A.FArchiveReader(data, hints).properties_until_end())
    if rs != "ok":
        return None
    if st != "ok":
        return f"well-formed data is refused: {v!r}; {data.hex()}"
    if plain(v) != plain(ref):
        return f"what is read differs from what is stored: {first_diff(plain(v), plain(ref))}; {data.hex()}"
    if list(v) != list(ref):
        return f"properties are read in another order: {list(v)} instead of {list(ref)}"

    def back(AA, encoder):
        w = AA.FArchiveWriter()
        w.properties(js(ref, RJ.CustomEncoder))
        return AA.FArchiveReader(bytes(w.bytes()), hints).properties_until_end()

    rs, r2 = run(back, RA, RJ.CustomEncoder)
    if rs != "ok" or plain(r2) != plain(ref):
        return None
    st, v = run(back, A, J.CustomEncoder)
    if st != "ok":
        return f"a tree cannot be written and read back: {v!r}; {data.hex()}"
    if plain(v) != plain(ref):
        return f"a tree that was written reads back differently: {first_diff(plain(v), plain(ref))}; {data.hex()}"
    return None


def changes(x, r):
    """some new values for one place: [(new value, indices of the list elements to keep)]"""
    if isinstance(x, bool):
        return [(not x, None)]
    if isinstance(x, int):
        return [(n, None) for n in (x + 1, x - 1, 0, 1, 2, 3, 255, -1, 1 << 31, (1 << 31) - 1, -x) if n != x]
    if isinstance(x, float):
        return [(n, None) for n in (0.0, -0.0, 1.0, -2.5, 1e10, float("inf"), x * 2)]
    if isinstance(x, str):
        return [(S.guid_text(bytes(r.randrange(256) for _ in range(16))), None)] if len(x) == 36 and x.count("-") == 4 else [(n, None) for n in ("", "x", x + "!", "Wort\u00e4", x[:-1], "\U0001f600") if n != x]
    if isinstance(x, list):
        n = list(range(len(x)))
        return [(None, m) for m in (n[:1] + n, n[:-1], n[1:], [], n[-1:] + n, n[::-1]) if m != n]
    return []


def edits(v, r):
    """changes of a few places of JSON data: [(path, new value, indices of the list elements to keep)]"""
    out = []
    for _ in range(r.choice([1, 1, 1, 2, 3])):
        ps = places(v)
        lists = [p for p in ps if isinstance(p[1], list)]
        if not ps:
            break
        path, x = r.choice(lists) if lists and r.random() < 0.5 else r.choice(ps)
        c = changes(x, r)
        if c:
            out.append((path, *r.choice(c)))
            v = apply(v, out[-1:])
    return out


def sweep(v, r):
    """one place after the other"""
    for path, x in places(v):
        c = changes(x, r)
        for n in r.sample(c, min(len(c), 4)):
            yield [(path, *n)]


def apply(v, changes):
    import copy

    v = [copy.deepcopy(v)]
    for path, new, keep in changes:
        c, k = v, 0
        for p in path:
            c, k = c[k], p
        c[k] = [copy.deepcopy(c[k][i]) for i in keep] if keep is not None else new
    return v[0]


def places(v, at=(), out=None):
    """(path, value) of everything that can be edited"""
    out = [] if out is None else out
    for k, x in list(v.items()) if isinstance(v, dict) else enumerate(v):
        out.append((at + (k,), x))
        if isinstance(x, (dict, list)) and not (isinstance(x, list) and len(x) > 64 and all(isinstance(y, int) for y in x)):
            places(x, at + (k,), out)
    return out


def common(v, ref):
    """v without the fields that ref does not have"""
    if isinstance(v, dict) and isinstance(ref, dict):
        return {k: common(x, ref[k]) for k, x in v.items() if k in ref}
    if isinstance(v, list) and isinstance(ref, list):
        return [common(x, ref[i]) if i < len(ref) else x for i, x in enumerate(v)]
    return v


def edited(r, d, ref, back, refback, what, everywhere=False, tries=4):
    """change a few places of decoded data (d here, ref by the reference); back: write and read again"""
    for ch in sweep(ref, r) if everywhere else (edits(ref, r) for _ in range(tries)):
        if not ch:
            continue
        want = apply(ref, ch)
        rs, ro = run(refback, want)
        if rs != "ok" or plain(ro) != plain(want):
            continue  # not a value this kind of data can hold
        try:
            v = apply(d, ch)
        except (KeyError, IndexError, TypeError):
            continue
        st, o = run(back, v)
        how = "; ".join(f"{'.'.join(map(str, p))} {'= %r' % (n,) if k is None else 'now has elements %r' % k}"[:200] for p, n, k in ch)
        if st == "raise":
            return f"{what} after the edit {how}: {o!r}"
        v, o = common(v, want), common(o, want)
        if plain(o) != plain(v):
            return f"{what} after the edit {how}: reads back with {first_diff(plain(o), plain(v))}"
    return None


@oracle
def o_edit(key, kind, data, seed, everywhere=False):
    """an edited blob is encoded so that decoding gives it back"""
    import random

    r = random.Random(seed)
    if data is None:
        g = Gen(seed)
        kind = g.kind(key)
        data = g.blob(key, kind)
    a = [kind] if kind is not None else []
    ea = a if key in ENC_KIND else []

    def decode(dec, AA, encoder, b):
        return js(dec(AA.FArchiveReader(b""), tuple(b), *a), encoder)

    dec, enc = mod_fns(key)
    rd, re = REF_BLOBS[key]
    rs, ref = run(decode, rd, RA, RJ.CustomEncoder, data)
    st, d = run(decode, dec, A, J.CustomEncoder, data)
    if st != "ok" or rs != "ok" or not isinstance(d, dict) or not isinstance(ref, dict):
        return None
    copy = lambda v: json.loads(json.dumps(v))
    e = edited(r, d, ref, lambda v: decode(dec, A, J.CustomEncoder, enc(copy(v), *ea)), lambda v: decode(rd, RA, RJ.CustomEncoder, re(copy(v), *ea)), f"{key} blob (kind {kind!r})", everywhere)
    return e and f"{e}; {bytes(data).hex()}"


@oracle
def o_edit_world(seed, only=None):
    """a loaded world, edited anywhere, written and read back"""
    import random

    r = random.Random(seed)
    data = S.props(Gen(seed).world(only))

    def read(AA, PP, b, encoder):
        return js(AA.FArchiveReader(b, PP.PALWORLD_TYPE_HINTS, PP.PALWORLD_CUSTOM_PROPERTIES).properties_until_end(), encoder)

    def back(AA, PP, encoder):
        def f(v):
            w = AA.FArchiveWriter(PP.PALWORLD_CUSTOM_PROPERTIES)
            w.properties(json.loads(json.dumps(v)))
            return read(AA, PP, bytes(w.bytes()), encoder)

        return f

    st, d = run(read, A, P, data, J.CustomEncoder)
    rs, ref = run(read, RA, RP, data, RJ.CustomEncoder)
    if st != "ok" or rs != "ok":
        return None
    return edited(r, d, ref, back(A, P, J.CustomEncoder), back(RA, RP, RJ.CustomEncoder), "world", tries=30 if only else 4)


@oracle
def o_header(data, header=None, trailer=None):
    """the JSON form of a file shows every header field and the trailer; writing it gives a file that shows the same"""
    import base64

    if header is None:
        rs, f = run(RV.GvasFile.read, data)
        if rs != "ok":
            return None
        want, trailer = js(f.header.dump(), RJ.CustomEncoder), f.trailer
    else:
        want = dict(header, custom_versions=[[S.guid_text(a), b] for a, b in header["custom_versions"]])
    for how in ("", " after writing"):
        st, d = run(lambda: js(V.GvasFile.read(data).dump(), J.CustomEncoder))
        if st == "raise":
            return f"a well-formed file is refused{how}: {d!r}; {data.hex()}"
        if plain(d.get("header")) != plain(want):
            return f"the header shown{how} differs from the one stored: {first_diff(plain(d.get('header')), plain(want))}; {data.hex()}"
        if base64.b64decode(d["trailer"]) != trailer:
            return f"the trailer shown{how} is {d['trailer']!r} instead of {trailer.hex()}"
        st, data = run(lambda: V.GvasFile.load(json.loads(json.dumps(dict(d, header=want)))).write({}))
        if st == "raise":
            return f"a file cannot be written: {data!r}; {want!r}"[:2000]
    return None
