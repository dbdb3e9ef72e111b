"""The stored formats, stated independently of the code under test: encoders used to build inputs
and to predict outputs when a counterexample is replayed natively."""
import struct
import uuid

NAN32 = struct.pack("<f", float("nan"))


def i16(v): return struct.pack("<h", v)
def u16(v): return struct.pack("<H", v)
def i32(v): return struct.pack("<i", v)
def u32(v): return struct.pack("<I", v)
def i64(v): return struct.pack("<q", v)
def u64(v): return struct.pack("<Q", v)
def f32(v): return struct.pack("<f", float("nan") if v is None else v)
def f64(v): return struct.pack("<d", float("nan") if v is None else v)
def flag(v): return b"\1" if v else b"\0"


def fstr(s):
    if s == "":
        return i32(0)
    if all(ord(c) < 128 for c in s):
        return i32(len(s) + 1) + bytes(map(ord, s)) + b"\0"
    u = b""
    for c in s:
        o = ord(c)
        if o >= 0x10000:
            o -= 0x10000
            u += u16(0xD800 + (o >> 10)) + u16(0xDC00 + (o & 0x3FF))
        else:
            u += u16(o)
    return i32(-(len(u) // 2 + 1)) + u + b"\0\0"


def guid_text(b):
    w = struct.unpack("<4I", b)
    h = "%08x%08x%08x%08x" % w
    return f"{h[:8]}-{h[8:12]}-{h[12:16]}-{h[16:20]}-{h[20:]}"


def guid(v):
    if isinstance(v, (bytes, bytearray)):
        return bytes(v)
    if hasattr(v, "raw_bytes"):
        return v.raw_bytes
    h = (v.hex if isinstance(v, uuid.UUID) else str(v)).replace("-", "")
    return struct.pack("<4I", *[int(h[i : i + 8], 16) for i in (0, 8, 16, 24)])


def opt(v):
    return b"\0" if v is None else b"\1" + guid(v)


def vec(d, keys="xyz"):
    return b"".join(f64(d[k]) for k in keys)


def struct_value(st, v):
    if st == "Vector":
        return vec(v)
    if st == "Quat":
        return vec(v, "xyzw")
    if st == "DateTime":
        return u64(v)
    if st == "Guid":
        return guid(v)
    if st == "LinearColor":
        return b"".join(f32(v[k]) for k in "rgba")
    return props(v)


def prop_value(t, st, v):
    if t == "StructProperty":
        return struct_value(st, v)
    return {"EnumProperty": fstr, "NameProperty": fstr, "IntProperty": i32, "BoolProperty": flag}[t](v)


ELEM = {
    "EnumProperty": fstr, "NameProperty": fstr, "StrProperty": fstr, "Guid": guid, "IntProperty": i32,
    "Int64Property": i64, "FloatProperty": f32, "BoolProperty": flag, "ByteProperty": lambda b: bytes([b]),
}


def body(p):
    """(header, payload) of a property"""
    t = p["type"]
    i = opt(p.get("id"))
    v = p["value"]
    if t in ("IntProperty", "FixedPoint64Property"):
        return i, i32(v)
    if t == "Int64Property":
        return i, i64(v)
    if t == "FloatProperty":
        return i, f32(v)
    if t in ("StrProperty", "NameProperty"):
        return i, fstr(v)
    if t == "EnumProperty":
        return fstr(v["type"]) + i, fstr(v["value"])
    if t == "BoolProperty":
        return flag(v) + i, b""
    if t == "StructProperty":
        return fstr(p["struct_type"]) + guid(p["struct_id"]) + i, struct_value(p["struct_type"], v)
    if t == "ArrayProperty":
        at = p["array_type"]
        vals = v["values"]
        out = u32(len(vals))
        if at == "StructProperty":
            d = b"".join(struct_value(v["type_name"], x) for x in vals)
            out += fstr(v["prop_name"]) + fstr(v["prop_type"]) + u64(len(d)) + fstr(v["type_name"]) + guid(v["id"]) + b"\0" + d
        elif at == "ByteProperty":
            out += bytes(vals)
        else:
            out += b"".join(ELEM[at](x) for x in vals)
        return fstr(at) + i, out
    if t == "MapProperty":
        out = u32(0) + u32(len(v))
        for e in v:
            out += prop_value(p["key_type"], p["key_struct_type"], e["key"])
            out += prop_value(p["value_type"], p["value_struct_type"], e["value"])
        return fstr(p["key_type"]) + fstr(p["value_type"]) + i, out
    raise KeyError(t)


def prop(p):
    h, b = body(p)
    return fstr(p["type"]) + u64(len(b)) + h + b


def props(d):
    return b"".join(fstr(k) + prop(p) for k, p in d.items()) + fstr("None")


def gvas_header(h):
    out = i32(h["magic"]) + i32(h["save_game_version"]) + i32(h["package_file_version_ue4"]) + i32(h["package_file_version_ue5"])
    out += u16(h["engine_version_major"]) + u16(h["engine_version_minor"]) + u16(h["engine_version_patch"]) + u32(h["engine_version_changelist"])
    out += fstr(h["engine_version_branch"]) + i32(h["custom_version_format"]) + u32(len(h["custom_versions"]))
    for g, n in h["custom_versions"]:
        out += guid(g) + i32(n)
    return out + fstr(h["save_game_class_name"])
