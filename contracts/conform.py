"""The verifier against CPython: functions of the repository are interpreted on concrete inputs and
the results compared with those of the real code. Part of the trusted base that is tested, not proved."""
import contextlib
import json
import io
import time

from .base import *
from .prims import R, W
from pyvc.ctx import Ctx
from pyvc.interp import Interp
from palworld_save_tools import gvas as V, json_tools as J, paltypes as PT

WORLD = ["GroupSaveDataMap", "CharacterSaveParameterMap", "ItemContainerSaveData", "CharacterContainerSaveData", "DynamicItemSaveData", "MapObjectSaveData", "BaseCampSaveData", "WorkSaveData", "FoliageGridSaveDataMap"]


class Odd(Exception):
    pass


def native(v):
    """a concrete value of the interpreter as a Python value"""
    v = M.simp(v)
    if isinstance(v, (SBytes, VBytearray)):
        t = B.toks_of(v)
        if any(not isinstance(x, bytes) for x in t):
            t = [conc_tok(x) for x in t]
        return b"".join(t)
    if isinstance(v, VByteSeq):
        return list(native(v.sb))
    if isinstance(v, (bool, int, float, str, bytes, type(None))):
        return v
    if isinstance(v, SStr):
        x = snorm(v)
        if isinstance(x, str):
            return x
        raise Odd(f"string {v}")
    if isinstance(v, Lin):
        x = norm(v)
        if isinstance(x, int):
            return x
        raise Odd(f"number {v}")
    if isinstance(v, (VDict, dict)):
        if isinstance(v, dict):
            return {k: native(x) for k, x in v.items()}
        if v.rest or any(not isinstance(e, list) for e in v.ents):
            raise Odd("open dict")
        return {native(k): native(x) for k, x in v.ents}
    if isinstance(v, (VList, list, tuple)):
        return [native(x) for x in ops.items_of(v)]
    if isinstance(v, VObj):
        if "raw_bytes" in v.attrs:
            return ("guid", native(v.attrs["raw_bytes"]))
        return {k: native(x) for k, x in v.attrs.items()}
    if isinstance(v, VUuid):
        return ("uuid", norm(v.lin))
    raise Odd(type(v).__name__)


def conc_tok(t):
    if isinstance(t, bytes):
        return t
    raise Odd(f"token {t}")


def plain(v):
    """values of the real code in the same form"""
    import uuid

    if isinstance(v, A.UUID):
        return ("guid", bytes(v.raw_bytes))
    if isinstance(v, uuid.UUID):
        return ("uuid", v.int)
    if isinstance(v, dict):
        return {k: plain(x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, (bytearray, memoryview)):
        return bytes(v)
    if isinstance(v, V.GvasHeader):
        return {k: plain(x) for k, x in vars(v).items()}
    return v


def same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b and str(a) == str(b) or a != a and b != b
    return type(a) is type(b) and a == b


def interpreted(fn):
    """('ok', value) | ('raise', exception class name) | ('out', why) when outside the interpreter's reach"""
    ctx = Ctx([], {"feas_cache": {}, "shapes": {}, "symw": set()})
    I = Interp(ctx, contracts=None, hooks=None)
    try:
        v = fn(I)
        if ctx.trace and any(n > 1 for _, n, _ in ctx.trace):
            return "out", "forks on concrete input"
        return "ok", native(v)
    except PyExc as e:
        c = getattr(e.exc, "cls", None) or type(e.exc)
        return "raise", c.__name__
    except (Unsupported, Odd, PrunePath) as e:
        return "out", str(e)


def real(fn):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            return "ok", plain(fn())
    except Exception as e:
        return "raise", type(e).__name__


def cases(g):
    """(name, real, interpreted)"""
    from native import spec as S
    from native.gen import Gen, KINDS
    from .registry import BLOB_PROPS, WITH_KIND, blob_fns

    r = g.r
    key = r.choice([k for ks in BLOB_PROPS.values() for k in ks])
    kind = g.kind(key)
    data = g.blob(key, kind)
    if r.random() < 0.3:
        data = data[: r.randrange(len(data) + 1)] + g.bytes(r.choice([0, 0, 1, 4]))
    a = [kind] if key in WITH_KIND else []
    ea = a if WITH_KIND.get(key) else []
    dec, enc = blob_fns(key)
    yield key, lambda: dec(A.FArchiveReader(b""), tuple(data), *a), lambda I: I.call(dec, [I.call(A.FArchiveReader, [b""], {}), VByteSeq("tuple", SBytes([bytes(data)]))] + a, {})
    yield key + " encoded", lambda: enc(dec(A.FArchiveReader(b""), tuple(data), *a), *ea), lambda I: I.call(enc, [I.call(dec, [I.call(A.FArchiveReader, [b""], {}), VByteSeq("tuple", SBytes([bytes(data)]))] + a, {})] + ea, {})
    t, h = g.tree(r.choice([0, 1, 1, 2]))
    b = S.props(t)
    if r.random() < 0.3:
        b = b[: r.randrange(len(b) + 1)]

    def tree(I, back):
        rd = I.call(R, [b], {"type_hints": {k: v for k, v in h.items()}})
        v = I.call(R.properties_until_end, [rd], {})
        if not back:
            return v
        w = I.call(W, [], {})
        I.call(W.properties, [w, v], {})
        return I.call(W.bytes, [w], {})

    def rtree(back):
        v = A.FArchiveReader(b, h).properties_until_end()
        if not back:
            return v
        w = A.FArchiveWriter()
        w.properties(v)
        return w.bytes()

    for back in (False, True):
        yield "properties" + " written" * back, lambda: rtree(back), lambda I: tree(I, back)
    nan = bool(r.randrange(2))
    world = S.props(g.world([r.choice(WORLD)]))

    def carried(I, back):
        rd = I.call(R, [world], {"type_hints": PT.PALWORLD_TYPE_HINTS, "custom_properties": PT.PALWORLD_CUSTOM_PROPERTIES, "allow_nan": nan})
        v = M.json_copy(I, I.call(R.properties_until_end, [rd], {}), J.CustomEncoder)
        if not back:
            return v
        w = I.call(W, [PT.PALWORLD_CUSTOM_PROPERTIES], {})
        I.call(W.properties, [w, v], {})
        return I.call(W.bytes, [w], {})

    def rcarried(back):
        v = A.FArchiveReader(world, PT.PALWORLD_TYPE_HINTS, PT.PALWORLD_CUSTOM_PROPERTIES, allow_nan=nan).properties_until_end()
        v = json.loads(json.dumps(v, cls=J.CustomEncoder))
        if not back:
            return v
        w = A.FArchiveWriter(PT.PALWORLD_CUSTOM_PROPERTIES)
        w.properties(v)
        return w.bytes()

    if len(world) < 6000 and r.random() < 0.25:
        for back in (False, True):
            yield "world" + " written" * back, lambda: rcarried(back), lambda I: carried(I, back)
    x, y = g.bytes(16), g.bytes(16)
    if r.random() < 0.3:
        y = x
    f, pre = r.choice([str, A.UUID.UUID]), r.choice([None, str, hash])

    def cmp(I):
        a, b = I.call(A.UUID, [x], {}), I.call(A.UUID, [y], {})
        if pre is not None:
            I.call(pre, [a], {})
        return [I.call(f, [a], {}), I.call(A.UUID.__eq__, [a, b], {})]

    def rcmp():
        a, b = A.UUID(x), A.UUID(y)
        if pre is not None:
            pre(a)
        return [f(a), a == b]

    yield "GUID " + f.__name__, rcmp, cmp
    codes = [r.choice([0.0, -0.0, 1.0, -1.0, float(r.randrange(-(1 << r.randrange(1, 70)), 1 << r.randrange(1, 70)))]) for _ in range(3)]

    def pv(I):
        w = I.call(W, [], {})
        I.call(W.packed_vector, [w, 1] + codes, {})
        b = I.call(W.bytes, [w], {})
        return [b, I.call(R.packed_vector, [I.call(R, [b], {}), 1], {})]

    def rpv():
        w = A.FArchiveWriter()
        w.packed_vector(1, *codes)
        return [w.bytes(), A.FArchiveReader(w.bytes()).packed_vector(1)]

    yield "packed vector", rpv, pv
    hd = S.gvas_header(g.header())
    if r.random() < 0.3:
        hd = hd[: r.randrange(len(hd) + 1)]
    yield "header", lambda: V.GvasHeader.read(A.FArchiveReader(hd)).dump(), lambda I: I.call(V.GvasHeader.dump, [I.call(V.GvasHeader.read, [I.call(R, [hd], {})], {})], {})
    for n in r.sample(["i16", "u16", "i32", "u32", "i64", "u64", "byte", "bool", "float", "double", "fstring", "optional_guid", "guid", "compressed_short_rotator", "vector_dict", "quat_dict", "ftransform"], 4):
        x = S.fstr(g.str()) + g.bytes(2) if n == "fstring" and r.random() < 0.7 else g.bytes(r.choice([0, 1, 2, 3, 4, 8, 16, 17, 40, 90]))
        yield n, lambda: getattr(A.FArchiveReader(x), n)(), lambda I: I.call(getattr(R, n), [I.call(R, [x], {})], {})
    for n, v in r.sample([("i16", g.int(17, True)), ("u16", g.int(17, True)), ("i32", g.int(33, True)), ("u32", g.int(33, True)), ("i64", g.int(65, True)), ("u64", g.int(65, True)), ("byte", g.int(9, True)), ("fstring", g.str()), ("double", r.choice([0.0, -0.0, 1.5, 1e300, float("inf"), float("nan")]))], 4):

        def wr(I):
            w = I.call(W, [], {})
            I.call(getattr(W, n), [w, v], {})
            return I.call(W.bytes, [w], {})

        def wn():
            w = A.FArchiveWriter()
            getattr(w, n)(v)
            return w.bytes()

        yield "write " + n, wn, wr


def run(seconds, seed, limit=None):
    """(compared, out of reach, differences, compared without an exception per function)"""
    from native.gen import Gen

    t = time.process_time()
    n, out, bad, s, by = 0, {}, [], 0, {}
    while time.process_time() - t < seconds:
        g = Gen(f"{seed}/{s}")
        s += 1
        for name, r, i in cases(g):
            a = real(r)
            b = interpreted(i)
            if b[0] == "out":
                out.setdefault(b[1][:80], name)
                continue
            n += 1
            by[name.split()[0]] = by.get(name.split()[0], 0) + (a[0] == "ok")
            if a[0] != b[0] or not same(a[1], b[1]):
                bad.append(f"{name}: the code gives {a!r:.300}, the interpreter {b!r:.300}")
                if len(bad) > 5:
                    return n, out, bad, by
    return n, out, bad, by
