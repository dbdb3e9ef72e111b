"""Shared pieces of the obligations."""
from pyvc.terms import *
from pyvc.values import *
from pyvc import bytesops as B
from pyvc import models as M
from pyvc import ops
from pyvc import strops as S
from palworld_save_tools import archive as A


class Obl:
    """One proof obligation.

    name    unique id
    props   properties that rest on it directly
    body    body(I): one path; raises Refuted when the obligation fails on it
    oracle  oracle(inputs) -> None | message: judges concrete inputs on the real code
    fns     the repository functions whose contract this obligation establishes
    """

    def __init__(self, name, props, body, oracle=None, contracts=None, opts=None, hooks=None, max_paths=4000, budget=60, min_checked=1, doc="", bounded=None):
        self.name = name
        self.props = props
        self.body = body
        self.oracle = oracle
        self.contracts = contracts
        self.opts = opts or {}
        self.hooks = hooks
        self.max_paths = max_paths
        self.budget = budget
        self.min_checked = min_checked
        self.doc = doc
        self.bounded = bounded


def must_equal(ctx, a, b, what):
    try:
        B.toks_equal(ctx, a, b, what)
    except B.Mismatch as m:
        raise Refuted(m.msg, m.extra)


def free_bytes(I, name="in", lo=0):
    n = I.ctx.fresh_int("n", lo, None, is_len=True)
    raw = Raw(name, n)
    I.ctx.inputs[name] = raw
    return raw


def any_str(I, name="s"):
    l = StrLeaf(name)
    l.n.hi = 1 << 29  # stored lengths are 32-bit
    I.ctx.inputs[name] = l
    return SStr([l])


def reader_on(I, toks, pre=True, **kw):
    """an FArchiveReader positioned after an arbitrary prefix"""
    ctx = I.ctx
    if pre:
        p = Raw("pre", ctx.fresh_int("npre", 0, None, is_len=True))
        toks = [p] + list(toks)
    r = I.call(A.FArchiveReader, [SBytes(toks)], kw)
    io = r.attrs["data"]
    if not isinstance(io, VBytesIO):
        raise Unsupported("reader representation")
    if pre:
        io.toks = [p] + flat(io.toks[1:]) if io.toks and io.toks[0] is p else io.toks
        io.cur = 1
    return r


def is_stream(o):
    return isinstance(o, VObj) and isinstance(o.attrs.get("data"), VBytesIO)


def rest_of(r):
    io = r.attrs["data"]
    return flat(io.toks[io.cur :])


def prove(ctx, b, msg):
    if isinstance(b, bool):
        if not b:
            raise Refuted(msg)
        return
    p = ctx.prove(b)
    if p is True:
        return
    if p is None:
        raise Unsupported("unknown: " + msg)
    raise Refuted(msg, b.neg())


def same_value(I, a, b, what="value", loose=False):
    """prove that two values are equal (loose: as JSON-like data: tuples, lists and byte strings
    with the same items are the same, GUIDs are the same as their text)"""
    ctx = I.ctx
    a, b = M.simp(a), M.simp(b)
    if a is b:
        return
    if isinstance(a, (Lin, int)) and isinstance(b, (Lin, int)) and not isinstance(a, bool) and not isinstance(b, bool):
        d = norm(sub(a, b))
        prove(ctx, SBool("eq", d) if isinstance(d, Lin) else d == 0, f"{what}: {a} versus {b}")
        return
    if isinstance(a, (bool, SBool)) and isinstance(b, (bool, SBool)):
        x = ctx.decide(a) if isinstance(a, SBool) else a
        if isinstance(b, SBool):
            prove(ctx, b if x else b.neg(), f"{what}: {a} versus {b}")
            return
        if x != b:
            raise Refuted(f"{what}: {a} versus {b}")
        return
    if S.is_str(a) and S.is_str(b):
        if not S.same_str(a, b):
            a2, b2 = snorm(a), snorm(b)
            if isinstance(a2, str) and isinstance(b2, str):
                raise Refuted(f"{what}: {a2!r} versus {b2!r}")
            if S.str_eq(ctx, a2, b2):
                return
            raise Refuted(f"{what}: strings differ {a} versus {b}")
        return
    if isinstance(a, (SFloat, SIntFloat, SRound32, float)) and isinstance(b, (SFloat, SIntFloat, SRound32, float)):
        if not B.float_same(ctx, a, b):
            if isinstance(a, SFloat) and isinstance(b, float) or isinstance(b, SFloat) and isinstance(a, float):
                l, c = (a, b) if isinstance(a, SFloat) else (b, a)
                if l.cls == "nan" and c != c:
                    return
                if l.cls == "inf" and c == float("inf") or l.cls == "ninf" and c == float("-inf"):
                    return
            raise Refuted(f"{what}: floats differ {a} versus {b}")
        return
    if isinstance(a, VUuid) and isinstance(b, VUuid):
        d = norm(sub(a.lin, b.lin))
        prove(ctx, SBool("eq", d) if isinstance(d, Lin) else d == 0, f"{what}: uuid differs")
        return
    if isinstance(a, VObj) and isinstance(b, VObj) and a.cls is b.cls is A.UUID:
        must_equal(ctx, B.toks_of(a.attrs["raw_bytes"]), B.toks_of(b.attrs["raw_bytes"]), what)
        return
    if loose:
        for x, y in ((a, b), (b, a)):
            if isinstance(x, VObj) and x.cls is A.UUID and S.is_str(y):
                t = I.call(str, [x])
                if S.same_str(t, y):
                    return
                raise Refuted(f"{what}: GUID differs")
            if isinstance(x, VObj) and x.cls is A.UUID and isinstance(y, VUuid):
                return same_value(I, I.call(A.UUID.UUID, [x]), y, what)
    seqs = (VList, list, tuple, VByteSeq, VBytearray, SBytes, bytes, bytearray)
    bseq = (VByteSeq, VBytearray, SBytes, bytes, bytearray)
    if isinstance(a, seqs) and isinstance(b, seqs):
        if not loose:
            ka, kb = kind(a), kind(b)
            if ka != kb:
                raise Refuted(f"{what}: {ka} versus {kb}")
        if isinstance(a, bseq) or isinstance(b, bseq):
            ta = B.toks_of(a) if isinstance(a, bseq) else B.toks_of(I.call(bytes, [a]))
            tb = B.toks_of(b) if isinstance(b, bseq) else B.toks_of(I.call(bytes, [b]))
            must_equal(ctx, ta, tb, what)
            return
        xa, xb = list(ops.items_of(a)), list(ops.items_of(b))
        xa = [x for x in xa if not (isinstance(x, Gen) and not isinstance(norm(x.count), Lin) and norm(x.count) <= 0)]
        xb = [x for x in xb if not (isinstance(x, Gen) and not isinstance(norm(x.count), Lin) and norm(x.count) <= 0)]
        if len(xa) != len(xb):
            raise Refuted(f"{what}: different number of items {a} versus {b}")
        for i, (x, y) in enumerate(zip(xa, xb)):
            if isinstance(x, Gen) != isinstance(y, Gen):
                raise Refuted(f"{what}: different items")
            if isinstance(x, Gen):
                d = norm(sub(x.count, y.count))
                prove(ctx, SBool("eq", d) if isinstance(d, Lin) else d == 0, f"{what}: item counts differ")
                if len(x.elems) != len(y.elems):
                    raise Refuted(f"{what}: items per step differ")
                for p, q in zip(x.elems, y.elems):
                    same_value(I, p, q, what + "[i]", loose)
            else:
                same_value(I, x, y, f"{what}[{i}]", loose)
        return
    if isinstance(a, dict):
        a = VDict(ctx, a.items())
    if isinstance(b, dict):
        b = VDict(ctx, b.items())
    if isinstance(a, VDict) and isinstance(b, VDict):
        if (a.rest is None) != (b.rest is None) or (a.rest is not None and a.tag is not b.tag):
            raise Refuted(f"{what}: other entries lost")
        ea, eb = list(a.ents), list(b.ents)
        if len(ea) != len(eb):
            ka = [e[0] if isinstance(e, list) else "*" for e in ea]
            kb = [e[0] if isinstance(e, list) else "*" for e in eb]
            raise Refuted(f"{what}: entries differ {ka} versus {kb}")
        used = set()
        for x in ea:
            m = None
            for j, y in enumerate(eb):
                if j in used or isinstance(x, GenEntry) != isinstance(y, GenEntry):
                    continue
                if isinstance(x, GenEntry):
                    if S.same_str(x.key, y.key):
                        m = j
                        break
                elif (S.is_str(x[0]) and S.is_str(y[0]) and S.same_str(x[0], y[0])) or (not S.is_str(x[0]) and x[0] == y[0]):
                    m = j
                    break
            if m is None:
                raise Refuted(f"{what}: entry {x[0] if isinstance(x, list) else x.key} lost")
            used.add(m)
            y = eb[m]
            if isinstance(x, GenEntry):
                d = norm(sub(x.count, y.count))
                prove(ctx, SBool("eq", d) if isinstance(d, Lin) else d == 0, f"{what}: entry counts differ")
                same_value(I, x.val, y.val, what + ".*", loose)
            else:
                same_value(I, x[1], y[1], f"{what}.{x[0]}", loose)
        return
    if isinstance(a, VOpaque) and isinstance(b, VOpaque) and a.tag == b.tag:
        return
    if isinstance(a, (Poison,)) or isinstance(b, Poison):
        raise Unsupported((a if isinstance(a, Poison) else b).why)
    if a is None or b is None or kind(a) != kind(b):
        raise Refuted(f"{what}: {a} versus {b}")
    if ops.native_ok(a) and ops.native_ok(b):
        if a == b:
            return
        raise Refuted(f"{what}: {a!r} versus {b!r}")
    raise Unsupported(f"cannot compare {type(a).__name__} and {type(b).__name__}")


def kind(v):
    if isinstance(v, (VList, list)):
        return "list"
    if isinstance(v, tuple):
        return "tuple"
    if isinstance(v, VByteSeq):
        return v.kind
    if isinstance(v, (SBytes, bytes)):
        return "bytes"
    if isinstance(v, (VBytearray, bytearray)):
        return "bytearray"
    if S.is_str(v):
        return "str"
    if isinstance(v, (bool, SBool)):
        return "bool"
    if isinstance(v, (int, Lin)):
        return "int"
    if isinstance(v, (float, SFloat, SIntFloat, SRound32, SFin)):
        return "float"
    if isinstance(v, (dict, VDict)):
        return "dict"
    if isinstance(v, VObj):
        return v.cls.__name__
    return type(v).__name__


def outcome(I, fn):
    """('ok', value) or ('raise', exception)"""
    try:
        return ("ok", fn())
    except PyExc as e:
        return ("raise", e.exc)
