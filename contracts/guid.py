"""C05: GUID text, UUID form, writing, equality and hashing, for all 16-byte values and histories.

Histories: the states reachable from a new object by the public operations are computed by closure
(each operation is executed from each state found, with symbolic bytes), so what holds in all of
them holds after any sequence of calls."""
import uuid

from .base import *
from .prims import CONTRACTS, SPEC, R, W
from palworld_save_tools import json_tools as J


def sym16(I, name="raw"):
    toks = [LE(1, lin_atom(Atom(f"{name}{i}", 0, 255))) for i in range(16)]
    I.ctx.inputs[name] = SBytes(toks)
    return toks


def guid_int(toks):
    """the 16 bytes as four little-endian words, most significant word first"""
    v = 0
    for w in range(4):
        x = 0
        for i in range(4):
            x = add(x, scale(toks[4 * w + i].lin, 256**i))
        v = add(scale(v, 1 << 32), x)
    return norm(v)


PATTERN = "h" * 8 + "-" + "h" * 4 + "-" + "h" * 4 + "-" + "h" * 4 + "-" + "h" * 12


def check_text(I, s, toks, what):
    s = snorm(s)
    if not S.is_str(s):
        raise Refuted(f"{what}: not a string")
    if isinstance(s, str):
        raise Refuted(f"{what}: constant text {s!r}")
    pat = ""
    for p in s.parts:
        if isinstance(p, HexTok):
            pat += "h" * p.width
        elif isinstance(p, str):
            pat += p
        else:
            raise Unsupported("GUID text of unknown shape")
    if pat != PATTERN:
        raise Refuted(f"{what}: text has the form {pat!r}")
    u = M.uuid_parse(I, s)
    same_value(I, u.lin, guid_int(toks), what)


def check_uuid(I, u, toks, what):
    if not isinstance(u, VUuid):
        raise Refuted(f"{what}: not a uuid.UUID but {kind(u)}")
    same_value(I, u.lin, guid_int(toks), what)


def mk(I, toks):
    return I.call(A.UUID, [SBytes(toks)])


def written(I, f, v):
    w = I.call(W, [], {})
    try:
        if f == "uuid_writer":
            I.call(A.uuid_writer, [w, v], {})
        else:
            I.call(getattr(W, f), [w, v], {})
    except PyExc as e:
        raise Refuted(f"{f} refuses a GUID: {e.exc}")
    return w.attrs["data"].toks


FORMS = ["object", "text", "uuid", "from_str"]


def form(I, toks, k):
    g = mk(I, toks)
    if k == "object":
        return g
    if k == "uuid":
        return VUuid(guid_int(toks))
    t = M.uuid_text(I, VUuid(guid_int(toks)))
    if k == "text":
        return t
    return I.call(A.UUID.from_str, [t])


def forms():
    def body(I):
        ctx = I.ctx
        toks = sym16(I)
        k = FORMS[ctx.choose(len(FORMS), "form")]
        ctx.inputs["form"] = k
        v = form(I, toks, k)
        f = ["guid", "optional_guid", "uuid_writer"][ctx.choose(3, "writer")]
        if f == "optional_guid" and ctx.choose(2, "absent") == 1:
            must_equal(ctx, written(I, f, None), [b"\0"], "absent GUID")
            return
        must_equal(ctx, written(I, f, v), ([b"\1"] if f == "optional_guid" else []) + toks, f"GUID given as {k} written by {f}")

    return body


def shown():
    def body(I):
        ctx = I.ctx
        toks = sym16(I)
        g = mk(I, toks)
        k = ctx.choose(4, "shown as")
        if k == 0:
            check_text(I, I.call(str, [g]), toks, "text of a GUID")
        elif k == 1:
            check_uuid(I, I.call(A.UUID.UUID, [g]), toks, "UUID form of a GUID")
        elif k == 2:
            check_text(I, M.json_copy(I, g, J.CustomEncoder), toks, "JSON form of a GUID")
        else:
            check_text(I, M.json_copy(I, VUuid(guid_int(toks)), J.CustomEncoder), toks, "JSON form of a standard-library UUID")

    return body


OPS = ["str", "UUID", "hash", "eq", "repr", "write"]


def clone(I, g):
    o = VObj(I.ctx, g.cls)
    o.attrs.update(g.attrs)
    return o


def apply(I, op, g, other, toks):
    """run one operation; check its result; g may change"""
    if op == "str":
        check_text(I, I.call(str, [g]), toks, "text of a GUID after earlier operations")
    elif op == "UUID":
        check_uuid(I, I.call(A.UUID.UUID, [g]), toks, "UUID form after earlier operations")
    elif op == "hash":
        I.call(hash, [g])
    elif op == "eq":
        if ops.compare(I.ctx, "Eq", g, other, I) is not True:
            raise Refuted("equal GUIDs compare unequal after earlier operations")
        if ops.compare(I.ctx, "NotEq", g, other, I) is not False:
            raise Refuted("equal GUIDs compare as different after earlier operations")
    elif op == "repr":
        I.call(repr, [g])
    elif op == "write":
        must_equal(I.ctx, written(I, "guid", g), toks, "GUID written after earlier operations")


def same_state(I, a, b):
    if set(a.attrs) != set(b.attrs):
        return False
    for k in a.attrs:
        try:
            same_value(I, a.attrs[k], b.attrs[k])
        except Refuted:
            return False
    return True


def states(I, toks):
    """all states reachable from a new object"""
    out = [mk(I, toks)]
    i = 0
    while i < len(out):
        for op in OPS:
            g = clone(I, out[i])
            apply(I, op, g, mk(I, toks), toks)
            if not any(same_state(I, g, s) for s in out):
                out.append(g)
                if len(out) > 64:
                    raise Unsupported("more than 64 GUID states")
        i += 1
    return out


def history():
    def body(I):
        ctx = I.ctx
        toks = sym16(I)
        st = states(I, toks)
        hs = [hash_of(I, clone(I, s)) for s in st]
        for h in hs[1:]:
            if not hash_same(I, h, hs[0]):
                raise Refuted("equal GUIDs have different hashes depending on earlier operations")
        for a in st:
            for b in st:
                apply(I, "eq", clone(I, a), clone(I, b), toks)

    return body


def hash_of(I, g):
    h = I.call(hash, [g])
    return getattr(h, "term", h)


def hash_same(I, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(hash_same(I, x, y) for x, y in zip(a, b))
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    try:
        same_value(I, a, b)
    except Refuted:
        return False
    return True


def different():
    """GUIDs that differ in a byte compare unequal, in every state"""

    def body(I):
        ctx = I.ctx
        i = ctx.choose(16, "differing byte")
        ta, tb = sym16(I, "raw"), sym16(I, "other")
        d = sub(ta[i].lin, tb[i].lin)
        if ctx.choose(2, "order") == 0:
            ctx.assume(SBool("ge", sub(d, 1)))
        else:
            ctx.assume(SBool("ge", sub(scale(d, -1), 1)))
        sa, sb = states(I, ta), states(I, tb)
        for a in sa:
            for b in sb:
                a2, b2 = clone(I, a), clone(I, b)
                if ops.compare(ctx, "Eq", a2, b2, I) is not False:
                    raise Refuted("different GUIDs compare equal")
                if ops.compare(ctx, "NotEq", clone(I, a), clone(I, b), I) is not True:
                    raise Refuted("different GUIDs do not compare as different")

    return body
