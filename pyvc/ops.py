"""Operators over interpreter values."""
import math
import operator

from .terms import *
from .values import *
from . import bytesops as B
from . import strops as S

NUM = (int, float, Lin, SBool, SFloat, SIntFloat, SFin, SRound32)


def exc(cls, *a):
    return PyExc(VExc(cls, a))


def is_int(v):
    return isinstance(v, (int, Lin, SBool))


def is_bytes(v):
    return isinstance(v, (bytes, SBytes, VBytearray, bytearray))


def as_lin(ctx, v):
    """int view: native int or Lin"""
    if isinstance(v, bool):
        return int(v)
    if isinstance(v, int):
        return v
    if isinstance(v, Lin):
        return norm(v)
    if isinstance(v, SBool):
        r = sbool_int(v)
        if r is not None:
            return r
        return int(ctx.decide(v))
    if isinstance(v, SFin):
        return fin_to_lin(ctx, v)
    raise Unsupported("integer expected: " + repr(v))


def fin_to_lin(ctx, f):
    a = f.atom
    n = norm(lin_atom(a))
    if not isinstance(n, Lin):
        return f.fn(n)
    if len(n.t) != 1 or n.c or list(n.t.values()) != [1]:
        raise Unsupported("finite function of a decomposed value")
    (a2, _), = n.t.items()
    lo, hi = a2.lo, a2.hi
    if lo is None or hi is None or hi - lo > 1 << 17:
        raise Unsupported("domain too large")
    key = ("fin", a2.uid, lo, hi, f.desc)
    bad = ctx.memo.get(key)
    if bad is None:
        bad = ()
        for v in range(lo, hi + 1):
            r = f.fn(v)
            if not isinstance(r, int):
                raise Unsupported("non-integer finite function")
            if r != v:
                bad = (v, r)
                break
        ctx.memo[key] = bad
        ctx.proved.append(("enumeration", hi - lo + 1))
    if not bad:
        return lin_atom(a2)
    if ctx.choose(2, "finite function differs from identity") == 0:
        ctx.assume(SBool("eq", sub(lin_atom(a2), bad[0])))
        return bad[1]
    raise Unsupported("finite function is not the identity")


FCLS = ("finite", "nan", "inf", "ninf")


def float_in(ctx, f, subset):
    if isinstance(f, SRound32):
        raise Unsupported("class of rounded float")
    cur = f.cls
    cur = set(FCLS) if cur is None else ({cur} if isinstance(cur, str) else set(cur))
    t = cur & set(subset)
    if t == cur:
        return True
    if not t:
        return False
    if ctx.choose(2, f"{f} in {sorted(subset)}") == 0:
        new = t
        r = True
    else:
        new = cur - t
        r = False
    f.cls = next(iter(new)) if len(new) == 1 else frozenset(new)
    return r


def truth(ctx, v, interp=None):
    if v is None or isinstance(v, (bool, int, float, str, bytes, tuple, frozenset)):
        return bool(v)
    if isinstance(v, SBool):
        return ctx.decide(v)
    if isinstance(v, SMember):
        key = ("member", v.tag, v.lit)
        if key not in ctx.memo:
            ctx.memo[key] = ctx.choose(2, repr(v)) == 1
        return ctx.memo[key] != v.no
    if isinstance(v, SelList):
        return True
    if isinstance(v, Lin):
        v = norm(v)
        if not isinstance(v, Lin):
            return bool(v)
        return ctx.decide(SBool("ne", v))
    if isinstance(v, SStr):
        return S.truthy(ctx, v)
    if isinstance(v, (SBytes, VByteSeq, VBytearray)):
        n = B.blen(v)
        return ctx.decide(SBool("ge", sub(n, 1)) if isinstance(norm(n), Lin) else norm(n) >= 1)
    if isinstance(v, VList):
        n = list_len(v)
        return ctx.decide(SBool("ge", sub(n, 1)) if isinstance(n, Lin) else n >= 1)
    if isinstance(v, VDict):
        n = dict_len(v)
        return ctx.decide(SBool("ge", sub(n, 1)) if isinstance(n, Lin) else n >= 1)
    if isinstance(v, VSet):
        return bool(v.items)
    if isinstance(v, SFin):
        return truth(ctx, fin_to_lin(ctx, v))
    if isinstance(v, VObj):
        f = None
        import inspect

        f = inspect.getattr_static(v.cls, "__bool__", None)
        if f is not None and interp is not None:
            return truth(ctx, interp.call(f, [v], {}))
        f = inspect.getattr_static(v.cls, "__len__", None)
        if f is not None:
            if interp is not None:
                return truth(ctx, interp.call(f, [v], {}))
            raise Unsupported("truth of object with __len__")
        return True
    if isinstance(v, Poison):
        raise Unsupported(v.why)
    if isinstance(v, VOpaque) and v.kind in ("props", "num", "pbody"):
        raise Unsupported("truth of opaque value")
    if isinstance(v, (VFunc, Bound, BMeth, VExc, VUuid, VBytesIO, VOpaque, VPartial)):
        return True
    if isinstance(v, SFloat):
        raise Unsupported("truth of float")
    if isinstance(v, (dict, list, set, range)):
        return bool(v)
    if callable(v) or isinstance(v, type):
        return True
    try:
        return bool(v)
    except Exception:
        raise Unsupported("truth of " + repr(type(v)))


def list_len(l):
    if l.poisoned:
        raise Unsupported(l.poisoned)
    n = 0
    for i in l.items:
        if isinstance(i, Gen):
            n = add(n, scale(i.count, len(i.elems)))
        else:
            n = add(n, 1)
    return norm(n)


def dict_len(d):
    heap_read(d)
    if d.rest is not None:
        raise Unsupported("length of open dict")
    n = 0
    for e in d.ents:
        n = add(n, e.count if isinstance(e, GenEntry) else 1)
    return norm(n)


def fold_fin(ctx, op, a, b, name):
    """arithmetic with a finite-domain operand"""

    def one(x):
        if isinstance(x, SFin):
            return x.atom, x.fn, x.desc
        if isinstance(x, Lin):
            x = norm(x)
            if isinstance(x, Lin) and len(x.t) == 1:
                (at, k), = x.t.items()
                if at.lo is not None and at.hi is not None and at.hi - at.lo <= 1 << 17:
                    c = x.c
                    return at, (lambda v: k * v + c), f"{k}*v+{c}"
        return None

    ca, cb = one(a), one(b)
    if ca and isinstance(b, (int, float)):
        at, fn, d = ca
        return SFin(at, lambda v: op(fn(v), b), f"({d}){name}{b!r}")
    if cb and isinstance(a, (int, float)):
        at, fn, d = cb
        return SFin(at, lambda v: op(a, fn(v)), f"{a!r}{name}({d})")
    if ca and cb and ca[0] is cb[0]:
        return SFin(ca[0], lambda v: op(ca[1](v), cb[1](v)), f"({ca[2]}){name}({cb[2]})")
    raise Unsupported("float arithmetic")


def pow2(v):
    return v > 0 and v & (v - 1) == 0


def bit_and(ctx, a, b):
    if not isinstance(a, Lin):
        a, b = b, a
    if isinstance(b, Lin):
        for x, y in ((a, b), (b, a)):
            lo, hi = rng(y)
            if lo == hi and lo is not None:
                return bit_and(ctx, x, lo)
        u = ctx.unique(b)
        if u is not None:
            return bit_and(ctx, a, u)
        u = ctx.unique(a)
        if u is not None:
            return bit_and(ctx, b, u)
        raise Unsupported("& of two symbolic values")
    if not isinstance(a, Lin):
        return a & b
    if b == -1:
        return a
    if b == 0:
        return 0
    if b < 0:
        # a & ~(m) = a - (a & m) for m = ~b
        return sub(a, bit_and(ctx, a, ~b))
    out = 0
    bit = 0
    m = b
    while m:
        z = (m & -m).bit_length() - 1
        m >>= z
        bit += z
        ones = 0
        while m & 1:
            ones += 1
            m >>= 1
        q, _ = divmod_const(a, 1 << bit, ctx) if bit else (a, 0)
        _, r = divmod_const(q, 1 << ones, ctx)
        out = add(out, scale(r, 1 << bit))
        bit += ones
    return norm(out)


def bit_or(ctx, a, b):
    if not isinstance(a, Lin) and not isinstance(b, Lin):
        return a | b
    for x, y in ((a, b), (b, a)):
        if not isinstance(x, Lin) and x == 0:
            return y
        tz = trailing_zeros(x)
        lo, hi = rng(y)
        if lo is not None and hi is not None and lo >= 0 and hi < (1 << min(tz, 4096)):
            return add(x, y)
    # a | b = a + b - (a & b)
    return sub(add(a, b), bit_and(ctx, a, b))


def bit_xor(ctx, a, b):
    if not isinstance(a, Lin) and not isinstance(b, Lin):
        return a ^ b
    for x, y in ((a, b), (b, a)):
        lo, hi = rng(y)
        if lo == 0 and hi == 0:
            return x
        if lo == -1 and hi == -1:
            return sub(-1, x)
        if lo is not None and lo >= -1 and hi is not None and hi <= 0:
            r = ctx.fresh_int("xor")
            ctx.disj.append([
                [SBool("eq", norm(y)), SBool("eq", sub(r, x))],
                [SBool("eq", add(y, 1)), SBool("eq", add(add(r, x), 1))],
            ])
            xl, xh = rng(x)
            at = next(iter(r.t))
            if xl is not None and xh is not None:
                at.lo, at.hi = min(xl, -xh - 1), max(xh, -xl - 1)
                if ctx.prove(SBool("ge", r)) is True:
                    at.lo = 0
            return r
    return sub(add(a, b), scale(bit_and(ctx, a, b), 2))


NATIVE = {
    "Add": operator.add, "Sub": operator.sub, "Mult": operator.mul, "Div": operator.truediv,
    "FloorDiv": operator.floordiv, "Mod": operator.mod, "Pow": operator.pow,
    "LShift": operator.lshift, "RShift": operator.rshift, "BitOr": operator.or_,
    "BitAnd": operator.and_, "BitXor": operator.xor, "MatMult": operator.matmul,
}


def native_ok(v):
    if v is None or isinstance(v, (bool, int, float, complex, str, bytes, frozenset)):
        return True
    if isinstance(v, tuple):
        return all(native_ok(x) for x in v)
    return False


def binop(ctx, name, a, b, interp=None):
    if isinstance(a, Lin):
        a = norm(a)
    if isinstance(b, Lin):
        b = norm(b)
    if isinstance(a, SStr):
        a = snorm(a)
    if isinstance(b, SStr):
        b = snorm(b)
    if isinstance(a, SBytes):
        a = B.mk(a.toks)
    if isinstance(b, SBytes):
        b = B.mk(b.toks)
    for v in (a, b):
        if isinstance(v, Poison):
            raise Unsupported(v.why)
    if native_ok(a) and native_ok(b):
        try:
            return NATIVE[name](a, b)
        except Exception as e:
            raise PyExc(VExc(type(e), e.args))
    if isinstance(a, VObj) or isinstance(b, VObj):
        raise Unsupported("operator on object")
    if isinstance(a, SFin) or isinstance(b, SFin):
        if isinstance(a, Lin) and isinstance(b, SFin) or isinstance(a, SFin) and isinstance(b, Lin):
            a = as_lin(ctx, a) if isinstance(a, SFin) and name in ("BitOr", "BitAnd") else a
            b = as_lin(ctx, b) if isinstance(b, SFin) and name in ("BitOr", "BitAnd") else b
        if isinstance(a, SFin) or isinstance(b, SFin):
            return fold_fin(ctx, NATIVE[name], a, b, name)
    # integers
    if is_int(a) and is_int(b):
        a2, b2 = as_lin(ctx, a), as_lin(ctx, b)
        if not isinstance(a2, Lin) and not isinstance(b2, Lin):
            return binop(ctx, name, a2, b2)
        if name == "Add":
            return add(a2, b2)
        if name == "Sub":
            return norm(sub(a2, b2))
        if name == "Mult":
            if not isinstance(a2, Lin):
                return scale(b2, a2)
            if not isinstance(b2, Lin):
                return scale(a2, b2)
            u = ctx.unique(b2)
            if u is not None:
                return scale(a2, u)
            u = ctx.unique(a2)
            if u is not None:
                return scale(b2, u)
            raise Unsupported("nonlinear product")
        if name in ("FloorDiv", "Mod", "RShift", "LShift") and isinstance(b2, Lin):
            u = ctx.unique(b2)
            if u is None:
                raise Unsupported(name + " by symbolic value")
            b2 = u
        if name in ("FloorDiv", "Mod"):
            if b2 == 0:
                raise exc(ZeroDivisionError, "division by zero")
            if b2 < 0:
                raise Unsupported("division by negative")
            q, r = divmod_const(a2, b2, ctx)
            return norm(q if name == "FloorDiv" else r)
        if name == "LShift":
            return scale(a2, 1 << b2)
        if name == "RShift":
            lo, hi = rng(a2)
            if lo is not None and hi is not None and lo >> b2 == -1 and hi >> b2 == 0 and not ctx.nofork:
                return 0 if ctx.decide(SBool("ge", a2)) else -1
            return norm(divmod_const(a2, 1 << b2, ctx)[0])
        if name == "BitOr":
            return norm(bit_or(ctx, a2, b2))
        if name == "BitAnd":
            if isinstance(a, SBool) and isinstance(b, (SBool, bool)):
                return ctx.decide(a) and (ctx.decide(b) if isinstance(b, SBool) else b)
            return norm(bit_and(ctx, a2, b2))
        if name == "BitXor":
            return norm(bit_xor(ctx, a2, b2))
        if name == "Div":
            if not isinstance(b2, Lin) and b2 == 1:
                return int_to_float(ctx, a2)
            if not isinstance(b2, Lin):
                if ctx.opts.get("abstract_float") and b2 != 0:
                    return opaque_float(ctx)
                return fold_fin(ctx, operator.truediv, a2, b2, "Div")
            raise Unsupported("division of symbolic integers")
        if name == "Pow":
            if not isinstance(a2, Lin) and a2 == 2 or True:
                u = ctx.unique(b2) if isinstance(b2, Lin) else b2
                if u is not None and not isinstance(a2, Lin):
                    return a2 ** u
            raise Unsupported("power")
        raise Unsupported(name)
    if isinstance(a, NUM) and isinstance(b, NUM):
        for x, y, left in ((a, b, True), (b, a, False)):
            if isinstance(x, SIntFloat):
                if name == "Mult" and isinstance(y, (int, float)) and y == 1:
                    return x
                if name == "Div" and left and isinstance(y, (int, float)) and y == 1:
                    return x
                if name in ("Add",) and isinstance(y, (int, float)) and y == 0:
                    return x
                if name == "Sub" and left and isinstance(y, (int, float)) and y == 0:
                    return x
            if isinstance(x, SFloat):
                if name == "Mult" and isinstance(y, (int, float)) and y == 1:
                    return x
                if name == "Div" and left and isinstance(y, (int, float)) and y == 1:
                    return x
        if isinstance(a, Lin) and isinstance(b, float) or isinstance(b, Lin) and isinstance(a, float):
            return fold_fin(ctx, NATIVE[name], a, b, name)
        raise Unsupported("float arithmetic")
    # strings
    if S.is_str(a) and S.is_str(b) and name == "Add":
        return sconcat(a, b)
    if isinstance(a, str) and name == "Mod":
        return str_percent(ctx, a, b, interp)
    if S.is_str(a) and is_int(b) and name == "Mult":
        raise Unsupported("string repetition")
    # bytes
    if is_bytes(a) and is_bytes(b) and name == "Add":
        t = B.toks_of(a) + B.toks_of(b)
        if isinstance(a, VBytearray):
            return VBytearray(ctx, t)
        return B.mk(t)
    if is_bytes(a) and is_int(b) and name == "Mult":
        u = ctx.unique(as_lin(ctx, b))
        if u is not None:
            return B.mk(B.toks_of(a) * max(u, 0))
        raise Unsupported("bytes repetition")
    # sequences
    if name == "Add":
        if isinstance(a, (VList, list)) and isinstance(b, (VList, list)):
            return VList(ctx, items_of(a) + items_of(b))
        if isinstance(a, VList) and isinstance(b, VByteSeq) and b.kind == "list":
            return VList(ctx, items_of(a) + [Gen(B.blen(b), [b])]) if False else _raise("list + bytes list")
        if isinstance(a, tuple) and isinstance(b, tuple):
            return a + b
    if name == "Mult" and isinstance(a, (VList, list)) and isinstance(b, int):
        return VList(ctx, items_of(a) * b)
    if name == "BitOr" and isinstance(a, (VDict, dict)) and isinstance(b, (VDict, dict)):
        r = VDict(ctx)
        dict_update(ctx, r, a, interp)
        dict_update(ctx, r, b, interp)
        return r
    if isinstance(a, (set, frozenset, VSet)) and isinstance(b, (set, frozenset, VSet)):
        sa = a.items if isinstance(a, VSet) else a
        sb = b.items if isinstance(b, VSet) else b
        if all(native_ok(x) for x in sa) and all(native_ok(x) for x in sb):
            return VSet(ctx, sorted(NATIVE[name](set(sa), set(sb)), key=repr))
    bad = (type(None), str, SStr, bytes, SBytes, VList, VDict, tuple)
    if isinstance(a, bad) or isinstance(b, bad):
        if not isinstance(a, (VOpaque, VByteSeq)) and not isinstance(b, (VOpaque, VByteSeq)):
            raise exc(TypeError, f"unsupported operand type(s) for {name}")
    raise Unsupported(f"{name} on {type(a).__name__}, {type(b).__name__}")


def _raise(m):
    raise Unsupported(m)


def int_to_float(ctx, lin):
    lin = norm(lin)
    if not isinstance(lin, Lin):
        return float(lin)
    lo, hi = rng(lin)
    if lo is not None and hi is not None and lo >= -(2**53) and hi <= 2**53:
        return SIntFloat(lin)
    for ex in ctx.inputs.get("exact", ()):
        if ctx.provable_eq(lin, ex):
            return SIntFloat(norm(ex))
    if ctx.opts.get("abstract_float"):
        return opaque_float(ctx)
    raise Unsupported("inexact int to float conversion")


def opaque_float(ctx):
    """some finite double (the obligation does not look at its value)"""
    r = SFloat("float", 64)
    r.cls = "finite"
    ctx.over.append("float value abstracted")
    return r


def items_of(v):
    if isinstance(v, VList):
        if v.poisoned:
            raise Unsupported(v.poisoned)
        return list(v.items)
    return list(v)


def str_percent(ctx, fmt, args, interp):
    if not isinstance(args, tuple):
        args = (args,)
    import re

    out = []
    i = 0
    pos = 0
    for m in re.finditer(r"%(0?)(\d*)([xXdsrif%])", fmt):
        out.append(fmt[pos : m.start()])
        pos = m.end()
        c = m.group(3)
        if c == "%":
            out.append("%")
            continue
        v = args[i]
        i += 1
        out.append(fmt_one(ctx, v, m.group(1), m.group(2), c, interp))
    if "%" in re.sub(r"%(0?)(\d*)([xXdsrif%])", "", fmt):
        raise Unsupported("format string")
    out.append(fmt[pos:])
    return sconcat(*out)


def fmt_one(ctx, v, zero, width, c, interp):
    if isinstance(v, Lin):
        v = norm(v)
    if c == "x" and isinstance(v, Lin):
        w = int(width or 0)
        lo, hi = rng(v)
        if zero and lo is not None and hi is not None and lo >= 0 and hi < 16**w:
            return HexTok(v, w)
        return StrLeaf("hex")
    if c in "di" and isinstance(v, Lin) and not width:
        return DecTok(v)
    if c == "s":
        return interp.to_str(v)
    if native_ok(v):
        return ("%" + zero + width + c) % (v,)
    return StrLeaf("fmt")


# ------------------------------------------------------------------ comparison
def compare(ctx, op, a, b, interp=None):
    """op in Eq NotEq Lt LtE Gt GtE Is IsNot In NotIn; result native bool or SBool"""
    if op == "NotEq":
        if isinstance(a, VObj) and interp is not None:
            import inspect

            f = inspect.getattr_static(a.cls, "__ne__", None)
            if f is not None and f is not object.__ne__ and interp.is_repo_fn(f):
                return interp.call(f, [a, b], {})
        r = compare(ctx, "Eq", a, b, interp)
        return (not r) if isinstance(r, bool) else r.neg() if isinstance(r, SBool) else not truth(ctx, r)
    if op == "NotIn":
        r = compare(ctx, "In", a, b, interp)
        return (not r) if isinstance(r, bool) else r.neg() if isinstance(r, (SBool, SMember)) else not truth(ctx, r)
    if op == "IsNot":
        return not compare(ctx, "Is", a, b, interp)
    for v in (a, b):
        if isinstance(v, Poison):
            raise Unsupported(v.why)
    if op == "Is":
        return is_same(ctx, a, b)
    if op == "In":
        return contains(ctx, a, b, interp)
    if isinstance(a, Lin):
        a = norm(a)
    if isinstance(b, Lin):
        b = norm(b)
    if isinstance(a, SStr):
        a = snorm(a)
    if isinstance(b, SStr):
        b = snorm(b)
    if native_ok(a) and native_ok(b):
        try:
            return {"Eq": operator.eq, "Lt": operator.lt, "LtE": operator.le, "Gt": operator.gt, "GtE": operator.ge}[op](a, b)
        except Exception as e:
            raise PyExc(VExc(type(e), e.args))
    if isinstance(a, SFin):
        a = _fin_cmp(ctx, a)
    if isinstance(b, SFin):
        b = _fin_cmp(ctx, b)
    if is_int(a) and is_int(b):
        x, y = as_lin(ctx, a), as_lin(ctx, b)
        d = norm(sub(x, y))
        if not isinstance(d, Lin):
            return {"Eq": d == 0, "Lt": d < 0, "LtE": d <= 0, "Gt": d > 0, "GtE": d >= 0}[op]
        r = {
            "Eq": lambda: SBool("eq", d),
            "Lt": lambda: SBool("ge", sub(-1, d)),
            "LtE": lambda: SBool("ge", scale(d, -1)),
            "Gt": lambda: SBool("ge", sub(d, 1)),
            "GtE": lambda: SBool("ge", d),
        }[op]()
        q = ctx.quick(r)
        return q if q is not None else r
    if isinstance(a, NUM) and isinstance(b, NUM):
        return float_cmp(ctx, op, a, b)
    if op == "Eq":
        return equals(ctx, a, b, interp)
    if S.is_str(a) and S.is_str(b):
        raise Unsupported("string ordering")
    if a is None or b is None or S.is_str(a) != S.is_str(b):
        raise exc(TypeError, "unorderable")
    raise Unsupported(f"{op} on {type(a).__name__}, {type(b).__name__}")


def _fin_cmp(ctx, f):
    n = norm(lin_atom(f.atom))
    if not isinstance(n, Lin):
        return f.fn(n)
    a = next(iter(n.t))
    v = f.fn(a.lo)
    if isinstance(v, int):
        return fin_to_lin(ctx, f)
    return f


def float_cmp(ctx, op, a, b):
    if isinstance(a, SIntFloat) and isinstance(b, (int, Lin, SIntFloat)):
        return compare(ctx, op, norm(a.lin), norm(b.lin) if isinstance(b, SIntFloat) else b)
    if isinstance(b, SIntFloat) and isinstance(a, (int, Lin)):
        return compare(ctx, op, a, norm(b.lin))
    if isinstance(a, SIntFloat) and isinstance(b, float):
        if b == int(b) if math.isfinite(b) else False:
            return compare(ctx, op, norm(a.lin), int(b))
    if isinstance(a, SFloat) and a is b:
        nan = float_in(ctx, a, ("nan",))
        return (not nan) if op in ("Eq", "LtE", "GtE") else False
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SFloat) and isinstance(y, float) and not math.isfinite(y) and op == "Eq":
            if math.isnan(y):
                return False
            return float_in(ctx, x, ("inf",) if y > 0 else ("ninf",))
    if isinstance(a, SFloat) and isinstance(b, (int, float)) and op in ("Lt", "Gt", "LtE", "GtE"):
        if not float_in(ctx, a, ("finite",)):
            if a.cls == "nan" or float_in(ctx, a, ("nan",)):
                return False
            v = float("inf") if float_in(ctx, a, ("inf",)) else float("-inf")
            return compare(ctx, op, v, b)
    for x, y, lt in ((a, b, ("Lt", "LtE")), (b, a, ("Gt", "GtE"))):
        if isinstance(x, SFloat) and getattr(x, "nonneg", False) and isinstance(y, (int, float)) and y == y and (y < 2.0**62 or y == 2**62 and op == lt[0]):
            if op in lt:
                return False
            if op in ("Lt", "LtE", "Gt", "GtE"):
                return True
    key = ("fcmp", op, repr(a), repr(b))
    if key in ctx.memo:
        return ctx.memo[key]
    r = ctx.choose(2, f"{a} {op} {b}") == 0
    ctx.memo[key] = r
    ctx.over.append("float comparison abstracted")
    return r


def is_same(ctx, a, b):
    if isinstance(a, (SBool,)) and isinstance(b, bool):
        return ctx.decide(a) == b
    if isinstance(b, (SBool,)) and isinstance(a, bool):
        return ctx.decide(b) == a
    if a is None or b is None:
        return a is b
    if isinstance(a, (SStr, str)) and isinstance(b, (SStr, str)):
        if a is b:
            return True
        if isinstance(a, str) and isinstance(b, str):
            return a is b
        # distinct objects unless the very same
        return False
    if a is b:
        return True
    if isinstance(a, bool) and isinstance(b, bool):
        return a == b
    return False


def equals(ctx, a, b, interp):
    if a is b and not isinstance(a, (float, SFloat)):
        return True
    if isinstance(a, VObj) and interp is not None:
        f = interp.find_attr(a.cls, "__eq__")
        if f is not None and interp.is_repo_fn(f):
            return interp.call(f, [a, b], {})
        return a is b
    if isinstance(b, VObj):
        return equals(ctx, b, a, interp)
    if S.is_str(a) and S.is_str(b):
        return S.str_eq(ctx, a, b)
    if is_bytes(a) and is_bytes(b):
        return B.bytes_eq(ctx, a, b)
    if isinstance(a, VByteSeq) and isinstance(b, VByteSeq):
        if a.kind != b.kind:
            return False
        return B.bytes_eq(ctx, a.sb, b.sb)
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        for x, y in zip(a, b):
            if not truth(ctx, compare(ctx, "Eq", x, y, interp)):
                return False
        return True
    if isinstance(a, (VList, list)) and isinstance(b, (VList, list)):
        x, y = items_of(a), items_of(b)
        if any(isinstance(i, Gen) for i in x + y):
            raise Unsupported("equality of generic lists")
        if len(x) != len(y):
            return False
        return all(truth(ctx, compare(ctx, "Eq", p, q, interp)) for p, q in zip(x, y))
    if isinstance(a, VUuid) and isinstance(b, VUuid):
        return compare(ctx, "Eq", a.lin, b.lin)
    if isinstance(a, (VDict, dict)) and isinstance(b, (VDict, dict)):
        raise Unsupported("dict equality")
    if isinstance(a, SHash) and isinstance(b, SHash):
        raise Unsupported("hash equality")
    if isinstance(a, (VOpaque,)) or isinstance(b, (VOpaque,)):
        raise Unsupported("equality of opaque value")
    if isinstance(a, VByteSeq) or isinstance(b, VByteSeq):
        v, o = (a, b) if isinstance(a, VByteSeq) else (b, a)
        if isinstance(o, (VList, list, tuple)) and len(items_of(o)) == 0:
            return norm(B.blen(v)) == 0 if not isinstance(norm(B.blen(v)), Lin) else ctx.decide(SBool("eq", norm(B.blen(v))))
        if o is None or S.is_str(o) or is_int(o):
            return False
        raise Unsupported("equality of byte sequence")
    return False


def contains(ctx, a, c, interp):
    if isinstance(c, (str, SStr)):
        if isinstance(a, str):
            return S.contains(ctx, c, a)
        if isinstance(snorm(c), str) and isinstance(a, SStr):
            raise Unsupported("symbolic substring")
        raise Unsupported("substring")
    if isinstance(c, SelList):
        if isinstance(a, str):
            m = SMember(c.tag, a)
            return truth(ctx, m) if ("member", c.tag, a) in ctx.memo else m
        raise Unsupported("membership of a symbolic value in parts")
    if isinstance(c, (dict, list, tuple, set, frozenset)) and interp is not None:
        c2 = interp.overlay(c)
        if c2 is not c:
            return contains(ctx, a, c2, interp)
    if isinstance(c, range):
        if isinstance(a, int):
            return a in c
        a = as_lin(ctx, a)
        if c.step == 1:
            return ctx.decide(SBool("ge", sub(a, c.start))) and ctx.decide(SBool("ge", sub(c.stop - 1, a)))
        raise Unsupported("in range")
    if isinstance(c, VRange):
        a = as_lin(ctx, a)
        d = sub(a, c.start)
        e = sub(sub(c.stop, 1), a)
        return ctx.decide(SBool("ge", d) if isinstance(norm(d), Lin) else norm(d) >= 0) and ctx.decide(SBool("ge", e) if isinstance(norm(e), Lin) else norm(e) >= 0)
    if isinstance(c, dict):
        keys = list(c.keys())
    elif isinstance(c, (list, tuple, set, frozenset)):
        keys = list(c)
    elif isinstance(c, VList):
        keys = items_of(c)
        if any(isinstance(k, Gen) for k in keys):
            raise Unsupported("membership in generic list")
    elif isinstance(c, VSet):
        keys = c.items
    elif isinstance(c, VDict):
        return dict_has(ctx, c, a, interp)
    elif is_bytes(c):
        raise Unsupported("in bytes")
    elif isinstance(c, VByteSeq):
        raise Unsupported("in byte sequence")
    elif isinstance(c, VIter):
        keys = []
        for p in c.pieces:
            if p[0] != "items":
                raise Unsupported("membership in generic iterable")
            keys += p[1]
    elif isinstance(c, VOpaque):
        raise Unsupported("membership in opaque")
    elif c is None or is_int(c):
        raise exc(TypeError, "argument is not iterable")
    elif isinstance(c, VObj):
        f = interp.find_attr(c.cls, "__contains__")
        if f is not None:
            return truth(ctx, interp.call(f, [c, a], {}))
        raise Unsupported("membership in object")
    else:
        try:
            keys = list(c)
        except Exception:
            raise Unsupported("membership in " + type(c).__name__)
    if native_ok(a) and all(native_ok(k) for k in keys):
        return a in keys
    if S.is_str(a) and all(isinstance(k, str) or native_ok(k) for k in keys):
        return S.str_in_set(ctx, a, keys)
    for k in keys:
        if truth(ctx, compare(ctx, "Eq", a, k, interp)):
            return True
    return False


def dict_has(ctx, d, k, interp=None):
    if isinstance(k, SStr):
        k = snorm(k)
    if isinstance(k, Lin):
        k = norm(k)
    heap_read(d, k if native_ok(k) else "all")
    if native_ok(k):
        if k in d.idx:
            return True
        for e in d.ents:
            if isinstance(e, GenEntry):
                raise Unsupported("membership in generic dict")
            if not native_ok(e[0]) and truth(ctx, compare(ctx, "Eq", e[0], k, interp)):
                return True
        if not rest_lacks(d, k):
            raise Unsupported("membership of unlisted key in open dict")
        return False
    for e in d.ents:
        if isinstance(e, GenEntry):
            if S.is_str(k) and S.is_str(e.key) and S.same_str(k, e.key):
                return True
            raise Unsupported("membership in generic dict")
    if d.rest is not None:
        raise Unsupported("membership of symbolic key in open dict")
    if S.is_str(k) and all(isinstance(e[0], str) for e in d.ents):
        return S.str_in_set(ctx, k, [e[0] for e in d.ents])
    for e in d.ents:
        if truth(ctx, compare(ctx, "Eq", e[0], k, interp)):
            return True
    return False


MISSING = object()


def dict_get(ctx, d, k, interp=None):
    """value or MISSING"""
    if isinstance(k, SStr):
        k = snorm(k)
    if isinstance(k, Lin):
        k = norm(k)
    if isinstance(d, dict):
        d2 = interp.overlay(d) if interp else d
        if d2 is not d:
            return dict_get(ctx, d2, k, interp)
        if native_ok(k):
            return d.get(k, MISSING)
        if S.is_str(k):
            if not S.str_in_set(ctx, k, list(d)):
                return MISSING
            k = snorm(k)
            if isinstance(k, str):
                return d[k]
            l = S.leaf_of(k)
            groups = {}
            for x in sorted(l.inset):
                v = d[x]
                try:
                    g = ("v", v)
                    hash(g)
                except TypeError:
                    g = ("id", id(v))
                groups.setdefault(g, []).append(x)
            gl = list(groups.values())
            c = ctx.choose(len(gl), "dict value class") if len(gl) > 1 else 0
            S.restrict(ctx, l, gl[c], True)
            return d[gl[c][0]]
        for x, v in d.items():
            if truth(ctx, compare(ctx, "Eq", x, k, interp)):
                return v
        return MISSING
    heap_read(d, k if native_ok(k) else "all")
    if native_ok(k):
        e = d.idx.get(k)
        if e is not None:
            return e[1]
        for e in d.ents:
            if isinstance(e, GenEntry):
                raise Unsupported("lookup in generic dict")
            if not native_ok(e[0]) and truth(ctx, compare(ctx, "Eq", e[0], k, interp)):
                return e[1]
        if not rest_lacks(d, k):
            raise Unsupported("lookup of unlisted key in open dict: " + repr(k))
        return MISSING
    for e in d.ents:
        if isinstance(e, GenEntry):
            if S.is_str(k) and S.is_str(e.key) and S.same_str(k, e.key):
                return e.val
        elif S.is_str(e[0]) and S.is_str(k) and S.same_str(e[0], k):
            return e[1]
    for e in d.ents:
        if isinstance(e, GenEntry):
            raise Unsupported("lookup in generic dict")
        if truth(ctx, compare(ctx, "Eq", e[0], k, interp)):
            return e[1]
    if d.rest is not None:
        raise Unsupported("lookup in open dict")
    return MISSING


def dict_update(ctx, r, src, interp):
    if isinstance(src, dict):
        for k, v in src.items():
            dict_set(ctx, r, k, v)
        return
    if isinstance(src, VDict):
        heap_read(src)
        if src.rest is not None:
            if r.rest is not None:
                raise Unsupported("merge of open dicts")
            if not r.ents:
                r.tag = src.tag
            r.rest = src.rest
        for e in list(src.ents):
            if isinstance(e, GenEntry):
                r.ents.append(e)
            else:
                dict_set(ctx, r, e[0], e[1])
        return
    if isinstance(src, (VList, list, tuple)):
        for kv in items_of(src):
            kv = items_of(kv) if isinstance(kv, VList) else kv
            dict_set(ctx, r, kv[0], kv[1])
        return
    raise Unsupported("dict update from " + type(src).__name__)


def heap_note(ctx, obj, op):
    """journal a mutation (before it happens) of a pre-existing object inside generic iterations"""
    for L in reversed(ctx.loops):
        if obj.born >= L.start:
            break
        if id(obj) in L.owned:
            L.ownmut = True
            continue
        r = L.touched.get(id(obj))
        if r is None:
            if isinstance(obj, VList):
                snap = len(obj._items)
            elif isinstance(obj, VDict):
                snap = list(obj.ents)
            elif isinstance(obj, VBytearray):
                snap = flat(obj.toks)
                obj.toks = list(snap)
            elif isinstance(obj, VObj):
                snap = dict(obj.attrs)
            else:
                raise Unsupported("mutation of " + type(obj).__name__)
            r = L.touched[id(obj)] = ["heap", obj, [], snap]
            ctx.keep.append(obj)
        r[2].append(op)


def dict_set(ctx, d, k, v):
    if isinstance(k, SStr):
        k = snorm(k)
    if isinstance(k, Lin):
        k = norm(k)
        if isinstance(k, Lin):
            u = ctx.unique(k)
            if u is None:
                raise Unsupported("symbolic integer dict key")
            k = u
    if isinstance(k, (SBool, SFloat, SBytes, VObj)):
        raise Unsupported("dict key")
    if isinstance(v, SBool) and isinstance(k, str) and k in ctx.flag_keys:
        assume_flag(ctx, v)
    if native_ok(k):
        heap_note(ctx, d, ("set", k))
        d.put(k, v)
        return
    if ctx.opts.get("forget_dicts"):
        # the obligation does not look at the entries; reading them later is not supported
        d.rest = "forgotten"
        d.tag = object()
        return
    heap_note(ctx, d, ("symset", k))
    for e in d.ents:
        if isinstance(e, GenEntry):
            raise Unsupported("store into generic dict")
        if S.is_str(e[0]) and S.is_str(k):
            if S.same_str(e[0], k):
                e[1] = v
                return
    if any(native_ok(e[0]) for e in d.ents if not isinstance(e, GenEntry)):
        if S.is_str(k):
            lits = [e[0] for e in d.ents if isinstance(e[0], str)]
            if S.str_in_set(ctx, k, lits):
                k = snorm(k)
                if isinstance(k, str):
                    d.idx[k][1] = v
                    return
                raise Unsupported("ambiguous dict store")
    d.ents.append([k, v])


def assume_flag(ctx, b):
    """canonical form: a stored flag is 0 or 1"""
    lin = norm(b.lin)
    if isinstance(lin, Lin) and len(lin.t) == 1:
        (a, k), = lin.t.items()
        if a.lo == 0 and (a.hi is None or a.hi > 1):
            ctx.assume(SBool("ge", sub(1, lin_atom(a))))
            ctx.events.append(("flag", a))
