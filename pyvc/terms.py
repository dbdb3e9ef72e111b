"""Symbolic terms.  All symbolic objects are private to one path (paths are re-executed from
the start), so logic-variable style binding by mutation is safe."""
import itertools

_uid = itertools.count(1)


class Unsupported(Exception):
    """The engine cannot decide this path (never a verdict about the code)."""


class PrunePath(Exception):
    """This path is infeasible or covered elsewhere."""


class Refuted(Exception):
    """An obligation is refuted on this path."""

    def __init__(self, msg, extra=None):
        super().__init__(msg)
        self.msg = msg
        self.extra = extra  # additional SBool constraint giving a counterexample


# ---------------------------------------------------------------- integers
class Atom:
    __slots__ = ("name", "lo", "hi", "bind", "uid", "z", "is_len", "src", "note", "prefer")

    def __init__(self, name, lo=None, hi=None, is_len=False):
        self.name = name
        self.lo = lo
        self.hi = hi
        self.bind = None
        self.uid = next(_uid)
        self.z = None
        self.is_len = is_len
        self.src = None
        self.note = None
        self.prefer = None

    def __repr__(self):
        return f"{self.name}#{self.uid}"


class Lin:
    """const + sum coef*atom"""

    __slots__ = ("c", "t")

    def __init__(self, c, t):
        self.c = c
        self.t = t

    def __repr__(self):
        s = [f"{k}*{a}" if k != 1 else f"{a}" for a, k in self.t.items()]
        if self.c or not s:
            s.append(str(self.c))
        return "(" + " + ".join(s) + ")"


def lin_atom(a):
    return Lin(0, {a: 1})


def norm(x):
    """Resolve bound atoms; returns a native int or a Lin over unbound atoms."""
    if not isinstance(x, Lin):
        return x
    if all(a.bind is None for a in x.t):
        if not x.t:
            return x.c
        return x
    c = x.c
    t = {}
    todo = list(x.t.items())
    while todo:
        a, k = todo.pop()
        if a.bind is None:
            v = t.get(a, 0) + k
            if v:
                t[a] = v
            else:
                t.pop(a, None)
        elif isinstance(a.bind, Lin):
            c += a.bind.c * k
            for b, kk in a.bind.t.items():
                todo.append((b, kk * k))
        else:
            c += a.bind * k
    return Lin(c, t) if t else c


def add(x, y):
    x, y = norm(x), norm(y)
    if not isinstance(x, Lin) and not isinstance(y, Lin):
        return x + y
    if not isinstance(x, Lin):
        x, y = y, x
    if not isinstance(y, Lin):
        return Lin(x.c + y, x.t) if y else x
    t = dict(x.t)
    for a, k in y.t.items():
        v = t.get(a, 0) + k
        if v:
            t[a] = v
        else:
            t.pop(a, None)
    c = x.c + y.c
    return Lin(c, t) if t else c


def scale(x, k):
    x = norm(x)
    if not isinstance(x, Lin):
        return x * k
    if k == 0:
        return 0
    return Lin(x.c * k, {a: v * k for a, v in x.t.items()})


def sub(x, y):
    return add(x, scale(y, -1))


def rng(x):
    x = norm(x)
    if not isinstance(x, Lin):
        return x, x
    lo = hi = x.c
    for a, k in x.t.items():
        al, ah = (a.lo, a.hi) if k > 0 else (a.hi, a.lo)
        lo = None if lo is None or al is None else lo + k * al
        hi = None if hi is None or ah is None else hi + k * ah
    return lo, hi


def decompose(a, m):
    """bind atom a := m*q + r (floor division)"""
    lo, hi = a.lo, a.hi
    q = Atom(a.name + f"/{m}", None if lo is None else lo // m, None if hi is None else hi // m)
    r = Atom(a.name + f"%{m}", 0, m - 1)
    if lo is not None and hi is not None and lo // m == hi // m:
        r.lo, r.hi = lo % m, hi % m
        a.bind = Lin(m * (lo // m), {r: 1})
    else:
        a.bind = Lin(0, {q: m, r: 1})
    q.is_len = r.is_len = a.is_len


def divmod_const(x, m, ctx):
    """floor divmod of a Lin by a positive constant"""
    x = norm(x)
    if not isinstance(x, Lin):
        return divmod(x, m)
    assert m > 0
    lo, hi = rng(x)
    if lo is not None and hi is not None and lo // m == hi // m:
        q = lo // m
        return q, sub(x, q * m)
    for a, k in list(x.t.items()):
        k = abs(k)
        if k % m and m % k == 0 and a.bind is None:
            lo, hi = rng(sub(x, Lin(0, {b: kk for b, kk in x.t.items() if kk % m == 0})))
            if lo is not None and hi is not None and 0 <= lo and hi < m:
                break
            ctx.note_decompose(a, m // k)
            d = m // k
            decompose(a, d)
            if a.hi is not None and (a.hi + 1) % d:
                ctx.cons.append(SBool("ge", sub(a.hi, lin_atom(a))))
            if a.lo is not None and a.lo % d:
                ctx.cons.append(SBool("ge", sub(lin_atom(a), a.lo)))
    x = norm(x)
    if not isinstance(x, Lin):
        return divmod(x, m)
    q = Lin(0, {a: k // m for a, k in x.t.items() if k % m == 0})
    rest = Lin(x.c % m, {a: k for a, k in x.t.items() if k % m})
    q = add(q, x.c // m)
    lo, hi = rng(rest)
    if lo is not None and hi is not None:
        if lo // m == hi // m:
            return add(q, lo // m), sub(norm(rest), (lo // m) * m)
    # general: fresh quotient and remainder
    rest = norm(rest)
    fq = Atom("q", None if lo is None else lo // m, None if hi is None else hi // m)
    fr = Atom("r", 0, m - 1)
    ctx.assume_eq(sub(rest, Lin(0, {fq: m, fr: 1})))
    return add(q, lin_atom(fq)), lin_atom(fr)


def trailing_zeros(x):
    x = norm(x)
    vals = [x] if not isinstance(x, Lin) else [x.c] + list(x.t.values())
    tz = None
    for v in vals:
        if v == 0:
            continue
        k = (v & -v).bit_length() - 1
        tz = k if tz is None else min(tz, k)
    return 10**6 if tz is None else tz


class SBool:
    """op in ge (lin>=0), eq (lin==0), ne (lin!=0)"""

    __slots__ = ("op", "lin")

    def __init__(self, op, lin):
        self.op = op
        self.lin = lin

    def neg(self):
        if self.op == "ge":
            return SBool("ge", sub(-1, self.lin))
        return SBool("ne" if self.op == "eq" else "eq", self.lin)

    def __repr__(self):
        return f"<{self.lin} {self.op} 0>"


def sbool_int(b):
    """Lin form of an SBool over a 0/1 atom, or None."""
    lin = norm(b.lin)
    if not isinstance(lin, Lin) or len(lin.t) != 1:
        return None
    (a, k), = lin.t.items()
    if a.lo is None or a.hi is None or a.lo < 0 or a.hi > 1:
        return None
    v0 = {"ge": lin.c >= 0, "eq": lin.c == 0, "ne": lin.c != 0}[b.op]
    v1 = lin.c + k
    v1 = {"ge": v1 >= 0, "eq": v1 == 0, "ne": v1 != 0}[b.op]
    if v0 == v1:
        return int(v0)
    return lin_atom(a) if v1 else Lin(1, {a: -1})


# ---------------------------------------------------------------- strings
class StrLeaf:
    __slots__ = ("name", "uid", "bind", "ascii", "ne", "inset", "n", "units", "endsw", "cont", "note", "lower_of")

    def __init__(self, name):
        self.name = name
        self.uid = next(_uid)
        self.bind = None
        self.ascii = None
        self.ne = set()
        self.inset = None
        self.n = Atom(f"len({name})", 0, None)
        self.units = None
        self.endsw = {}
        self.cont = {}
        self.note = None
        self.lower_of = None

    def __repr__(self):
        return f"${self.name}#{self.uid}"


class HexTok:
    __slots__ = ("lin", "width")

    def __init__(self, lin, width):
        self.lin = lin
        self.width = width

    def __repr__(self):
        return f"%0{self.width}x{{{norm(self.lin)}}}"


class DecTok:
    __slots__ = ("lin",)

    def __init__(self, lin):
        self.lin = lin

    def __repr__(self):
        return f"%d{{{norm(self.lin)}}}"


class SStr:
    __slots__ = ("parts",)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return "S" + repr(list(self.parts))


def snorm(s):
    if not isinstance(s, SStr):
        return s
    out = []

    def push(p):
        if isinstance(p, str):
            if not p:
                return
            if out and isinstance(out[-1], str):
                out[-1] += p
            else:
                out.append(p)
        elif isinstance(p, SStr):
            for q in p.parts:
                push(q)
        elif isinstance(p, StrLeaf) and p.bind is not None:
            push(p.bind)
        elif isinstance(p, DecTok) and not isinstance(norm(p.lin), Lin):
            push(str(norm(p.lin)))
        elif isinstance(p, HexTok) and not isinstance(norm(p.lin), Lin):
            push("%0*x" % (p.width, norm(p.lin)))
        else:
            out.append(p)

    for p in s.parts:
        push(p)
    if not out:
        return ""
    if len(out) == 1 and isinstance(out[0], str):
        return out[0]
    return SStr(out)


def sconcat(*xs):
    return snorm(SStr(xs))


# ---------------------------------------------------------------- floats
class SFloat:
    """leaf: an arbitrary 32/64-bit float read from the input; cls refines it"""

    __slots__ = ("uid", "width", "cls", "name")

    def __init__(self, name, width):
        self.uid = next(_uid)
        self.name = name
        self.width = width
        self.cls = None  # None|'finite'|'nan'|'inf'|'ninf'|'nonfinite'

    def __repr__(self):
        return f"~f{self.width}{self.name}#{self.uid}"


class SRound32:
    """a 64-bit leaf rounded through a 32-bit field"""

    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class SIntFloat:
    """float whose value is exactly the integer lin (assumed representable)"""

    __slots__ = ("lin",)

    def __init__(self, lin):
        self.lin = lin

    def __repr__(self):
        return f"float{norm(self.lin)!r}"


class SFin:
    """a Python value computed by fn from one finite-domain integer atom"""

    __slots__ = ("atom", "fn", "desc")

    def __init__(self, atom, fn, desc=""):
        self.atom = atom
        self.fn = fn
        self.desc = desc

    def __repr__(self):
        return f"fin[{self.atom}:{self.desc}]"


# ---------------------------------------------------------------- byte tokens
class Raw:
    """uninterpreted bytes, a logic variable: bind = list of tokens once interpreted"""

    __slots__ = ("uid", "n", "bind", "name", "zlib_of")

    def __init__(self, name, n):
        self.uid = next(_uid)
        self.name = name
        self.n = n
        self.bind = None
        self.zlib_of = None

    def __repr__(self):
        return f"Raw({self.name}#{self.uid},{norm(self.n)})"


class LE:
    __slots__ = ("w", "lin")

    def __init__(self, w, lin):
        self.w = w
        self.lin = lin

    def __repr__(self):
        return f"LE{self.w}({norm(self.lin)})"


class FTok:
    __slots__ = ("kind", "val")  # kind f|d

    def __init__(self, kind, val):
        self.kind = kind
        self.val = val

    def __repr__(self):
        return f"F{self.kind}({self.val})"


class FStrTok:
    __slots__ = ("s", "n")

    def __init__(self, s):
        self.s = s
        self.n = Atom("fstrlen", 4, 1 << 33, is_len=True)  # counts are 32-bit

    def __repr__(self):
        return f"FSTR({snorm(self.s)!r})"


class Cod:
    """bytes of a string in a codec ('ascii' | 'utf-16-le')"""

    __slots__ = ("codec", "s")

    def __init__(self, codec, s):
        self.codec = codec
        self.s = s

    def __repr__(self):
        return f"{self.codec}({snorm(self.s)!r})"


class Enc:
    """opaque encoding of an object: kind PROPS / ZLIB / ..."""

    __slots__ = ("kind", "obj", "n", "conc")

    def __init__(self, kind, obj, n=None):
        self.kind = kind
        self.obj = obj
        self.n = n if n is not None else Atom(f"len({kind})", 0, None, is_len=True)

    def __repr__(self):
        return f"{self.kind}({self.obj})"


class Big:
    """n-fold repetition; toks is the focus iteration"""

    __slots__ = ("count", "toks", "n")

    def __init__(self, count, toks):
        self.count = count
        self.toks = toks
        self.n = Atom("biglen", 0, None, is_len=True)
        self.n.note = self

    def __repr__(self):
        return f"BIG[{norm(self.count)}]{self.toks}"


class SBytes:
    __slots__ = ("toks",)

    def __init__(self, toks):
        self.toks = list(toks)

    def __repr__(self):
        return "B" + repr(flat(self.toks))


def strlen(s, units=False):
    s = snorm(s)
    if isinstance(s, str):
        if units:
            return len(s.encode("utf-16-le", "surrogatepass")) // 2
        return len(s)
    tot = 0
    for p in s.parts:
        if isinstance(p, str):
            tot = add(tot, strlen(p, units))
        elif isinstance(p, StrLeaf):
            if units:
                if p.ascii is True:
                    tot = add(tot, lin_atom(p.n))
                else:
                    if p.units is None:
                        p.units = Atom(f"units({p.name})", 0, None)
                        p.units.note = p.n
                        if p.n.hi is not None:
                            p.units.hi = 2 * p.n.hi
                    tot = add(tot, lin_atom(p.units))
            else:
                tot = add(tot, lin_atom(p.n))
        elif isinstance(p, HexTok):
            tot = add(tot, p.width)
        else:
            raise Unsupported("length of " + repr(p))
    return tot


def tok_len(t):
    if isinstance(t, bytes):
        return len(t)
    if isinstance(t, LE):
        return t.w
    if isinstance(t, FTok):
        return 4 if t.kind == "f" else 8
    if isinstance(t, Raw):
        if t.bind is not None:
            return toks_len(t.bind)
        return norm(t.n)
    if isinstance(t, Cod):
        if t.codec == "ascii":
            return strlen(t.s)
        return scale(strlen(t.s, units=True), 2)
    if isinstance(t, FStrTok):
        s = snorm(t.s)
        if isinstance(s, str):
            return len(fstr_bytes(s))
        return norm(lin_atom(t.n))
    if isinstance(t, Big):
        if not isinstance(norm(t.count), Lin) and norm(t.count) == 0:
            return 0
        return norm(lin_atom(t.n))
    if isinstance(t, Enc):
        return norm(lin_atom(t.n)) if isinstance(t.n, Atom) else norm(t.n)
    raise Unsupported("tok_len " + repr(t))


def toks_len(ts):
    r = 0
    for t in ts:
        r = add(r, tok_len(t))
    return r


def fstr_bytes(s):
    """The stored form of a string (specification of C04)."""
    import struct

    if s == "":
        return struct.pack("<i", 0)
    if s.isascii():
        return struct.pack("<i", len(s) + 1) + s.encode("ascii") + b"\0"
    u = s.encode("utf-16-le", "surrogatepass")
    return struct.pack("<i", -(len(u) // 2 + 1)) + u + b"\0\0"


NAN32 = b"\x00\x00\xc0\x7f"
NAN64 = b"\x00\x00\x00\x00\x00\x00\xf8\x7f"


def flat(toks):
    """Resolve bindings, merge literals."""
    import struct

    out = []

    def push(t):
        if isinstance(t, (bytes, bytearray)):
            t = bytes(t)
            if not t:
                return
            if out and isinstance(out[-1], bytes):
                out[-1] += t
            else:
                out.append(t)
            return
        if isinstance(t, Raw):
            if t.bind is not None:
                for q in t.bind:
                    push(q)
                return
            n = norm(t.n)
            if not isinstance(n, Lin) and n == 0:
                return
            out.append(t)
            return
        if isinstance(t, SBytes):
            for q in t.toks:
                push(q)
            return
        if isinstance(t, LE):
            v = norm(t.lin)
            if not isinstance(v, Lin):
                push((v % (1 << (8 * t.w))).to_bytes(t.w, "little"))
                return
            out.append(t)
            return
        if isinstance(t, FTok):
            v = t.val
            if isinstance(v, (int, float)):
                push(struct.pack("<" + t.kind, v))
                return
            if isinstance(v, SFloat) and v.cls in ("nan", "inf", "ninf"):
                c = {"nan": float("nan"), "inf": float("inf"), "ninf": float("-inf")}[v.cls]
                push(struct.pack("<" + t.kind, c))
                return
            if isinstance(v, SIntFloat) and not isinstance(norm(v.lin), Lin):
                push(struct.pack("<" + t.kind, float(norm(v.lin))))
                return
            out.append(t)
            return
        if isinstance(t, FStrTok):
            s = snorm(t.s)
            if isinstance(s, str):
                push(fstr_bytes(s))
                return
            out.append(t)
            return
        if isinstance(t, Cod):
            s = snorm(t.s)
            if isinstance(s, str):
                if t.codec == "ascii":
                    push(s.encode("ascii"))
                else:
                    push(s.encode("utf-16-le", "surrogatepass"))
                return
            out.append(t)
            return
        if isinstance(t, Big):
            c = norm(t.count)
            if not isinstance(c, Lin):
                if c <= 0:
                    return
                if c == 1:
                    for q in t.toks:
                        push(q)
                    return
            # bytes of a byte sequence written one by one
            ft = flat(t.toks)
            if len(ft) == 1 and isinstance(ft[0], LE) and ft[0].w == 1:
                v = norm(ft[0].lin)
                if isinstance(v, Lin) and v.c == 0 and len(v.t) == 1:
                    (a, k), = v.t.items()
                    if k == 1 and a.src is not None and a.src[0] == "byteat":
                        sb = a.src[1]
                        d = sub(toks_len(sb.toks), t.count)
                        if not isinstance(d, Lin) and d == 0:
                            push(sb)
                            return
            out.append(t)
            return
        out.append(t)

    for t in toks:
        push(t)
    return out
