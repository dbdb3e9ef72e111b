"""Byte-string and stream operations over token lists."""
import struct

from .terms import *
from .values import *


def mk(toks):
    """SBytes or native bytes"""
    f = flat(toks)
    if not f:
        return b""
    if len(f) == 1 and isinstance(f[0], bytes):
        return f[0]
    return SBytes(f)


def toks_of(v):
    if isinstance(v, (bytes, bytearray)):
        return [bytes(v)] if v else []
    if isinstance(v, SBytes):
        return list(v.toks)
    if isinstance(v, VBytearray):
        if v.ctx.loops:
            heap_read(v)
        return list(v.toks)
    if isinstance(v, VByteSeq):
        return toks_of(v.sb)
    raise Unsupported("bytes expected: " + repr(v))


def expand_fstr(ctx, t):
    """stored form of a symbolic string, by case (specification of C04)"""
    s = snorm(t.s)
    if isinstance(s, str):
        return [fstr_bytes(s)]
    from . import strops

    if strops.str_eq(ctx, s, ""):
        out = [fstr_bytes("")]
    elif strops.is_ascii(ctx, s):
        out = [LE(4, add(strlen(s), 1)), Cod("ascii", s), b"\0"]
    else:
        out = [LE(4, sub(-1, strlen(s, units=True))), Cod("utf-16-le", s), b"\0\0"]
    d = norm(sub(lin_atom(t.n), toks_len(out)))
    if isinstance(d, Lin):
        ctx.assume(SBool("eq", d))
    elif d != 0:
        raise PrunePath()
    return out


def raw_split(ctx, t, k):
    """split an unbound Raw at byte k, 0 <= k <= n already known"""
    a = Raw(t.name, k)
    b = Raw(t.name, sub(t.n, k))
    ctx.trail.append((t, "rawbind", None))
    t.bind = [a, b]
    return a, b


def split_front(ctx, toks, k):
    """(first k bytes, rest); the caller has established len >= k"""
    taken = []
    toks = flat(toks)
    while True:
        k = norm(k)
        if not isinstance(k, Lin) and k == 0:
            return taken, toks
        if not toks:
            if isinstance(k, Lin) and ctx.provable_eq(k, 0):
                return taken, toks
            raise Unsupported("split beyond end")
        t = toks[0]
        n = tok_len(t)
        d = norm(sub(n, k))
        if not isinstance(d, Lin):
            if d <= 0:
                taken.append(t)
                toks = toks[1:]
                k = -d
                continue
        elif len(toks) == 1 and isinstance(t, Raw):
            # n >= k is established by the caller
            a, b = raw_split(ctx, t, k)
            taken.append(a)
            return taken, flat([b])
        else:
            q = ctx.quick(SBool("ge", d))
            if q is False or ctx.prove(SBool("ge", scale(d, -1))) is True:
                taken.append(t)
                toks = toks[1:]
                k = scale(d, -1)
                continue
            if isinstance(k, Lin) and ctx.provable_eq(k, 0):
                return taken, toks
            if not isinstance(t, Raw) or ctx.prove(SBool("ge", d)) is not True:
                if isinstance(t, FStrTok):
                    toks = expand_fstr(ctx, t) + toks[1:]
                    toks = flat(toks)
                    continue
                # n vs k undetermined: decide
                if ctx.decide(SBool("ge", scale(d, -1)), "token ends before cut"):
                    taken.append(t)
                    toks = toks[1:]
                    k = scale(d, -1)
                    continue
        # cut inside t
        if isinstance(t, Raw):
            if isinstance(k, Lin) and not isinstance(norm(t.n), Lin):
                pass
            a, b = raw_split(ctx, t, k)
            taken.append(a)
            return taken, flat([b] + toks[1:])
        if isinstance(k, Lin):
            u = ctx.unique(k)
            if u is None:
                raise Unsupported("symbolic cut inside " + repr(t))
            k = u
        if isinstance(t, bytes):
            taken.append(t[:k])
            return taken, [t[k:]] + toks[1:]
        if isinstance(t, LE):
            q, r = divmod_const(t.lin, 1 << (8 * k), ctx)
            taken.append(LE(k, r))
            return taken, [LE(t.w - k, q)] + toks[1:]
        if isinstance(t, FStrTok):
            toks = flat(expand_fstr(ctx, t) + toks[1:])
            continue
        if isinstance(t, Cod):
            s = snorm(t.s)
            raise Unsupported("cut inside string bytes")
        if isinstance(t, FTok):
            toks = [ftok_bits(ctx, t)] + toks[1:]
            continue
        if isinstance(t, VByteAtTok):
            raise Unsupported("cut")
        raise Unsupported("cut inside " + repr(t))


class VByteAtTok:
    pass


def unsigned_piece(ctx, t):
    """unsigned little-endian value of one token (constant width)"""
    if isinstance(t, bytes):
        return int.from_bytes(t, "little"), len(t)
    if isinstance(t, LE):
        m = 1 << (8 * t.w)
        lo, hi = rng(t.lin)
        if lo is not None and hi is not None and lo >= 0 and hi < m:
            return norm(t.lin), t.w
        if lo is not None and hi is not None and lo >= -m and hi < m:
            if ctx.decide(SBool("ge", t.lin)):
                return norm(t.lin), t.w
            return add(t.lin, m), t.w
        return divmod_const(t.lin, m, ctx)[1], t.w
    if isinstance(t, Raw):
        n = norm(t.n)
        if isinstance(n, Lin):
            n = ctx.unique(n)
            if n is None:
                raise Unsupported("integer of symbolic width")
        a = Atom(f"u{8*n}.{t.name}", 0, (1 << (8 * n)) - 1)
        ctx.trail.append((t, "rawbind", None))
        t.bind = [LE(n, lin_atom(a))]
        return lin_atom(a), n
    if isinstance(t, FStrTok):
        raise Unsupported("integer from string bytes")
    if isinstance(t, FTok) and isinstance(t.val, (SFloat, SIntFloat, SRound32)):
        raise Unsupported("integer from float bytes")
    raise Unsupported("integer from " + repr(t))


def to_int(ctx, toks, w, signed, big=False):
    """integer value of exactly w bytes"""
    f = flat(toks)
    half = 1 << (8 * w - 1) if w else 0
    full = 1 << (8 * w)
    if not f:
        return 0
    if big and w > 1:
        bs = []
        rest = f
        for _ in range(w):
            b, rest = split_front(ctx, rest, 1)
            bs.append(flat(b)[0])
        f = flat(bs[::-1])
        signed_first = None
    if len(f) == 1 and isinstance(f[0], Raw) and not big:
        a = Atom(f"{'i' if signed else 'u'}{8*w}.{f[0].name}", -half if signed else 0, half - 1 if signed else full - 1)
        ctx.trail.append((f[0], "rawbind", None))
        f[0].bind = [LE(w, lin_atom(a))]
        return lin_atom(a)
    if len(f) == 1 and isinstance(f[0], LE):
        lin = norm(f[0].lin)
        lo, hi = rng(lin)
        if lo is not None and hi is not None:
            if signed and -half <= lo and hi < half:
                return lin
            if not signed and 0 <= lo and hi < full:
                return lin
            if signed and lo >= 0 and hi < full:
                if ctx.decide(SBool("ge", sub(lin, half))):
                    return sub(lin, full)
                return lin
            if not signed and lo >= -half and hi < half:
                if ctx.decide(SBool("ge", lin)):
                    return lin
                return add(lin, full)
    tot = 0
    off = 0
    for t in f:
        v, n = unsigned_piece(ctx, t)
        tot = add(tot, scale(v, 1 << (8 * off)))
        off += n
    if off != w:
        raise Unsupported("width mismatch")
    if signed:
        if ctx.decide(SBool("ge", sub(tot, half))):
            tot = sub(tot, full)
    return norm(tot)


def to_float(ctx, toks, kind):
    f = flat(toks)
    w = 4 if kind == "f" else 8
    if len(f) == 1:
        t = f[0]
        if isinstance(t, bytes):
            return struct.unpack("<" + kind, t)[0]
        if isinstance(t, FTok) and t.kind == kind:
            v = t.val
            if kind == "f" and isinstance(v, SFloat) and v.width == 64:
                return SRound32(v)
            return v
        if isinstance(t, Raw):
            v = SFloat(t.name, 8 * w)
            ctx.trail.append((t, "rawbind", None))
            t.bind = [FTok(kind, v)]
            return v
    raise Unsupported("float from " + repr(f))


def byte_at(ctx, v, i):
    """v[i] for a bytes-like symbolic value; i native int or Lin"""
    toks = toks_of(v)
    n = toks_len(toks)
    i = norm(i)
    if isinstance(i, Lin):
        if len(i.t) == 1 and i.c == 0:
            (a, k), = i.t.items()
            for L in reversed(ctx.loops):
                if a is L.idx and k == 1:
                    return focus_byte(ctx, v if isinstance(v, SBytes) else SBytes(toks), L)
        u = ctx.unique(i)
        if u is None:
            raise Unsupported("symbolic byte index")
        i = u
    if i < 0:
        k = add(n, i)
        if not ctx.decide(SBool("ge", k)):
            raise PyExc(VExc(IndexError, ("index out of range",)))
        # peel from the back when possible
        f = flat(toks)
        off = -i
        tail = []
        while f:
            l = tok_len(f[-1])
            if isinstance(l, Lin):
                break
            tail.insert(0, f.pop())
            if sum(tok_len(t) for t in tail) >= off:
                break
        tl = sum(tok_len(t) for t in tail)
        if tl >= off:
            _, r = split_front(ctx, tail, tl - off)
            b, _ = split_front(ctx, r, 1)
            return to_int(ctx, b, 1, False)
        i = k
    else:
        if not ctx.decide(SBool("ge", sub(n, i + 1))):
            raise PyExc(VExc(IndexError, ("index out of range",)))
    _, r = split_front(ctx, toks, i)
    b, _ = split_front(ctx, r, 1)
    return to_int(ctx, b, 1, False)


def focus_byte(ctx, sb, L):
    key = tuple(id(t) for t in flat(sb.toks))
    for k, (s2, a) in L.bytecache.items():
        if toks_same(s2.toks, sb.toks):
            return lin_atom(a)
    a = Atom("byte", 0, 255)
    a.src = ("byteat", sb, L.idx)
    L.bytecache[key] = (sb, a)
    return lin_atom(a)


def toks_same(x, y):
    x, y = flat(x), flat(y)
    if len(x) != len(y):
        return False
    for a, b in zip(x, y):
        if a is b or (isinstance(a, bytes) and a == b):
            continue
        return False
    return True


def slice_bytes(ctx, v, lo, hi):
    toks = toks_of(v)
    n = toks_len(toks)

    def clamp(x, default):
        if x is None:
            return default
        x = norm(x)
        if not isinstance(x, Lin) and x < 0:
            y = add(n, x)
            if ctx.decide(SBool("ge", y)):
                return y
            return 0
        if isinstance(x, Lin):
            l, _ = rng(x)
            if l is None or l < 0:
                if not ctx.decide(SBool("ge", x)):
                    y = add(n, x)
                    return y if ctx.decide(SBool("ge", y)) else 0
        if ctx.decide(SBool("ge", sub(n, x))):
            return x
        return n

    a = clamp(lo, 0)
    b = clamp(hi, n)
    if hi is None:
        # cheap: no upper cut
        _, r = split_front(ctx, toks, a)
        return mk(r)
    if not ctx.decide(SBool("ge", sub(b, a))):
        return b""
    # cut from the back when the tail is constant
    f = flat(toks)
    if (not isinstance(norm(a), Lin)) and norm(a) == 0:
        drop = norm(sub(n, b))
        if not isinstance(drop, Lin):
            tail = []
            while drop > 0 and f:
                l = tok_len(f[-1])
                if isinstance(l, Lin):
                    break
                if l <= drop:
                    f.pop()
                    drop -= l
                else:
                    t, _ = split_front(ctx, [f.pop()], l - drop)
                    f += t
                    drop = 0
            if drop == 0:
                return mk(f)
    _, r = split_front(ctx, toks, a)
    t, _ = split_front(ctx, r, sub(b, a))
    return mk(t)


def blen(v):
    return toks_len(toks_of(v))


# ------------------------------------------------------------------ equality of byte strings
def bytes_eq(ctx, x, y):
    """decides x == y, forking; used for program comparisons"""
    a, b = flat(toks_of(x)), flat(toks_of(y))
    if toks_same(a, b):
        return True
    la, lb = toks_len(a), toks_len(b)
    d = sub(la, lb)
    if not ctx.decide(SBool("eq", d) if isinstance(d, Lin) else d == 0, "len =="):
        return False
    if 1 < len(a) == len(b) <= 64 and all(isinstance(s, (LE, bytes)) and isinstance(t, (LE, bytes)) and tok_len(s) == tok_len(t) for s, t in zip(a, b)):
        # equal layouts of fixed-width fields: different if some field is
        key = ("bytes-differ", repr(a), repr(b))
        if ctx.memo.get(key):
            return False
        for s, t in zip(a, b):
            v, _ = unsigned_piece(ctx, s)
            w, _ = unsigned_piece(ctx, t)
            dd = norm(sub(v, w))
            if (dd != 0) if not isinstance(dd, Lin) else ctx.prove(SBool("ne", dd)) is True:
                ctx.memo[key] = True
                return False
    while a or b:
        a, b = flat(a), flat(b)
        if not a and not b:
            return True
        if not a or not b:
            # both have length 0 remaining
            return True
        s, t = a[0], b[0]
        if s is t:
            a, b = a[1:], b[1:]
            continue
        n, m = tok_len(s), tok_len(t)
        if isinstance(s, FStrTok) and isinstance(t, FStrTok):
            from . import strops

            if not strops.str_eq(ctx, s.s, t.s):
                return False
            a, b = a[1:], b[1:]
            continue
        e = norm(sub(n, m))
        if isinstance(e, Lin) and not ctx.provable_eq(n, m):
            if isinstance(s, Raw) and len(a) == 1:
                return _raw_eq(ctx, s, b)
            if isinstance(t, Raw) and len(b) == 1:
                return _raw_eq(ctx, t, a)
            raise Unsupported("comparison of byte strings of symbolic layout")
        if not isinstance(e, Lin) and e > 0:
            p, r = split_front(ctx, [s], m)
            a = p + r + a[1:]
            continue
        if not isinstance(e, Lin) and e < 0:
            p, r = split_front(ctx, [t], n)
            b = p + r + b[1:]
            continue
        a, b = a[1:], b[1:]
        if isinstance(s, bytes) and isinstance(t, bytes):
            if s != t:
                return False
            continue
        if isinstance(s, Raw):
            if not _raw_eq(ctx, s, [t]):
                return False
            continue
        if isinstance(t, Raw):
            if not _raw_eq(ctx, t, [s]):
                return False
            continue
        if isinstance(s, (LE, bytes)) and isinstance(t, (LE, bytes)):
            v, _ = unsigned_piece(ctx, s)
            w, _ = unsigned_piece(ctx, t)
            dd = norm(sub(v, w))
            if not ctx.decide(SBool("eq", dd) if isinstance(dd, Lin) else dd == 0):
                return False
            continue
        if isinstance(s, Cod) and isinstance(t, Cod) and s.codec == t.codec:
            from . import strops

            if not strops.str_eq(ctx, s.s, t.s):
                return False
            continue
        raise Unsupported(f"comparison {s} == {t}")
    return True


def _raw_eq(ctx, raw, toks):
    key = ("raweq", raw.uid, repr(flat(toks)))
    if key in ctx.memo:
        return ctx.memo[key]
    if ctx.choose(2, f"{raw} == {toks}") == 0:
        ctx.trail.append((raw, "rawbind", None))
        raw.bind = list(toks)
        ctx.memo[key] = True
        return True
    ctx.memo[key] = False
    ctx.notes.append(("rawne", raw, list(toks)))
    return False


class Mismatch(Exception):
    def __init__(self, msg, extra=None):
        super().__init__(msg)
        self.msg = msg
        self.extra = extra


def ftok_bits(ctx, t, make=True):
    """the bytes of a stored float as an integer field; equal floats have the same bytes"""
    for k, v, a in ctx.__dict__.setdefault("fbits", []):
        if k == t.kind and float_same(ctx, v, t.val):
            return LE(tok_len(t), lin_atom(a))
    if not make:
        return None
    a = Atom("fbits", 0, (1 << (8 * tok_len(t))) - 1)
    ctx.fbits.append((t.kind, t.val, a))
    return LE(tok_len(t), lin_atom(a))


def toks_equal(ctx, x, y, what=""):
    """Prove that two token lists denote the same bytes for every value of the remaining
    symbols.  Returns None if proved; raises Mismatch if refuted, Unsupported if undecided."""
    a, b = flat(x), flat(y)
    while True:
        a, b = flat(a), flat(b)
        if not a and not b:
            return None
        if not a or not b:
            rest = a or b
            n = toks_len(rest)
            if isinstance(n, Lin):
                if ctx.provable_eq(n, 0):
                    return None
                raise Mismatch(f"{what}: extra data {rest}", SBool("ge", sub(n, 1)))
            raise Mismatch(f"{what}: {'missing' if a else 'extra'} data {rest}")
        s, t = a[0], b[0]
        if s is t:
            a, b = a[1:], b[1:]
            continue
        if isinstance(s, Big) and isinstance(t, Big):
            d = norm(sub(s.count, t.count))
            if isinstance(d, Lin):
                p = ctx.prove(SBool("eq", d))
                if p is None:
                    raise Unsupported("count equality unknown")
                if p is False:
                    raise Mismatch(f"{what}: element counts differ {s.count} vs {t.count}", SBool("ne", d))
            elif d != 0:
                raise Mismatch(f"{what}: element counts differ {s.count} vs {t.count}")
            toks_equal(ctx, s.toks, t.toks, what + "[element]")
            a, b = a[1:], b[1:]
            continue
        if isinstance(s, Big) or isinstance(t, Big):
            bg, oth = (s, t) if isinstance(s, Big) else (t, s)
            c = norm(bg.count)
            if isinstance(c, Lin) and ctx.decide(SBool("eq", c), "empty repetition"):
                continue
            # a zero-length repetition on one side only
            raise Mismatch(f"{what}: repetition {bg} versus {oth}")
        if isinstance(s, FStrTok) and isinstance(t, FStrTok):
            from . import strops

            if strops.same_str(s.s, t.s):
                a, b = a[1:], b[1:]
                continue
            raise Mismatch(f"{what}: strings differ {s} vs {t}")
        if isinstance(s, FStrTok):
            a = expand_fstr(ctx, s) + a[1:]
            continue
        if isinstance(t, FStrTok):
            b = expand_fstr(ctx, t) + b[1:]
            continue
        if isinstance(s, Enc) and isinstance(t, Enc):
            if s.kind == t.kind and enc_same(ctx, s, t):
                a, b = a[1:], b[1:]
                continue
            raise Mismatch(f"{what}: {s} vs {t}")
        if isinstance(s, FTok) and isinstance(t, FTok):
            if s.kind == t.kind and float_same(ctx, s.val, t.val):
                a, b = a[1:], b[1:]
                continue
            raise Mismatch(f"{what}: floats differ {s} vs {t}")
        if isinstance(s, FTok) and isinstance(t, (LE, bytes)) and ftok_bits(ctx, s, False) is not None:
            a = [ftok_bits(ctx, s)] + a[1:]
            continue
        if isinstance(t, FTok) and isinstance(s, (LE, bytes)) and ftok_bits(ctx, t, False) is not None:
            b = [ftok_bits(ctx, t)] + b[1:]
            continue
        if isinstance(s, Cod) and isinstance(t, Cod):
            from . import strops

            if s.codec == t.codec and strops.same_str(s.s, t.s):
                a, b = a[1:], b[1:]
                continue
            raise Mismatch(f"{what}: string bytes differ {s} vs {t}")
        if isinstance(s, (LE, bytes)) and isinstance(t, (LE, bytes)):
            n = min(tok_len(s), tok_len(t))
            if isinstance(s, bytes) and isinstance(t, bytes):
                if s[:n] != t[:n]:
                    raise Mismatch(f"{what}: bytes differ {s[:n]!r} vs {t[:n]!r}")
                a[0], b[0] = s[n:], t[n:]
                continue
            if tok_len(s) != tok_len(t):
                p, r = split_front(ctx, [s], n)
                q, u = split_front(ctx, [t], n)
                a, b = [None] + r + a[1:], [None] + u + b[1:]
                s, t = p[0], q[0]
                if len(p) != 1 or len(q) != 1:
                    raise Unsupported("split of an integer field")
            d = le_diff(ctx, s, t)
            if isinstance(d, Lin):
                p = ctx.prove(SBool("eq", d))
                if p is None:
                    raise Unsupported("integer equality unknown")
                if p is False:
                    raise Mismatch(f"{what}: fields differ {s} vs {t}", SBool("ne", d))
            elif d != 0:
                raise Mismatch(f"{what}: fields differ {s} vs {t}")
            a, b = a[1:], b[1:]
            continue
        if isinstance(s, Raw) and isinstance(t, Raw):
            # different unbound variables, cut to equal length if needed
            d = norm(sub(s.n, t.n))
            if isinstance(d, Lin) or d == 0:
                raise Mismatch(f"{what}: different data {s} vs {t}")
            if d > 0:
                p, r = split_front(ctx, [s], t.n)
            raise Mismatch(f"{what}: different data {s} vs {t}")
        raise Mismatch(f"{what}: {s} vs {t}")


def le_diff(ctx, s, t):
    def v(x):
        if isinstance(x, bytes):
            return int.from_bytes(x, "little"), len(x)
        return norm(x.lin), x.w

    (x, w), (y, _) = v(s), v(t)
    d = norm(sub(x, y))
    if not isinstance(d, Lin):
        return d % (1 << (8 * w))
    lo, hi = rng(d)
    if lo is None or hi is None or lo <= -(1 << (8 * w)) or hi >= (1 << (8 * w)):
        # equality modulo 256^w
        return divmod_const(d, 1 << (8 * w), ctx)[1]
    if lo < 0 or hi >= 0:
        # in (-2^8w, 2^8w): congruent iff d in {0}, unless signedness differs
        xl, xh = rng(x)
        yl, yh = rng(y)
        same_sign = (xl is not None and yl is not None and ((xl >= 0 and yl >= 0) or (xh - xl < (1 << (8 * w)) and yh - yl < (1 << (8 * w)) and xl < 0 and yl < 0)))
        if same_sign:
            return d
        return divmod_const(d, 1 << (8 * w), ctx)[1]
    return d


def float_same(ctx, u, v):
    if u is v:
        return True
    if isinstance(u, SIntFloat) and isinstance(v, SIntFloat):
        return ctx.provable_eq(u.lin, v.lin)
    if isinstance(u, SIntFloat) and isinstance(v, (int, Lin)) and not isinstance(v, bool):
        return ctx.provable_eq(u.lin, v)
    if isinstance(v, SIntFloat) and isinstance(u, (int, Lin)):
        return ctx.provable_eq(u, v.lin)
    if isinstance(u, SRound32) and isinstance(v, SRound32):
        return u.f is v.f
    if isinstance(u, float) and isinstance(v, float):
        return struct.pack("<d", u) == struct.pack("<d", v)
    return False


def enc_same(ctx, s, t):
    if s.obj is t.obj:
        return True
    if isinstance(s.obj, SBytes) and isinstance(t.obj, SBytes):
        try:
            toks_equal(ctx, s.obj.toks, t.obj.toks, s.kind)
            return True
        except Mismatch:
            return False
    return s.obj == t.obj


# ------------------------------------------------------------------ streams
def io_touch(ctx, io):
    if io.closed:
        raise PyExc(VExc(ValueError, ("I/O operation on closed file.",)))
    for L in reversed(ctx.loops):
        if io.born < L.start:
            if id(io) in L.owned:
                continue
            if id(io) not in L.touched:
                bef = flat(io.toks[: io.cur])
                aft = flat(io.toks[io.cur :])
                io.toks = bef + aft
                io.cur = len(bef)
                L.touched[id(io)] = ["io", io, io.cur, list(io.toks), None, None]
                ctx.keep.append(io)
        else:
            break


def _open_big(ctx, io):
    """cursor is at a Big token; make its first/focus element readable or skip it"""
    t = io.toks[io.cur]
    c = norm(t.count)
    inloop = None
    for L in reversed(ctx.loops):
        r = L.touched.get(id(io))
        if r is not None:
            if r[2] == io.cur and r[4] is None:
                inloop = (L, r)
            break
    if inloop:
        L, r = inloop
        if L.unknown_count:
            if isinstance(c, Lin):
                ctx.assume(SBool("ge", sub(c, 1)))
            d = sub(L.count, c)
            if isinstance(norm(d), Lin):
                ctx.assume(SBool("eq", d))
            L.unknown_count = False
            ok = True
        else:
            ok = ctx.provable_eq(L.count, c)
        if ok:
            r[4] = t
            body = flat(t.toks)
            io.toks[io.cur : io.cur + 1] = body
            r[5] = len(io.toks) - (io.cur + len(body))
            return
    z = ctx.decide(SBool("eq", c), "empty repetition") if isinstance(c, Lin) else c == 0
    if z:
        del io.toks[io.cur]
        return
    if getattr(ctx, "exit_iter", 0):
        raise PrunePath()
    if ctx.wstack:
        from .loops import SymLoop

        raise SymLoop(ctx.wstack[-1])
    raise Unsupported("read of repeated data outside a matching loop")


def io_remaining(ctx, io):
    return flat(io.toks[io.cur :])


def io_read(ctx, io, n):
    io_touch(ctx, io)
    if io.poisoned:
        raise Unsupported(io.poisoned)
    if n is not None:
        n = norm(n)
        neg = (n < 0) if not isinstance(n, Lin) else not ctx.decide(SBool("ge", n), "read size >= 0")
        if neg:
            n = None
    io.toks[io.cur :] = flat(io.toks[io.cur :])
    if n is None:
        taken = io.toks[io.cur :]
        io.cur = len(io.toks)
        return mk(taken)
    if not isinstance(n, Lin) and n == 0:
        return b""
    while io.cur < len(io.toks) and isinstance(io.toks[io.cur], Big):
        _open_big(ctx, io)
        io.toks[io.cur :] = flat(io.toks[io.cur :])
    rest = io.toks[io.cur :]
    if isinstance(n, Lin) and len(rest) >= 1 and (n is not None) and ctx.provable_eq(toks_len(rest), n):
        io.cur = len(io.toks)
        return mk(rest)
    avail = 0
    ok = None
    for t in rest:
        avail = add(avail, tok_len(t))
        d = norm(sub(avail, n))
        if not isinstance(d, Lin):
            if d >= 0:
                ok = True
                break
        else:
            q = ctx.quick(SBool("ge", d))
            if q is True:
                ok = True
                break
    if ok is None:
        d = norm(sub(avail, n))
        if not isinstance(d, Lin):
            ok = d >= 0
        else:
            ok = ctx.decide(SBool("ge", d), f"at least {n} bytes left")
    if not ok:
        ctx.short_read = True
        ctx.notes.append(("short", n, rest))
        io.cur = len(io.toks)
        return mk(rest)
    taken, rest = split_front(ctx, rest, n)
    io.toks[io.cur :] = taken + rest
    io.cur += len(taken)
    return mk(taken)


def io_write(ctx, io, v):
    io_touch(ctx, io)
    if io.poisoned:
        raise Unsupported(io.poisoned)
    toks = flat(toks_of(v))
    n = toks_len(toks)
    if io.cur == len(io.toks):
        io.toks += toks
        io.cur = len(io.toks)
    else:
        rest = flat(io.toks[io.cur :])
        d = sub(toks_len(rest), n)
        if isinstance(norm(d), Lin) and ctx.prove(SBool("ge", d)) is not True:
            raise Unsupported("overwrite inside a stream")
        if not isinstance(norm(d), Lin) and norm(d) < 0:
            rest = []
        else:
            _, rest = split_front(ctx, rest, n)
        io.toks[io.cur :] = toks + rest
        io.cur += len(toks)
    return n


def io_tell(ctx, io):
    io_touch(ctx, io)
    if io.poisoned:
        raise Unsupported(io.poisoned)
    p = toks_len(io.toks[: io.cur])
    io.marks.append((p, len(ctx.cons), len(ctx.trail)))
    return add(p, io_before(ctx, io))


def io_before(ctx, io):
    """what earlier iterations of the active loops moved the stream by: unknown, the same throughout
    one iteration"""
    off = 0
    for L in ctx.loops:
        if id(io) in L.touched:
            a = L.offs.get(id(io))
            if a is None:
                a = L.offs[id(io)] = ctx.fresh_int("moved", 0, None, is_len=True)
            off = add(off, lin_atom(a) if isinstance(a, Atom) else a)
    return off


def io_seek(ctx, io, p, whence=0):
    io_touch(ctx, io)
    off = io_before(ctx, io)
    r = _io_seek(ctx, io, p if whence == 2 else sub(p, off) if whence == 0 else add(p, toks_len(io.toks[: io.cur])), whence == 2)
    return add(r, off)


def _io_seek(ctx, io, p, end):
    if end:
        p = add(toks_len(io.toks), p)
    p = norm(p)
    here = None if io.poisoned else toks_len(io.toks[: io.cur])
    if here is not None:
        d = norm(sub(here, p))
        if not isinstance(d, Lin) and d == 0:
            return p
    bef = io.toks
    pos = 0
    for i in range(len(bef) + 1):
        d = norm(sub(pos, p))
        if (not isinstance(d, Lin) and d == 0) or (isinstance(d, Lin) and i <= io.cur and ctx.provable_eq(pos, p)):
            back = i < io.cur or io.poisoned
            io.poisoned = None
            if back and io.mode == "r":
                _undo_from(ctx, io, i, p)
            io.cur = i
            return p
        if i < len(bef):
            pos = add(pos, tok_len(bef[i]))
    if not isinstance(p, Lin):
        # split needed
        if p < 0:
            raise PyExc(VExc(ValueError, ("negative seek value",)))
        total = toks_len(io.toks)
        d = sub(total, p)
        if ctx.quick(SBool("ge", d) if isinstance(d, Lin) else d >= 0) is True:
            a, b = split_front(ctx, io.toks, p)
            io.toks = a + b
            io.cur = len(a)
            io.poisoned = None
            return p
    raise Unsupported("seek to an unmodelled position")


def _undo_from(ctx, io, i, p):
    """Seeking back in an input stream: forget the interpretation of the bytes after the new
    position (over-approximation: the bytes are the same, what was learnt about them is lost)."""
    if io.root is None or io.root.bind is None:
        return
    raw, off = io.root, 0
    while True:
        d = norm(sub(off, p))
        if not isinstance(d, Lin) and d == 0:
            break
        if raw.bind is None or not isinstance(raw.bind[-1], Raw):
            raise Unsupported("seek back across merged input")
        off = add(off, toks_len(raw.bind[:-1]))
        raw = raw.bind[-1]
    if raw.bind is None:
        return
    raw.bind = None
    io.toks[i:] = [raw]
    ctx.over.append("seek back re-reads input")
    mark = (0, 0, 0)
    for m in io.marks:
        d = norm(sub(m[0], p))
        if not isinstance(d, Lin) and d == 0:
            mark = m
    keep = ctx.cons[: mark[1]]
    for b in ctx.cons[mark[1] :]:
        l = norm(b.lin)
        if isinstance(l, Lin) and any(a.is_len for a in l.t):
            continue
        keep.append(b)
    ctx.cons = keep
    for obj, what, old in reversed(ctx.trail[mark[2] :]):
        if isinstance(obj, Atom) and obj.is_len:
            setattr(obj, what, old)
    ctx.short_read = False
