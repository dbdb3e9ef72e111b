"""Concrete inputs from a symbolic path.  Best effort: the replay on the real code judges."""
import struct
import zlib

import z3

from .terms import *
from .values import *

PATTERN = bytes((i * 37 + 11) % 256 for i in range(256))


class Conc:
    def __init__(self, ctx, extra=None, variant=0):
        self.ctx = ctx
        self.extra = [] if extra is None else (list(extra) if isinstance(extra, (list, tuple)) else [extra])
        self.extra = [b for b in self.extra if not isinstance(b, bool)]
        self.variant = variant
        self.hard = list(self.extra)
        self.strs = {}
        self.rawc = 0
        r, m = ctx.check(self.hard, want_model=True)
        self.ok = r == z3.sat
        self.model = m

    # preferences
    def prefer(self, b):
        if isinstance(b, bool):
            return b
        q = self.ctx.quick(b)
        if q is not None:
            return q
        r, m = self.ctx.check(self.hard + [b], want_model=True)
        if r == z3.sat:
            self.hard.append(b)
            self.model = m
            return True
        return False

    def iv(self, lin):
        lin = norm(lin)
        if not isinstance(lin, Lin):
            return lin
        # atoms that occur in no constraint still have bounds
        tot = lin.c
        for a, k in lin.t.items():
            v = self.model.eval(self.ctx.z(a)) if self.model is not None else None
            if v is not None and z3.is_int_value(v):
                v = v.as_long()
            else:
                lo, hi = a.lo, a.hi
                cand = [3, 7, 1, 2, 0, 5][self.variant % 6]
                if lo is not None and cand < lo:
                    cand = lo
                if hi is not None and cand > hi:
                    cand = hi
                v = cand
                self.prefer(SBool("eq", sub(lin_atom(a), v)))
            tot += k * v
        return tot

    def leaf(self, l):
        if l.bind is not None:
            return self.s(l.bind if not isinstance(l.bind, StrLeaf) else SStr([l.bind]))
        if id(l) in self.strs:
            return self.strs[id(l)]
        if l.inset:
            c = sorted(x for x in l.inset if x not in l.ne)
            v = c[self.variant % len(c)] if c else "x"
        else:
            cands = ["Ab", "q", "xyz", "Unk::Zz"] if l.ascii is not False else ["é", "日本", "ü9"]
            if l.ascii is None and self.variant % 2:
                cands = ["é", "日本"] + cands
            v = None
            for c in cands:
                if c in l.ne:
                    continue
                if self.prefer(SBool("eq", sub(lin_atom(l.n), len(c)))):
                    v = c
                    break
            if v is None:
                n = max(0, min(self.iv(lin_atom(l.n)), 10000))
                ch = "a" if l.ascii is not False else "é"
                v = ch * n
                k = 0
                while v in l.ne and n and k < 25:
                    k += 1
                    v = chr(ord(ch) + k) * n
        for suf, yes in l.endsw.items():
            if yes and not v.endswith(suf):
                v += suf
        if getattr(l, "units", None) is not None:
            self.prefer(SBool("eq", sub(lin_atom(l.units), len(v.encode("utf-16-le", "surrogatepass")) // 2)))
        self.strs[id(l)] = v
        return v

    def s(self, s):
        s = snorm(s)
        if isinstance(s, str):
            return s
        out = []
        for p in s.parts:
            if isinstance(p, str):
                out.append(p)
            elif isinstance(p, StrLeaf):
                out.append(self.leaf(p))
            elif isinstance(p, DecTok):
                out.append(str(self.iv(p.lin)))
            elif isinstance(p, HexTok):
                out.append("%0*x" % (p.width, self.iv(p.lin)))
        return "".join(out)

    def f(self, v, kind):
        if isinstance(v, (int, float)):
            return float(v)
        if isinstance(v, Lin):
            return float(self.iv(v))
        if isinstance(v, SIntFloat):
            return float(self.iv(v.lin))
        if isinstance(v, SRound32):
            return self.f(v.f, kind)
        if isinstance(v, SFin):
            return float(v.fn(self.iv(lin_atom(v.atom))))
        if isinstance(v, SFloat):
            c = v.cls
            if isinstance(c, (set, frozenset)):
                c = sorted(c)[0] if "finite" not in c else "finite"
            if c in ("nan", "nonfinite"):
                return float("nan")
            if c == "inf":
                return float("inf")
            if c == "ninf":
                return float("-inf")
            if self.variant % 3 == 2 and c is None:
                return [float("nan"), float("inf")][v.uid % 2]
            x = 0.5 + (v.uid % 97)
            return x if self.variant % 2 == 0 else struct.unpack("<f", struct.pack("<f", x / 3))[0]
        return 1.0

    def tok(self, t):
        if isinstance(t, bytes):
            return t
        if isinstance(t, SBytes):
            return self.toks(t.toks)
        if isinstance(t, Raw):
            if t.bind is not None:
                return self.toks(t.bind)
            n = norm(t.n)
            if isinstance(n, Lin):
                for c in (0, 1, 2, 3, 5):
                    if self.variant >= 3 and c == 0:
                        continue
                    if self.prefer(SBool("eq", sub(n, c))):
                        break
                else:
                    for k in (8, 16, 20, 24, 25, 28, 31):
                        if self.prefer(SBool("ge", sub(1 << k, n))):
                            break
                n = self.iv(n)
            n = max(0, min(n, 1 << 20))
            self.rawc += 1
            o = (self.rawc * 53 + self.variant * 101) % 256
            return (PATTERN[o:] + PATTERN * (n // 256 + 1))[:n]
        if isinstance(t, LE):
            return (self.iv(t.lin) % (1 << (8 * t.w))).to_bytes(t.w, "little")
        if isinstance(t, FTok):
            try:
                return struct.pack("<" + t.kind, self.f(t.val, t.kind))
            except OverflowError:
                return struct.pack("<" + t.kind, 1.0)
        if isinstance(t, FStrTok):
            v = self.s(t.s)
            b = fstr_bytes(v)
            self.prefer(SBool("eq", sub(lin_atom(t.n), len(b))))
            return b
        if isinstance(t, Cod):
            v = self.s(t.s)
            return v.encode("ascii" if t.codec == "ascii" else "utf-16-le", "surrogatepass")
        if isinstance(t, Big):
            c = norm(t.count)
            if isinstance(c, Lin):
                for k in (1, 2, 3):
                    if self.prefer(SBool("eq", sub(c, k))):
                        break
                c = self.iv(c)
            if c <= 0:
                self.prefer(SBool("eq", lin_atom(t.n)))
                return b""
            b = self.toks(t.toks)
            c = min(c, 4096)
            self.prefer(SBool("eq", sub(lin_atom(t.n), c * len(b))))
            return b * c
        if isinstance(t, Enc):
            return self.enc(t)
        raise Unsupported("concretise " + repr(t))

    def enc(self, t):
        if t.kind == "ZLIB":
            b = zlib.compress(self.toks(t.obj.toks if isinstance(t.obj, SBytes) else [t.obj]))
        elif t.kind == "PROPS" and not hasattr(t, "conc"):
            b = fstr_bytes("None") if self.variant % 2 == 0 else fstr_bytes("Zq") + fstr_bytes("IntProperty") + struct.pack("<QBi", 4, 0, 7) + fstr_bytes("None")
        elif hasattr(t, "conc"):
            b = t.conc(self)
        else:
            raise Unsupported("concretise " + repr(t))
        if isinstance(t.n, Atom):
            self.prefer(SBool("eq", sub(lin_atom(t.n), len(b))))
        return b

    def toks(self, ts):
        return b"".join(self.tok(t) for t in flat(ts))

    def value(self, v):
        """a Python value"""
        if isinstance(v, Lin):
            return self.iv(v)
        if isinstance(v, SBool):
            x = self.iv(v.lin)
            return {"ge": x >= 0, "eq": x == 0, "ne": x != 0}[v.op]
        if isinstance(v, Atom):
            return self.iv(lin_atom(v))
        if isinstance(v, StrLeaf):
            return self.leaf(v)
        if isinstance(v, SStr):
            return self.s(v)
        if isinstance(v, (Raw, LE, FTok, FStrTok, Cod, Big, Enc, SBytes)):
            return self.tok(v)
        if isinstance(v, VByteSeq):
            b = self.toks([v.sb])
            return tuple(b) if v.kind == "tuple" else list(b)
        if isinstance(v, (SFloat, SIntFloat, SFin, SRound32)):
            return self.f(v, "d")
        if isinstance(v, VList):
            out = []
            for i in v.items:
                if isinstance(i, Gen):
                    c = self.iv(i.count)
                    out += [self.value(x) for x in i.elems] * min(max(c, 0), 4096)
                else:
                    out.append(self.value(i))
            return out
        if isinstance(v, tuple):
            return tuple(self.value(x) for x in v)
        if isinstance(v, VUuid):
            import uuid

            return uuid.UUID(int=self.iv(v.lin))
        if isinstance(v, VObj) and "raw_bytes" in v.attrs:
            return v.cls(self.tok(v.attrs["raw_bytes"]))
        if isinstance(v, VOpaque) and v.kind == "props":
            return {} if self.variant % 2 == 0 else {"Zq": {"id": None, "value": 7, "type": "IntProperty"}}
        if isinstance(v, VDict):
            return {self.value(e[0]): self.value(e[1]) for e in v.ents if isinstance(e, list)}
        return v


def concretise(ctx, extra, names=None, variants=6):
    """yield dicts of concrete inputs"""
    for variant in range(variants):
        c = Conc(ctx, extra, variant)
        if not c.ok:
            if variant == 0 and extra is not None:
                return
            continue
        try:
            # two rounds: lengths chosen in the first round constrain integers in the second
            out = {k: c.value(v) for k, v in ctx.inputs.items()}
            c.rawc = 0
            out = {k: c.value(v) for k, v in ctx.inputs.items()}
            yield out
        except (Unsupported, PrunePath, RecursionError, KeyError, AttributeError, TypeError):
            continue
