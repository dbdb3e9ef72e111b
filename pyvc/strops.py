"""String operations over SStr."""
from .terms import *
from .values import *


def is_str(v):
    return isinstance(v, (str, SStr))


def same_str(a, b):
    a, b = snorm(a), snorm(b)
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    if len(a.parts) != len(b.parts):
        return False
    for p, q in zip(a.parts, b.parts):
        if p is q:
            continue
        if isinstance(p, str) and isinstance(q, str) and p == q:
            continue
        if isinstance(p, HexTok) and isinstance(q, HexTok) and p.width == q.width:
            d = norm(sub(p.lin, q.lin))
            if not isinstance(d, Lin) and d == 0:
                continue
        if isinstance(p, DecTok) and isinstance(q, DecTok):
            d = norm(sub(p.lin, q.lin))
            if not isinstance(d, Lin) and d == 0:
                continue
        return False
    return True


def leaf_of(s):
    s = snorm(s)
    if isinstance(s, SStr) and len(s.parts) == 1 and isinstance(s.parts[0], StrLeaf):
        return s.parts[0]
    return None


def leaf_admits(ctx, l, lit):
    """can leaf l take the literal value lit?"""
    if lit in l.ne:
        return False
    if l.inset is not None and lit not in l.inset:
        return False
    if l.ascii is not None and lit.isascii() != l.ascii:
        return False
    for suf, v in l.endsw.items():
        if lit.endswith(suf) != v:
            return False
    for sub_, v in l.cont.items():
        if (sub_ in lit) != v:
            return False
    n = norm(lin_atom(l.n))
    if not isinstance(n, Lin):
        if n != len(lit):
            return False
    else:
        q = ctx.quick(SBool("eq", sub(n, len(lit))))
        if q is False:
            return False
    return True


def bind_leaf(ctx, l, lit):
    l.bind = lit
    for at, v in ((l.n, len(lit)), (l.units, len(lit.encode("utf-16-le", "surrogatepass")) // 2)):
        if at is None:
            continue
        d = norm(sub(lin_atom(at), v))
        ctx.assume(SBool("eq", d) if isinstance(d, Lin) else d == 0)
    fstr_facts(ctx)


def fstr_facts(ctx):
    """the stored form of a string that is now known has a known length"""
    for t in ctx.__dict__.get("fstrs", ()):
        s = snorm(t.s)
        if isinstance(s, str):
            d = norm(sub(lin_atom(t.n), len(fstr_bytes(s))))
            if isinstance(d, Lin):
                ctx.assume(SBool("eq", d))
            elif d != 0:
                raise PrunePath()


def str_eq(ctx, a, b):
    a, b = snorm(a), snorm(b)
    if not is_str(a) or not is_str(b):
        return False
    if isinstance(a, str) and isinstance(b, str):
        return a == b
    if same_str(a, b):
        return True
    if isinstance(a, str):
        a, b = b, a
    # a symbolic
    la = leaf_of(a)
    if isinstance(b, str):
        if la is not None:
            if not leaf_admits(ctx, la, b):
                return False
            if la.inset is not None and la.inset == {b}:
                bind_leaf(ctx, la, b)
                return True
            if ctx.choose(2, f"{la} == {b!r}") == 0:
                bind_leaf(ctx, la, b)
                return True
            la.ne.add(b)
            if la.inset is not None:
                la.inset = la.inset - {b}
                if len(la.inset) == 1:
                    bind_leaf(ctx, la, next(iter(la.inset)))
            if b == "":
                ctx.assume(SBool("ge", sub(lin_atom(la.n), 1)))
            return False
        # several parts against a literal
        p0, p1 = a.parts[0], a.parts[-1]
        if isinstance(p0, str) and not b.startswith(p0):
            return False
        if isinstance(p1, str) and not b.endswith(p1):
            return False
        mn = sum(len(p) for p in a.parts if isinstance(p, str))
        if len(b) < mn:
            return False
        if len(a.parts) == 2 and isinstance(p0, str) and isinstance(p1, StrLeaf):
            return str_eq(ctx, SStr((p1,)), b[len(p0):])
        if len(a.parts) == 2 and isinstance(p1, str) and isinstance(p0, StrLeaf):
            return str_eq(ctx, SStr((p0,)), b[: len(b) - len(p1)])
        key = ("streq", repr(a), b)
        if key in ctx.memo:
            return ctx.memo[key]
        r = ctx.choose(2, f"{a} == {b!r}") == 0
        ctx.memo[key] = r
        if r:
            ctx.over.append("string equality not propagated")
        return r
    lb = leaf_of(b)
    # two symbolic strings
    if a.parts and b.parts and len(a.parts) == len(b.parts) and all(
        (isinstance(p, str) and p == q) if isinstance(p, str) else (isinstance(p, HexTok) and isinstance(q, HexTok) and p.width == q.width)
        for p, q in zip(a.parts, b.parts)
    ):
        for p, q in zip(a.parts, b.parts):
            if isinstance(p, HexTok):
                d = norm(sub(p.lin, q.lin))
                if not ctx.decide(SBool("eq", d) if isinstance(d, Lin) else d == 0):
                    return False
        return True
    # strip common prefix / suffix
    pa, pb = list(a.parts), list(b.parts)
    while pa and pb and (pa[0] is pb[0] or (isinstance(pa[0], str) and pa[0] == pb[0])):
        pa.pop(0)
        pb.pop(0)
    while pa and pb and (pa[-1] is pb[-1] or (isinstance(pa[-1], str) and pa[-1] == pb[-1])):
        pa.pop()
        pb.pop()
    if len(pa) != len(a.parts):
        return str_eq(ctx, snorm(SStr(pa)), snorm(SStr(pb)))
    if pa and pb and isinstance(pa[0], str) and isinstance(pb[0], str):
        n = min(len(pa[0]), len(pb[0]))
        if pa[0][:n] != pb[0][:n]:
            return False
    if pa and pb and isinstance(pa[-1], str) and isinstance(pb[-1], str):
        n = min(len(pa[-1]), len(pb[-1]))
        if pa[-1][-n:] != pb[-1][-n:]:
            return False
    key = ("streq", repr(a), repr(b))
    if key in ctx.memo:
        return ctx.memo[key]
    # x == x + "lit" is impossible
    d = None
    try:
        d = norm(sub(strlen(a), strlen(b)))
    except Unsupported:
        pass
    if d is not None:
        q = (d == 0) if not isinstance(d, Lin) else ctx.quick(SBool("eq", d))
        if q is False:
            ctx.memo[key] = False
            return False
    r = ctx.choose(2, f"{a} == {b}") == 0
    ctx.memo[key] = r
    ctx.memo[("streq", repr(b), repr(a))] = r
    if r:
        tgt, oth = (la, b) if la is not None else (lb, a)
        if tgt is not None and tgt not in oth.parts and not tgt.ne and tgt.inset is None and tgt.ascii is None:
            tgt.bind = oth
            try:
                dd = norm(sub(lin_atom(tgt.n), strlen(oth)))
                ctx.assume(SBool("eq", dd) if isinstance(dd, Lin) else dd == 0)
            except Unsupported:
                pass
        else:
            ctx.over.append("string equality not propagated")
    else:
        ctx.notes.append(("strne", a, b))
    return r


def is_ascii(ctx, s):
    s = snorm(s)
    if isinstance(s, str):
        return s.isascii()
    for p in s.parts:
        if isinstance(p, str):
            if not p.isascii():
                return False
        elif isinstance(p, StrLeaf):
            if p.ascii is None:
                if p.inset is not None and all(x.isascii() for x in p.inset):
                    p.ascii = True
                elif not isinstance(norm(lin_atom(p.n)), Lin) and norm(lin_atom(p.n)) == 0:
                    p.ascii = True
                else:
                    p.ascii = ctx.choose(2, f"{p} is ascii") == 0
                    if p.ascii is False:
                        ctx.assume(SBool("ge", sub(lin_atom(p.n), 1)))
            if not p.ascii:
                return False
        elif isinstance(p, (HexTok, DecTok)):
            pass
        else:
            raise Unsupported("isascii of " + repr(p))
    return True


def truthy(ctx, s):
    return not str_eq(ctx, s, "")


def restrict(ctx, l, keys, inside):
    """assume leaf in / not in a finite set of literals"""
    if inside:
        ks = {k for k in keys if leaf_admits(ctx, l, k)}
        l.inset = ks if l.inset is None else l.inset & ks
        if not l.inset:
            raise PrunePath()
        if len(l.inset) == 1:
            bind_leaf(ctx, l, next(iter(l.inset)))
        elif all(k != "" for k in l.inset):
            ctx.assume(SBool("ge", sub(lin_atom(l.n), min(len(k) for k in l.inset))))
    else:
        l.ne |= set(keys)
        if "" in keys:
            ctx.assume(SBool("ge", sub(lin_atom(l.n), 1)))
        if l.inset is not None:
            l.inset = l.inset - set(keys)
            if not l.inset:
                raise PrunePath()
            if len(l.inset) == 1:
                bind_leaf(ctx, l, next(iter(l.inset)))


def str_in_set(ctx, s, keys):
    """membership of a string in a finite collection of literal strings"""
    s = snorm(s)
    keys = [k for k in keys if isinstance(k, str)]
    if isinstance(s, str):
        return s in keys
    l = leaf_of(s)
    if l is not None:
        adm = [k for k in keys if leaf_admits(ctx, l, k)]
        if not adm:
            return False
        if l.inset is not None and l.inset <= set(adm):
            return True
        if ctx.choose(2, f"{l} in {len(keys)} literals") == 0:
            restrict(ctx, l, adm, True)
            return True
        restrict(ctx, l, adm, False)
        return False
    for k in keys:
        if str_eq(ctx, s, k):
            return True
    return False


def cut(ctx, s, sep, last):
    """(before, after) the last (first) occurrence of the separator, None if there is none"""
    s = snorm(s)
    if isinstance(s, str):
        i = s.rfind(sep) if last else s.find(sep)
        return None if i < 0 else (s[:i], s[i + len(sep):])
    if len(sep) != 1:
        raise Unsupported("separator of several characters")
    ps = list(s.parts)
    for k in range(len(ps) - 1, -1, -1) if last else range(len(ps)):
        p = ps[k]
        before, after = ps[:k], ps[k + 1:]
        if isinstance(p, (HexTok, DecTok)):
            if sep in "0123456789abcdef-":
                raise Unsupported("separator in a number")
            continue
        if isinstance(p, str):
            i = p.rfind(sep) if last else p.find(sep)
            if i < 0:
                continue
            x, y = p[:i], p[i + 1:]
        else:
            r = cut_leaf(ctx, p, sep, last)
            if r is None:
                continue
            x, y = r
        return sconcat(*before, *as_parts(x)), sconcat(*as_parts(y), *after)
    return None


def as_parts(x):
    return [x] if isinstance(x, (str, SStr)) else list(x)


def cut_leaf(ctx, p, sep, last):
    one = SStr([p])
    if p.inset is not None:
        for k in sorted(p.inset)[:-1]:
            if str_eq(ctx, one, k):
                break
        else:
            restrict(ctx, p, [max(p.inset)], True)
        return cut(ctx, snorm(one), sep, last)
    if p.lower_of is not None:
        raise Unsupported("separator in a folded string")
    if not contains(ctx, one, sep):
        return None
    a, b = StrLeaf(p.name + ".before"), StrLeaf(p.name + ".after")
    if p.ascii:
        a.ascii = b.ascii = True
    (b if last else a).cont[sep] = False
    exact = p.ascii is not False
    for k, v in p.cont.items():
        if k == sep or not v and sep in k:
            exact = exact and (k == sep or k == "")
        elif not v:
            a.cont[k] = b.cont[k] = False
        else:
            exact = False
    for suf, v in p.endsw.items():
        if v:
            exact = False
        elif sep not in suf:
            b.endsw[suf] = False
        elif last and suf.rindex(sep) == 0:
            b.ne.add(suf[1:])
            if suf[1:] == "":
                ctx.assume(SBool("ge", sub(lin_atom(b.n), 1)))
        else:
            exact = False
    for k in p.ne:
        if sep in k:
            exact = False
    if not exact:
        ctx.over.append("facts on a string not carried over to its parts")
    p.bind = SStr((a, sep, b))
    ctx.assume(SBool("eq", sub(lin_atom(p.n), add(add(lin_atom(a.n), lin_atom(b.n)), 1))))
    return a_b(a), a_b(b)


def a_b(l):
    return SStr([l])


def splitext(ctx, s):
    """os.path.splitext; base names with nothing but dots before the extension are excluded"""
    r = cut(ctx, s, ".", True)
    s = snorm(s)
    if r is None:
        return s, ""
    stem, ext = r
    if contains_any(ctx, ext, "/"):
        return s, ""
    stem = snorm(stem)
    if isinstance(stem, str) and not stem.rsplit("/", 1)[-1].strip("."):
        raise PrunePath()
    if isinstance(stem, SStr):
        for l in stem.parts:
            if isinstance(l, StrLeaf):
                l.ne.add("")
                ctx.assume(SBool("ge", sub(lin_atom(l.n), 1)))
                break
        if endswith(ctx, stem, "/"):
            raise PrunePath()
    return snorm(stem), sconcat(".", ext)


def contains_any(ctx, s, lit):
    s = snorm(s)
    if isinstance(s, str):
        return lit in s
    return any(lit in p if isinstance(p, str) else contains(ctx, SStr([p]), lit) for p in s.parts)


def endswith(ctx, s, suf):
    s = snorm(s)
    if isinstance(s, str):
        return s.endswith(suf)
    p = s.parts[-1]
    if isinstance(p, str):
        if len(p) >= len(suf):
            return p.endswith(suf)
        if not suf.endswith(p):
            return False
        return endswith(ctx, SStr(s.parts[:-1]), suf[: -len(p)])
    if isinstance(p, StrLeaf):
        if p.inset is not None:
            t = {k for k in p.inset if k.endswith(suf)}
            if not t:
                return False
            if t == p.inset:
                return True
        if suf in p.endsw:
            return p.endsw[suf]
        for k, v in p.endsw.items():
            if v and (k.endswith(suf)):
                return True
            if v and not suf.endswith(k):
                return False
            if not v and suf.endswith(k):
                return False
        if len(s.parts) == 1 and any(p.cont.get(c) is False for c in suf):
            return False
        if len(s.parts) > 1:
            seps = [c for c in suf if p.cont.get(c) is False]
            if not seps:
                if len(suf) == 0:
                    return True
                raise Unsupported("endswith across parts")
            i = max(suf.rindex(c) for c in seps)
            if not str_eq(ctx, SStr([p]), suf[i + 1:]):
                return False
            return endswith(ctx, SStr(s.parts[:-1]), suf[: i + 1])
        if ctx.choose(2, f"{p} endswith {suf!r}") == 0:
            stem = StrLeaf(p.name + ".stem")
            stem.ascii = p.ascii if p.ascii else None
            p.bind = SStr((stem, suf))
            d = sub(lin_atom(p.n), add(lin_atom(stem.n), len(suf)))
            ctx.assume(SBool("eq", d))
            return True
        p.endsw[suf] = False
        return False
    raise Unsupported("endswith")


def contains(ctx, s, lit):
    s = snorm(s)
    if isinstance(s, str):
        return lit in s
    if lit == "":
        return True
    for p in s.parts:
        if isinstance(p, str) and lit in p:
            return True
    l = leaf_of(s)
    if l is None:
        raise Unsupported("substring of composite string")
    if l.inset is not None:
        t = {k for k in l.inset if lit in k}
        if not t:
            return False
        if t == l.inset:
            return True
    if lit in l.cont:
        return l.cont[lit]
    for k, v in l.cont.items():
        if v and lit in k:
            return True
        if not v and k in lit:
            return False
    r = ctx.choose(2, f"{lit!r} in {l}") == 0
    l.cont[lit] = r
    return r
