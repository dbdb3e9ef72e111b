"""Loops: concrete iterations are unrolled; loops of symbolic length are verified for one
arbitrary (focus) iteration, and their effect is summarised as an n-fold repetition."""
import ast

from .terms import *
from .terms import _uid
from .values import *
from . import ops
from . import bytesops as B
from . import strops as S
from .ops import exc
from .interp import Frame, BreakEx, ContinueEx, ReturnEx, assigned_names

MAX_UNROLL = 3000


class SymLoop(Exception):
    """restart the exploration treating this while loop symbolically"""

    def __init__(self, key):
        self.key = key


# ------------------------------------------------------------------ iteration
def pieces(I, v):
    ctx = I.ctx
    if isinstance(v, (dict, list, set)):
        v = I.overlay(v)
    if isinstance(v, VIter):
        return v.pieces
    if isinstance(v, (tuple, list)):
        return [("items", list(v))]
    if isinstance(v, VList):
        out = []
        for i in ops.items_of(v):
            if isinstance(i, Gen):
                out.append(gen_piece(I, i))
            elif out and out[-1][0] == "items":
                out[-1][1].append(i)
            else:
                out.append(("items", [i]))
        return out
    if isinstance(v, dict):
        return [("items", list(v.keys()))]
    if isinstance(v, (set, frozenset)):
        return [("items", sorted(v, key=repr))]
    if isinstance(v, VSet):
        return [("items", list(v.items))]
    if isinstance(v, VDict):
        return dict_pieces(I, v, "keys")
    if isinstance(v, range):
        if len(v) > MAX_UNROLL:
            raise Unsupported("long concrete loop")
        return [("items", list(v))]
    if isinstance(v, VRange):
        a, b, st = norm(v.start), norm(v.stop), norm(v.step)
        if not any(isinstance(x, Lin) for x in (a, b, st)):
            return pieces(I, range(a, b, st))
        if st == 1:
            return [("gen", sub(b, a), lambda L: add(a, lin_atom(L.idx)) if L is not None else a, None)]
        raise Unsupported("symbolic range with step")
    if isinstance(v, (bytes, bytearray)):
        return [("items", list(v))]
    if isinstance(v, (SBytes, VByteSeq, VBytearray)):
        sb = SBytes(B.toks_of(v))
        n = norm(toks_len(sb.toks))
        if not isinstance(n, Lin) and n <= 64:
            return [("items", [B.byte_at(ctx, sb, i) for i in range(n)])]
        return [("gen", n, lambda L: B.focus_byte(ctx, sb, L) if L is not None else B.byte_at(ctx, sb, 0), sb)]
    if isinstance(v, (str, SStr)):
        v = snorm(v)
        if isinstance(v, str):
            return [("items", list(v))]
        raise Unsupported("iteration over symbolic string")
    if v is None or ops.is_int(v) or isinstance(v, (float, SFloat)):
        raise exc(TypeError, f"'{type(v).__name__}' object is not iterable")
    if isinstance(v, VObj):
        f = I.find_attr(v.cls, "__iter__")
        if I.is_repo_fn(f):
            return pieces(I, I.call(f, [v]))
        raise exc(TypeError, "object is not iterable")
    if isinstance(v, VOpaque):
        h = I.hooks.get("opaque_iter")
        if h is not None:
            return h(I, v)
    try:
        it = list(v)
    except Exception:
        raise Unsupported("iteration over " + type(v).__name__)
    return [("items", it)]


def gen_piece(I, g):
    if len(g.elems) != 1:
        c = norm(g.count)
        if not isinstance(c, Lin) and c == 1:
            return ("items", list(g.elems))
        raise Unsupported("iteration over a list with several elements per generic step")

    def val(L):
        if L is not None:
            return I.focus_elem(L, g)
        return g.elems[0]

    return ("gen", g.count, val, g)


def gen_of(I, p):
    """Gen entry for a generic piece used as a list segment"""
    if isinstance(p[3], Gen):
        return Gen(p[3].count, list(p[3].elems))
    if isinstance(p[3], SBytes):
        a = Atom("byte", 0, 255)
        idx = Atom("i", 0, None)
        a.src = ("byteat", p[3], idx)
        return Gen(p[1], [lin_atom(a)])
    raise Unsupported("generic segment")


def dict_pieces(I, d, what):
    heap_read(d)
    if d.rest is not None:
        raise Unsupported("iteration over open dict")
    out = []
    for e in d.ents:
        if isinstance(e, GenEntry):

            def val(L, e=e):
                if L is not None:
                    I.own(L, e.val)
                return {"keys": e.key, "values": e.val, "items": (e.key, e.val)}[what]

            out.append(("gen", e.count, val, e))
        else:
            x = {"keys": e[0], "values": e[1], "items": (e[0], e[1])}[what]
            if out and out[-1][0] == "items":
                out[-1][1].append(x)
            else:
                out.append(("items", [x]))
    return out


# ------------------------------------------------------------------ generic iteration
def const_step(body, name):
    """constant step of an induction variable: its only assignment in the loop body is a
    top-level `name += c` / `name -= c` / `name = name + c`, executed on every iteration"""
    step = None
    n = 0
    for s in body:
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == name:
            if isinstance(s.op, (ast.Add, ast.Sub)) and isinstance(s.value, ast.Constant) and type(s.value.value) is int:
                step = s.value.value if isinstance(s.op, ast.Add) else -s.value.value
                n += 1
        elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == name:
            v = s.value
            if isinstance(v, ast.BinOp) and isinstance(v.op, (ast.Add, ast.Sub)) and isinstance(v.left, ast.Name) and v.left.id == name and isinstance(v.right, ast.Constant) and type(v.right.value) is int:
                step = v.right.value if isinstance(v.op, ast.Add) else -v.right.value
                n += 1
    tot = 0
    for s in body:
        for c in ast.walk(s):
            if isinstance(c, ast.Name) and c.id == name and isinstance(c.ctx, (ast.Store, ast.Del)):
                tot += 1
            if isinstance(c, ast.Continue):
                return None
    return step if n == 1 and tot == 1 else None


def push_loop(I, fr, count, names, body):
    ctx = I.ctx
    L = Loop(ctx, count)
    L.frame = fr
    L.newframes = set()
    L.uid0 = next(_uid)
    L.trace0 = len(ctx.trace)
    L.names = names
    L.pre = {}
    L.ind = {}
    L.events0 = len(ctx.frame_events)
    ctx.loops.append(L)
    for n in names:
        if n in fr.vars:
            old = fr.vars[n]
            L.pre[n] = old
            st = const_step(body, n) if body else None
            if st is not None and ops.is_int(old) and not isinstance(old, (bool, SBool)):
                L.ind[n] = (old, st)
                fr.vars[n] = add(old, scale(lin_atom(L.idx), st))
            else:
                fr.vars[n] = Poison(f"loop-carried variable {n}")
    return L


def shape_guard(I, L, kind, obj, shape):
    """the effect shape must be the same on every normally completing iteration path"""
    ctx = I.ctx
    shapes = ctx.opts.get("shapes")
    if shapes is None:
        return
    key = (tuple(c for c, _, _ in ctx.trace[: L.trace0]), L.start, kind, getattr(obj, "born", 0))
    old = shapes.setdefault(key, shape)
    if old != shape:
        ctx.unproved.append("iterations of a loop differ in how much they add to a collection")


def generalise(I, L):
    ctx = I.ctx
    assert ctx.loops[-1] is L
    ctx.loops.pop()
    fr = L.frame
    for n in L.names:
        if n in fr.vars or n in L.pre:
            if n in L.ind:
                old, st = L.ind[n]
                fr.vars[n] = add(old, scale(L.count, st))
            else:
                fr.vars[n] = Poison(f"variable {n} after a loop of symbolic length")
    drop_len_facts(I, L)
    carried(I, L)
    for rec in list(L.touched.values()):
        if rec[0] == "io":
            gen_io(I, L, rec)
        else:
            gen_heap(I, L, rec)


def drop_len_facts(I, L):
    """facts about lengths that existed before the loop were learnt for one iteration only"""
    ctx = I.ctx
    keep = ctx.cons[: L.cons0]
    for b in ctx.cons[L.cons0 :]:
        l = norm(b.lin)
        if isinstance(l, Lin) and any(a.is_len and a.uid < L.uid0 for a in l.t):
            ctx.overapprox("length fact of one iteration dropped")
            continue
        keep.append(b)
    ctx.cons = keep
    for obj, what, old in reversed(ctx.trail[L.trail0 :]):
        if isinstance(obj, Atom) and obj.is_len and obj.uid < L.uid0 and what in ("lo", "hi", "bind"):
            setattr(obj, what, old)
    S.fstr_facts(ctx)


def clash(obj, whats, evs, same=()):
    """a read and a write of the same state"""
    if not whats or not evs:
        return False
    if isinstance(obj, (VList, VBytearray)):
        return True
    for e in evs:
        if e in same:
            continue
        if "all" in whats or e[0] not in ("set", "attr") or e[1] in whats:
            return True
    return False


def carried(I, L):
    """what one iteration reads must not be what another one writes: the iteration run starts from
    the state before the loop, which is right only for the first one"""
    ctx = I.ctx
    shapes = ctx.opts.get("shapes")
    book = None if shapes is None else shapes.setdefault(("rw", tuple(c for c, _, _ in ctx.trace[: L.trace0]), L.start), {})
    for k in set(L.reads) | {k for k, r in L.touched.items() if r[0] == "heap"}:
        rec = L.touched.get(k)
        obj = rec[1] if rec else L.reads[k][0]
        whats = L.reads[k][1] if k in L.reads else set()
        evs = list(rec[2]) if rec else []
        same = set()
        if isinstance(obj, VObj) and rec:
            for e in evs:
                a, b = rec[3].get(e[1]), obj.attrs.get(e[1])
                if ops.native_ok(a) and ops.native_ok(b) and type(a) is type(b) and a == b:
                    same.add(e)
        if clash(obj, whats, [e for e in evs if e not in same]):
            raise Unsupported(f"an iteration of a loop reads what earlier ones wrote ({type(obj).__name__}: {sorted(map(str, whats))[:3]} {[e[:2] for e in evs][:4]})")
        if book is not None:
            r, w = book.setdefault((type(obj).__name__, obj.born), (set(), []))
            r |= whats
            w.extend((e[0], e[1] if len(e) > 1 and ops.native_ok(e[1]) else None) for e in evs if e not in same and e[0] != "symset")
            w.extend(("symset", None) for e in evs if e[0] == "symset")
            if len(w) > 50:
                w[:] = list(dict.fromkeys(w))
            if clash(obj, r, w):
                ctx.unproved.append("iterations of a loop read what others write")


def gen_io(I, L, rec):
    ctx = I.ctx
    _, io, cur0, toks0, bigtok, tail = rec
    if io.poisoned:
        raise Unsupported(io.poisoned)
    if io.mode == "w" and cur0 == len(toks0):
        if io.cur != len(io.toks):
            raise Unsupported("write loop ends inside the stream")
        prod = flat(io.toks[cur0:])
        if not prod:
            return
        b = make_big(I, L.count, prod)
        io.toks = flat(toks0[:cur0]) + flat([b])
        io.cur = len(io.toks)
        return
    if bigtok is not None:
        if len(io.toks) - io.cur != tail:
            d = toks_len(io.toks[io.cur : len(io.toks) - tail]) if len(io.toks) - io.cur > tail else None
            raise Refuted("one iteration of a loop does not consume exactly one stored element" + (f" (left over: {io.toks[io.cur:len(io.toks)-tail]})" if d is not None else " (read too much)"))
        bigtok.toks = flat(io.toks[cur0 : io.cur])
        io.toks = flat(toks0[:cur0]) + [bigtok] + io.toks[io.cur :]
        io.cur = len(flat(toks0[:cur0])) + 1
        return
    used = flat(io.toks[cur0 : io.cur])
    if not used:
        return
    # free input: the token at the loop start must be an uninterpreted run
    t = toks0[cur0] if cur0 < len(toks0) else None
    if t is None:
        raise Unsupported("loop consumed beyond the input")
    if not isinstance(t, Raw) or t.bind is None:
        if isinstance(t, Raw) or True:
            # literal/structured data consumed by a generic loop
            raise Unsupported("generic loop over structured input")
    rest = io.toks[io.cur :]
    others = toks0[cur0 + 1 :]
    if len(rest) != len(others) + 1 and not (len(rest) == len(others)):
        raise Unsupported("generic loop crossed input regions")
    b = Big(L.count, used)
    n0 = norm(t.n)
    new = Raw(t.name, sub(n0, lin_atom(b.n)))
    t.bind = [b, new]
    ctx.assume(SBool("ge", sub(n0, lin_atom(b.n))))
    ctx.bigs.append(b)
    io.toks = flat(toks0[:cur0]) + [b, new] + others
    io.cur = len(flat(toks0[:cur0])) + 1
    io.marks = [m for m in io.marks if m[1] <= L.cons0]


def make_big(I, count, toks):
    ctx = I.ctx
    b = Big(count, toks)
    f = flat([b])
    if not (len(f) == 1 and f[0] is b):
        return f[0] if len(f) == 1 else SBytes(f)
    for o in ctx.bigs:
        if not I.same_count(o.count, count):
            continue
        nf, ctx.nofork = ctx.nofork, True
        try:
            B.toks_equal(ctx, o.toks, toks, "element")
        except (B.Mismatch, Unsupported):
            continue
        finally:
            ctx.nofork = nf
        b.n = o.n
        break
    else:
        ctx.bigs.append(b)
    return b


def gen_heap(I, L, rec):
    ctx = I.ctx
    _, obj, evs, snap = rec
    kinds = {e[0] for e in evs}
    if isinstance(obj, VList):
        if not kinds <= {"append"}:
            raise Unsupported("list modified inside a generic loop: " + str(kinds))
        new = obj._items[snap:]
        shape_guard(I, L, "list", obj, len(new))
        if any(isinstance(x, Gen) for x in new):
            raise Unsupported("nested generic list")
        obj.items = obj._items[:snap] + ([Gen(L.count, new)] if new else [])
        return
    if isinstance(obj, VDict):
        old = snap
        if not kinds <= {"set", "symset"}:
            raise Unsupported("dict modified inside a generic loop: " + str(kinds))
        oldk = {id(e) for e in old}
        new = [e for e in obj.ents if id(e) not in oldk]
        sets = {e[1] for e in evs if e[0] == "set"}
        for k in sets:
            if k in obj.idx and not (len(sets) == 0):
                obj.idx[k][1] = Poison("dict entry overwritten in a generic loop")
        gens = [e for e in new if not ops.native_ok(e[0])]
        shape_guard(I, L, "dict", obj, (len(gens), tuple(sorted(map(repr, sets)))))
        if len(gens) > 1:
            raise Unsupported("several symbolic dict entries per iteration")
        for e in gens:
            obj.ents.remove(e)
            obj.ents.append(GenEntry(L.count, e[0], e[1]))
        return
    if isinstance(obj, VBytearray):
        if not kinds <= {"append"}:
            raise Unsupported("bytearray modified inside a generic loop")
        new = flat(obj.toks)[len(flat(snap)) :] if len(snap) == 0 or True else None
        pre = flat(snap)
        cur = flat(obj.toks)
        if [id(x) if not isinstance(x, bytes) else x for x in cur[: len(pre)]] != [id(x) if not isinstance(x, bytes) else x for x in pre]:
            raise Unsupported("bytearray prefix merged")
        new = cur[len(pre) :]
        if new:
            obj.toks = pre + [make_big(I, L.count, new)]
        return
    if isinstance(obj, VObj):
        for k in {e[1] for e in evs}:
            a, b = snap.get(k), obj.attrs.get(k)
            if ops.native_ok(a) and ops.native_ok(b) and type(a) is type(b) and a == b:
                continue
            obj.attrs[k] = Poison(f"attribute {k} set in a generic loop")
        return
    raise Unsupported("object modified inside a generic loop")


def abandon(I, n):
    """a generic iteration was left early (exception, break, return) and execution goes on"""
    ctx = I.ctx
    while len(ctx.loops) > n:
        L = ctx.loops.pop()
        if L.ownmut:
            raise Unsupported("elements modified by a loop that is left early")
        for rec in L.touched.values():
            obj = rec[1]
            if rec[0] == "io":
                obj.poisoned = "stream position after leaving a generic loop early"
            elif isinstance(obj, VList):
                obj.poisoned = "list after leaving a generic loop early"
            elif isinstance(obj, VObj):
                for e in rec[2]:
                    obj.attrs[e[1]] = Poison("attribute after leaving a generic loop early")
            elif isinstance(obj, VDict):
                obj.rest = "unknown entries"
                for e in rec[2]:
                    if e[0] == "set" and e[1] in obj.idx:
                        obj.idx[e[1]][1] = Poison("entry after leaving a generic loop early")
            else:
                raise Unsupported("object state after leaving a generic loop early")


def poison_names(I, L):
    pass


def generic(I, fr, p, run, names, body):
    """run one arbitrary iteration of a piece; returns True if the loop was left by break"""
    ctx = I.ctx
    count = norm(p[1])
    if not isinstance(count, Lin):
        if count <= 0:
            return False
        if count == 1:
            try:
                run(p[2](None))
            except ContinueEx:
                pass
            except BreakEx:
                return True
            return False
    elif not ctx.decide(SBool("ge", sub(count, 1)), "loop runs"):
        return False
    n = len(ctx.loops)
    L = push_loop(I, fr, norm(count), names, body)
    ctx.assume(SBool("ge", sub(sub(count, 1), lin_atom(L.idx))))
    try:
        run(p[2](L))
    except ContinueEx:
        pass
    except BreakEx:
        abandon(I, n)
        return True
    except ReturnEx:
        abandon(I, n)
        raise
    generalise(I, L)
    return False


def for_loop(I, s, fr):
    ctx = I.ctx
    it = I.ev(s.iter, fr)
    if isinstance(it, (VDict, VList)):
        pass
    names, nonl = assigned_names(s.body)
    tn, _ = assigned_names([ast.Assign(targets=[s.target], value=ast.Constant(0))])
    names = (names | tn) - nonl
    for p in pieces(I, it):
        if p[0] == "items":
            for x in list(p[1]):
                ctx.tick()
                I.assign(s.target, x, fr)
                try:
                    I.block(s.body, fr)
                except ContinueEx:
                    continue
                except BreakEx:
                    return
            continue

        def run(x):
            I.assign(s.target, x, fr)
            I.block(s.body, fr)

        if generic(I, fr, p, run, names, s.body):
            return
    I.block(s.orelse, fr)


def while_loop(I, s, fr):
    ctx = I.ctx
    key = (fr.fname, s.lineno)
    if key not in ctx.opts.setdefault("symw", set()):
        for it in range(MAX_UNROLL):
            n0 = len(ctx.trace)
            ctx.wstack.append(key)
            try:
                go = I.truth(I.ev(s.test, fr))
                if go:
                    I.block(s.body, fr)
            except ContinueEx:
                pass
            except BreakEx:
                return
            finally:
                ctx.wstack.pop()
            if not go:
                I.block(s.orelse, fr)
                return
            if len(ctx.trace) != n0 and not ctx.opts.get("unroll_forks") or it > 200:
                raise SymLoop(key)
        raise SymLoop(key)
    names, nonl = assigned_names(s.body + [ast.Expr(s.test)])
    names = names - nonl
    if ctx.choose(2, "while: complete iterations") == 1:
        count = ctx.fresh_int("trips", 1)
        n = len(ctx.loops)
        L = push_loop(I, fr, count, names, s.body)
        L.unknown_count = True
        v = I.ev(s.test, fr)
        if isinstance(v, SBool) and v.op == "ge":
            lin = norm(v.lin)
            k = lin.t.get(L.idx) if isinstance(lin, Lin) else None
            if k == -1:
                rest = add(lin, lin_atom(L.idx))
                ctx.assume(SBool("ge", rest) if isinstance(rest, Lin) else rest >= 0)
                L.count = norm(add(rest, 1))
                L.unknown_count = False
                v = True
                ctx.assume(SBool("ge", sub(rest, lin_atom(L.idx))))
        if not I.truth(v):
            raise PrunePath()
        try:
            I.block(s.body, fr)
        except ContinueEx:
            pass
        except (BreakEx, ReturnEx, PyExc):
            raise PrunePath()
        generalise(I, L)
    ctx.exit_iter = getattr(ctx, "exit_iter", 0) + 1
    try:
        if not I.truth(I.ev(s.test, fr)):
            I.block(s.orelse, fr)
            return
        try:
            I.block(s.body, fr)
        except BreakEx:
            return
        except ContinueEx:
            pass
        raise PrunePath()
    finally:
        ctx.exit_iter -= 1


def comprehension(I, e, fr, kind):
    ctx = I.ctx
    cf = Frame(set(), fr, fr.globs, fr.fname + ".<comp>")
    cf.self_ = fr.self_
    for L in ctx.loops:
        L.newframes.add(cf)
    tn = set()
    for g in e.generators:
        t, _ = assigned_names([ast.Assign(targets=[g.target], value=ast.Constant(0))])
        tn |= t
    cf.names = tn
    out = VList(ctx)
    from . import models as M

    def emit():
        if kind == "dict":
            k = I.ev(e.key, cf)
            v = I.ev(e.value, cf)
            ops.dict_set(ctx, dct, k, v)
        else:
            M.list_append(I, out, I.ev(e.elt, cf))

    dct = VDict(ctx) if kind == "dict" else None

    def run_gen(i):
        if i == len(e.generators):
            emit()
            return
        g = e.generators[i]
        if g.is_async:
            raise Unsupported("async comprehension")
        it = I.ev(g.iter, fr if i == 0 else cf)
        if isinstance(it, SelList):
            if len(e.generators) != 1 or g.ifs or kind == "dict":
                raise Unsupported("comprehension over parts")
            I.assign(g.target, M.part_of(I, it), cf)
            return M.mapped(I, it, I.ev(e.elt, cf), "set" if kind == "set" else "list" if kind == "list" else "gen")

        def step(x, generic_):
            I.assign(g.target, x, cf)
            for c in g.ifs:
                n0 = len(ctx.trace)
                t = I.ev(c, cf)
                if isinstance(t, SMember) and kind == "dict" and len(e.generators) == len(g.ifs) == 1 and ("member", t.tag, t.lit) not in ctx.memo:
                    n0 = len(ctx.trace)
                    k, v = I.ev(e.key, cf), I.ev(e.value, cf)
                    if len(ctx.trace) != n0 or generic_:
                        raise Unsupported("split below a membership condition")
                    I.cond_store(dct, t, k, v)
                    return
                t = I.truth(t)
                if generic_ and len(ctx.trace) != n0:
                    raise Unsupported("filter in a generic comprehension")
                if not t:
                    return
            run_gen(i + 1)

        for p in pieces(I, it):
            if p[0] == "items":
                for x in list(p[1]):
                    ctx.tick()
                    step(x, False)
            else:
                generic(I, cf, p, lambda x: step(x, True), tn, None)

    r = run_gen(0)
    if isinstance(r, SelList):
        return r
    if kind == "dict":
        return dct
    if kind == "set":
        return VSet(ctx, out.items)
    return I.mklist(out.items)
