"""Heap values of the symbolic interpreter."""
from .terms import *


class Poison:
    """a value the loop generalisation does not track; any use is Unsupported"""

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return f"<poison {self.why}>"


class Gen:
    """count-fold generic piece of a list; elems = what one iteration contributes"""

    __slots__ = ("count", "elems")

    def __init__(self, count, elems):
        self.count = count
        self.elems = elems

    def __repr__(self):
        return f"*{norm(self.count)}x{self.elems}"


class Heap:
    __slots__ = ("ctx", "born")

    def __init__(self, ctx):
        self.ctx = ctx
        self.born = ctx.stamp()


def heap_read(obj, what="all"):
    """journal a read of an object older than an active generic iteration: what it holds there may
    come from earlier iterations, which the one being run does not know"""
    for L in reversed(obj.ctx.loops):
        if obj.born >= L.start:
            break
        if id(obj) in L.owned:
            continue
        if what != "all":
            r = L.touched.get(id(obj))
            if r is not None and any(e[0] in ("set", "attr") and e[1] == what for e in r[2]):
                continue  # stored by this iteration
        L.reads.setdefault(id(obj), (obj, set()))[1].add(what)


class VList(Heap):
    __slots__ = ("_items", "poisoned")

    def __init__(self, ctx, items=()):
        super().__init__(ctx)
        self._items = list(items)
        self.poisoned = None

    @property
    def items(self):
        if self.ctx.loops:
            heap_read(self)
        return self._items

    @items.setter
    def items(self, v):
        self._items = v

    def simple(self):
        return not any(isinstance(i, Gen) for i in self.items)

    def __repr__(self):
        return "L" + repr(self.items)


class OpenRest(str):
    """further entries of a dict, none of them with a key in absent"""

    absent = frozenset()


def rest_lacks(d, k):
    return d.rest is None or k in getattr(d.rest, "absent", ())


class VDict(Heap):
    """entries: list of [key, value] with native or symbolic keys, or GenEntry"""

    __slots__ = ("ents", "idx", "rest", "tag", "cond")

    def __init__(self, ctx, pairs=()):
        super().__init__(ctx)
        self.ents = []
        self.idx = {}
        self.rest = None
        self.tag = None
        self.cond = None  # entries present under a condition: (SMember, key, value)
        for k, v in pairs:
            self.put(k, v)

    def put(self, k, v):
        if isinstance(k, (str, int, float, bytes, bool, type(None), tuple)) and not isinstance(k, SStr):
            e = self.idx.get(k)
            if e is not None:
                e[1] = v
                return
            e = [k, v]
            self.ents.append(e)
            self.idx[k] = e
        else:
            self.ents.append([k, v])

    def remove(self, k):
        e = self.idx.pop(k)
        self.ents = [x for x in self.ents if x is not e]
        if self.rest == "entries":
            self.tag = None  # the order of the entries is no longer the one read

    def __repr__(self):
        return "D{" + ", ".join(f"{e[0]!r}: {e[1]!r}" if isinstance(e, list) else repr(e) for e in self.ents) + ("..." if self.rest else "") + "}"


class GenEntry:
    __slots__ = ("count", "key", "val")

    def __init__(self, count, key, val):
        self.count = count
        self.key = key
        self.val = val

    def __repr__(self):
        return f"*{norm(self.count)}x {self.key!r}: {self.val!r}"


class VSet(Heap):
    __slots__ = ("items",)

    def __init__(self, ctx, items=()):
        super().__init__(ctx)
        self.items = list(items)


class VObj(Heap):
    __slots__ = ("cls", "attrs")

    def __init__(self, ctx, cls):
        super().__init__(ctx)
        self.cls = cls
        self.attrs = {}

    def __repr__(self):
        return f"<{self.cls.__name__} {self.attrs if len(self.attrs) < 4 else '...'}>"


class VByteSeq:
    """list/tuple whose items are exactly the bytes of sb"""

    __slots__ = ("kind", "sb")

    def __init__(self, kind, sb):
        self.kind = kind
        self.sb = sb

    def __repr__(self):
        return f"{self.kind}<{self.sb}>"


class VBytearray(Heap):
    __slots__ = ("toks",)

    def __init__(self, ctx, toks=()):
        super().__init__(ctx)
        self.toks = list(toks)


class VBytesIO(Heap):
    __slots__ = ("toks", "cur", "closed", "poisoned", "mode", "root", "marks")

    def __init__(self, ctx, toks=()):
        super().__init__(ctx)
        self.toks = flat(toks)
        self.root = self.toks[0] if len(self.toks) == 1 and isinstance(self.toks[0], Raw) else None
        self.marks = [(0, len(ctx.cons), len(ctx.trail))]
        self.cur = 0
        self.closed = False
        self.poisoned = None
        self.mode = "r" if toks else "w"

    def __repr__(self):
        return f"IO{self.toks[:self.cur]}|{self.toks[self.cur:]}"


class VExc:
    __slots__ = ("cls", "args", "attrs")

    def __init__(self, cls, args=()):
        self.cls = cls
        self.args = tuple(args)
        self.attrs = {}

    def __repr__(self):
        return f"{self.cls.__name__}{self.args}"


class PyExc(Exception):
    """an exception raised by the interpreted program"""

    def __init__(self, exc):
        super().__init__(repr(exc))
        self.exc = exc


class VUuid:
    """uuid.UUID with symbolic integer value"""

    __slots__ = ("lin",)

    def __init__(self, lin):
        self.lin = lin

    def __repr__(self):
        return f"uuid{{{norm(self.lin)}}}"


class SelList:
    """the parts of an arbitrary string cut at a separator, each run through the same string
    functions; how many there are and what they hold is arbitrary (at least one)"""

    __slots__ = ("tag", "kind")

    def __init__(self, tag, kind="list"):
        self.tag = tag
        self.kind = kind

    def __repr__(self):
        return f"parts{self.tag}"


class SMember:
    """whether a literal is among the parts"""

    __slots__ = ("tag", "lit", "no")

    def __init__(self, tag, lit, no=False):
        self.tag, self.lit, self.no = tag, lit, no

    def neg(self):
        return SMember(self.tag, self.lit, not self.no)

    def __repr__(self):
        return f"{self.lit!r} {'not ' if self.no else ''}in parts{self.tag}"


class SHash:
    __slots__ = ("term",)

    def __init__(self, term):
        self.term = term


class VOpaque:
    """an opaque JSON-like value (identified by tag)"""

    __slots__ = ("tag", "kind")

    def __init__(self, tag, kind="value"):
        self.tag = tag
        self.kind = kind

    def __repr__(self):
        return f"<{self.kind}:{self.tag}>"


class VFunc:
    __slots__ = ("node", "globs", "env", "defaults", "kwdefaults", "name", "module")

    def __init__(self, node, globs, env, defaults, kwdefaults, name):
        self.node = node
        self.globs = globs
        self.env = env
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.name = name


class VPartial:
    __slots__ = ("fn", "args", "kw")

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class Bound:
    """bound method: fn(self_, ...)"""

    __slots__ = ("fn", "self_")

    def __init__(self, fn, self_):
        self.fn = fn
        self.self_ = self_


class BMeth:
    """method `name` of a modelled value"""

    __slots__ = ("recv", "name")

    def __init__(self, recv, name):
        self.recv = recv
        self.name = name

    def __repr__(self):
        return f"<method {self.name} of {type(self.recv).__name__}>"


class VRange:
    __slots__ = ("start", "stop", "step")

    def __init__(self, start, stop, step):
        self.start, self.stop, self.step = start, stop, step


class VIter:
    """lazily evaluated iteration: list of pieces, each ('items', [...]) or ('gen', count, fn(loop)->value)"""

    __slots__ = ("pieces",)

    def __init__(self, pieces):
        self.pieces = pieces


class VSuper:
    __slots__ = ("cls", "obj")

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Loop:
    """an active generic iteration"""

    __slots__ = ("count", "start", "touched", "idx", "owned", "cons0", "trail0", "unknown_count", "bytecache", "vars",
                 "frame", "newframes", "uid0", "trace0", "names", "pre", "ind", "events0", "ownmut", "reads", "offs")

    def __init__(self, ctx, count):
        self.count = count
        self.start = ctx.stamp()
        self.touched = {}
        self.reads = {}
        self.offs = {}
        self.idx = Atom("i", 0, None)
        self.owned = {}
        self.cons0 = len(ctx.cons)
        self.trail0 = len(ctx.trail)
        self.unknown_count = False
        self.bytecache = {}
        self.vars = {}
        self.newframes = set()
        self.frame = None
        self.ownmut = False
