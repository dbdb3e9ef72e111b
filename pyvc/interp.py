"""Symbolic interpreter over the real source text of /repo (re-read on every run)."""
import ast
import builtins
import inspect
import io
import os
import types

from .terms import *
from .values import *
from . import ops
from . import bytesops as B
from . import strops as S
from .ops import exc, MISSING

REPO = os.environ.get("PYVC_REPO", "/repo")


class ReturnEx(Exception):
    def __init__(self, v):
        self.v = v


class BreakEx(Exception):
    pass


class ContinueEx(Exception):
    pass


_asts = {}


def module_ast(fn):
    m = _asts.get(fn)
    if m is None:
        with open(fn, "r", encoding="utf8") as f:
            m = _asts[fn] = rotate(ast.parse(f.read(), fn))
    return m


def own_continue(body):
    for s in body:
        if isinstance(s, ast.Continue):
            return True
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
            if own_continue(getattr(s, "orelse", [])):
                return True
            continue
        for f in ("body", "orelse", "finalbody"):
            if own_continue(getattr(s, f, [])):
                return True
        for h in getattr(s, "handlers", []) + getattr(s, "cases", []):
            if own_continue(h.body):
                return True
    return False


def rotate(tree):
    """S; while t: B; S   is run as   while True: S; if not t: break; B   (the same statements in
    the same order, so that the value read ahead is not carried around the loop)"""
    for n in ast.walk(tree):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if not isinstance(b, list):
                continue
            i = 0
            while i < len(b):
                w = b[i]
                if isinstance(w, ast.While) and not w.orelse and not own_continue(w.body):
                    k = 0
                    while k < i and k < len(w.body) - 1 and ast.dump(b[i - k - 1]) == ast.dump(w.body[-k - 1]):
                        k += 1
                    if k:
                        head = w.body[-k:]
                        brk = ast.copy_location(ast.Break(), w)
                        t = ast.copy_location(ast.If(test=ast.copy_location(ast.UnaryOp(ast.Not(), w.test), w.test), body=[brk], orelse=[]), w.test)
                        w.body = head + [t] + w.body[:-k]
                        w.test = ast.copy_location(ast.Constant(True), w.test)
                        ast.fix_missing_locations(w)
                        del b[i - k : i]
                        i -= k
                i += 1
    return tree


_fnodes = {}


def fn_node(f):
    """AST node of a native function object defined in the repository"""
    code = f.__code__
    key = (code.co_filename, code.co_firstlineno, code.co_name, f.__qualname__)
    if key in _fnodes:
        return _fnodes[key]
    mod = module_ast(code.co_filename)
    cand = []
    for n in ast.walk(mod):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if n.name != code.co_name:
                continue
            first = min([n.lineno] + [d.lineno for d in n.decorator_list])
            if first == code.co_firstlineno:
                cand.append(n)
        elif isinstance(n, ast.Lambda) and code.co_name == "<lambda>":
            if n.lineno == code.co_firstlineno:
                cand.append(n)
    if len(cand) != 1:
        raise Unsupported(f"cannot locate source of {f.__qualname__}")
    _fnodes[key] = cand[0]
    return cand[0]


def assigned_names(nodes):
    """names bound by statements (not descending into nested functions/classes)"""
    out = set()
    nonl = set()

    def tgt(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def walk(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            for d in n.decorator_list:
                walk(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    tgt(c.target)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split(".")[0])
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            nonl.update(n.names)
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        if isinstance(n, ast.MatchMapping) and n.rest:
            out.add(n.rest)
        for c in ast.iter_child_nodes(n):
            walk(c)

    for n in nodes:
        walk(n)
    return out, nonl


_locals_cache = {}


def fn_locals(node):
    r = _locals_cache.get(node)
    if r is None:
        a = node.args
        params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            params.append(a.vararg.arg)
        if a.kwarg:
            params.append(a.kwarg.arg)
        body = node.body if isinstance(node.body, list) else [node.body]
        names, nonl = assigned_names(body)
        r = _locals_cache[node] = ((names | set(params)) - nonl, nonl)
    return r


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False

    def walk(n):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            return False
        return any(walk(c) for c in ast.iter_child_nodes(n))

    return any(walk(s) for s in node.body)


class Frame:
    __slots__ = ("vars", "names", "parent", "globs", "nonl", "fname", "cls", "self_", "exc", "yields", "declglob")

    def __init__(self, names, parent, globs, fname):
        self.vars = {}
        self.names = names
        self.parent = parent
        self.globs = globs
        self.nonl = ()
        self.fname = fname
        self.cls = None
        self.self_ = None
        self.exc = None
        self.yields = None
        self.declglob = ()


_UNB = object()


def repo_file(fn):
    return isinstance(fn, str) and fn.startswith(REPO + "/")


class Interp:
    def __init__(self, ctx, contracts=None, models=None, hooks=None):
        self.ctx = ctx
        self.contracts = contracts or {}
        from . import models as M

        self.models = M.table() if models is None else models
        self.hooks = hooks or {}
        self.depth = 0
        self.stack = []
        self.used = set()  # repo functions whose body was interpreted
        self.used_contracts = set()
        ctx.interp = self

    # ------------------------------------------------------------ helpers
    def is_repo_fn(self, f):
        if isinstance(f, (staticmethod, classmethod)):
            f = f.__func__
        if isinstance(f, VFunc):
            return True
        return isinstance(f, types.FunctionType) and repo_file(f.__code__.co_filename)

    def find_attr(self, cls, name):
        return inspect.getattr_static(cls, name, None)

    def overlay(self, c):
        if isinstance(c, (dict, list, set, bytearray)):
            r = self.ctx.overlays.get(id(c))
            if r is not None:
                return r[1]
        return c

    def mutable(self, c):
        """a symbolic copy of a native container about to be mutated (frame event)"""
        r = self.ctx.overlays.get(id(c))
        if r is not None:
            self.ctx.frame_events.append(("mutate", type(c).__name__, id(c)))
            return r[1]
        ctx = self.ctx
        if isinstance(c, dict):
            v = VDict(ctx, c.items())
        elif isinstance(c, list):
            v = VList(ctx, c)
        elif isinstance(c, set):
            v = VSet(ctx, sorted(c, key=repr))
        else:
            raise Unsupported("mutation of native " + type(c).__name__)
        v.born = 0
        ctx.overlays[id(c)] = (c, v)
        ctx.frame_events.append(("mutate", type(c).__name__, id(c), c))
        return v

    def wrap(self, v):
        """native containers are shared state; symbolic ones pass through"""
        return v

    def truth(self, v):
        if isinstance(v, (dict, list, set)):
            v = self.overlay(v)
        return ops.truth(self.ctx, v, self)

    def cmp(self, op, a, b):
        return ops.compare(self.ctx, op, a, b, self)

    # ------------------------------------------------------------ names
    def load_name(self, fr, name):
        f = fr
        while f is not None:
            if name in f.declglob:
                break
            if name in f.names:
                v = f.vars.get(name, _UNB)
                if v is _UNB:
                    if f is fr:
                        raise exc(UnboundLocalError, f"cannot access local variable '{name}'")
                    raise exc(NameError, f"name '{name}' is not defined")
                if isinstance(v, Poison):
                    raise Unsupported(f"use of {name}: {v.why}")
                return v
            f = f.parent
        g = self.ctx.overlays.get(("glob", id(fr.globs)))
        if g is not None and name in g:
            return g[name]
        if name in fr.globs:
            return fr.globs[name]
        if hasattr(builtins, name):
            return getattr(builtins, name)
        raise exc(NameError, f"name '{name}' is not defined")

    def store_name(self, fr, name, v):
        if name in fr.declglob:
            self.ctx.frame_events.append(("global", fr.globs.get("__name__"), name))
            self.ctx.overlays.setdefault(("glob", id(fr.globs)), {})[name] = v
            return
        f = fr
        if name in fr.nonl:
            f = fr.parent
            while f is not None and name not in f.names:
                f = f.parent
            if f is None:
                raise Unsupported("nonlocal")
        elif name not in fr.names:
            # walrus inside a comprehension: binds in the enclosing function
            f = fr.parent
            while f is not None and name not in f.names:
                f = f.parent
            if f is None:
                self.ctx.frame_events.append(("global", fr.globs.get("__name__"), name))
                self.ctx.overlays.setdefault(("glob", id(fr.globs)), {})[name] = v
                return
        if f is not fr and self.ctx.loops:
            # assignment to an outer frame variable inside a generic iteration
            self.note_outer(f, name)
        f.vars[name] = v

    def note_outer(self, f, name):
        for L in reversed(self.ctx.loops):
            if L.frame is f:
                return  # handled as loop-assigned
            if f in L.newframes:
                return
            raise Unsupported("assignment to an outer variable inside a generic loop")

    # ------------------------------------------------------------ calls
    def call(self, fn, args, kw=None):
        kw = kw or {}
        ctx = self.ctx
        ctx.tick()
        while True:
            if isinstance(fn, Bound):
                args = [fn.self_] + list(args)
                fn = fn.fn
                continue
            if isinstance(fn, VPartial):
                args = list(fn.args) + list(args)
                kw = {**fn.kw, **kw}
                fn = fn.fn
                continue
            if isinstance(fn, (staticmethod, classmethod)):
                fn = fn.__func__
                continue
            if isinstance(fn, types.MethodType):
                args = [fn.__self__] + list(args)
                fn = fn.__func__
                continue
            break
        if isinstance(fn, BMeth):
            from . import models as M

            return M.method(self, fn.recv, fn.name, list(args), kw)
        if isinstance(fn, VFunc):
            return self.call_node(fn.node, fn.globs, fn.env, fn.defaults, fn.kwdefaults, args, kw, fn.name)
        try:
            c = self.contracts.get(fn)
        except TypeError:
            c = None
        if c is not None:
            r = c(self, list(args), kw)
            if r is not NotImplemented:
                self.used_contracts.add(fn)
                return r
        if isinstance(fn, types.FunctionType) and repo_file(fn.__code__.co_filename):
            return self.call_body(fn, args, kw)
        try:
            m = self.models.get(fn)
        except TypeError:
            m = None
        if m is not None:
            return m(self, list(args), kw)
        if isinstance(fn, type):
            return self.instantiate(fn, args, kw)
        from . import models as M

        r = M.call_native(self, fn, list(args), kw)
        return r

    def call_body(self, fn, args, kw=None):
        """interpret the body of a repository function"""
        node = fn_node(fn)
        self.used.add(fn.__module__ + "." + fn.__qualname__)
        env = None
        if fn.__closure__:
            env = Frame(set(fn.__code__.co_freevars), None, fn.__globals__, "<closure>")
            for n, c in zip(fn.__code__.co_freevars, fn.__closure__):
                try:
                    env.vars[n] = c.cell_contents
                except ValueError:
                    pass
        if not isinstance(node, ast.Lambda):
            for d in node.decorator_list:
                nm = d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else ""
                if nm not in ("staticmethod", "classmethod", "property", "override", "final", "no_type_check"):
                    raise Unsupported("decorated function " + fn.__qualname__)
        defaults = list(fn.__defaults__ or ())
        kwd = dict(fn.__kwdefaults__ or {})
        return self.call_node(node, fn.__globals__, env, defaults, kwd, args, kw or {}, fn.__qualname__)

    def call_node(self, node, globs, env, defaults, kwdefaults, args, kw, name):
        ctx = self.ctx
        names, nonl = fn_locals(node)
        fr = Frame(names, env, globs, name)
        fr.nonl = nonl
        a = node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kw = dict(kw)
        if len(args) > len(pos):
            if a.vararg is None:
                raise exc(TypeError, f"{name}() takes {len(pos)} positional arguments but {len(args)} were given")
            fr.vars[a.vararg.arg] = tuple(args[len(pos):])
            args = args[: len(pos)]
        elif a.vararg is not None:
            fr.vars[a.vararg.arg] = ()
        for n, v in zip(pos, args):
            fr.vars[n] = v
        nd = len(pos) - len(defaults)
        for i, n in enumerate(pos):
            if i < len(args):
                if n in kw:
                    raise exc(TypeError, f"{name}() got multiple values for argument '{n}'")
                continue
            if n in kw:
                fr.vars[n] = kw.pop(n)
            elif i >= nd:
                fr.vars[n] = defaults[i - nd]
            else:
                raise exc(TypeError, f"{name}() missing argument '{n}'")
        for x in a.kwonlyargs:
            n = x.arg
            if n in kw:
                fr.vars[n] = kw.pop(n)
            elif n in kwdefaults:
                fr.vars[n] = kwdefaults[n]
            else:
                raise exc(TypeError, f"{name}() missing keyword argument '{n}'")
        if a.kwarg is not None:
            fr.vars[a.kwarg.arg] = VDict(ctx, kw.items())
        elif kw:
            raise exc(TypeError, f"{name}() got an unexpected keyword argument")
        if pos:
            fr.self_ = fr.vars.get(pos[0])
        self.depth += 1
        if self.depth > 60:
            raise Unsupported("recursion depth")
        for L in ctx.loops:
            L.newframes.add(fr)
        self.stack.append(fr)
        try:
            if isinstance(node, ast.Lambda):
                return self.ev(node.body, fr)
            if isinstance(node, ast.AsyncFunctionDef):
                raise Unsupported("async function")
            if is_generator(node):
                fr.yields = VList(ctx)
            try:
                self.block(node.body, fr)
            except ReturnEx as r:
                if fr.yields is None:
                    return r.v
            return fr.yields
        finally:
            self.depth -= 1
            self.stack.pop()

    def instantiate(self, cls, args, kw):
        ctx = self.ctx
        if issubclass(cls, BaseException):
            init = inspect.getattr_static(cls, "__init__", None)
            e = VExc(cls, args)
            if self.is_repo_fn(init):
                self.call(init, [e] + list(args), kw)
            return e
        from . import models as M

        fields = M.record_fields(cls)
        if fields is not None:
            o = VObj(ctx, cls)
            if len(args) > len(fields):
                raise exc(TypeError, "too many arguments")
            for f, v in zip(fields, args):
                o.attrs[f] = v
            for k, v in kw.items():
                if k not in fields:
                    raise exc(TypeError, "unexpected keyword")
                o.attrs[k] = v
            for f in fields:
                if f not in o.attrs:
                    d = M.record_default(cls, f)
                    if d is MISSING:
                        raise exc(TypeError, "missing argument " + f)
                    o.attrs[f] = d
            pi = inspect.getattr_static(cls, "__post_init__", None)
            if self.is_repo_fn(pi):
                self.call(pi, [o])
            return o
        mod = inspect.getattr_static(cls, "__module__", "")
        fn = getattr(inspect.sys.modules.get(mod), "__file__", None)
        if repo_file(fn):
            new = inspect.getattr_static(cls, "__new__", None)
            if isinstance(new, staticmethod):
                new = new.__func__
            if self.is_repo_fn(new):
                o = self.call(new, [cls] + list(args), kw)
                if not isinstance(o, VObj) or o.cls is not cls:
                    return o
            else:
                import enum

                if issubclass(cls, enum.Enum):
                    return M.call_native(self, cls, list(args), kw)
                o = VObj(ctx, cls)
            init = inspect.getattr_static(cls, "__init__", None)
            if self.is_repo_fn(init):
                self.call(init, [o] + list(args), kw)
            elif (args or kw) and init is object.__init__:
                raise exc(TypeError, f"{cls.__name__}() takes no arguments")
            elif init is not object.__init__ and (args or kw):
                raise Unsupported("native __init__ of " + cls.__name__)
            return o
        return M.call_native(self, cls, list(args), kw)

    # ------------------------------------------------------------ attributes
    def getattr(self, o, name):
        ctx = self.ctx
        if isinstance(o, VObj):
            st = inspect.getattr_static(o.cls, name, MISSING)
            if isinstance(st, property):
                return self.call(st.fget, [o])
            if ctx.loops:
                heap_read(o, name)
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Poison):
                    raise Unsupported(v.why)
                return v
            if name == "__class__":
                return o.cls
            if name == "__dict__":
                raise Unsupported("__dict__")
            if name == "__module__":
                return o.cls.__module__
            if st is MISSING:
                ga = inspect.getattr_static(o.cls, "__getattr__", None)
                if self.is_repo_fn(ga):
                    return self.call(ga, [o, name])
                raise exc(AttributeError, f"'{o.cls.__name__}' object has no attribute '{name}'")
            return self.bind(st, o, o.cls, name)
        if isinstance(o, VSuper):
            mro = o.obj.cls.__mro__ if isinstance(o.obj, VObj) else o.obj.__mro__
            i = mro.index(o.cls)
            for c in mro[i + 1 :]:
                if name in c.__dict__:
                    return self.bind(c.__dict__[name], o.obj, c, name)
            raise exc(AttributeError, name)
        if isinstance(o, VExc):
            if name == "args":
                return tuple(o.args)
            if name in o.attrs:
                return o.attrs[name]
            st = inspect.getattr_static(o.cls, name, MISSING)
            if self.is_repo_fn(st):
                return Bound(st, o)
            if name == "__class__":
                return o.cls
            if name in ("__cause__", "__context__", "__traceback__"):
                return None
            if name == "code" and issubclass(o.cls, SystemExit):
                return o.args[0] if o.args else None
            raise Unsupported("exception attribute " + name)
        if isinstance(o, (dict, list, set)):
            ov = self.overlay(o)
            return BMeth(o if ov is o else ov, name)
        if isinstance(o, (VFunc, Bound, VPartial)):
            if name == "__name__":
                return getattr(o, "name", "fn")
            raise Unsupported("function attribute")
        from . import models as M

        if isinstance(o, M.SYMBOLIC) or isinstance(o, (str, bytes, bytearray, tuple, int, float, frozenset)) and not isinstance(o, type):
            return M.value_attr(self, o, name)
        if isinstance(o, VOpaque):
            r = self.hooks.get("opaque_attr")
            if r is not None:
                return r(self, o, name)
            raise Unsupported("attribute of opaque")
        if isinstance(o, Poison):
            raise Unsupported(o.why)
        if isinstance(o, types.ModuleType):
            g = ctx.overlays.get(("glob", id(o.__dict__)))
            if g is not None and name in g:
                return g[name]
        if isinstance(o, type):
            a = ctx.overlays.get(("attr", id(o)))
            if a is not None and name in a:
                return a[name]
            st = inspect.getattr_static(o, name, MISSING)
            if isinstance(st, staticmethod):
                return st.__func__
            if isinstance(st, classmethod) and self.is_repo_fn(st):
                return Bound(st.__func__, o)
        try:
            return getattr(o, name)
        except AttributeError as e:
            raise exc(AttributeError, *e.args)

    def bind(self, st, o, cls, name):
        if isinstance(st, staticmethod):
            return st.__func__
        if isinstance(st, classmethod):
            return Bound(st.__func__, o.cls if isinstance(o, VObj) else o)
        if isinstance(st, property):
            return self.call(st.fget, [o])
        if isinstance(st, types.FunctionType):
            return Bound(st, o)
        if isinstance(st, types.MemberDescriptorType) or isinstance(st, types.GetSetDescriptorType):
            raise exc(AttributeError, name)
        if type(st).__name__ in ("method_descriptor", "wrapper_descriptor"):
            return Bound(st, o)
        if type(st).__name__ == "cached_property":
            v = self.call(st.func, [o])
            self.setattr(o, name, v)
            return v
        if hasattr(type(st), "__get__") and not isinstance(st, (type, types.BuiltinFunctionType)):
            raise Unsupported("descriptor " + name)
        return st

    def setattr(self, o, name, v):
        ctx = self.ctx
        if isinstance(o, VObj):
            st = inspect.getattr_static(o.cls, name, MISSING)
            if isinstance(st, property):
                if st.fset is None:
                    raise exc(AttributeError, name)
                self.call(st.fset, [o, v])
                return
            sa = inspect.getattr_static(o.cls, "__setattr__", None)
            if self.is_repo_fn(sa):
                raise Unsupported("__setattr__")
            from . import models as M

            slots = M.all_slots(o.cls)
            if slots is not None and name not in slots:
                raise exc(AttributeError, f"no attribute {name}")
            ops.heap_note(ctx, o, ("attr", name))
            o.attrs[name] = v
            return
        if isinstance(o, VExc):
            o.attrs[name] = v
            return
        if isinstance(o, (type, types.ModuleType, types.FunctionType)):
            ctx.frame_events.append(("setattr", getattr(o, "__name__", "?"), name))
            if isinstance(o, types.ModuleType):
                ctx.overlays.setdefault(("glob", id(o.__dict__)), {})[name] = v
            else:
                ctx.overlays.setdefault(("attr", id(o)), {})[name] = v
            return
        from . import models as M

        if M.set_value_attr(self, o, name, v):
            return
        raise Unsupported("attribute store on " + type(o).__name__)

    # ------------------------------------------------------------ items
    def getitem(self, o, k):
        ctx = self.ctx
        if isinstance(o, (dict, list, set)):
            o = self.overlay(o)
        if isinstance(o, VDict):
            v = ops.dict_get(ctx, o, k, self)
            if v is MISSING:
                raise exc(KeyError, k)
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            return v
        if isinstance(o, dict):
            if ops.native_ok(k):
                try:
                    return o[k]
                except KeyError:
                    raise exc(KeyError, k)
            if S.is_str(k):
                k = snorm(k)
                keys = list(o.keys())
                if isinstance(k, str):
                    return self.getitem(o, k)
                if not S.str_in_set(ctx, k, keys):
                    raise exc(KeyError, k)
                k2 = snorm(k)
                if isinstance(k2, str):
                    return o[k2]
                lf = S.leaf_of(k2)
                if lf is not None and lf.inset is not None:
                    # group keys by value (fork over distinct values)
                    groups = []
                    for kk in sorted(lf.inset):
                        val = o[kk]
                        for g in groups:
                            if g[0] is val or (ops.native_ok(val) and ops.native_ok(g[0]) and g[0] == val and type(val) is type(g[0])):
                                g[1].append(kk)
                                break
                        else:
                            groups.append([val, [kk]])
                    i = ctx.choose(len(groups), f"{lf} selects entry")
                    S.restrict(ctx, lf, groups[i][1], True)
                    return groups[i][0]
                raise Unsupported("symbolic dict lookup")
            if ops.is_int(k):
                kk = ops.as_lin(ctx, k)
                for c in o:
                    if self.truth(self.cmp("Eq", kk, c)):
                        return o[c]
                raise exc(KeyError, k)
            if isinstance(k, VObj):
                raise Unsupported("object key")
            raise Unsupported("dict lookup")
        if isinstance(k, slice):
            return self.getslice(o, k)
        if isinstance(o, (VList, list, tuple)):
            return self.seq_index(o, k)
        if isinstance(o, VByteSeq):
            return B.byte_at(ctx, o, ops.as_lin(ctx, k))
        if isinstance(o, SelList):
            if o.kind != "list" or isinstance(k, bool) or k != 0:
                raise Unsupported("index into parts")
            key = ("first part", o.tag)
            if key not in ctx.memo:
                ctx.memo[key] = StrLeaf("first part")
            return snorm(SStr([ctx.memo[key]]))
        if isinstance(o, SBytes) or isinstance(o, (bytes, bytearray)):
            if not ops.is_int(k):
                raise exc(TypeError, "byte indices must be integers")
            k = ops.as_lin(ctx, k)
            if isinstance(o, (bytes, bytearray)) and not isinstance(k, Lin):
                try:
                    return o[k]
                except IndexError as e:
                    raise exc(IndexError, *e.args)
            return B.byte_at(ctx, o, k)
        if isinstance(o, VBytearray):
            return B.byte_at(ctx, o, ops.as_lin(ctx, k))
        if S.is_str(o):
            o = snorm(o)
            k = ops.as_lin(ctx, k)
            if isinstance(o, str) and not isinstance(k, Lin):
                try:
                    return o[k]
                except IndexError as e:
                    raise exc(IndexError, *e.args)
            raise Unsupported("string index")
        if isinstance(o, VObj):
            f = self.find_attr(o.cls, "__getitem__")
            if self.is_repo_fn(f):
                return self.call(f, [o, k])
            raise exc(TypeError, "object is not subscriptable")
        if o is None or ops.is_int(o) or isinstance(o, (float, SFloat)):
            raise exc(TypeError, f"'{type(o).__name__}' object is not subscriptable")
        if isinstance(o, VOpaque):
            h = self.hooks.get("opaque_item")
            if h is not None:
                return h(self, o, k)
            raise Unsupported("item of opaque value")
        if isinstance(o, Poison):
            raise Unsupported(o.why)
        if isinstance(o, (type, types.GenericAlias)) or type(o).__module__ == "typing":
            return o
        if isinstance(o, (VRange, range)):
            return self.seq_index(tuple(o) if isinstance(o, range) else o, k)
        raise Unsupported("subscript of " + type(o).__name__)

    def seq_index(self, o, k):
        ctx = self.ctx
        if not ops.is_int(k):
            if isinstance(k, SFin):
                k = ops.fin_to_lin(ctx, k)
            else:
                raise exc(TypeError, "list indices must be integers or slices")
        k = ops.as_lin(ctx, k)
        if isinstance(o, VRange):
            raise Unsupported("index of symbolic range")
        items = ops.items_of(o)
        if not any(isinstance(i, Gen) for i in items):
            if isinstance(k, Lin):
                u = ctx.unique(k)
                if u is None:
                    # symbolic index into a concrete list: fork
                    n = len(items)
                    if not ctx.decide(SBool("ge", k)):
                        raise Unsupported("negative symbolic index")
                    if not ctx.decide(SBool("ge", sub(n - 1, k))):
                        raise exc(IndexError, "list index out of range")
                    i = ctx.choose(n, "list index")
                    ctx.assume(SBool("eq", sub(k, i)))
                    return items[i]
                k = u
            try:
                v = items[k]
            except IndexError:
                raise exc(IndexError, "list index out of range")
            if isinstance(v, Poison):
                raise Unsupported(v.why)
            return v
        # generic list: index equal to the focus index of an active loop of the same count
        pos = 0
        for it in items:
            if isinstance(it, Gen):
                d = norm(sub(k, pos))
                if len(it.elems) == 1 and isinstance(d, Lin):
                    for L in reversed(ctx.loops):
                        e = norm(sub(d, lin_atom(L.idx)))
                        if not isinstance(e, Lin) and e == 0 and self.same_count(L.count, it.count):
                            return self.focus_elem(L, it)
                if len(it.elems) == 1:
                    c = norm(it.count)
                    if not isinstance(c, Lin) and c == 1 and not isinstance(d, Lin) and d == 0:
                        return it.elems[0]
                pos = add(pos, scale(it.count, len(it.elems)))
            else:
                d = norm(sub(k, pos))
                if not isinstance(d, Lin) and d == 0:
                    return it
                pos = add(pos, 1)
        raise Unsupported("index into generic list")

    def same_count(self, a, b):
        d = norm(sub(a, b))
        if not isinstance(d, Lin):
            return d == 0
        return self.ctx.provable_eq(a, b)

    def focus_elem(self, L, g):
        v = g.elems[0]
        self.own(L, v)
        return v

    def own(self, L, v):
        """objects reachable from the focus element may be mutated by the iteration"""
        todo = [v]
        while todo:
            x = todo.pop()
            if isinstance(x, Heap):
                if id(x) in L.owned:
                    continue
                L.owned[id(x)] = x
                if isinstance(x, VList):
                    for i in x.items:
                        if isinstance(i, Gen):
                            todo.extend(i.elems)
                        else:
                            todo.append(i)
                elif isinstance(x, VDict):
                    for e in x.ents:
                        todo.append(e.val if isinstance(e, GenEntry) else e[1])
                elif isinstance(x, VObj):
                    todo.extend(x.attrs.values())
            elif isinstance(x, tuple):
                todo.extend(x)

    def getslice(self, o, sl):
        ctx = self.ctx
        lo = None if sl.start is None else ops.as_lin(ctx, sl.start)
        hi = None if sl.stop is None else ops.as_lin(ctx, sl.stop)
        st = None if sl.step is None else ops.as_lin(ctx, sl.step)
        if isinstance(o, SStr):
            o = snorm(o)
        nat = not any(isinstance(x, Lin) for x in (lo, hi, st))
        if isinstance(o, (str, bytes, tuple, list, bytearray, range)) and nat:
            r = o[slice(lo, hi, st)]
            if isinstance(o, list):
                return VList(ctx, r)
            return r
        if isinstance(o, (bytes, SBytes, VBytearray, VByteSeq)):
            if st not in (None, 1):
                n = B.blen(o)
                n = ctx.unique(n) if isinstance(norm(n), Lin) else norm(n)
                if nat and n is not None and n <= 64:
                    rest = B.toks_of(o)
                    bs = []
                    for _ in range(n):
                        b, rest = B.split_front(ctx, rest, 1)
                        bs.append(b)
                    r = B.mk([t for b in bs[slice(lo, hi, st)] for t in b])
                    return VByteSeq(o.kind, r) if isinstance(o, VByteSeq) else VBytearray(ctx, B.toks_of(r)) if isinstance(o, VBytearray) else r
                raise Unsupported("slice step")
            r = B.slice_bytes(ctx, o, lo, hi)
            if isinstance(o, VByteSeq):
                return VByteSeq(o.kind, r)
            if isinstance(o, VBytearray):
                return VBytearray(ctx, B.toks_of(r))
            return r
        if isinstance(o, VList) and nat and o.simple():
            return VList(ctx, ops.items_of(o)[slice(lo, hi, st)])
        if isinstance(o, VList) and lo in (None, 0) and hi is None and st in (None, 1):
            return VList(ctx, ops.items_of(o))
        if isinstance(o, VList) and st in (None, 1):
            r = self.slice_generic(ops.items_of(o), lo, hi)
            if r is not None:
                return VList(ctx, r)
        if isinstance(o, SStr) and st in (None, 1):
            if lo in (None, 0) and hi is not None and not isinstance(hi, Lin) and hi < 0:
                # drop a constant suffix
                p = o.parts[-1]
                if isinstance(p, str) and len(p) >= -hi:
                    return snorm(SStr(o.parts[:-1] + (p[:hi],)))
                raise Unsupported("string slice")
            if hi is None and lo is not None and not isinstance(lo, Lin) and lo >= 0:
                p = o.parts[0]
                if isinstance(p, str) and len(p) >= lo:
                    return snorm(SStr((p[lo:],) + o.parts[1:]))
            if hi is not None and lo in (None, 0) and isinstance(hi, Lin):
                # s[:len(s)-k]
                d = norm(sub(strlen(o), hi))
                if not isinstance(d, Lin) and d > 0:
                    return self.getslice(o, slice(None, -d, None))
                if not isinstance(d, Lin) and d == 0:
                    return o
            raise Unsupported("string slice")
        raise Unsupported("slice of " + type(o).__name__)

    def slice_generic(self, items, lo, hi):
        """a slice that begins and ends between the pieces of a generic list"""
        pos = [0]
        for i in items:
            pos.append(norm(add(pos[-1], scale(i.count, len(i.elems)) if isinstance(i, Gen) else 1)))

        def find(x):
            if not isinstance(x, Lin) and x < 0:
                x = norm(add(pos[-1], x))
                if not isinstance(x, Lin) and x < 0:
                    x = 0
            elif isinstance(x, Lin) and self.ctx.quick(SBool("ge", x)) is not True:
                return None
            for j, p in enumerate(pos):
                d = norm(sub(x, p))
                if not isinstance(d, Lin) and d == 0:
                    return j
            d = norm(sub(x, pos[-1]))
            if (d >= 0) if not isinstance(d, Lin) else self.ctx.quick(SBool("ge", d)) is True:
                return len(items)
            for j, p in enumerate(pos):
                if self.ctx.provable_eq(x, p):
                    return j
            return None

        a = 0 if lo is None else find(lo)
        b = len(items) if hi is None else find(hi)
        if a is None or b is None:
            return None
        return items[a:b]

    def setitem(self, o, k, v):
        ctx = self.ctx
        if isinstance(o, (dict, list, set)):
            o = self.mutable(o)
        if isinstance(o, VDict):
            ops.dict_set(ctx, o, k, v)
            return
        if isinstance(o, VList):
            if isinstance(k, slice):
                if k.start is None and k.stop is None and k.step is None:
                    ops.heap_note(ctx, o, ("replace", None))
                    o.items = ops.items_of(v) if not isinstance(v, VByteSeq) else self._bseq_items(v)
                    return
                raise Unsupported("slice store")
            k = ops.as_lin(ctx, k)
            if isinstance(k, Lin):
                u = ctx.unique(k)
                if u is None:
                    return self.gen_store(o, k, v)
                k = u
            if not o.simple():
                raise Unsupported("store into generic list")
            ops.heap_note(ctx, o, ("setidx", k))
            try:
                o.items[k] = v
            except IndexError:
                raise exc(IndexError, "list assignment index out of range")
            return
        if isinstance(o, VBytearray):
            k = ops.as_lin(ctx, k)
            toks = B.toks_of(o)
            n = B.blen(o)
            if not isinstance(k, Lin) and k < 0:
                k = add(n, k)
                if not self.truth(self.cmp("GtE", k, 0)):
                    raise exc(IndexError, "bytearray index out of range")
            if not self.truth(self.cmp("Lt", k, n)):
                raise exc(IndexError, "bytearray index out of range")
            k = ctx.unique(k) if isinstance(k, Lin) else k
            if k is None:
                raise Unsupported("bytearray store")
            v = ops.as_lin(ctx, v)
            ok = self.truth(self.cmp("GtE", v, 0)) and self.truth(self.cmp("LtE", v, 255))
            if not ok:
                raise exc(ValueError, "byte must be in range(0, 256)")
            a, r = B.split_front(ctx, toks, k)
            _, r = B.split_front(ctx, r, 1)
            ops.heap_note(ctx, o, ("bytes", None))
            o.toks = flat(a + [LE(1, v)] + r)
            return
        if isinstance(o, VObj):
            f = self.find_attr(o.cls, "__setitem__")
            if self.is_repo_fn(f):
                self.call(f, [o, k, v])
                return
        if isinstance(o, (tuple, str, bytes, SStr, SBytes)) or o is None:
            raise exc(TypeError, f"'{type(o).__name__}' object does not support item assignment")
        if isinstance(o, VByteSeq):
            raise Unsupported("store into byte list")
        raise Unsupported("item store on " + type(o).__name__)

    def _bseq_items(self, v):
        raise Unsupported("byte list copy")

    def gen_store(self, o, k, v):
        """values[i] = f(values[i]) at the focus index"""
        ctx = self.ctx
        pos = 0
        for it in o.items:
            if isinstance(it, Gen) and len(it.elems) == 1:
                d = norm(sub(k, pos))
                if isinstance(d, Lin):
                    for L in reversed(ctx.loops):
                        e = norm(sub(d, lin_atom(L.idx)))
                        if not isinstance(e, Lin) and e == 0 and self.same_count(L.count, it.count):
                            it.elems[0] = v
                            return
                pos = add(pos, it.count)
            elif isinstance(it, Gen):
                break
            else:
                pos = add(pos, 1)
        raise Unsupported("store at symbolic index")

    def delitem(self, o, k):
        ctx = self.ctx
        if isinstance(o, (dict, list, set)):
            o = self.mutable(o)
        if isinstance(o, VDict):
            if isinstance(k, SStr):
                k = snorm(k)
            v = ops.dict_get(ctx, o, k, self)
            if v is MISSING:
                raise exc(KeyError, k)
            ops.heap_note(ctx, o, ("del", k))
            if ops.native_ok(k) and k in o.idx:
                o.remove(k)
            else:
                for e in o.ents:
                    if not isinstance(e, GenEntry) and S.is_str(e[0]) and S.is_str(k) and S.same_str(e[0], k):
                        o.ents.remove(e)
                        return
                raise Unsupported("delete")
            return
        if isinstance(o, VList) and o.simple():
            if isinstance(k, slice):
                ops.heap_note(ctx, o, ("replace", None))
                items = list(o.items)
                del items[slice(*(None if x is None else ops.as_lin(ctx, x) for x in (k.start, k.stop, k.step)))]
                o.items = items
                return
            k = ops.as_lin(ctx, k)
            ops.heap_note(ctx, o, ("replace", None))
            try:
                del o.items[k]
            except IndexError:
                raise exc(IndexError, "list assignment index out of range")
            return
        raise Unsupported("del item")

    # ------------------------------------------------------------ strings
    def to_str(self, v):
        from . import models as M

        return M.py_str(self, v)

    # ------------------------------------------------------------ statements
    def block(self, stmts, fr):
        for i, s in enumerate(stmts):
            if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.Continue) and i + 1 < len(stmts):
                # "if not selected: continue": the rest happens under the opposite condition
                self.ctx.tick()
                self.ctx.where = (fr.fname, s.lineno)
                t = self.ev(s.test, fr)
                if isinstance(t, SMember) and self.guarded(t.neg(), stmts[i + 1 :], fr):
                    raise ContinueEx()
                if self.truth(t):
                    raise ContinueEx()
                continue
            self.stmt(s, fr)

    def stmt(self, s, fr):
        self.ctx.tick()
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(s).__name__)
        self.ctx.where = (fr.fname, s.lineno)
        m(s, fr)

    def s_Expr(self, s, fr):
        self.ev(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Global(self, s, fr):
        fr.declglob = tuple(fr.declglob) + tuple(s.names)

    def s_Nonlocal(self, s, fr):
        pass

    def s_Return(self, s, fr):
        raise ReturnEx(self.ev(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        raise BreakEx()

    def s_Continue(self, s, fr):
        raise ContinueEx()

    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        op = type(s.op).__name__
        if isinstance(s.target, ast.Name):
            old = self.load_name(fr, s.target.id)
            v = self.ev(s.value, fr)
            self.store_name(fr, s.target.id, self.iop(op, old, v))
        elif isinstance(s.target, ast.Attribute):
            o = self.ev(s.target.value, fr)
            old = self.getattr(o, s.target.attr)
            v = self.ev(s.value, fr)
            self.setattr(o, s.target.attr, self.iop(op, old, v))
        elif isinstance(s.target, ast.Subscript):
            o = self.ev(s.target.value, fr)
            k = self.ev_slice(s.target.slice, fr)
            old = self.getitem(o, k)
            v = self.ev(s.value, fr)
            self.setitem(o, k, self.iop(op, old, v))
        else:
            raise Unsupported("augmented assignment")

    def iop(self, op, old, v):
        if op == "Add" and isinstance(old, (VList, list)) and not isinstance(old, tuple):
            if isinstance(old, list):
                old = self.mutable(old)
            from . import models as M

            M.list_extend(self, old, v)
            return old
        if op == "Add" and isinstance(old, VBytearray):
            from . import models as M

            M.method(self, old, "extend", [v], {})
            return old
        if op == "BitOr" and isinstance(old, (VDict, dict)):
            if isinstance(old, dict):
                old = self.mutable(old)
            ops.dict_update(self.ctx, old, self.overlay(v), self)
            return old
        return self.binop(op, old, v)

    def binop(self, op, a, b):
        if isinstance(a, (dict, list, set)):
            a = self.overlay(a)
        if isinstance(b, (dict, list, set)):
            b = self.overlay(b)
        return ops.binop(self.ctx, op, a, b, self)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            self.setitem(o, self.ev_slice(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v, len(t.elts), any(isinstance(e, ast.Starred) for e in t.elts))
            st = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if st:
                i = st[0]
                after = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise exc(ValueError, "not enough values to unpack")
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, VList(self.ctx, vals[i : len(vals) - after]), fr)
                for e, x in zip(t.elts[i + 1 :], vals[len(vals) - after :]):
                    self.assign(e, x, fr)
            else:
                for e, x in zip(t.elts, vals):
                    self.assign(e, x, fr)
        else:
            raise Unsupported("assignment target")

    def unpack(self, v, n, star=False):
        vals = self.concrete_items(v)
        if vals is None:
            if not star and isinstance(v, (SBytes, VByteSeq, VBytearray)):
                l = B.blen(v)
                if self.truth(self.cmp("Eq", l, n)):
                    return [B.byte_at(self.ctx, v, i) for i in range(n)]
                raise exc(ValueError, "wrong number of values to unpack")
            raise Unsupported("unpack of symbolic iterable")
        if not star and len(vals) != n:
            raise exc(ValueError, f"wrong number of values to unpack (expected {n})")
        return vals

    def concrete_items(self, v):
        """list of items if the iteration is of concrete length, else None"""
        from . import loops

        ps = loops.pieces(self, v)
        out = []
        for p in ps:
            if p[0] == "items":
                out += p[1]
            else:
                c = norm(p[1])
                if isinstance(c, Lin):
                    u = self.ctx.unique(c)
                    if u is None:
                        return None
                    c = u
                if c == 0:
                    continue
                if c == 1:
                    out.append(p[2](None))
                    continue
                return None
        return out

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.load_name(fr, t.id)
                fr.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, fr)
                self.delitem(o, self.ev_slice(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value, fr)
                if isinstance(o, VObj) and t.attr in o.attrs:
                    ops.heap_note(self.ctx, o, ("attr", t.attr))
                    del o.attrs[t.attr]
                else:
                    raise Unsupported("del attribute")
            else:
                raise Unsupported("del")

    def s_Assert(self, s, fr):
        if not self.truth(self.ev(s.test, fr)):
            raise exc(AssertionError, *( [self.ev(s.msg, fr)] if s.msg is not None else []))

    def guarded(self, m, stmts, fr):
        """statements under a membership condition, without splitting the path: only stores of
        further entries into a dict; False when they are something else"""
        todo = []
        for t in stmts:
            if isinstance(t, (ast.Pass, ast.Continue)):
                continue
            if not (isinstance(t, ast.Assign) and len(t.targets) == 1 and isinstance(t.targets[0], ast.Subscript)):
                return False
            todo.append(t)
        if isinstance(m, SMember) and ("member", m.tag, m.lit) in self.ctx.memo:
            return False
        for t in todo:
            n0 = len(self.ctx.trace)
            v = self.ev(t.value, fr)
            o = self.ev(t.targets[0].value, fr)
            k = self.ev_slice(t.targets[0].slice, fr)
            if len(self.ctx.trace) != n0:
                raise Unsupported("split below a membership condition")
            self.cond_store(o, m, k, v)
        return True

    def cond_store(self, o, m, k, v):
        if isinstance(o, (dict, list, set)):
            o = self.mutable(o)
        if not isinstance(o, VDict) or not isinstance(k, str) or k in o.idx:
            raise Unsupported("conditional store")
        if o.rest not in (None, "cond") or any(c[1] == k for c in o.cond or ()):
            raise Unsupported("conditional store into an open dict")
        ops.heap_note(self.ctx, o, ("set", k))
        o.rest = "cond"
        o.cond = (o.cond or []) + [(m, k, v)]

    def s_If(self, s, fr):
        t = self.ev(s.test, fr)
        if isinstance(t, SMember):
            if not s.orelse and not any(isinstance(x, ast.Continue) for x in s.body) and self.guarded(t, s.body, fr):
                return
            if self.truth(t):
                self.block(s.body, fr)
            else:
                self.block(s.orelse, fr)
            return
        if self.truth(t):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_For(self, s, fr):
        from . import loops

        loops.for_loop(self, s, fr)

    def s_While(self, s, fr):
        from . import loops

        loops.while_loop(self, s, fr)

    def s_Raise(self, s, fr):
        if s.exc is None:
            if fr.exc is None:
                raise exc(RuntimeError, "No active exception to reraise")
            raise PyExc(fr.exc)
        e = self.ev(s.exc, fr)
        if s.cause is not None:
            self.ev(s.cause, fr)
        if isinstance(e, type) and issubclass(e, BaseException):
            e = self.call(e, [])
        if isinstance(e, BaseException):
            e = VExc(type(e), e.args)
        if not isinstance(e, VExc):
            raise exc(TypeError, "exceptions must derive from BaseException")
        raise PyExc(e)

    def s_Try(self, s, fr):
        ctx = self.ctx
        saved = fr.exc
        ctx.try_depth += 1
        depth0 = self.depth
        nl = len(ctx.loops)
        try:
            try:
                try:
                    self.block(s.body, fr)
                finally:
                    ctx.try_depth -= 1
            except PyExc as e:
                if len(ctx.loops) != nl:
                    # an exception left generic iterations: state touched by them is unknown
                    from . import loops

                    loops.abandon(self, nl)
                self.depth = depth0
                h = self.find_handler(s.handlers, e.exc, fr)
                if h is None:
                    raise
                fr.exc = e.exc
                if h.name:
                    self.store_name(fr, h.name, e.exc)
                try:
                    self.block(h.body, fr)
                finally:
                    fr.exc = saved
                    if h.name:
                        fr.vars.pop(h.name, None)
            else:
                self.block(s.orelse, fr)
        except (PyExc, ReturnEx, BreakEx, ContinueEx):
            if s.finalbody:
                self.block(s.finalbody, fr)
            raise
        else:
            self.block(s.finalbody, fr)

    def find_handler(self, handlers, e, fr):
        for h in handlers:
            if h.type is None:
                return h
            t = self.ev(h.type, fr)
            ts = t if isinstance(t, tuple) else (t,)
            for c in ts:
                if not isinstance(c, type):
                    raise Unsupported("except clause")
                if issubclass(e.cls, c):
                    return h
        return None

    def s_With(self, s, fr):
        self._with(s.items, s.body, fr)

    def _with(self, items, body, fr):
        if not items:
            self.block(body, fr)
            return
        it = items[0]
        from . import models as M

        mgr = self.ev(it.context_expr, fr)
        val = M.ctx_enter(self, mgr)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, val, fr)
        sw = M.may_swallow(mgr)
        self.ctx.try_depth += sw
        try:
            try:
                self._with(items[1:], body, fr)
            finally:
                self.ctx.try_depth -= sw
        except PyExc as e:
            if M.ctx_exit(self, mgr, e.exc):
                return
            raise
        except (ReturnEx, BreakEx, ContinueEx):
            M.ctx_exit(self, mgr, None)
            raise
        M.ctx_exit(self, mgr, None)

    def s_FunctionDef(self, s, fr):
        f = self.make_fn(s, fr, s.name)
        for d in reversed(s.decorator_list):
            dv = self.ev(d, fr)
            if dv in (staticmethod,):
                continue
            f = self.call(dv, [f])
        self.store_name(fr, s.name, f)

    def make_fn(self, node, fr, name):
        a = node.args
        defaults = [self.ev(d, fr) for d in a.defaults]
        kwd = {x.arg: self.ev(d, fr) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        return VFunc(node, fr.globs, fr, defaults, kwd, name)

    def s_ClassDef(self, s, fr):
        raise Unsupported("local class")

    def s_Import(self, s, fr):
        import importlib

        for a in s.names:
            m = importlib.import_module(a.name)
            if a.asname:
                self.store_name(fr, a.asname, m)
            else:
                self.store_name(fr, a.name.split(".")[0], importlib.import_module(a.name.split(".")[0]))

    def s_ImportFrom(self, s, fr):
        import importlib

        if s.level:
            raise Unsupported("relative import in function")
        m = importlib.import_module(s.module)
        for a in s.names:
            try:
                v = getattr(m, a.name)
            except AttributeError:
                v = importlib.import_module(s.module + "." + a.name)
            self.store_name(fr, a.asname or a.name, v)

    def s_Match(self, s, fr):
        v = self.ev(s.subject, fr)
        for c in s.cases:
            if self.match(c.pattern, v, fr) and (c.guard is None or self.truth(self.ev(c.guard, fr))):
                self.block(c.body, fr)
                return

    def match(self, p, v, fr):
        if isinstance(p, ast.MatchValue):
            return self.truth(self.cmp("Eq", v, self.ev(p.value, fr)))
        if isinstance(p, ast.MatchSingleton):
            return self.truth(self.cmp("Is", v, p.value))
        if isinstance(p, ast.MatchOr):
            return any(self.match(q, v, fr) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.match(p.pattern, v, fr):
                return False
            if p.name:
                self.store_name(fr, p.name, v)
            return True
        if isinstance(p, ast.MatchSequence):
            if not isinstance(v, (tuple, VList, list)):
                return False
            items = ops.items_of(v)
            if any(isinstance(i, Gen) for i in items) or any(isinstance(q, ast.MatchStar) for q in p.patterns):
                raise Unsupported("sequence pattern")
            if len(items) != len(p.patterns):
                return False
            return all(self.match(q, x, fr) for q, x in zip(p.patterns, items))
        if isinstance(p, ast.MatchClass) and not p.patterns and not p.kwd_attrs:
            from . import models as M

            return M.py_isinstance(self, v, self.ev(p.cls, fr))
        if isinstance(p, ast.MatchClass) and len(p.patterns) == 1 and not p.kwd_attrs:
            from . import models as M

            c = self.ev(p.cls, fr)
            if c in (int, str, bytes, float, bool, list, dict, tuple):
                return M.py_isinstance(self, v, c) and self.match(p.patterns[0], v, fr)
        raise Unsupported("pattern")

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.load_name(fr, e.id)

    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)

    def ev_slice(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(*(None if x is None else self.ev(x, fr) for x in (s.lower, s.upper, s.step)))
        return self.ev(s, fr)

    def e_Subscript(self, e, fr):
        o = self.ev(e.value, fr)
        return self.getitem(o, self.ev_slice(e.slice, fr))

    def seq_elts(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, fr)
                from . import loops

                for p in loops.pieces(self, v):
                    if p[0] == "items":
                        out += p[1]
                    elif len(elts) == 1:
                        out.append(loops.gen_of(self, p))
                    else:
                        out.append(loops.gen_of(self, p))
            else:
                out.append(self.ev(x, fr))
        return out

    def e_Tuple(self, e, fr):
        r = self.seq_elts(e.elts, fr)
        if any(isinstance(x, Gen) for x in r):
            raise Unsupported("generic tuple")
        return tuple(r)

    def e_List(self, e, fr):
        r = self.seq_elts(e.elts, fr)
        return self.mklist(r)

    def mklist(self, r):
        # a list made of one generic run of the bytes of a byte string is a byte list
        if len(r) == 1 and isinstance(r[0], Gen):
            g = r[0]
            if len(g.elems) == 1:
                f = flat([Big(g.count, [LE(1, g.elems[0])])]) if isinstance(g.elems[0], Lin) else None
                if f is not None and not any(isinstance(t, Big) for t in f) and f:
                    return VByteSeq("list", SBytes(f))
        return VList(self.ctx, r)

    def e_Set(self, e, fr):
        return VSet(self.ctx, self.seq_elts(e.elts, fr))

    def e_Dict(self, e, fr):
        d = VDict(self.ctx)
        for k, v in zip(e.keys, e.values):
            if k is None:
                ops.dict_update(self.ctx, d, self.overlay(self.ev(v, fr)), self)
            else:
                kk = self.ev(k, fr)
                ops.dict_set(self.ctx, d, kk, self.ev(v, fr))
        return d

    def e_BinOp(self, e, fr):
        a = self.ev(e.left, fr)
        b = self.ev(e.right, fr)
        return self.binop(type(e.op).__name__, a, b)

    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SMember):
                return v.neg()
            return not self.truth(v)
        if ops.native_ok(v):
            try:
                if isinstance(e.op, ast.USub):
                    return -v
                if isinstance(e.op, ast.UAdd):
                    return +v
                return ~v
            except TypeError as x:
                raise exc(TypeError, *x.args)
        if ops.is_int(v):
            v = ops.as_lin(self.ctx, v)
            if isinstance(e.op, ast.USub):
                return scale(v, -1)
            if isinstance(e.op, ast.UAdd):
                return v
            return sub(-1, v)
        if isinstance(v, SIntFloat) and isinstance(e.op, ast.USub):
            raise Unsupported("negated float")
        if isinstance(v, SFin):
            import operator

            op = {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(e.op)]
            f = v.fn
            return SFin(v.atom, lambda x: op(f(x)), f"{op.__name__}({v.desc})")
        raise Unsupported("unary operator")

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            if i == len(e.values) - 1:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, (SBool,)) else False
            if not isand and t:
                return v if not isinstance(v, (SBool,)) else True
        raise Unsupported("boolop")

    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.ev(r, fr)
            v = self.compare(type(op).__name__, left, right)
            if i == len(e.ops) - 1:
                return v
            if not self.truth(v):
                return False
            left = right
        return res

    def compare(self, op, a, b):
        if isinstance(b, (dict, list, set)) and op in ("In", "NotIn", "Eq", "NotEq"):
            b = self.overlay(b)
        if isinstance(a, (dict, list, set)) and op in ("Eq", "NotEq"):
            a = self.overlay(a)
        return self.cmp(op, a, b)

    def e_IfExp(self, e, fr):
        if isinstance(e.body, ast.Constant) and isinstance(e.orelse, ast.Constant) and type(e.body.value) is int and type(e.orelse.value) is int:
            t = self.ev(e.test, fr)
            if isinstance(t, SBool):
                l = sbool_int(t)
                if l is not None:
                    return norm(add(scale(l, e.body.value - e.orelse.value), e.orelse.value))
            return e.body.value if self.truth(t) else e.orelse.value
        if self.truth(self.ev(e.test, fr)):
            return self.ev(e.body, fr)
        return self.ev(e.orelse, fr)

    def e_NamedExpr(self, e, fr):
        v = self.ev(e.value, fr)
        self.store_name(fr, e.target.id, v)
        return v

    def e_Lambda(self, e, fr):
        return self.make_fn(e, fr, "<lambda>")

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                parts.append(self.fmt(v, fr))
        return sconcat(*parts)

    def e_FormattedValue(self, e, fr):
        return self.fmt(e, fr)

    def fmt(self, e, fr):
        from . import models as M

        v = self.ev(e.value, fr)
        spec = self.ev(e.format_spec, fr) if e.format_spec is not None else ""
        return M.py_format(self, v, chr(e.conversion) if e.conversion != -1 else "", spec)

    def e_Starred(self, e, fr):
        raise Unsupported("starred")

    def e_Call(self, e, fr):
        # zero-argument super
        if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
            f = fr
            while f is not None and not (f.parent is not None and "__class__" in f.parent.names):
                f = f.parent
            if f is None:
                raise Unsupported("super()")
            return VSuper(f.parent.vars["__class__"], f.self_)
        fn = self.ev(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                items = self.concrete_items(self.ev(a.value, fr))
                if items is None:
                    raise Unsupported("star argument of symbolic length")
                args += items
            else:
                args.append(self.ev(a, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.overlay(self.ev(k.value, fr))
                if isinstance(d, VDict):
                    if d.rest is not None:
                        raise Unsupported("** of open dict")
                    for x in d.ents:
                        if isinstance(x, GenEntry) or not isinstance(x[0], str):
                            raise Unsupported("** of generic dict")
                        kw[x[0]] = x[1]
                else:
                    kw.update(d)
            else:
                kw[k.arg] = self.ev(k.value, fr)
        return self.call(fn, args, kw)

    def e_ListComp(self, e, fr):
        from . import loops

        return loops.comprehension(self, e, fr, "list")

    def e_GeneratorExp(self, e, fr):
        from . import loops

        return loops.comprehension(self, e, fr, "gen")

    def e_SetComp(self, e, fr):
        from . import loops

        return loops.comprehension(self, e, fr, "set")

    def e_DictComp(self, e, fr):
        from . import loops

        return loops.comprehension(self, e, fr, "dict")

    def e_Yield(self, e, fr):
        raise Unsupported("generator function")
