"""C15-C20 on the command line: main() and the conversions, over a symbolic file system.

The real argument parser parses an argv of which the file names are symbolic.  The library
functions (decompress, read, dump, load, write, compress) are used through their contracts: each
may fail, or returns a value determined by its arguments.  open/input/json/os.path are effects
recorded in order; whether a path exists, what the user answers and which step fails is arbitrary."""
import argparse
import builtins
import io
import json
import os
import sys

from .base import *
from palworld_save_tools import gvas as V, json_tools as J, palsav as Z, paltypes as P

FILE, OUT, SELECTION = "\ue000file", "\ue000out", "\ue000selection"


class FileMeth:
    def __init__(self, f, name):
        self.f, self.name = f, name


class World:
    """file system, terminal and record of what happened"""

    def __init__(self, I):
        self.I = I
        self.ctx = I.ctx
        self.events = []
        self.states = []  # (path, state)
        self.files = {}
        self.facts = []
        self.snaps = []
        self.replies = []
        self.failed = None
        self.by = {}

    def fail(self, step, cls=Exception):
        """this fallible step fails on one path"""
        if self.ctx.choose(2, step + " fails") == 1:
            self.failed = step
            self.events.append(("fail", step))
            raise PyExc(VExc(cls, (step,)))

    def state(self, path, options=("missing", "file")):
        for p, s in self.states:
            if S.same_str(p, path):
                return s
        s = options[self.ctx.choose(len(options), f"{path} is")]
        self.states.append((path, s))
        return s


def snap(v, names):
    """structure of a value with symbolic replies renamed"""
    v = M.simp(v)
    if isinstance(v, SStr):
        return ("s",) + tuple(p if isinstance(p, str) else ("reply" if p.name == "reply" else id(p)) for p in v.parts)
    if isinstance(v, VList):
        return ("l",) + tuple(snap(x, names) for x in v.items)
    if isinstance(v, tuple):
        return ("t",) + tuple(snap(x, names) for x in v)
    if isinstance(v, VDict):
        return ("d",) + tuple((snap(e[0], names), snap(e[1], names)) for e in v.ents)
    if isinstance(v, VObj):
        return ("o", v.cls.__name__) + tuple((k, snap(x, names)) for k, x in v.attrs.items())
    if isinstance(v, (str, int, float, bytes, bool, type(None))):
        return (type(v).__name__, v)
    return ("id", id(v))


def w_of(I):
    return I.ctx.memo["world"]


def as_path(v):
    if not S.is_str(v):
        raise Unsupported("path of type " + type(v).__name__)
    return snorm(v)


def fs_query(I, fn, a, kw):
    w = w_of(I)
    p = as_path(a[0])
    s = w.state(p, ("missing", "dir", "file") if S.same_str(p, w.filename) else ("missing", "file"))
    if fn is os.path.isfile:
        return s == "file"
    if fn is os.path.isdir:
        return s == "dir"
    if fn in (os.path.getsize, os.path.getmtime, os.path.getctime, os.path.getatime):
        if s == "missing":
            raise PyExc(VExc(FileNotFoundError, (2,)))
        for k, q, v in w.facts:
            if k is fn and S.same_str(q, p):
                return v
        v = I.ctx.fresh_int("fact", 0, None)
        w.facts.append((fn, p, v))
        return v
    if fn in (os.path.islink, os.path.ismount):
        for k, q, v in w.facts:
            if k is fn and S.same_str(q, p):
                return v
        v = s != "missing" and I.ctx.choose(2, fn.__name__) == 1
        w.facts.append((fn, p, v))
        return v
    if fn is os.access:
        if s == "missing":
            return False
        return I.ctx.choose(2, "access") == 1
    return s != "missing"


def do_open(I, a, kw):
    w = w_of(I)
    names = ["file", "mode", "buffering", "encoding", "errors", "newline"]
    d = dict(zip(names, a))
    d.update(kw)
    p = as_path(d["file"])
    mode = d.get("mode", "r")
    if not isinstance(mode, str):
        raise Unsupported("open mode")
    if any(c in mode for c in "wax+"):
        w.events.append(("open", p, mode, d.get("encoding")))
    else:
        w.events.append(("open", p, mode, d.get("encoding")))
        if any(S.same_str(q, p) and st != "file" for q, st in w.states) and not any(S.same_str(g["path"], p) for g in w.files.values()):
            w.failed = "opening the input"
            raise PyExc(VExc(OSError, (2,)))
        w.fail("opening the input", OSError)
    f = VOpaque(("file", len(w.events)), "file")
    w.files[f.tag] = dict(path=p, mode=mode, closed=False, content=[])
    return f


def do_input(I, a, kw):
    w = w_of(I)
    st = tuple((fr.fname, tuple(sorted((k, snap(v, None)) for k, v in fr.vars.items()))) for fr in I.stack)
    if st in w.snaps:
        # the same state as at an earlier prompt: nothing new can happen (all answers are
        # explored from there)
        raise PrunePath()
    w.snaps.append(st)
    if len(w.snaps) > 6:
        raise Unsupported("prompt loop does not come back to an earlier state")
    k = I.ctx.choose(6, "answer")
    if k < 4:
        r = ["y", "n", "Y", "N"][k]
    elif k == 4:
        l = StrLeaf("reply")
        l.ne |= {"y", "n", "Y", "N"}
        r = SStr([l])
    else:
        w.events.append(("prompt", None))
        w.replies.append(None)
        raise PyExc(VExc(EOFError, ()))
    w.replies.append(r if k < 4 else "other")
    w.events.append(("prompt", r if k < 4 else "other"))
    return r


def str_case(I, o, name):
    l = S.leaf_of(o)
    if l is not None and l.name == "reply" and name in ("casefold", "lower", "upper"):
        return o
    raise Unsupported("str." + name)


def opaque_attr(I, o, name):
    if o.kind == "file":
        return FileMeth(o, name)
    raise Unsupported(f"attribute {name} of {o.kind}")


def file_call(I, m, a, kw):
    w = w_of(I)
    f = w.files[m.f.tag]
    if m.name == "read" and not a and not kw:
        if f["closed"] or any(c in f["mode"] for c in "wax"):
            raise PyExc(VExc(ValueError, ("read",)))
        w.fail("reading the input", OSError)
        if "b" in f["mode"]:
            return SBytes([w.data])
        return VOpaque("text", "text")
    if m.name == "write" and len(a) == 1:
        if f["closed"] or "r" in f["mode"]:
            raise PyExc(VExc(ValueError, ("write",)))
        f["content"].append(a[0])
        w.events.append(("write", f["path"]))
        return None
    if m.name in ("flush",):
        return None
    if m.name == "close":
        f["closed"] = True
        return None
    raise Unsupported("file." + m.name)


FS = (os.path.exists, os.path.isfile, os.path.isdir, os.path.lexists, os.path.getsize, os.path.getmtime, os.path.getctime, os.path.getatime, os.path.islink, os.path.ismount, os.access)


def native(I, fn, a, kw):
    w = w_of(I)
    if isinstance(fn, FileMeth):
        return file_call(I, fn, a, kw)
    if fn is builtins.open or fn is io.open:
        return do_open(I, a, kw)
    if fn is builtins.input:
        return do_input(I, a, kw)
    if fn in FS:
        return fs_query(I, fn, a, kw)
    if fn is os.path.splitext:
        return S.splitext(I.ctx, as_path(a[0]))
    if fn is json.load:
        f = a[0]
        if len(a) != 1 or not (isinstance(f, VOpaque) and f.kind == "file"):
            raise Unsupported("json.load")
        if kw:
            raise Unsupported("json.load options")
        w.fail("reading the input", OSError)
        w.fail("parsing JSON", ValueError)
        return VOpaque("json", "json")
    if fn is json.loads:
        if len(a) != 1 or kw or not (isinstance(a[0], VOpaque) and a[0].kind == "text"):
            raise Unsupported("json.loads")
        w.fail("parsing JSON", ValueError)
        return VOpaque("json", "json")
    if fn is json.dumps:
        t = VOpaque(("jsontext", len(w.by)), "jsontext")
        w.by[t.tag] = (a[0], kw)
        return t
    if fn is json.dump:
        f = w.files[a[1].tag]
        if f["closed"]:
            raise PyExc(VExc(ValueError, ("write",)))
        t = VOpaque(("jsontext", len(w.by)), "jsontext")
        w.by[t.tag] = (a[0], kw)
        f["content"].append(t)
        w.events.append(("write", f["path"]))
        return None
    if isinstance(fn, type) and issubclass(fn, argparse.ArgumentParser):
        return Parser(fn(*[nat_arg(I, x) for x in a], **{k: nat_arg(I, x) for k, x in kw.items()}))
    if isinstance(fn, ParserMeth):
        return fn.run(I, a, kw)
    return NotImplemented


def nat_arg(I, x):
    if isinstance(x, (VFunc, Bound, VPartial)):
        def f(s):
            try:
                return I.call(x, [placeholders(I, s)])
            except PyExc as e:
                raise ValueError(str(e.exc))

        return f
    if isinstance(x, VList):
        return [nat_arg(I, y) for y in x.items]
    if isinstance(x, tuple):
        return tuple(nat_arg(I, y) for y in x)
    if isinstance(x, SStr):
        raise Unsupported("symbolic parser setting")
    return x


class Parser:
    """a real argparse parser (or group)"""

    def __init__(self, real):
        self.real = real

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return ParserMeth(self, name)


class ParserMeth:
    def __init__(self, p, name):
        self.p, self.name = p, name

    def run(self, I, a, kw):
        real = self.p.real
        if self.name in ("parse_args", "parse_known_args"):
            if self.name != "parse_args":
                raise Unsupported(self.name)
            err = sys.stderr
            sys.stderr = io.StringIO()
            try:
                a = [nat_arg(I, x) for x in a]
                ns = real.parse_args(*a)
            except SystemExit as e:
                raise PyExc(VExc(SystemExit, (e.code,)))
            finally:
                sys.stderr = err
            o = VObj(I.ctx, argparse.Namespace)
            for k, v in vars(ns).items():
                o.attrs[k] = placeholders(I, v)
            return o
        if self.name == "error":
            raise PyExc(VExc(SystemExit, (2,)))
        if self.name == "exit":
            raise PyExc(VExc(SystemExit, (a[0] if a else 0,)))
        if self.name in ("print_help", "print_usage"):
            return None
        r = getattr(real, self.name)(*[nat_arg(I, x) for x in a], **{k: nat_arg(I, x) for k, x in kw.items()})
        if isinstance(r, argparse._ActionsContainer):
            return Parser(r)
        return r


def placeholders(I, v):
    w = w_of(I)
    if isinstance(v, str):
        if v == FILE:
            return w.filename
        if v == OUT:
            return w.out
        if v == SELECTION:
            return w.selection
        return v
    if isinstance(v, list):
        return VList(I.ctx, [placeholders(I, x) for x in v])
    return v


def ctx_enter(I, m):
    if isinstance(m, VOpaque) and m.kind == "file":
        return m
    raise Unsupported("with " + type(m).__name__)


def ctx_exit(I, m, e):
    w_of(I).files[m.tag]["closed"] = True
    return False


HOOKS = {"native": native, "opaque_attr": opaque_attr, "ctx_enter": ctx_enter, "ctx_exit": ctx_exit, "str_case": str_case}


# ------------------------------------------------------------------ contracts of the library
def binder(names, defaults):
    def f(a, kw):
        d = dict(zip(names, a))
        for k, v in kw.items():
            if k not in names or k in d:
                raise Unsupported("library function called with " + k)
            d[k] = v
        for k, v in defaults.items():
            d.setdefault(k, v)
        if len(a) > len(names) or set(d) != set(names):
            raise Unsupported("library function arguments")
        return d

    return f


b_read = binder(["data", "type_hints", "custom_properties", "allow_nan"], {"type_hints": {}, "custom_properties": {}, "allow_nan": True})
b_write = binder(["self", "custom_properties"], {"custom_properties": {}})
b_one = binder(["x"], {})
b_comp = binder(["data", "save_type"], {})


def gvas_obj(I, w, origin):
    g = VObj(I.ctx, V.GvasFile)
    h = VObj(I.ctx, V.GvasHeader)
    h.attrs["save_game_class_name"] = w.cls
    g.attrs["header"] = h
    g.attrs["properties"] = VOpaque("properties", "props")
    g.attrs["trailer"] = b"\0\0\0\0"
    w.by[id(g)] = (g, origin)
    return g


def h_decompress(I, a, kw):
    w = w_of(I)
    d = b_one(a, {"x": kw["data"]} if "data" in kw else kw)["x"]
    must_equal(I.ctx, B.toks_of(d), [w.data], "bytes given to the decompressor")
    w.fail("decompression")
    t = Atom("type", 0x31, 0x32)
    return (SBytes([w.payload]), lin_atom(t))


def h_read(I, a, kw):
    w = w_of(I)
    d = b_read(a, kw)
    w.events.append(("read", d))
    must_equal(I.ctx, B.toks_of(d["data"]), [w.payload], "bytes given to the GVAS reader")
    w.fail("GVAS parsing")
    return gvas_obj(I, w, ("read", d))


def h_load(I, a, kw):
    w = w_of(I)
    if len(a) != 1 or kw or not (isinstance(a[0], VOpaque) and a[0].kind == "json"):
        raise Unsupported("GvasFile.load")
    w.fail("loading JSON", KeyError)
    return gvas_obj(I, w, ("load", a[0]))


def h_dump(I, a, kw):
    w = w_of(I)
    if len(a) != 1 or kw:
        raise Unsupported("GvasFile.dump")
    t = VOpaque(("dump", id(a[0])), "dumped")
    w.by[t.tag] = a[0]
    return t


def h_write(I, a, kw):
    w = w_of(I)
    d = b_write(a, kw)
    w.fail("encoding")
    r = Raw("gvas", I.ctx.fresh_int("n", 0, None, is_len=True))
    w.by[id(r)] = (r, d)
    return SBytes([r])


def h_compress(I, a, kw):
    w = w_of(I)
    d = b_comp(a, kw)
    w.fail("compression")
    r = Raw("sav", I.ctx.fresh_int("n", 0, None, is_len=True))
    w.by[id(r)] = (r, d)
    return SBytes([r])


def contracts():
    def f(o):
        return o.__func__ if isinstance(o, (staticmethod, classmethod)) else o

    d = V.GvasFile.__dict__
    return {
        Z.decompress_sav_to_gvas: h_decompress,
        Z.compress_gvas_to_sav: h_compress,
        f(d["read"]): h_read,
        f(d["load"]): h_load,
        f(d["dump"]): h_dump,
        f(d["write"]): h_write,
    }


# ------------------------------------------------------------------ obligations
def run(I, argv_flags, custom=None, plain=False):
    """one request; returns (world, outcome, request)"""
    from palworld_save_tools.commands import convert as C

    ctx = I.ctx
    w = World(I)
    ctx.memo["world"] = w
    fl = StrLeaf("filename")
    ctx.assume(SBool("ge", sub(lin_atom(fl.n), 1)))
    w.filename = SStr([fl])
    ol = StrLeaf("out")
    ctx.assume(SBool("ge", sub(lin_atom(ol.n), 1)))
    w.out = SStr([ol])
    w.data = Raw("data", ctx.fresh_int("n", 0, None, is_len=True))
    w.payload = Raw("payload", ctx.fresh_int("n", 0, None, is_len=True))
    cl = StrLeaf("class")
    w.cls = SStr([cl])
    w.selection = SStr([StrLeaf("selection")])
    rq = dict(to="--to-json" in argv_flags, fr="--from-json" in argv_flags)
    for k in ("out", "force", "nan", "minify"):
        rq[k] = not plain and ctx.choose(2, k) == 1
    argv = [FILE] + list(argv_flags)
    if rq["out"]:
        argv += ["--output", OUT]
    if rq["force"]:
        argv.append("--force")
    if rq["nan"]:
        argv.append("--convert-nan-to-null")
    if rq["minify"]:
        argv.append("--minify-json")
    rq["sel"] = custom is None and not plain and ctx.choose(2, "selection") == 1
    if rq["sel"]:
        argv += ["--custom-properties", SELECTION]
        rq["keys"] = TAG
    if custom is not None:
        argv += ["--custom-properties", custom]
    ctx.inputs["rq"] = rq
    ctx.inputs["filename"] = fl
    ctx.inputs["class"] = cl
    ctx.inputs["world"] = None
    old = sys.argv
    sys.argv = ["palworld-save-tools"] + argv
    try:
        r = outcome(I, lambda: I.call(C.main, []))
    finally:
        sys.argv = old
    ctx.world = w
    return w, r, rq


def direction(I, w, rq):
    if rq["to"] and rq["fr"]:
        return None
    if rq["to"]:
        return "json"
    if rq["fr"]:
        return "sav"
    if S.endswith(I.ctx, w.filename, ".sav"):
        return "json"
    if S.endswith(I.ctx, w.filename, ".json"):
        return "sav"
    return None


def expected_path(I, w, rq, d):
    if rq["out"]:
        return w.out
    if d == "json":
        return sconcat(w.filename, ".json")
    if S.endswith(I.ctx, w.filename, ".json"):
        return I.getslice(snorm(w.filename), slice(None, -5))
    return sconcat(w.filename, ".sav")


def exit_code(r):
    """None: an exception; otherwise the exit code"""
    k, v = r
    if k == "ok":
        return 0
    if v.cls is SystemExit:
        c = v.args[0] if v.args else None
        if c is None:
            return 0
        if isinstance(c, bool) or isinstance(c, int):
            return int(c)
        return 1
    return None


def writes(w):
    return [(i, e) for i, e in enumerate(w.events) if e[0] == "open" and any(c in e[2] for c in "wax+")]


def judge(I, prop, w, r, rq):
    ctx = I.ctx
    wr = writes(w)
    st = w.state(w.filename, ("missing", "dir", "file"))
    d = direction(I, w, rq)
    code = exit_code(r)
    ok = code == 0
    if prop == "C18":
        for i, e in enumerate(w.events):
            if e[0] == "open" and not any(c in e[2] for c in "wax+"):
                if not S.same_str(e[1], w.filename):
                    raise Refuted(f"{e[1]} is opened instead of the input file")
        for i, e in wr:
            if S.same_str(e[1], w.filename):
                raise Refuted("the input file is opened for writing")
            said = any(x == ("prompt", "y") or x == ("prompt", "Y") for x in w.events[:i])
            if not rq["force"] and w.state(e[1]) == "file" and not said:
                raise Refuted("an existing output file is opened for writing without --force and without the answer y")
            if any(x in (("prompt", "n"), ("prompt", "N")) for x in w.events[:i]):
                raise Refuted("the output file is opened for writing after the answer n")
            if w.failed:
                raise Refuted(f"{w.failed} fails, but the output file was opened for writing")
        if w.failed and ok:
            raise Refuted(f"{w.failed} fails, but the request reports success")
        ans = [x[1] for x in w.events if x[0] == "prompt"]
        if ans and ans[-1] in ("n", "N") and ok:
            raise Refuted("the answer n exits with code 0")
        if any(a in ("y", "n", "Y", "N") for a in ans[:-1]):
            raise Refuted("asked again after the answer y or n")
        if ans and ans[-1] == "other" and r[0] == "ok":
            raise Refuted("an answer other than y or n is not asked again")
        return
    refused = rq["to"] and rq["fr"] or st != "file"
    if prop == "C17":
        if refused:
            if wr:
                raise Refuted("a request to be refused writes a file")
            if ok:
                raise Refuted(f"not refused ({'both flags' if rq['to'] and rq['fr'] else 'input is ' + st})")
            return
        if d is None:
            if wr:
                raise Refuted("a file is written although no conversion was requested")
            return
        p = expected_path(I, w, rq, d)
        if len(wr) > 1:
            raise Refuted(f"{len(wr)} files are written")
        for i, e in wr:
            if p is not None and not S.same_str(e[1], p):
                raise Refuted(f"{e[1]} is written instead of {p}")
        if code == 0:
            if not wr:
                raise Refuted("nothing is written")
        elif not (w.failed or any(x[0] == "prompt" and x[1] in ("n", "N", None) for x in w.events)):
            raise Refuted(f"a valid request ends with {r[1]}")
        rd = [x for x in w.events if x[0] == "read"]
        if ok and len(rd) != (1 if d == "json" else 0):
            raise Refuted("the wrong conversion runs")
        return
    if prop == "C20":
        if ctx.frame_events:
            raise Refuted(f"a conversion changes state shared with later ones: {ctx.frame_events[0][:3]}")
        return
    if not ok or d is None or refused:
        return
    if len(wr) != 1:
        return
    f = [f for f in w.files.values() if f["path"] is wr[0][1][1]]
    content = f[-1]["content"]
    if prop == "C16":
        if d != "json":
            return
        rd = [x[1] for x in w.events if x[0] == "read"]
        for x in rd:
            if I.truth(x["allow_nan"]) != (not rq["nan"]):
                raise Refuted(f"allow_nan is {x['allow_nan']} when NaN conversion is {'on' if rq['nan'] else 'off'}")
        for c in content:
            if isinstance(c, VOpaque) and c.kind == "jsontext":
                an = w.by[c.tag][1].get("allow_nan", True)
                if not rq["nan"] and not I.truth(an):
                    raise Refuted("NaN conversion is off, but the JSON writer refuses NaN")
        return
    if prop == "C19":
        if len(content) != 1:
            raise Unsupported("output written in pieces")
        c = content[0]
        if d == "json":
            if "b" in wr[0][1][2]:
                raise Unsupported("binary JSON output")
            if not (isinstance(c, VOpaque) and c.kind == "jsontext"):
                raise Refuted("what is written is not JSON of the save")
            obj, kw = w.by[c.tag]
            if not (isinstance(obj, VOpaque) and obj.kind == "dumped"):
                raise Refuted("the JSON is not the dump of the save")
            if w.by[id(w.by[obj.tag])][1][0] != "read":
                raise Refuted("the JSON is not the dump of the decoded save")
            for k, v in kw.items():
                if k == "cls" and isinstance(v, type) and v is J.CustomEncoder:
                    continue
                if k in ("indent", "allow_nan", "ensure_ascii", "check_circular") and (k != "ensure_ascii" or v is True):
                    continue
                if k == "separators" or k == "ensure_ascii":
                    raise Unsupported("json option " + k)
                raise Refuted(f"JSON option {k}={v}")
            if "cls" not in kw:
                raise Refuted("JSON encoder is not the tool's")
            return
        t = flat(B.toks_of(c)) if isinstance(c, (SBytes, bytes)) else None
        if "b" not in wr[0][1][2] or t is None or len(t) != 1 or id(t[0]) not in w.by or w.by[id(t[0])][0].name != "sav":
            raise Refuted("what is written is not a container")
        dd = w.by[id(t[0])][1]
        g = flat(B.toks_of(dd["data"]))
        if len(g) != 1 or id(g[0]) not in w.by or w.by[id(g[0])][0].name != "gvas":
            raise Refuted("the container does not hold the encoded save")
        gd = w.by[id(g[0])][1]
        if id(gd["self"]) not in w.by or w.by[id(gd["self"])][1][0] != "load":
            raise Refuted("the encoded save is not the one loaded")
        table_is(I, gd["custom_properties"], None, "custom properties given to the writer")
        cls = w.cls
        big = S.contains(ctx, cls, "Pal.PalWorldSaveGame") or S.contains(ctx, cls, "Pal.PalLocalWorldSaveGame")
        same_value(I, dd["save_type"], 0x32 if big else 0x31, f"save type (world save: {big})")
        return
    if prop == "C15":
        if d != "json":
            return
        rd = [x[1] for x in w.events if x[0] == "read"]
        for x in rd:
            table_is(I, x["custom_properties"], rq.get("keys"), "custom properties given to the reader")
            h = I.overlay(x["type_hints"])
            hd = dict((e[0], e[1]) for e in h.ents) if isinstance(h, VDict) else h
            if hd != dict(P.PALWORLD_TYPE_HINTS):
                raise Refuted("type hints given to the reader are not the known ones")


def table_is(I, t, keys, what):
    T = P.PALWORLD_CUSTOM_PROPERTIES
    t = I.overlay(t)
    if isinstance(keys, tuple):
        return selected_is(I, t, keys, what)
    if isinstance(t, VDict):
        if any(isinstance(e, GenEntry) for e in t.ents) or t.rest is not None:
            raise Unsupported("symbolic table")
        t = {e[0]: e[1] for e in t.ents}
    if not isinstance(t, dict):
        raise Unsupported("table of type " + type(t).__name__)
    want = {k: T[k] for k in T if keys is None or k in keys}
    if set(t) != set(want):
        raise Refuted(f"{what}: {sorted(map(str, set(t) ^ set(want)))[:3]} missing or too many")
    for k in want:
        a = t[k]
        if not (isinstance(a, tuple) and len(a) == 2 and a[0] is want[k][0] and a[1] is want[k][1]):
            raise Refuted(f"{what}: {k} has another decoder or encoder")


def selected_is(I, t, tag, what):
    """present exactly when named: the entries of the table under their conditions"""
    T = P.PALWORLD_CUSTOM_PROPERTIES
    memo = I.ctx.memo
    if isinstance(t, dict):
        present = {k: (True, v) for k, v in t.items()}
    elif isinstance(t, VDict):
        if t.rest == "cond" and t.cond is None or t.rest not in (None, "cond") or any(isinstance(e, GenEntry) for e in t.ents):
            raise Unsupported("symbolic table")
        present = {e[0]: (True, e[1]) for e in t.ents}
        for m, k, v in t.cond or ():
            present[k] = (m, v)
    else:
        raise Unsupported("table of type " + type(t).__name__)
    for k in present:
        if k not in T:
            raise Refuted(f"{what}: {k} is no known path")
        a = present[k][1]
        if not (isinstance(a, tuple) and len(a) == 2 and a[0] is T[k][0] and a[1] is T[k][1]):
            raise Refuted(f"{what}: {k} has another decoder or encoder")
    first = memo.get(("first part", tag))
    al = None
    if first is not None:
        f = snorm(SStr([first]))
        al = f == "all" if isinstance(f, str) else False if "all" in first.ne else None
    if al is None and memo.get(("member", tag, "all")) is not False:
        # whether "all" was named makes no difference on this path
        al = None
    for k in T:
        c = present.get(k, (False, None))[0]
        if al is True:
            if c is not True:
                raise Refuted(f"{what}: {k} is left out although all were asked for")
            continue
        if c is True and memo.get(("member", tag, "all")) and al is not True:
            continue  # "all" among other names: not judged
        known = memo.get(("member", tag, k))
        if known is not None:
            if c is not known:
                raise Refuted(f"{what}: {k} is {'left out although' if known else 'there, but not'} named")
            continue
        if not isinstance(c, SMember) or c.no or c.tag != tag or c.lit != k:
            raise Refuted(f"{what}: {k} is there {'always' if c is True else 'never' if c is False else f'when {c}'}, not when it is named")
    if al is None and memo.get(("member", tag, "all")) is None:
        raise Refuted(f"{what}: 'all' makes no difference")


TAG = ("selection", ",", ("strip",))


def anyselect(prop):
    """for an arbitrary argument of --custom-properties, the paths decoded are exactly those
    among its comma-separated, stripped parts, or all of them when the first is 'all'"""

    def body(I):
        w, r, rq = run(I, ["--to-json"], SELECTION, plain=True)
        rq["keys"] = TAG
        if w.failed or w.replies:
            raise PrunePath()
        try:
            if exit_code(r) is None:
                raise Refuted(f"selection fails: {r[1]}")
            judge(I, prop, w, r, rq)
        except Refuted:
            note(I, w, rq, ["--to-json"], None)
            raise

    return body


def any_cases(prop):
    K = list(P.PALWORLD_CUSTOM_PROPERTIES)
    f = cases(prop)

    def g(i):
        o = []
        _, st, ex, replies, failed, flags, custom = i["world"]
        for c in ("all", "nonsense", K[0], f" {K[1]} , {K[2]}", K[3][:-1], ",".join(K[:-1]), K[4] + ",x", " all", "", "all," + K[0]):
            i = dict(i, world=("w", st, ex, replies, failed, flags, c))
            o += f(i)[:3]
        return o

    return g


def request(prop, flags):
    def body(I):
        w, r, rq = run(I, flags)
        try:
            judge(I, prop, w, r, rq)
        except Refuted:
            note(I, w, rq, flags, None)
            raise

    return body


def note(I, w, rq, flags, custom):
    st = w.state(w.filename, ("missing", "dir", "file"))
    ex = [s for p, s in w.states if not S.same_str(p, w.filename)]
    I.ctx.inputs["world"] = ("w", st, tuple(ex), tuple(str(x) for x in w.replies), w.failed or "", tuple(flags), custom if custom is not None else "\1" if rq["sel"] else "\0")
    I.ctx.inputs["rq"] = tuple(int(rq[k]) for k in ("out", "force", "nan", "minify"))


def selections():
    K = list(P.PALWORLD_CUSTOM_PROPERTIES)
    out = [(None, None), ("all", None), ("", []), ("nonsense", []), (",", []), (" all ", None)]
    out += [("all," + K[0], None), (" , ".join(K[2:5]) + " ", K[2:5]), (",".join(K), None), (",".join(K[::-1]), None)]
    for i, k in enumerate(K):
        out.append((k, [k]))
        out.append((",".join(x for x in K if x != k), [x for x in K if x != k]))
        out.append((k[:-1], []))
        out.append((k + "X," + k[1:], []))
        out.append((k + "," + K[(i + 1) % len(K)][:-3], [k]))
        out.append((k.upper() if k.upper() != k else k + "_", []))
    return out


def select(prop):
    """the paths decoded are exactly those named; bounded: the selections listed"""
    sel = selections()

    def body(I):
        i = I.ctx.choose(len(sel), "selection")
        c, keys = sel[i]
        w, r, rq = run(I, ["--to-json"], c, plain=True)
        rq["keys"] = keys
        if w.failed or w.replies:
            raise PrunePath()
        try:
            if exit_code(r) is None:
                raise Refuted(f"selection {c!r} fails: {r[1]}")
            judge(I, prop, w, r, rq)
        except Refuted:
            note(I, w, rq, ["--to-json"], c)
            raise

    return body


K0 = list(P.PALWORLD_CUSTOM_PROPERTIES)[0]


def cases(prop):
    def f(i):
        _, st, ex, replies, failed, flags, custom = i["world"]
        if custom == "\1":
            return [c for s in ("all", "nonsense", K0) for c in f(dict(i, world=i["world"][:-1] + (s,)))][:300]
        custom = None if custom == "\0" else custom
        out, force, nan, minify = i["rq"]
        names = []
        n = i["filename"]
        if n and "/" not in n and "\0" not in n and n.isprintable() and n.isascii() and not n.startswith("-") and n not in (".", "..") and len(n) < 100:
            names.append(n)
        ext = ".sav" if n.endswith(".sav") else ".json" if n.endswith(".json") else ""
        names += [s + ext for s in ("a", "b.json.c", "b.sav.c", "b.json", "b.sav", "b.JSON", "b.SAV")]
        to = "--to-json" in flags or ("--from-json" not in flags and ext == ".sav")
        dmg = None
        if failed:
            dmg = {
                "decompression": ["cut", "magic", "empty"],
                "GVAS parsing": ["gvas"],
                "parsing JSON": ["cut", "empty"],
                "loading JSON": ["nohdr"],
                "encoding": ["badprop", "range"],
            }.get(failed)
            if dmg is None:
                return []
        cls = i.get("class") or ""
        o = []
        others = [["yes", "n"], ["ny", "n"], ["", "n"], ["x", "y"], ["n"], ["y"], [" ", "n"]]
        rep = [r for r in replies if r not in ("other", "None")]
        reps = [rep] if "other" not in replies else [[x[0]] + rep for x in others] + [x for x in others]
        for nm in names:
            for dm in dmg or [None]:
                for rp in reps:
                    for c in dict.fromkeys([cls, "/Script/Pal.PalWorldSaveGame", "Other"]):
                        content = st if st != "file" else ("sav2" if to else "json")
                        for old in [None, "empty", "ancient", "future", "link", "save"] if "file" in ex else [None]:
                          o.append(("o_cli", dict(old=old, name=nm, content=content, flags=list(flags), out="out.x" if out else None, exists="file" in ex, replies=rp, seed=3, cls=c, damage=dm, custom=custom, nan=not nan, minify=bool(minify), force=bool(force), small=custom is None, prop=prop)))
        return o[:240]

    return f
