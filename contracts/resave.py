"""C21: the resave check, over the symbolic file system of cli.py.

Files hold what was written to them in the run; a container made by the compressor decompresses to
what was compressed (C01), any other bytes to an arbitrary payload determined by them."""
from . import cli
from .cli import *


def read_back(I, m, a, kw):
    """f.read() of a file written in this run gives what was written"""
    w = w_of(I)
    f = w.files[m.f.tag]
    if m.name == "read" and not a and not kw and "b" in f["mode"] and "r" in f["mode"]:
        if f["closed"]:
            raise PyExc(VExc(ValueError, ("read",)))
        w.fail("reading", OSError)
        old = [g for g in w.files.values() if any(c in g["mode"] for c in "wax+") and S.same_str(g["path"], f["path"])]
        if old:
            if any(not isinstance(c, (SBytes, bytes)) for c in old[-1]["content"]):
                raise Unsupported("text read as bytes")
            return SBytes([t for c in old[-1]["content"] for t in B.toks_of(c)])
        if S.same_str(f["path"], w.filename):
            return SBytes([w.data])
        return SBytes([w.fact("file", f["path"])])
    return cli.file_call(I, m, a, kw)


class World2(World):
    def fact(self, kind, path):
        for k, q, v in self.facts:
            if k == kind and S.same_str(q, path):
                return v
        v = Raw(kind, self.ctx.fresh_int("n", 0, None, is_len=True))
        self.facts.append((kind, path, v))
        return v


def native(I, fn, a, kw):
    if isinstance(fn, FileMeth):
        return read_back(I, fn, a, kw)
    if fn is json.load and len(a) == 1 and isinstance(a[0], VOpaque) and a[0].kind == "file":
        w = w_of(I)
        cli.native(I, fn, a, kw)
        v = VOpaque(("json", len(w.by)), "json")
        w.by[id(v)] = (v, w.files[a[0].tag]["path"])
        return v
    return cli.native(I, fn, a, kw)


def remade(w, g):
    """the payload is the encoding of the JSON made from the input in this run"""
    o = w.by[id(w.by[id(g)][1]["self"])][1]
    if o[0] != "load" or id(o[1]) not in w.by:
        return False
    js = w.by[id(o[1])][1]
    f = [f for f in w.files.values() if any(c in f["mode"] for c in "wax+") and S.same_str(f["path"], js)]
    if not f or len(f[-1]["content"]) != 1:
        return False
    t = f[-1]["content"][0]
    if not (isinstance(t, VOpaque) and t.kind == "jsontext"):
        return False
    d = w.by[t.tag][0]
    return isinstance(d, VOpaque) and d.kind == "dumped" and w.by[id(w.by[d.tag])][1][0] == "read"


HOOKS = dict(cli.HOOKS, native=native)


def payload_of(w, toks):
    """what the container holds, by C01"""
    t = flat(toks)
    if len(t) == 1 and t[0] is w.data:
        return w.payload
    if len(t) == 1 and id(t[0]) in w.by and w.by[id(t[0])][0].name == "sav":
        g = flat(B.toks_of(w.by[id(t[0])][1]["data"]))
        return g[0] if len(g) == 1 else None
    return None


def type_of(w, toks):
    t = flat(toks)
    return w.type if t[0] is w.data else w.by[id(t[0])][1]["save_type"]


def h_decompress(I, a, kw):
    w = w_of(I)
    d = b_one(a, {"x": kw["data"]} if "data" in kw else kw)["x"]
    p = payload_of(w, B.toks_of(d))
    if p is None:
        raise Unsupported("payload of other bytes")
    w.fail("decompression")
    return (SBytes([p]), type_of(w, B.toks_of(d)))


def contracts():
    return {**cli.contracts(), Z.decompress_sav_to_gvas: h_decompress}


def request(nargs):
    def body(I):
        from palworld_save_tools.commands import resave_test as T

        ctx = I.ctx
        w = World2(I)
        ctx.memo["world"] = w
        fl = StrLeaf("filename")
        ctx.assume(SBool("ge", sub(lin_atom(fl.n), 1)))
        w.filename = SStr([fl])
        w.data = Raw("data", ctx.fresh_int("n", 0, None, is_len=True))
        w.payload = Raw("payload", ctx.fresh_int("n", 0, None, is_len=True))
        w.type = lin_atom(Atom("type", 0x31, 0x32))
        w.cls = SStr([StrLeaf("class")])
        old = sys.argv
        sys.argv = ["resave_test"] + [w.filename] * nargs
        try:
            r = outcome(I, lambda: I.call(T.main, []))
        finally:
            sys.argv = old
        ctx.inputs["failed"] = w.failed or ""
        ctx.inputs["exists"] = [".json" in str(p) for p, s in w.states if s == "file" and not S.same_str(p, w.filename)]
        ctx.inputs["answers"] = [str(x) for x in w.replies]
        judge(I, w, r, nargs)

    return body


def judge(I, w, r, nargs):
    wr = writes(w)
    ok = exit_code(r) == 0
    js, sv = sconcat(w.filename, ".resave.json"), sconcat(w.filename, ".resave.sav")
    for i, e in wr:
        if S.same_str(e[1], w.filename):
            raise Refuted("the input file is opened for writing")
        if not S.same_str(e[1], js) and not S.same_str(e[1], sv):
            raise Refuted(f"{e[1]} is written")
        said = any(x == ("prompt", "y") or x == ("prompt", "Y") for x in w.events[:i])
        if w.state(e[1]) == "file" and not said:
            raise Refuted("an existing file is opened for writing without the answer y")
    if nargs != 1:
        if wr:
            raise Refuted(f"{nargs} arguments are not refused")
        if ok:
            raise Refuted(f"success is reported for {nargs} arguments")
        return
    out = [f for f in w.files.values() if any(c in f["mode"] for c in "wax+") and S.same_str(f["path"], sv)]
    if ok:
        if w.failed:
            raise Refuted(f"{w.failed} fails, but the check succeeds")
        if not out or not out[-1]["content"]:
            raise Refuted("the check succeeds, but nothing was saved again")
        g = payload_of(w, saved(out))
        if g is None:
            raise Refuted("what is saved again is not a container of the encoded save")
        if not remade(w, g):
            raise Refuted("what is saved again was not made from the input")
        if not B.toks_same(flat([g]), flat([w.payload])):
            raise Refuted("the check succeeds although the payloads may differ")
        same_value(I, type_of(w, saved(out)), w.type, "type of the container when the check succeeds")
        return
    if any(S.same_str(p, w.filename) and s != "file" for p, s in w.states):
        return
    if w.failed or any(x[0] == "prompt" and x[1] in ("n", "N", None) for x in w.events):
        return
    if not out or not out[-1]["content"]:
        raise Refuted(f"ends with {r[1]} although no step failed")
    g = payload_of(w, saved(out))
    if g is None or not remade(w, g):
        raise Refuted("what is saved again was not made from the input")
    # the check fails: payload or type must be known to differ
    d = norm(sub(type_of(w, saved(out)), w.type))
    if (d != 0) if not isinstance(d, Lin) else I.ctx.prove(SBool("ne", d)) is True:
        return
    if not B.toks_same(flat([g]), flat([w.payload])):
        if any(n[0] == "rawne" for n in I.ctx.notes):
            return
        d = norm(sub(tok_len(g), tok_len(w.payload)))
        if isinstance(d, Lin) and I.ctx.prove(SBool("ne", d)) is True:
            return
    raise Refuted(f"the check ends with {r[1]} although payload and type may be the same")


def saved(out):
    return [t for c in out[-1]["content"] for t in B.toks_of(c)]


def cases(i):
    dmg = {"decompression": ["cut", "magic"], "GVAS parsing": ["gvas"]}.get(i.get("failed") or "", [None])
    from native.resave import compare_cases

    o = [("o_compare", k) for k in compare_cases() if k.get("size") != 1 << 20]
    for lv in (0, 1, 9):
        o.append(("o_resave", dict(seed=3, level=lv)))
    for pad in (1 << 12, 1 << 16, 1 << 20, 1 << 22):
        o.append(("o_resave", dict(seed=3, odd="nan", pad=pad)))
    for n in (0, 2, 3):
        o.append(("o_resave", dict(nargs=n, seed=3)))
    for odd in (None, "nan", "flag", "twice", "reserved"):
        for d in dmg:
            for ex in ((), ("json",), ("sav",), ("json", "sav")):
                for rep in ((), ("y", "y"), ("n",), ("y", "n")):
                    if ex or not rep:
                        o.append(("o_resave", dict(seed=3, typ=0x31 + len(o) % 2, odd=odd, damage=d, exists=list(ex), replies=list(rep))))
    return o
