"""C09: GVAS header and file."""
from .base import *
from .prims import CONTRACTS, fstr_tok, enc_tok
from .tree import leaf_str, G
from palworld_save_tools import gvas as V, json_tools as J

I32, U16, U32 = (4, True), (2, False), (4, False)


def header_parts(I):
    """(fields in the order they are stored, their values; stored form) of a header with arbitrary fields"""
    g = G(I)
    ctx = I.ctx
    d, t = [("magic", 0x53415647), ("save_game_version", 3)], [b"GVAS", LE(4, 3)]

    def field(name, v, toks):
        d.append((name, v))
        t.extend(toks)

    for name, (w, s) in zip(["package_file_version_ue4", "package_file_version_ue5", "engine_version_major", "engine_version_minor", "engine_version_patch", "engine_version_changelist"], (I32, I32, U16, U16, U16, U32)):
        field(name, *g.int(w, s))
    s = leaf_str(I, "branch")
    field("engine_version_branch", s, [fstr_tok(ctx, s)])
    field("custom_version_format", 3, [LE(4, 3)])

    def cv():
        a, x = g.guid()
        b, y = g.int(4, True)
        return VList(ctx, [a, b]), x + y

    v, c, tv = g.rep(cv)
    field("custom_versions", v, [LE(4, c)] + tv)
    s = leaf_str(I, "class")
    field("save_game_class_name", s, [fstr_tok(ctx, s)])
    return d, flat(t)


def header_toks(I, refuse=None):
    """stored form of a header with arbitrary fields"""
    return header_parts(I)[1]


def header():
    def body(I):
        ctx = I.ctx
        toks = header_toks(I)
        ctx.inputs["header"] = SBytes(toks)
        rest = Raw("rest", ctx.fresh_int("nrest", 0, None, is_len=True))
        r = reader_on(I, toks + [rest])
        try:
            h = I.call(V.GvasHeader.read, [r])
        except PyExc as e:
            raise Refuted(f"header cannot be read: {e.exc}")
        must_equal(ctx, rest_of(r), [rest], "bytes after the header")
        way = ctx.choose(2, "through JSON")
        if way:
            d = I.call(V.GvasHeader.dump, [h])
            h = I.call(V.GvasHeader.load, [M.json_copy(I, d, J.CustomEncoder)])
        w = I.call(A.FArchiveWriter, [], {})
        try:
            I.call(V.GvasHeader.write, [h, w])
        except PyExc as e:
            raise Refuted(f"header cannot be written: {e.exc}")
        must_equal(ctx, w.attrs["data"].toks, toks, "header written back")

    return body


def file(custom=False):
    def body(I):
        ctx = I.ctx
        toks = header_toks(I)
        o = VOpaque("props", "props")
        k = enc_tok(ctx, "PROPS", o, 9)
        k.conc = lambda c: fstr_bytes("None")
        tr = Raw("trailer", ctx.fresh_int("ntrailer", 0, None, is_len=True))
        ctx.inputs["file"] = SBytes(toks + [k, tr])
        hints = VDict(ctx)
        cust = VDict(ctx)
        try:
            f = I.call(V.GvasFile.read, [SBytes(toks + [k, tr]), hints, cust])
        except PyExc as e:
            raise Refuted(f"file cannot be read: {e.exc}")
        way = ctx.choose(2, "through JSON")
        if way:
            d = I.call(V.GvasFile.dump, [f])
            try:
                f = I.call(V.GvasFile.load, [M.json_copy(I, d, J.CustomEncoder)])
            except PyExc as e:
                raise Refuted(f"dumped file cannot be loaded: {e.exc}")
        try:
            b = I.call(V.GvasFile.write, [f, cust])
        except PyExc as e:
            raise Refuted(f"file cannot be written: {e.exc}")
        if kind(b) != "bytes":
            raise Refuted("written file is not bytes")
        must_equal(ctx, B.toks_of(b), toks + [k, tr], "file written back")

    return body


def refuses():
    """a header is accepted only with the right magic, version and custom version format"""

    def body(I):
        ctx = I.ctx
        raw = free_bytes(I, "data")
        # parse the specification first, so that both see the same tokens
        r0 = reader_on(I, [raw], pre=False)
        st, v = outcome(I, lambda: spec_prefix(I, r0))
        toks = list(r0.attrs["data"].toks)
        r = reader_on(I, toks, pre=False)
        try:
            I.call(V.GvasHeader.read, [r])
        except PyExc:
            return
        if st == "raise":
            raise Refuted("a truncated header is accepted")
        for x, want, what in v:
            same_value(I, x, want, what)

    return body


def spec_prefix(I, r):
    R = A.FArchiveReader
    rd = lambda n: I.call(getattr(R, n), [r])
    a = rd("i32")
    b = rd("i32")
    for n in ("i32", "i32", "u16", "u16", "u16", "u32"):
        rd(n)
    rd("fstring")
    c = rd("i32")
    return [(a, 0x53415647, "magic"), (b, 3, "save game version"), (c, 3, "custom version format")]
