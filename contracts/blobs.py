"""Free-mode obligations for the blob codecs: encode(json(decode(b))) == b."""
from pyvc.terms import *
from pyvc.values import *
from pyvc.explore import explore
from pyvc import bytesops as B
from pyvc import models as M
from .prims import CONTRACTS
from palworld_save_tools import archive as A, json_tools as J

FLAG_KEYS = {"drop_item_at_disposed", "try_success_cache", "valid", "auto_picked_up", "assignable_otomo", "can_trigger_worker_event", "can_steal_assign", "fixed"}


def must_equal(ctx, a, b, what):
    try:
        B.toks_equal(ctx, a, b, what)
    except B.Mismatch as m:
        raise Refuted(m.msg, m.extra)


def blob_input(I, name="blob"):
    n = I.ctx.fresh_int("n", 0, None, is_len=True)
    raw = Raw(name, n)
    I.ctx.inputs[name] = raw
    return raw


# what a decoder returns: "dict" (fields, no entry "values") or "raw" ({"values": the bytes})
FORMS = {
    "map_model": ("dict",),
    "connector": ("dict", "raw"),
    "build_process": ("dict",),
    "map_concrete_model": ("dict", "raw"),
    "map_concrete_model_module": ("dict", "raw"),
    "base_camp_module": ("dict", "raw"),
    "work": ("dict", "raw"),
    "work_assign": ("dict",),
    "group": ("dict",),
}


def form_of(d):
    if isinstance(d, VDict) and d.rest is None:
        if list(d.idx) == ["values"] and len(d.ents) == 1:
            return "raw"
        if "values" not in d.idx:
            return "dict"
    return "other"


def as_bytes(I, v):
    return B.toks_of(v) if not isinstance(v, VList) else B.toks_of(I.call(bytes, [v]))


def blob(dec, enc, kinds=None, enc_kind=False, forms=None):
    """decode the bytes, optionally send the result through JSON, encode it (twice)"""

    def body(I):
        ctx = I.ctx
        raw = blob_input(I)
        rd = I.call(A.FArchiveReader, [b""], {})
        dargs, eargs = [], []
        if kinds is not None:
            k = kinds(I)
            dargs = [k]
            if enc_kind:
                eargs = [k]
        try:
            d = I.call(dec, [rd, VByteSeq("tuple", SBytes([raw]))] + dargs, {})
        except PyExc:
            raise PrunePath()
        ctx.decoded = d
        f = form_of(d)
        if forms is not None and f not in forms:
            # the contract the property codecs rely on does not describe this result
            raise Unsupported(f"decoded to a form outside the contract: {f}")
        if ctx.choose(2, "through JSON") == 0:
            d = M.json_copy(I, d, J.CustomEncoder)
        for k in (1, 2):
            if f == "raw":
                out = as_bytes(I, d.idx["values"][1])
            else:
                try:
                    out = I.call(enc, [d] + eargs, {})
                except PyExc as e:
                    raise Refuted(f"decoded blob cannot be encoded{' a second time' if k == 2 else ''}: {e.exc}")
                out = B.toks_of(out)
            must_equal(ctx, out, [raw], "re-encoded blob" + (" (second time)" if k == 2 else ""))

    return body


class Decoded:
    """what decode returned for these bytes, of this kind"""

    def __init__(self, key, toks, kind):
        self.key, self.toks, self.kind = key, toks, kind

    def __repr__(self):
        return f"Decoded({self.key})"


def pair_contract(key, dec, enc, with_kind, enc_kind, same, only=None):
    """contracts of a decode_bytes/encode_bytes pair, as established by blob.<key>: decoding bytes in
    a known layout gives a value of one of FORMS[key]; encoding that value (with the same kind)
    gives these bytes"""

    def h_dec(I, a, kw):
        if kw or len(a) != (3 if with_kind else 2):
            return NotImplemented
        try:
            toks = as_bytes(I, a[1])
        except (PyExc, Unsupported, AttributeError):
            return NotImplemented
        forms = FORMS[key] if only is None else (only,)
        f = forms[I.ctx.choose(len(forms), key + " form") if len(forms) > 1 else 0]
        if f == "raw":
            return VDict(I.ctx, [("values", VByteSeq("tuple", SBytes(flat(toks))))])
        d = VDict(I.ctx)
        d.rest = OpenRest("decoded")
        d.rest.absent = frozenset({"values"})
        d.tag = Decoded(key, flat(toks), a[2] if with_kind else None)
        return d

    def h_enc(I, a, kw):
        d = a[0] if a else None
        if kw or len(a) != (2 if enc_kind else 1) or not isinstance(d, VDict):
            return NotImplemented
        if not isinstance(d.tag, Decoded):
            return NotImplemented
        if d.tag.key != key:
            raise Refuted(f"{key}.encode_bytes is given what {d.tag.key}.decode_bytes returned")
        if d.ents and [e[0] for e in d.ents] != ["values"]:
            raise Unsupported("entries added to a decoded blob")
        if enc_kind:
            same(I, a[1], d.tag.kind, f"{key}: kind passed to encode_bytes")
        return SBytes(list(d.tag.toks))

    return {dec: h_dec, enc: h_enc}
