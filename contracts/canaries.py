"""Deliberately wrong code, verified against the same contracts on every run.  Each must be refuted;
one that is accepted means the engine is unsound or the obligations are vacuous."""
SEEN = {}


def short_skip(r, n):
    r.data.read(n)


def short_vector(r):
    try:
        return (r.double(), r.double(), r.double())
    except Exception:
        return (0.0, 0.0, 0.0)


def lossy_array(r, f):
    n = r.u32()
    return [f(r) for _ in range(max(n - 1, 0))]


def fading(r, f):
    out = []
    for _ in range(r.u32()):
        if len(out) >= 256 and r.eof():
            break
        out.append(f(r))
    return out


def big_endian(w, l):
    w.u32(len(l))
    for x in l:
        w.write(x.to_bytes(4, "big"))


def wrapping(w, x):
    w.u16(x & 0xFFFF)


def stripped(w, s):
    w.fstring(s if s.isascii() else s + "x")


def remembers(r):
    v = r.u32()
    SEEN["last"] = v
    return v


# references
def ref_array(w, l):
    w.u32(len(l))
    for x in l:
        w.u32(x)


def ref_u16(w, x):
    w.u16(x)


def ref_str(w, s):
    w.fstring(s)


def ref_u32(r):
    return r.u32()


def extra_byte(d):
    """the encoder of a blob, with a byte too many (used through its contract)"""
    raise RuntimeError
