"""C21 on the real command, in a scratch directory of its own."""
import builtins
import importlib
import io
import json
import os
import shutil
import struct
import sys
import tempfile
import zlib

from . import spec as S
from .cli import Guard, api, files, make_save, ref_json, RJ, RZ
from .oracles import oracle, quiet, spec_sav


def odd_save(kind, seed, pad=0):
    """a save that does not come back the same"""
    g = make_save(seed, small=True)
    if pad:
        # a long byte array before the property that changes
        cut = g.rindex(S.fstr("None"))
        g = g[:cut] + S.fstr("Pad") + S.fstr("ArrayProperty") + struct.pack("<Q", pad + 4) + S.fstr("ByteProperty") + struct.pack("<BI", 0, pad) + bytes(pad) + g[cut:]
    cut = g.rindex(S.fstr("None"))
    if kind == "nan":
        x = S.fstr("Odd") + S.fstr("FloatProperty") + struct.pack("<QBI", 4, 0, 0x7FC12345)
    elif kind == "flag":
        x = S.fstr("Odd") + S.fstr("BoolProperty") + struct.pack("<QBB", 0, 7, 0)
    elif kind == "twice":
        x = (S.fstr("Odd") + S.fstr("IntProperty") + struct.pack("<QBi", 4, 0, 5)) * 2
    elif kind == "reserved":
        x = S.fstr("Odd") + S.fstr("MapProperty") + struct.pack("<Q", 8) + S.fstr("IntProperty") + S.fstr("IntProperty") + struct.pack("<BII", 0, 9, 0)
    else:
        return g
    return g[:cut] + x + g[cut:]


def crossed(x, how, at):
    """a payload that differs from x in a way a weak comparison would not notice"""
    at = at % max(len(x) - 8, 1)
    h, t = x[:at], x[at:]
    if how == "same":
        return x
    if how == "bit":
        return h + bytes([t[0] ^ 1]) + t[1:]
    if how == "swap":  # same length, bytes, sum and exclusive or
        i = next((i for i in range(1, len(t)) if t[i] != t[0]), None)
        return None if i is None else h + t[i : i + 1] + t[1:i] + t[:1] + t[i + 1 :]
    if how == "crc":  # same CRC-32: the difference is its polynomial
        return h + bytes(p ^ q for p, q in zip(t[:5], (0x1DB710641).to_bytes(5, "little"))) + t[5:]
    if how == "adler":  # same Adler-32
        i = next((i for i in range(len(t) - 2) if t[i] < 255 and t[i + 1] > 1 and t[i + 2] < 255), None)
        return None if i is None else h + t[:i] + bytes([t[i] + 1, t[i + 1] - 2, t[i + 2] + 1]) + t[i + 3 :]
    if how == "first":
        return bytes([x[0] ^ 0x80]) + x[1:]
    if how == "last":
        return x[:-1] + bytes([x[-1] ^ 0x80])
    if how == "case":
        y = x[:at] + x[at:].swapcase()
        return None if y == x else y
    if how == "longer":
        return x + b"\0"
    if how == "shorter":
        return x[:-1]
    if how == "trailer":
        return x[:-4] + bytes(4 - len(x[-4:])) + bytes(b ^ 1 for b in x[-4:])
    if how == "head":
        return x[at:]
    return None


@oracle
def o_compare(seed=1, how="same", at=0, types=(0x32, 0x32), size=None, level=None):
    """the comparison alone: the two conversions are stood in for, the second leaves a container of its own"""
    x = make_save(seed, small=True)
    if size is not None:
        x = x[:-4] + bytes((i * 37 + 11) % 251 for i in range(size)) + x[-4:]
    y = crossed(x, how, at)
    if y is None or (how != "same" and y == x):
        return None
    once = zlib.compress(y, 6 if level is None else level)
    left = struct.pack("<II", len(y), len(once)) + b"PlZ" + bytes([types[1]]) + (once if types[1] == 0x31 else zlib.compress(once))
    root = tempfile.mkdtemp(prefix="pvres_")
    m = importlib.import_module("palworld_save_tools.commands.resave_test")
    c = importlib.import_module("palworld_save_tools.commands.convert")
    calls = []

    def stand(name, data):
        def f(*a, **k):
            p = k.get("output_path", a[1] if len(a) > 1 else None)
            calls.append((name, p))
            with open(p, "wb") as h:
                h.write(data)

        return f

    stubs = {"convert_sav_to_json": stand("json", b"{}"), "convert_json_to_sav": stand("sav", left)}
    old = [(o, n, getattr(o, n)) for o in (m, c) for n in stubs if hasattr(o, n)]
    cwd, av, err = os.getcwd(), sys.argv, sys.stderr
    gd = Guard(root)
    try:
        with open(os.path.join(root, "a.sav"), "wb") as f:
            f.write(RZ.compress_gvas_to_sav(x, types[0]))
        for o, n, _ in old:
            setattr(o, n, stubs[n])
        os.chdir(root)
        sys.argv = ["resave_test", "a.sav"]
        builtins.open, sys.stderr = gd, io.StringIO()
        try:
            with quiet():
                try:
                    m.main()
                    code = 0
                except SystemExit as e:
                    code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
                except Exception as e:
                    code = e
        finally:
            builtins.open, sys.stderr = gd.real, err
            sys.argv = av
            os.chdir(cwd)
            for o, n, v in old:
                setattr(o, n, v)
        out = files(root)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    if [k for k, _ in calls] != ["json", "sav"] or out.get("a.sav.resave.sav") != left:
        return None  # the conversions are not reached this way
    ok = code == 0 and not isinstance(code, Exception)
    same = x == y and types[0] == types[1]
    if ok != same:
        return f"resave check: the saved container holds {'the same payload' if x == y else f'another payload ({how}, {len(x)} and {len(y)} bytes)'}, types {types[0]:#x} and {types[1]:#x}, but the check {'succeeds' if ok else f'fails with {code!r}'}"
    return None


HOW = ["same", "bit", "swap", "crc", "adler", "first", "last", "case", "longer", "shorter", "trailer", "head"]


def compare_cases():
    for size in (None, 300, 70000, 1 << 20):
        for how in HOW:
            for at in (5, 150, 1 << 19) if size == 1 << 20 else (150,):
                yield dict(how=how, at=at, size=size)
        for ty in ((0x31, 0x31), (0x31, 0x32), (0x32, 0x31)):
            yield dict(types=ty, size=size)
            yield dict(types=ty, size=size, how="bit", at=150)
    for lv in (0, 9):
        yield dict(level=lv)


@oracle
def o_resave(nargs=1, seed=1, odd=None, damage=None, exists=(), replies=(), typ=0x32, small=True, level=None, pad=0):
    root = tempfile.mkdtemp(prefix="pvres_")
    try:
        return _resave(root, nargs, seed, odd, damage, list(exists), list(replies), typ, small, level, pad)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def _resave(root, nargs, seed, odd, damage, exists, replies, typ, small, level=None, pad=0):
    gvas = odd_save(odd, seed, pad) if odd or small else make_save(seed)
    if damage == "gvas":
        gvas = b"NOPE" + gvas[4:]
    data = RZ.compress_gvas_to_sav(gvas, typ)
    if level is not None:
        once = zlib.compress(gvas, level)
        data = struct.pack("<II", len(gvas), len(once)) + b"PlZ" + bytes([typ]) + (once if typ == 0x31 else zlib.compress(once, level))
    if damage == "cut":
        data = data[:-3]
    elif damage == "magic":
        data = data[:8] + b"XXX" + data[11:]
    with open(os.path.join(root, "a.sav"), "wb") as f:
        f.write(data)
    for x in exists:
        with open(os.path.join(root, "a.sav.resave." + x), "wb") as f:
            f.write(json.dumps(ref_json(make_save(seed + 1, small=True)), cls=RJ.CustomEncoder).encode() if x == "json" else RZ.compress_gvas_to_sav(make_save(seed + 1, small=True), 0x32))
    before = files(root)
    m = importlib.import_module("palworld_save_tools.commands.resave_test")
    gd = Guard(root)
    left = list(replies)

    def inp(prompt=""):
        if not left:
            raise EOFError
        return left.pop(0)

    cwd, av, oi, err = os.getcwd(), sys.argv, builtins.input, sys.stderr
    os.chdir(root)
    sys.argv = ["resave_test", "a.sav", "a.sav", "a.sav"][: nargs + 1]
    builtins.open, builtins.input, sys.stderr = gd, inp, io.StringIO()
    try:
        with quiet():
            try:
                m.main()
                code = 0
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except Exception as e:
                code = e
    finally:
        builtins.open, builtins.input, sys.stderr = gd.real, oi, err
        sys.argv = av
        os.chdir(cwd)
    after = files(root)
    what = f"resave check of a save{f' ({odd})' if odd else ''}{', damaged: ' + damage if damage else ''}, {nargs} arguments, existing {exists}, answers {replies}"
    changed = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
    if "a.sav" in changed or "a.sav" in gd.writes:
        return f"{what}: the input file was opened for writing"
    extra = [c for c in changed + gd.writes if c not in ("a.sav.resave.json", "a.sav.resave.sav")]
    if extra:
        return f"{what}: {extra} written"
    ok = code == 0 and not isinstance(code, Exception)
    if nargs != 1:
        if ok or changed:
            return f"{what}: not refused"
        return None
    res = after.get("a.sav.resave.sav")
    got = spec_sav(res) if res is not None else None
    j = api("json", data, None, True)
    again = api("sav", json.dumps(j, cls=RJ.CustomEncoder), None, True) if j is not None else None
    # the small saves are of a world class, which is saved with type 0x32
    same = again == gvas and typ == 0x32
    if "n" in replies[: len(exists)]:
        return f"{what}: success reported although the answer was n" if ok else None
    if ok and (got is None or got[0] != gvas or got[1] != typ or not same):
        return f"{what}: the check succeeds, but payload or type saved again differ"
    if replies[: len(exists)] != ["y"] * len(exists):
        return None
    if same and not ok:
        return f"{what}: payload and type are the same, but the check fails with {code!r}"
    return None


def scenarios(seed):
    import random

    r = random.Random(seed)
    while True:
        yield dict(
            nargs=r.choice([1] * 12 + [0, 2, 3]),
            seed=r.randrange(1 << 30),
            odd=r.choice([None, None, "nan", "flag", "twice", "reserved"]),
            damage=r.choice([None] * 4 + ["cut", "magic", "gvas"]),
            exists=r.choice([[], [], ["json"], ["sav"], ["json", "sav"]]),
            replies=r.choice([["y", "y"], ["y", "y"], ["n"], ["y", "n"], []]),
            typ=r.choice([0x31, 0x32]),
            small=r.random() < 0.7,
            level=r.choice([None, 0, 1, 9]),
            pad=r.choice([0, 0, 0, 0, 1000, 70000]),
        )


def systematic():
    for odd in (None, "nan", "flag", "twice", "reserved"):
        for typ in (0x31, 0x32):
            for d in (None, "cut", "magic", "gvas"):
                for lv in (None, 0, 9):
                    yield dict(seed=5, odd=odd, damage=d, typ=typ, level=lv)
                for ex in (["json"], ["sav"], ["json", "sav"]):
                    for rep in (["y", "y"], ["n"], ["y", "n"]):
                        yield dict(seed=5, odd=odd, damage=d, exists=ex, replies=rep, typ=typ)
    for odd in ("nan", "flag"):
        for pad in (1 << 10, 1 << 12, 1 << 16, 1 << 17, 1 << 20):
            yield dict(seed=5, odd=odd, pad=pad)
    for n in (0, 2, 3):
        yield dict(nargs=n, seed=5)
