"""C15-C19 on the command line: scenarios run in a scratch directory of their own."""
import builtins
import contextlib
import importlib
import io
import json
import os
import shutil
import sys
import tempfile

from . import spec as S
from .gen import Gen, RA, RP
from .oracles import oracle, quiet, spec_sav, P, plain, first_diff
import pst_ref.gvas as RV
import pst_ref.palsav as RZ
import pst_ref.json_tools as RJ

KEYS = list(RP.PALWORLD_CUSTOM_PROPERTIES)


def make_save(seed, cls="/Script/Pal.PalWorldSaveGame", only=None, small=False):
    g = Gen(seed)
    w = g.world(only) if not small else {"A": g.prop(1, ".A", {}, "IntProperty"), "F": g.prop(0, ".F", {}, "FloatProperty"), "S": g.prop(0, ".S", {}, "StrProperty")}
    h = g.header(cls)
    return S.gvas_header(h) + S.props(w) + g.trailer()


def ref_json(gvas, keys=None, nan=True):
    c = RP.PALWORLD_CUSTOM_PROPERTIES
    c = {k: c[k] for k in c if keys is None or k in keys}
    with quiet():
        return json.loads(json.dumps(RV.GvasFile.read(gvas, RP.PALWORLD_TYPE_HINTS, c, allow_nan=nan).dump(), cls=RJ.CustomEncoder))


class Guard:
    """open() that refuses to write outside the scratch directory and records writes"""

    def __init__(self, root):
        self.root = os.path.realpath(root)
        self.writes = []
        self.real = builtins.open

    def __call__(self, f, mode="r", *a, **k):
        if isinstance(f, (str, bytes, os.PathLike)):
            p = os.path.realpath(os.fspath(f))
            if any(c in mode for c in "wax+"):
                if not str(p).startswith(self.root + os.sep):
                    raise PermissionError(f"write outside the scratch directory: {p}")
                self.writes.append(os.path.relpath(p, self.root))
        return self.real(f, mode, *a, **k)


def run_main(root, argv, replies):
    """(exit code or exception, prompts used, files written)"""
    m = importlib.import_module("palworld_save_tools.commands.convert")
    g = Guard(root)
    left = list(replies)

    def inp(prompt=""):
        if not left:
            raise EOFError
        return left.pop(0)

    cwd, av = os.getcwd(), sys.argv
    os.chdir(root)
    sys.argv = ["palworld-save-tools"] + list(argv)
    oi = builtins.input
    builtins.open, builtins.input = g, inp
    oo, g2 = io.open, sys.stderr
    sys.stderr = io.StringIO()
    try:
        with quiet():
            try:
                m.main()
                code = 0
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except Exception as e:
                code = e
    finally:
        builtins.open, builtins.input = g.real, oi
        sys.stderr = g2
        sys.argv = av
        os.chdir(cwd)
    return code, len(replies) - len(left), g.writes


def files(root):
    out = {}
    for d, ds, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            with open(p, "rb") as h:
                out[os.path.relpath(p, root)] = h.read()
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), root) + "/"] = b""
    return out


@oracle
def o_cli(name, content, flags=(), out=None, exists=False, replies=(), seed=1, cls="/Script/Pal.PalWorldSaveGame", damage=None, custom=None, nan=True, minify=False, force=False, small=True, gvas=None, prop=None, old=None):
    """content: sav1 | sav2 | json | missing | dir; flags: subset of --to-json, --from-json; old: what an
    existing output file holds (text | empty | nul | json | save | ancient | future | link | readonly)"""
    root = tempfile.mkdtemp(prefix="pvcli_")
    try:
        if not os.path.splitext(os.path.basename(name))[0].strip("."):
            return None  # nothing but the extension: not covered
        m = _cli(root, name, content, list(flags), out, exists, list(replies), seed, cls, damage, custom, nan, minify, force, small, gvas, old)
        if m is None or (prop is not None and prop not in m[0]):
            return None
        return m[1]
    finally:
        shutil.rmtree(root, ignore_errors=True)


def api(direction, data, keys, nan):
    """what the library gives for the same request"""
    from . import oracles as O

    try:
        with quiet():
            if direction == "json":
                c = P.PALWORLD_CUSTOM_PROPERTIES
                c = {k: c[k] for k in c if keys is None or k in keys}
                raw, _ = O.Z.decompress_sav_to_gvas(data)
                return json.loads(json.dumps(O.V.GvasFile.read(raw, P.PALWORLD_TYPE_HINTS, c, allow_nan=nan).dump(), cls=O.J.CustomEncoder))
            return O.V.GvasFile.load(json.loads(data)).write(P.PALWORLD_CUSTOM_PROPERTIES)
    except Exception:
        return None


def customs(v):
    out = set()

    def walk(v):
        if isinstance(v, dict):
            if isinstance(v.get("custom_type"), str) and "type" in v:
                out.add(v["custom_type"])
            for x in v.values():
                walk(x)
        elif isinstance(v, list):
            for x in v:
                walk(x)

    walk(v)
    return out


def specials(v):
    if isinstance(v, dict):
        return sum(map(specials, v.values()))
    if isinstance(v, list):
        return sum(map(specials, v))
    return int(isinstance(v, float) and (v != v or v in (float("inf"), float("-inf"))))


def tables():
    return dict(P.PALWORLD_CUSTOM_PROPERTIES), dict(P.PALWORLD_TYPE_HINTS)


def restore(t):
    for d, o in zip((P.PALWORLD_CUSTOM_PROPERTIES, P.PALWORLD_TYPE_HINTS), t):
        d.clear()
        d.update(o)


OLD = b"precious earlier content\n"


def selected(custom):
    """the paths named, None for all"""
    if custom is None:
        return None
    l = [s.strip() for s in custom.split(",")]
    return None if l[0] == "all" else [k for k in KEYS if k in l]


def put_old(root, path, old, gvas):
    p = os.path.join(root, path)
    data = {"empty": b"", "nul": bytes(64), "json": b"{}", "save": RZ.compress_gvas_to_sav(gvas, 0x32)}.get(old, OLD)
    if old == "link":
        q = p + ".target"
        with open(q, "wb") as f:
            f.write(OLD)
        os.symlink(q, p)
        return
    with open(p, "wb") as f:
        f.write(data)
    if old == "ancient":
        os.utime(p, (1, 1))
    if old == "future":
        os.utime(p, (4000000000, 4000000000))
    if old == "readonly":
        os.chmod(p, 0o444)


def answered(replies, what, used, ok, touched):
    """"go" when the conversion was rightly confirmed, None when it was rightly given up, or what is wrong"""
    n = next((i for i, r in enumerate(replies) if r in ("y", "n")), None)
    if n is None:
        return f"{what}: no answer y was given, but {touched} touched" if touched else None
    if used != n + 1:
        return f"{what}: {used} answers used, {n + 1} expected"
    if replies[n] == "y":
        return "go"
    if ok:
        return f"{what}: answer n exits with code 0"
    return f"{what}: answer n, but {touched} touched" if touched else None


def _cli(root, name, content, flags, out, exists, replies, seed, cls, damage, custom, nan, minify, force, small, gvas=None, old=None):
    gvas = gvas or make_save(seed, cls, small=small)
    p = os.path.join(root, name)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if content in ("sav1", "sav2"):
        data = RZ.compress_gvas_to_sav(gvas, 0x31 if content == "sav1" else 0x32)
    elif content == "json":
        data = json.dumps(ref_json(gvas), cls=RJ.CustomEncoder).encode()
    else:
        data = b""
    bad = damage is not None
    if damage == "cut":
        data = data[: len(data) // 2]
    elif damage == "empty":
        data = b""
    elif damage == "magic" and len(data) > 12:
        data = data[:8] + b"XXX" + data[11:]
    elif damage == "gvas":
        data = RZ.compress_gvas_to_sav(b"NOPE" + gvas[4:], 0x32)
    elif damage == "nohdr":
        data = b'{"properties": {}, "trailer": ""}'
    elif damage == "badprop":
        j = ref_json(gvas)
        j["properties"]["Zz"] = {"id": None, "value": 1, "type": "NoSuchProperty"}
        data = json.dumps(j).encode()
    elif damage == "range":
        j = ref_json(gvas)
        j["properties"]["Zz"] = {"id": None, "value": 1 << 40, "type": "IntProperty"}
        data = json.dumps(j).encode()
    if content == "dir":
        os.mkdir(p)
        if seed % 3:
            for x in ("Level.sav", "level.json", "a.sav", "Level.sav.json")[: seed % 5]:
                with open(os.path.join(p, x), "wb") as f:
                    f.write(RZ.compress_gvas_to_sav(gvas, 0x32) if x.endswith("sav") else json.dumps(ref_json(gvas)).encode())
    elif content != "missing":
        with open(p, "wb") as f:
            f.write(data)
    to = "--to-json" in flags
    fr = "--from-json" in flags
    direction = None
    if to != fr:
        direction = "json" if to else "sav"
    elif not to:
        direction = "json" if name.endswith(".sav") else "sav" if name.endswith(".json") else None
    path = out
    if path is None and direction == "json":
        path = name + ".json"
    elif path is None and direction == "sav":
        path = name[:-5] if name.endswith(".json") else name + ".sav"
    if exists and path is not None and path != name:
        put_old(root, path, old, gvas)
    argv = [name] + flags
    if out is not None:
        argv += ["--output", out]
    if force:
        argv.append("--force")
    if not nan:
        argv.append("--convert-nan-to-null")
    if minify:
        argv.append("--minify-json")
    if custom is not None:
        argv += ["--custom-properties", custom]
    before = files(root)
    t0 = tables()
    code, used, writes = run_main(root, argv, replies)
    t1 = tables()
    after = files(root)
    what = f"{' '.join(argv)} (input {content}{', damaged: ' + damage if damage else ''}, output {'exists' + (f' ({old})' if old else '') if exists else 'absent'}, answers {replies})"
    ok = code == 0
    if t0 != t1:
        restore(t0)
        return ("C20", f"{what}: the tables shared by all conversions were changed: {sorted(map(str, set(t0[0]) ^ set(t1[0])))[:3] or 'entries differ'}")
    changed = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
    if name in changed:
        return ("C18", f"{what}: the input file was changed")
    if name in writes and path != name:
        return ("C18", f"{what}: the input file was opened for writing")
    if (to and fr) or content in ("missing", "dir"):
        if ok:
            return ("C17", f"{what}: not refused")
        if changed:
            return ("C17", f"{what}: refused, but {changed} changed")
        return None
    if direction is None:
        if changed:
            return ("C17", f"{what}: {changed} written although no conversion was requested")
        return None
    asked = exists and not force
    if asked:
        # Y and N may count as y and n or be asked again
        says = [answered(x, what, used, ok, changed or (path in writes and writes)) for x in (replies, [r.casefold() for r in replies])]
        if None in says:
            return None
        if "go" not in says:
            return ("C18", says[0])
    elif used:
        return ("C18", f"{what}: asked although {'--force was given' if force else 'the output does not exist'}")
    if bad or (content == "json") != (direction == "sav"):
        if bad or content == "json" or direction == "sav":
            if ok:
                return ("C18", f"{what}: unreadable input accepted")
            if changed or path in writes:
                return ("C18", f"{what}: conversion failed, but {changed or writes} touched")
            return None
    if not ok:
        if api(direction, data, selected(custom), nan) is None:
            return None
        return (("C17", "C15") if custom is not None else "C17", f"{what}: fails with {code!r}")
    if [c for c in changed if c != path and not (old == "link" and exists and c == path + ".target")]:
        return ("C17", f"{what}: writes {changed}, expected only {path}")
    res = after.get(path)
    if res is None:
        return ("C17", f"{what}: {path} not written")
    if direction == "json":
        keys = selected(custom)
        try:
            got = json.loads(res.decode("utf8"))
        except ValueError as e:
            return ("C19", f"{what}: output is not JSON: {e}")
        refj = ref_json(gvas, keys, nan)
        a, b = customs(got), customs(refj)
        if a != b:
            return (("C15", "C19"), f"{what}: decodes {sorted(a)}, expected {sorted(b)}")
        a, b = specials(got), specials(refj)
        if a != b:
            return (("C16", "C19"), f"{what}: {a} NaN/infinity values in the JSON, expected {b}")
        want = api("json", data, keys, nan)
        if want is None:
            return None
        if plain(got) != plain(want):
            return ("C19", f"{what}: JSON differs: {first_diff(plain(got), plain(want))}")
        return None
    written = api("sav", data, None, True)
    if written is None:
        return None
    want = 0x32 if ("Pal.PalWorldSaveGame" in cls or "Pal.PalLocalWorldSaveGame" in cls) else 0x31
    got = spec_sav(res)
    if got is None:
        return ("C19", f"{what}: output is not a valid container")
    if got[1] != want:
        return ("C19", f"{what}: save class {cls} written with type {got[1]:#x}, expected {want:#x}")
    if got[0] != written:
        return ("C19", f"{what}: the container does not hold the re-encoded save")
    return None


OLDS = ["empty", "nul", "json", "save", "ancient", "future", "link", "readonly"]


def systematic(prop):
    base = dict(seed=11, small=True)
    if prop == "C17":
        for name in ("a.sav", "a.json", "a.sav.json", "a.json.json", "a.json.b.sav", "x.bin", "dir"):
            for fl in ((), ("--to-json",), ("--from-json",), ("--to-json", "--from-json")):
                for out in (None, "o.x"):
                    to = fl == ("--to-json",) or (not fl and name.endswith(".sav"))
                    for content in ("missing", "dir", "sav2" if to else "json"):
                        for seed in (11, 13, 14):
                            yield dict(base, name=name, flags=list(fl), out=out, content=content, seed=seed)
    if prop == "C18":
        for old in OLDS:
            for to in (True, False):
                for rep in ([], ["n"], ["y"]):
                    for out in (None, "o.x"):
                        yield dict(base, name="a.sav" if to else "a.json", content="sav2" if to else "json", exists=True, replies=rep, out=out, old=old)
        for to in (True, False):
            for rep in ([], ["y"], ["n"], ["x", "y"], ["yes", "n"], ["", "n"], ["no", "y"], [" ", "x", "1", "n"], ["N", "n"], ["N"], ["Y", "n"], ["ny"], ["yn", "n"]):
                for force in (False, True):
                    for out in (None, "o.x"):
                        for dmg in [None] + (["cut", "empty", "magic", "gvas"] if to else ["cut", "empty", "nohdr", "badprop", "range"]):
                            for ex in (True, False):
                                yield dict(base, name="a.sav" if to else "a.json", content="sav2" if to else "json", exists=ex, replies=rep, force=force, out=out, damage=dmg)
    if prop == "C19":
        for cls in ("/Script/Pal.PalWorldSaveGame", "/Script/Pal.PalLocalWorldSaveGame", "/Script/Pal.PalWorldPlayerSaveGame", "/Script/Pal.PalWorldOptionSaveGame", "", "Pal.PalWorldSaveGame", "Pal.PalLocalWorldSaveGame", "Other", "PalWorldSaveGame", "XPal.PalWorldSaveGameX", "Pal.PalLocalWorldSaveGame2", "/script/pal.palworldsavegame", "/SCRIPT/PAL.PALLOCALWORLDSAVEGAME", "Pal/PalWorldSaveGame", "Pal.PalWorldSaveGam", "al.PalWorldSaveGame", "Pal.PalWorld.SaveGame", "PalxPalWorldSaveGame"):
            yield dict(base, name="a.json", content="json", cls=cls)
            for mini in (False, True):
                yield dict(base, name="a.sav", content="sav1", cls=cls, minify=mini)


LIT = {}  # see lits.py


def mutate(s, r):
    h = LIT.get("str")
    if h and r.random() < 0.5:
        x = r.choice(h)
        return r.choice([x, s + x, x + s, "/Script/" + x])
    i = r.randrange(len(s) + 1)
    return r.choice([s.lower(), s.upper(), s[:i] + s[i + 1 :], s[:i] + r.choice("Pa. /_\0é") + s[i:], s.replace(".", "/"), s + s, s[i:]])


def scenarios(seed):
    """endless stream of o_cli arguments"""
    import random

    r = random.Random(seed)
    names = ["a.sav", "a.json", "a.sav.json", "a.json.json", "x.bin", "a.json.sav", "a.json.b.sav", "b.json.x.json", "A.SAV", "a.json.sav.json", "level.sav.sav", "d.json/a.json", "d.sav/a.json", "d.json/a.sav", "d.json/a.bin", "b.JSON", "é.json", "ajson.json", "asav.sav", "a.json ", "a.json.json.json"]
    classes = ["/Script/Pal.PalWorldSaveGame", "/Script/Pal.PalLocalWorldSaveGame", "/Script/Pal.PalWorldPlayerSaveGame", "/Script/Pal.PalWorldOptionSaveGame", "", "Pal.PalWorldSaveGame", "Pal.PalLocalWorldSaveGame", "Other", "Pal.PalLocalWorldOther", "/Script/Pal.PalWorldBaseInfoSaveGame"]
    names += ["a" + x for x in LIT.get("str", ()) if "/" not in x and "\0" not in x and len(x) < 40 and x.isprintable()]
    while True:
        n = r.choice(names)
        fl = r.choice([(), (), (), ("--to-json",), ("--from-json",), ("--to-json", "--from-json")])
        to = fl == ("--to-json",) or (not fl and n.endswith(".sav"))
        content = r.choice(["sav1", "sav2"]) if to else "json"
        if r.random() < 0.08:
            content = r.choice(["missing", "dir"])
        dmg = None
        if content not in ("missing", "dir") and r.random() < 0.3:
            dmg = r.choice(["cut", "empty", "magic", "gvas"]) if to else r.choice(["cut", "empty", "nohdr", "badprop", "range"])
        cls = r.choice(classes)
        if r.random() < 0.2:
            cls = mutate(cls, r)
        rep = r.choice([[], ["y"], ["n"], ["x", "", "yes", "no", "y"], ["yes", "n"], ["q", "n"], ["ny", "y"], ["N"], ["Y"], ["N", "x", "n"], ["y "], ["yn"]])
        cust = None
        if to and r.random() < 0.4:
            k = r.choice(KEYS)
            cust = r.choice([k[: r.randrange(1, len(k))], k[: k.rindex(".")], k + "x", k[1:], k.lower(), k + "," + r.choice(KEYS)[:-2], "all", ",".join(r.sample(KEYS, r.randrange(0, 5))), " , ".join(r.sample(KEYS, 3)) + " ", "nonsense", "", "all," + KEYS[0], KEYS[3] + ",all"])
        yield dict(name=n, content=content, flags=list(fl), out=r.choice([None, None, "out.x", "o.json"]), exists=r.random() < 0.5, replies=rep, seed=r.randrange(1 << 30), cls=cls, damage=dmg, custom=cust, nan=r.random() < 0.7, minify=r.random() < 0.5, force=r.random() < 0.3, small=r.random() < 0.6, old=r.choice([None] + OLDS))
