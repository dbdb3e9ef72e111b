#!/usr/bin/env python3-vt
"""check.py <property>: discharge the property's obligations against /repo's current source.

Exit 0: nothing violated.  Exit 1 and a VIOLATION line: a failing input was replayed on the real
code, or an exact refutation has no concrete form (no-failing-input-found)."""
import json
import multiprocessing as mp
import os
import resource
import subprocess
import sys
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
REPO = os.environ.get("PYVC_REPO", "/repo")
sys.path[:0] = [REPO, HERE]
sys.path.append("/opt/venv/lib/python3.12/site-packages")
PY = "python3-vt"
TIER = os.environ.get("VERIF_TIER", "quick")
TIER = TIER if TIER in ("quick", "thorough") else "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
THOROUGH = TIER == "thorough"
PROCS = 8
START = time.time()
CONFORM = "interpreter against CPython"
PROP = next((a for a in sys.argv[1:] if a.startswith("C")), None)
STDLIB = bool(os.environ.get("FORCE_STDLIB_ONLY"))


# ------------------------------------------------------------------ one obligation, in a worker
def discharge(name):
    from contracts.registry import REG
    from pyvc.explore import explore
    from pyvc.terms import Unsupported

    out = {"name": name, "status": "undecided", "why": [], "found": [], "hot": {}, "replayed": 0}
    if name == CONFORM:
        from contracts import conform

        n, away, bad, by = conform.run(40 if THOROUGH else 4, SEED)
        out.update(compared=n, outside=away, why=bad, by=by, status="undecided" if bad else "proved")
        return out
    o = REG[name]
    t0 = time.time()
    try:
        body, contracts = o.make()
    except Exception as e:
        out["why"] = [f"cannot be stated on this source: {type(e).__name__}: {e}"]
        return out
    budget = o.budget * (4 if THOROUGH else 1)
    try:
        r = explore(name, body, opts=o.opts, max_paths=o.max_paths, deadline=time.process_time() + budget, contracts=contracts, hooks=o.hooks)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        out["why"] = [f"engine error {type(e).__name__}: {e} ({os.path.basename(tb.filename)}:{tb.lineno})"]
        return out
    out.update(paths=r.paths, pruned=r.pruned, checked=r.checked, queries=r.queries, solver_s=round(r.solver_s, 3), wall=round(r.wall, 2), functions=sorted(r.functions))
    out["contracts"] = sorted({f.__module__ + "." + f.__qualname__ for f in r.contracts})
    out["frame"] = [str(e) for e, _ in r.frame]
    if r.frame and PROP == "C20":
        replay_frame(o, r, out)
    if r.proved:
        out["status"] = "proved"
        return out
    out["why"] = list(dict.fromkeys(r.undecided))[:6]
    if r.checked == 0 and not r.refuted and not r.undecided:
        out["why"] = ["vacuous: no path reached the postcondition"]
    if r.refuted:
        out["why"] = [m for m, *_ in r.refuted][:6] + out["why"]
        replay(o, r, out)
    return out


def replay(o, r, out):
    """counterexamples against the real code"""
    from native import oracles as O, search as N
    import native.cli
    from pyvc.conc import concretise

    exact_silent = []
    for msg, ctx, extra, prefix in r.refuted:
        n = 0
        if o.cases is not None:
            try:
                for inp in concretise(ctx, extra, variants=8):
                    hot(out["hot"], inp)
                    for oracle, kw in o.cases(inp):
                        n += 1
                        if PROP is not None and PROP not in O.JUDGES.get(oracle, (PROP,)):
                            continue
                        m = O.ORACLES[oracle](**kw)
                        if m:
                            out["found"].append({"oracle": oracle, "args": N.enc(kw), "message": m[:4000], "obligation": o.name, "refutation": msg[:1000]})
                            out["status"] = "violated"
                            return
            except Exception as e:
                out["why"].append(f"replay error {type(e).__name__}: {e}")
        out["replayed"] += n
        if n == 0 and not ctx.over and satisfiable(ctx, extra):
            exact_silent.append(msg)
    out["status"] = "refuted" if exact_silent else "undecided"
    out["silent"] = [m[:1000] for m in exact_silent[:3]]


def replay_frame(o, r, out):
    """a mutation of shared state, shown on the real code"""
    from native import oracles as O, search as N
    import native.cli
    from pyvc.conc import concretise

    for e, ctx in r.frame:
        try:
            for inp in concretise(ctx, None, variants=4):
                for oracle, kw in o.cases(inp) if o.cases else ():
                    m = O.ORACLES["o_frame"](oracle=oracle, kw=kw)
                    if m:
                        out["frame_found"] = {"oracle": "o_frame", "args": N.enc(dict(oracle=oracle, kw=kw)), "message": m, "obligation": o.name + " (frame)", "refutation": str(e)}
                        return
        except Exception as x:
            out["why"].append(f"replay error {type(x).__name__}: {x}")


def satisfiable(ctx, extra):
    from pyvc.conc import Conc

    try:
        return Conc(ctx, extra).ok
    except Exception:
        return False


def hot(h, v):
    def put(k, x):
        l = h.setdefault(k, [])
        if x not in l and len(l) < 12:
            l.append(x)

    if isinstance(v, bool) or v is None:
        return
    if isinstance(v, int):
        put("int", v)
    elif isinstance(v, float) and v == v:
        put("float", v)
    elif isinstance(v, str):
        put("str", v)
    elif isinstance(v, bytes):
        if len(v) >= 16:
            put("guid", v[:16])
            put("guid", v[-16:])
        for w in (2, 4, 8):
            if len(v) >= w:
                put("int", int.from_bytes(v[:w], "little"))
    elif isinstance(v, dict):
        for x in v.values():
            hot(h, x)
    elif isinstance(v, (list, tuple)):
        for x in v[:8]:
            hot(h, x)


def worker(name, conn):
    try:
        lim = 6 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except (ValueError, OSError):
        pass
    sys.setrecursionlimit(20000)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    try:
        out = discharge(name)
    except BaseException as e:
        out = {"name": name, "status": "undecided", "why": [f"worker: {type(e).__name__}: {e}"], "found": [], "hot": {}}
    try:
        from native.search import enc

        out["hot"] = enc(out.get("hot") or {})
    except Exception:
        out["hot"] = {}
    try:
        conn.send(out)
    finally:
        conn.close()
        os._exit(0)


def run_all(names, slots=PROCS, stop=None):
    from contracts.registry import REG

    cx = mp.get_context("fork")
    todo = list(names)
    live = {}
    res = {}
    # obligations are limited in CPU time; the wall clock only bounds a run on an overloaded machine
    last = START + (7200 if THOROUGH else 560)
    while todo or live:
        while todo and len(live) < slots:
            n = todo.pop(0)
            a, b = cx.Pipe(False)
            p = cx.Process(target=worker, args=(n, b), daemon=True)
            p.start()
            b.close()
            live[n] = (p, a, time.time() + (REG[n].budget if n in REG else 30) * (4 if THOROUGH else 1) * 4 + 30)
        mp.connection.wait([c for _, c, _ in live.values()], timeout=0.5)
        for n in list(live):
            p, c, end = live[n]
            if c.poll():
                try:
                    res[n] = c.recv()
                except (EOFError, OSError):
                    res[n] = {"name": n, "status": "undecided", "why": ["worker died"], "found": [], "hot": {}}
            elif time.time() > min(end, last):
                res[n] = {"name": n, "status": "undecided", "why": ["time limit (killed)"], "found": [], "hot": {}}
            else:
                continue
            p.kill()
            p.join()
            c.close()
            del live[n]
    return res


# ------------------------------------------------------------------ bounded search on the real code
def start_search(prop, seed, seconds, stdlib=False, hotfile=None):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    env.pop("FORCE_STDLIB_ONLY", None)
    if stdlib:
        env["FORCE_STDLIB_ONLY"] = "1"
    out = scratch(f"search-{prop}-{seed}-{int(stdlib)}.json")
    cmd = [PY, "-m", "native.search", "--prop", prop, "--seed", str(seed), "--seconds", str(seconds), "--out", out]
    if hotfile:
        cmd += ["--hot", hotfile]
    p = subprocess.Popen(cmd, cwd=HERE, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
    return p, out, stdlib, seconds


def end_search(s):
    p, out, stdlib, seconds = s
    try:
        _, err = p.communicate(timeout=seconds * 3 + 120)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return {"evaluations": 0, "distinct": 0, "by": {}, "errors": ["search timed out"], "found": None, "samples": [], "variant": "?"}
    try:
        with open(out) as f:
            r = json.load(f)
    except (OSError, ValueError):
        return {"evaluations": 0, "distinct": 0, "by": {}, "errors": ["search failed: " + (err or "")[-1500:]], "found": None, "samples": [], "variant": "?"}
    if r["found"]:
        r["found"]["stdlib"] = stdlib
    return r


_scratch = None


def scratch(name):
    global _scratch
    if _scratch is None:
        import atexit
        import shutil
        import tempfile

        _scratch = tempfile.mkdtemp(prefix="verif-check-")
        atexit.register(shutil.rmtree, _scratch, ignore_errors=True)
    return os.path.join(_scratch, name)


# ------------------------------------------------------------------ the check
def deps_of(results, have):
    """obligations that establish the contracts used"""
    from contracts.registry import establishing

    out = []
    assumed = set()
    for r in results.values():
        for c in r.get("contracts", ()):
            ns = establishing(c)
            if not ns and not c.startswith("contracts."):
                assumed.add(c)
            for n in ns:
                if n not in have and n not in out:
                    out.append(n)
    return out, assumed


def main():
    prop = sys.argv[1]
    t0 = time.time()
    sec = 90 if THOROUGH else 9
    searches = [start_search(prop, SEED, sec), start_search(prop, SEED + 7919, sec, stdlib=True)]
    err = None
    res, deps, canary, conf = {}, {}, {}, {}
    assumed = set()
    try:
        from contracts.registry import REG, CANARIES, variant_only

        own = [n for n, o in REG.items() if prop in o.props and not o.instead]
        can = [n for n in CANARIES if n in REG]
        res = run_all([CONFORM] + own + can, slots=PROCS - 2)
        canary = {n: res.pop(n) for n in can}
        conf = res.pop(CONFORM)
        # bounded stand-ins of own obligations that could not be proved
        res.update(run_all([n for n, o in REG.items() if prop in o.props and o.instead and (THOROUGH or res[o.instead]["status"] != "proved")]))
        have = set(res)
        wave = res
        while True:
            names, a = deps_of(wave, have)
            assumed |= a
            if not names:
                break
            wave = run_all(names)
            deps.update(wave)
            have |= set(wave)
        if prop == "C05" or THOROUGH:
            res.update(sub_variant(prop))
        bad = [n for n, r in canary.items() if r["status"] == "proved" and not r["frame"]]
        if bad:
            err = f"canaries accepted: {bad}"
        if conf["status"] != "proved":
            err = f"the interpreter disagrees with CPython, proofs are not relied on: {conf['why']}"
    except Exception as e:
        err = f"{type(e).__name__}: {e}\n" + traceback.format_exc()
    runs = [end_search(s) for s in searches]
    found = None
    for n, r in res.items():
        if r["found"]:
            found = r["found"][0]
            break
    framed = [r for r in {**res, **deps}.values() if r.get("frame")] if prop == "C20" else []
    for r in framed:
        found = found or r.get("frame_found")
        res.setdefault(r["name"], r)
        if r["status"] == "proved":
            r["status"] = "undecided"
            r["why"] = ["frame condition: " + r["frame"][0]]
    if not found:
        found = next((r["found"] for r in runs if r["found"]), None)
    open_ = [n for n, r in {**res, **deps}.items() if r["status"] != "proved"]
    new_open = [n for n in open_ if n not in known_open()]
    if not found and (err or new_open):
        # the bounded stand-in goes deeper where a proof is missing
        h = {}
        for r in list(res.values()) + list(deps.values()):
            merge_hot(h, r.get("hot"))
        hf = None
        if h:
            from native.search import enc

            hf = scratch("hot.json")
            with open(hf, "w") as f:
                json.dump(enc(h), f)
        s2 = [start_search(prop, SEED + 104729 * (i + 1), 300 if THOROUGH else 40, stdlib=i % 4 == 3, hotfile=hf if i % 2 == 0 else None) for i in range(PROCS - 1)]
        more = [end_search(s) for s in s2]
        runs += more
        found = next((r["found"] for r in more if r["found"]), None)
    silent = None
    if not found:
        for n, r in res.items():
            if r["status"] == "refuted":
                silent = r
                break
    ev = evidence(prop, res, deps, assumed, canary, conf, runs, err, time.time() - t0, 1 if found or silent else 0)
    os.makedirs("evidence", exist_ok=True)
    with open(f"evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    nb = sum(n in REG and bool(REG[n].bounded) for n in res) if not err else 0
    np = sum(r["status"] == "proved" and not (n in REG and REG[n].bounded) for n, r in res.items()) if not err else 0
    nd = sum(r["status"] == "proved" for r in deps.values())
    print(f"{prop}: {np}/{len(res)-nb} own obligations discharged{f' and {nb} bounded' if nb else ''}, {nd}/{len(deps)} of the contracts they use; {sum(r['evaluations'] for r in runs)} concrete cases; {time.time()-t0:.1f} s")
    for n in open_:
        r = {**res, **deps}[n]
        print(f"  open: {n}: {r['status']}: {'; '.join(r['why'])[:300]}")
    if err:
        print("  machinery: " + err)
    for r in runs:
        for e in r["errors"][:2]:
            print("  search error: " + e)
    if found:
        path = write_replay(prop, found)
        print(found["message"][:1500])
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if silent:
        path = write_replay(prop, {"obligation": silent["name"], "refutation": silent["silent"], "output": silent["why"], "oracle": None})
        print(f"obligation {silent['name']} is refuted: {silent['silent'][0]}")
        print(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        return 1
    return 0


def known_open():
    try:
        with open(os.path.join(HERE, "open_obligations.json")) as f:
            return set(json.load(f))
    except (OSError, ValueError):
        return set()


def sub_variant(prop):
    """the same obligations with the standard-library GUID class"""
    if STDLIB:
        return {}
    out = scratch("variant.json")
    env = dict(os.environ, FORCE_STDLIB_ONLY="1", PYTHONDONTWRITEBYTECODE="1")
    try:
        subprocess.run([PY, os.path.join(HERE, "check.py"), "--variant", prop, out], cwd=HERE, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=400)
        with open(out) as f:
            r = json.load(f)
    except (OSError, ValueError, subprocess.TimeoutExpired) as e:
        return {"stdlib-variant": {"name": "stdlib-variant", "status": "undecided", "why": [f"{type(e).__name__}: {e}"], "found": [], "hot": {}}}
    for x in r.values():
        x["name"] += " [stdlib]"
        for f in x["found"]:
            f["stdlib"] = True
    return {n + " [stdlib]": x for n, x in r.items()}


def variant_main():
    prop, out = sys.argv[2:4]
    from contracts.registry import REG

    res = run_all([n for n, o in REG.items() if prop in o.props and not o.instead])
    with open(out, "w") as f:
        json.dump(res, f)


def merge_hot(h, x):
    from native.search import dec

    try:
        x = dec(x) if x else {}
    except Exception:
        return
    for k, l in x.items():
        for v in l:
            if v not in h.setdefault(k, []) and len(h[k]) < 40:
                h[k].append(v)


def write_replay(prop, found):
    os.makedirs("replay", exist_ok=True)
    path = f"replay/{prop}.json"
    with open(path, "w") as f:
        json.dump(dict(found, property=prop, how="python3-vt /verif/replay.py " + path), f, indent=1)
    return os.path.join(HERE, path)


def evidence(prop, res, deps, assumed, canary, conf, runs, err, wall, violations):
    from contracts.trusted import TRUSTED, ASSUME, LEVEL
    from contracts.registry import REG

    allr = {**res, **deps}
    bounded = {n: REG[n].bounded for n in allr if n in REG and REG[n].bounded}
    bounded_res = {n: allr.pop(n) for n in bounded}
    res = {n: r for n, r in res.items() if n not in bounded}
    deps = {n: r for n, r in deps.items() if n not in bounded}
    fns = sorted({f for r in allr.values() for f in r.get("functions", ())})
    cov = {
        "obligations": len(allr),
        "discharged": sum(r["status"] == "proved" for r in allr.values()),
        "checker_cmd": f"cd /verif && python3-vt check.py {prop}",
        "trusted_base": TRUSTED,
        "own_obligations": {n: brief(r) for n, r in sorted(res.items())},
        "contract_obligations": {n: brief(r) for n, r in sorted(deps.items())},
        "functions_under_contract": sorted({c for r in allr.values() for c in r.get("contracts", ())}),
        "functions_verified": fns,
        "back_end": "pyvc path-wise verification conditions; z3 " + z3v(),
        "paths": sum(r.get("paths", 0) for r in allr.values()),
        "postconditions_checked": sum(r.get("checked", 0) for r in allr.values()),
        "solver_queries": sum(r.get("queries", 0) for r in allr.values()),
        "solver_s": round(sum(r.get("solver_s", 0) for r in allr.values()), 2),
        "undischarged": {n: [r["status"]] + r["why"][:3] for n, r in sorted(allr.items()) if r["status"] != "proved"},
        "bounded_obligations": {n: dict(brief(r), bound=bounded[n], label="bounded, not counted as proved") for n, r in sorted(bounded_res.items())},
        "canaries": {n: "refuted" if r["status"] in ("refuted", "violated") else "frame event" if r.get("frame") else r["status"] for n, r in sorted(canary.items())},
        "bounded_search": {"label": "bounded, not counted as proved", "evaluations": sum(r["evaluations"] for r in runs), "distinct": sum(r["distinct"] for r in runs), "runs": [{k: r.get(k) for k in ("evaluations", "by", "variant", "errors", "wall")} for r in runs], "samples": [s for r in runs[:1] for s in r["samples"]]},
    }
    cov["interpreter_against_cpython"] = {"label": "the verifier's semantics of Python compared with CPython on concrete inputs of the repository's functions; tested, not proved", "comparisons": conf.get("compared", 0), "without_exception": conf.get("by", {}), "outside_its_reach": conf.get("outside", {}), "differences": conf.get("why", [])}
    if err:
        cov["machinery_error"] = err[:2000]
    return {"property": prop, "tier": TIER, "seed": SEED, "level": LEVEL.get(prop, "proof"), "coverage": cov, "assumptions": ASSUME["*"] + ASSUME.get(prop, []) + [f"contract assumed, not established here: {c}" for c in sorted(assumed)], "wall_s": round(wall, 2), "violations": violations}


def brief(r):
    return {k: r[k] for k in ("status", "paths", "checked", "queries", "solver_s", "wall") if k in r}


def z3v():
    import z3

    return z3.get_version_string()


if __name__ == "__main__":
    if sys.argv[1] == "--variant":
        variant_main()
        sys.exit(0)
    sys.stdout.reconfigure(line_buffering=True)
    sys.exit(main())
