"""Depth-first exploration of all paths of one obligation."""
import time
import traceback

import z3

from .terms import *
from .values import *
from .ctx import Ctx, STATS
from .interp import Interp
from .loops import SymLoop


class Result:
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.pruned = 0
        self.checked = 0
        self.refuted = []  # (msg, ctx, extra, prefix)
        self.undecided = []  # reasons
        self.solver_s = 0.0
        self.queries = 0
        self.wall = 0.0
        self.functions = set()
        self.contracts = set()
        self.events = {}
        self.frame = []  # (event, ctx): effects on state outside the objects of the obligation

    @property
    def proved(self):
        return not self.refuted and not self.undecided and self.checked > 0


def explore(name, body, opts=None, max_paths=20000, deadline=None, stop_at=6, contracts=None, hooks=None):
    """body(I) runs one path; raises Refuted if the obligation fails on it."""
    opts = dict(opts or {})
    res = Result(name)
    t0 = time.time()
    q0, s0 = STATS["queries"], STATS["solver_s"]
    opts["symw"] = set()
    while True:
        try:
            _run(res, body, opts, max_paths, deadline, stop_at, contracts, hooks)
            break
        except SymLoop as e:
            opts["symw"] = opts["symw"] | {e.key}
            old = res
            res = Result(name)
            res.functions, res.contracts = old.functions, old.contracts
    res.wall = time.time() - t0
    res.queries = STATS["queries"] - q0
    res.solver_s = STATS["solver_s"] - s0
    return res


def infeasible(ctx):
    try:
        return ctx.check() == z3.unsat
    except Exception:
        return False


def _run(res, body, opts, max_paths, deadline, stop_at, contracts, hooks):
    opts["feas_cache"] = {}
    opts["shapes"] = {}
    prefix = []
    while True:
        ctx = Ctx(prefix, opts)
        I = Interp(ctx, contracts=contracts, hooks=hooks)
        res.paths += 1
        try:
            body(I)
            res.checked += 1
            for u in ctx.unproved:
                res.undecided.append(u)
        except PrunePath:
            res.pruned += 1
        except Refuted as e:
            if infeasible(ctx):
                res.pruned += 1
            else:
                res.refuted.append((e.msg, ctx, e.extra, [c for c, _, _ in ctx.trace]))
        except SymLoop:
            res.functions |= I.used
            raise
        except Unsupported as e:
            if infeasible(ctx):
                res.pruned += 1
            else:
                res.undecided.append(f"{e} at {ctx.where}")
        except PyExc as e:
            res.undecided.append(f"uncaught {e.exc} at {ctx.where}")
        except RecursionError:
            res.undecided.append("recursion")
        except (AttributeError, TypeError, KeyError, IndexError, ValueError, AssertionError) as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            res.undecided.append(f"engine error {type(e).__name__}: {e} ({tb.filename.rsplit('/',1)[-1]}:{tb.lineno}) at {ctx.where}")
        res.functions |= I.used
        res.contracts |= I.used_contracts
        if ctx.frame_events and len(res.frame) < 4 and not infeasible(ctx):
            res.frame.append((ctx.frame_events[0][:3], ctx))
        if len(res.refuted) >= stop_at:
            return
        # next prefix
        tr = ctx.trace
        i = len(tr) - 1
        while i >= 0 and tr[i][0] + 1 >= tr[i][1]:
            i -= 1
        if i < 0:
            return
        prefix = [c for c, _, _ in tr[:i]] + [tr[i][0] + 1]
        if res.paths >= max_paths:
            res.undecided.append("path limit")
            return
        if deadline is not None and time.process_time() > deadline:
            res.undecided.append("time limit")
            return
