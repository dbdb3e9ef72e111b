"""Path context: decisions, constraints, solver, journal for loop generalisation."""
import time
import z3

from .terms import *
from .terms import _uid

STATS = {"queries": 0, "solver_s": 0.0, "unknown": 0, "struct": 0}
QUERY_LOG = None  # set to a list to keep SMT-LIB text of proof queries (thorough tier)


class PathLimit(Exception):
    pass


class Ctx:
    def __init__(self, prefix, opts=None):
        self.prefix = list(prefix)
        self.trace = []  # (choice, noptions, label)
        self.cons = []  # list of SBool (conjunction)
        self.disj = []  # list of list of SBool (clauses)
        self.weak = []  # clauses that are rarely needed: queries try without them first
        self.opts = opts or {}
        self.loops = []  # active generic iterations
        self.try_depth = 0
        self.over = []  # over-approximation reasons
        self.events = []
        self.short_read = False
        self.steps = 0
        self.max_steps = self.opts.get("max_steps", 200000)
        self.memo = {}
        self.overlays = {}
        self.frame_events = []
        self.inputs = {}
        self.notes = []
        self.flag_keys = self.opts.get("flag_keys", ())
        self.trail = []
        self.printed = 0
        self.proved = []  # (kind, how)
        self.bigs = []
        self.wstack = []  # while loops being unrolled
        self.nofork = False
        self.unproved = []
        self.where = None
        self.keep = []  # keep temporaries alive so that id()-keyed memo entries stay valid

    # ------------------------------------------------------------ decisions
    def choose(self, n, label=""):
        if self.nofork:
            raise Unsupported("fork in a speculative proof")
        i = len(self.trace)
        if i < len(self.prefix):
            c = self.prefix[i]
        else:
            c = 0
        self.trace.append((c, n, label))
        if len(self.trace) > 4000:
            raise Unsupported("decision depth")
        return c

    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise Unsupported("step limit")

    # ------------------------------------------------------------ solver
    def z(self, a):
        if a.z is None:
            a.z = z3.Int(f"{a.name}_{a.uid}")
        return a.z

    def zlin(self, x):
        x = norm(x)
        if not isinstance(x, Lin):
            return z3.IntVal(x)
        e = [self.z(a) if k == 1 else z3.IntVal(k) * self.z(a) for a, k in x.t.items()]
        if x.c:
            e.append(z3.IntVal(x.c))
        return z3.Sum(e) if len(e) > 1 else e[0]

    def zbool(self, b):
        if isinstance(b, bool):
            return z3.BoolVal(b)
        e = self.zlin(b.lin)
        if b.op == "ge":
            return e >= 0
        if b.op == "eq":
            return e == 0
        return e != 0

    def _collect(self, extra, full=True):
        """constraints + bounds of all atoms reachable (full: every constraint; otherwise only those
        connected with the atoms of extra: the rest of a satisfiable path condition cannot matter)"""
        cs = []
        atoms = {}

        def addb(b):
            l = norm(b.lin)
            if isinstance(l, Lin):
                for a in l.t:
                    atoms[a] = 1
            return self.zbool(b)

        cons, disj = self.cons, self.disj + self.weak
        if not full:
            cons, disj = self._cone(extra)
        for b in cons:
            cs.append(addb(b))
        for cl in disj:
            cs.append(z3.Or([z3.And([addb(x) for x in b]) if isinstance(b, list) else addb(b) for b in cl]))
        for b in extra:
            cs.append(addb(b))
        # bound atoms keep their own bounds as constraints on their definition
        for a in list(atoms):
            if a.lo is not None:
                cs.append(self.z(a) >= a.lo)
            if a.hi is not None:
                cs.append(self.z(a) <= a.hi)
            if isinstance(a.note, Big):
                # no iteration, no bytes
                c = norm(a.note.count)
                zc = self.zlin(c)
                cs.append(z3.Implies(zc <= 0, self.z(a) == 0))
                if isinstance(c, Lin):
                    for x in c.t:
                        if x not in atoms:
                            if x.lo is not None:
                                cs.append(self.z(x) >= x.lo)
                            if x.hi is not None:
                                cs.append(self.z(x) <= x.hi)
            if a.note is not None and isinstance(a.note, Atom):
                # utf-16 unit count versus character count
                n = norm(lin_atom(a.note))
                zz = self.zlin(n)
                cs.append(self.z(a) >= zz)
                cs.append(self.z(a) <= 2 * zz)
                if isinstance(n, Lin):
                    for x in n.t:
                        if x not in atoms:
                            if x.lo is not None:
                                cs.append(self.z(x) >= x.lo)
                            if x.hi is not None:
                                cs.append(self.z(x) <= x.hi)
        return cs

    def _cone(self, extra):
        def atoms_of(b):
            l = norm(b.lin)
            out = set()
            todo = list(l.t) if isinstance(l, Lin) else []
            while todo:
                a = todo.pop()
                if a in out:
                    continue
                out.add(a)
                for n in ([a.note.count] if isinstance(a.note, Big) else [lin_atom(a.note)] if isinstance(a.note, Atom) else []):
                    n = norm(n)
                    if isinstance(n, Lin):
                        todo += list(n.t)
            return out

        items = [(atoms_of(b), b, None) for b in self.cons]
        for cl in self.disj:
            s = set()
            for b in cl:
                for x in b if isinstance(b, list) else [b]:
                    s |= atoms_of(x)
            items.append((s, None, cl))
        seen = set()
        for b in extra:
            seen |= atoms_of(b)
        byatom = {}
        for i, (s, _, _) in enumerate(items):
            for a in s:
                byatom.setdefault(a, []).append(i)
        todo, got = list(seen), set()
        while todo:
            a = todo.pop()
            for i in byatom.get(a, ()):
                if i not in got:
                    got.add(i)
                    for x in items[i][0]:
                        if x not in seen:
                            seen.add(x)
                            todo.append(x)
        pick = [items[i] for i in sorted(got)] + [t for t in items if not t[0]]
        return [b for _, b, c in pick if b is not None], [c for _, b, c in pick if c is not None]

    def check(self, extra=(), want_model=False, timeout=20000, full=True):
        cs = self._collect(extra, full)
        s = z3.SolverFor("QF_LIA") if not self.opts.get("nia") else z3.Solver()
        s.set("timeout", timeout)
        s.add(cs)
        t = time.time()
        r = s.check()
        STATS["queries"] += 1
        STATS["solver_s"] += time.time() - t
        if r == z3.unknown:
            STATS["unknown"] += 1
        if QUERY_LOG is not None and r == z3.unsat:
            QUERY_LOG.append(s.to_smt2())
        if want_model:
            return r, (s.model() if r == z3.sat else None)
        return r

    # ------------------------------------------------------------ booleans
    def quick(self, b):
        if isinstance(b, bool):
            return b
        lo, hi = rng(b.lin)
        if b.op == "ge":
            if lo is not None and lo >= 0:
                return True
            if hi is not None and hi < 0:
                return False
        else:
            z = None
            if lo is not None and lo == hi:
                z = lo == 0
            elif (lo is not None and lo > 0) or (hi is not None and hi < 0):
                z = False
            else:
                l = norm(b.lin)
                if isinstance(l, Lin) and len(l.t) >= 1:
                    import math

                    g = 0
                    for k in l.t.values():
                        g = math.gcd(g, k)
                    if l.c % g:
                        z = False
            if z is not None:
                return z if b.op == "eq" else not z
        return None

    def assume(self, b):
        q = self.quick(b)
        if q is True:
            return
        if q is False:
            raise PrunePath()
        lin = norm(b.lin)
        if b.op == "eq":
            if self._try_bind(lin):
                return
        elif b.op == "ge" and len(lin.t) == 1:
            (a, k), = lin.t.items()
            if k > 0:
                # a >= ceil(-c/k)
                v = -(lin.c // k)
                self.trail.append((a, "lo", a.lo))
                a.lo = v if a.lo is None else max(a.lo, v)
            else:
                v = lin.c // (-k)
                self.trail.append((a, "hi", a.hi))
                a.hi = v if a.hi is None else min(a.hi, v)
            if a.lo is not None and a.hi is not None and a.lo == a.hi and a.src is None:
                a.bind = a.lo
            return
        self.cons.append(SBool(b.op, lin))

    def _try_bind(self, lin):
        """solve lin == 0 for an unbound atom with coefficient +-1"""
        cand = [a for a, k in lin.t.items() if abs(k) == 1 and a.src is None]
        if not cand:
            return False
        # prefer atoms that are lengths / newest
        cand.sort(key=lambda a: (a.is_len, a.uid))
        a = cand[-1]
        k = lin.t[a]
        rest = Lin(lin.c, {b: v for b, v in lin.t.items() if b is not a})
        rest = scale(rest, -k)
        rest = norm(rest)
        lo, hi = a.lo, a.hi
        a.bind = rest
        self.trail.append((a, "bind", None))
        if lo is not None:
            self.assume(SBool("ge", sub(rest, lo)))
        if hi is not None:
            self.assume(SBool("ge", sub(hi, rest)))
        return True

    def assume_eq(self, lin):
        lin = norm(lin)
        if not isinstance(lin, Lin):
            if lin != 0:
                raise PrunePath()
            return
        self.cons.append(SBool("eq", lin))

    def note_decompose(self, a, m):
        self.trail.append((a, "bind", None))

    def decide(self, b, label=""):
        """truth value of a condition, forking when both are possible"""
        if isinstance(b, bool):
            return b
        q = self.quick(b)
        if q is not None:
            return q
        key = None
        i = len(self.trace)
        if i < len(self.prefix):
            # replay: trust recorded feasibility (option count recorded implicitly)
            can_t, can_f = self._feas(b)
        else:
            can_t, can_f = self._feas(b)
        if can_t and can_f:
            c = self.choose(2, label or repr(b))
            if c == 0:
                self.assume(b)
                return True
            self.assume(b.neg())
            return False
        if can_t:
            return True
        if can_f:
            return False
        raise PrunePath()

    def _feas(self, b):
        i = len(self.trace)
        fc = self.opts.get("feas_cache")
        key = None
        if fc is not None:
            key = tuple(c for c, _, _ in self.trace) + (len(self.cons), "f", self.memo_seq())
            if key in fc:
                return fc[key]
        # the path condition is satisfiable: if one side is impossible the other is possible
        if self.check([b.neg()], full=False) == z3.unsat:
            t, f = True, False
        elif self.check([b], full=False) == z3.unsat:
            t, f = False, True
        elif self.weak:
            t = self.check([b]) != z3.unsat
            f = self.check([b.neg()]) != z3.unsat
        else:
            t = f = True
        if fc is not None:
            fc[key] = (t, f)
        return t, f

    _seq = 0

    def memo_seq(self):
        self._seq += 1
        return self._seq

    def prove(self, b, what=""):
        """is b valid under the path condition?  True/False/None(unknown)"""
        q = self.quick(b)
        if q is not None:
            STATS["struct"] += 1
            return q
        r = self.check([b.neg()], full=False)
        if r == z3.sat and (self.cons or self.weak):
            r = self.check([b.neg()])
        if r == z3.unsat:
            return True
        if r == z3.sat:
            return False
        return None

    def provable_eq(self, x, y):
        d = norm(sub(x, y))
        if not isinstance(d, Lin):
            return d == 0
        return self.prove(SBool("eq", d)) is True

    def unique(self, x):
        """concrete value of x if unique under the path condition"""
        x = norm(x)
        if not isinstance(x, Lin):
            return x
        lo, hi = rng(x)
        if lo is not None and lo == hi:
            return lo
        r, m = self.check([], want_model=True)
        if r != z3.sat:
            raise PrunePath()
        v = m.eval(self.zlin(x), model_completion=True).as_long()
        if self.prove(SBool("eq", sub(x, v))) is True:
            self.assume(SBool("eq", sub(x, v)))
            return v
        return None

    def fresh_int(self, name, lo=None, hi=None, is_len=False):
        a = Atom(name, lo, hi, is_len)
        return lin_atom(a)

    # ------------------------------------------------------------ journal
    stamp_counter = 0

    def stamp(self):
        self.stamp_counter += 1
        return self.stamp_counter

    def overapprox(self, why):
        self.over.append(why)
