"""Path exploration core: the current execution context, forking on symbolic
conditions, feasibility/assertion queries, and witness extraction.

One Ctx object is one execution (one path) of a harness over the instrumented
code.  `Ctx.branch` is called whenever the real code needs the truth of a
symbolic condition; both feasible sides are explored by re-execution with a
decision prefix, so when the worklist runs empty every feasible path of the
harness within its bounds has been executed.
"""
import sys
import time
import zlib

Z3_DIR = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if Z3_DIR not in sys.path:
    sys.path.append(Z3_DIR)
import z3  # noqa: E402


class Control(BaseException):
    """engine control flow; never caught by the code under test"""


class Infeasible(Control):
    pass


class OutOfBudget(Control):
    pass


class EngineError(Control):
    """the engine itself cannot continue (never a verdict)"""


class FoundViolation(Control):
    def __init__(self, label, assignment):
        self.label = label
        self.assignment = assignment


Q_TIMEOUT_MS = 20000


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.unknown = 0
        self.obligations = 0
        self.discharged = 0
        self.trivial = 0
        self.paths = 0
        self.infeasible = 0
        self.weakened = {}
        self.functions = set()
        self.forks = 0
        self.witness_ok = 0
        self.witness_diff = []
        self.covers = {}
        self.exc = {}

    def merge(self, o):
        for k in ('queries', 'solver_s', 'unknown', 'obligations', 'discharged',
                  'trivial', 'paths', 'infeasible', 'forks', 'witness_ok'):
            setattr(self, k, getattr(self, k) + getattr(o, k))
        for k, v in o.weakened.items():
            self.weakened[k] = self.weakened.get(k, 0) + v
        for k, v in o.covers.items():
            self.covers[k] = self.covers.get(k, 0) + v
        for k, v in o.exc.items():
            self.exc[k] = self.exc.get(k, 0) + v
        self.functions |= o.functions
        self.witness_diff += o.witness_diff


class _Cur:
    ctx = None


CUR = _Cur()


def C():
    return CUR.ctx


def is_true(t):
    return z3.is_true(t)


def vars_of(t, acc, seen):
    stack = [t]
    while stack:
        e = stack.pop()
        i = e.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_const(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                acc.add(e.decl().name())
        else:
            stack.extend(e.children())


class Ctx:
    def __init__(self, prefix, stats, deadline=None):
        self.prefix = prefix
        self.trace = []
        self.pending = []        # alternative prefixes discovered
        self.stats = stats
        self.deadline = deadline
        self.solver = z3.Solver()
        self.solver.set('timeout', Q_TIMEOUT_MS)
        self.pc = []
        self.model = None
        self.vars = {}           # name -> (kind, z3 const, preference, decoder)
        self.guards = []         # merge guards
        self.fs = {}             # fake file system
        self.links = {}          # symbolic links in it
        self.alive = {}          # conditions shown possible, with the length of the path condition then
        self.dead = {}           # conditions shown to be impossible on this path, by ast id
        self.vocab = {}          # known constant strings by length (see SStr.__hash__)
        self.fresh = 0
        self.checks = []
        self.notes = []
        self.shown = []          # symbolic values that occur in texts (see values.shown)
        self.steps = 0
        self.weak = False

    # ---------------------------------------------------------------- solver
    def _check(self, *assumptions):
        if self.deadline and time.time() > self.deadline:
            raise OutOfBudget()
        self.stats.queries += 1
        t = time.time()
        r = self.solver.check(*assumptions)
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def add(self, t):
        self.pc.append(t)
        self.solver.add(t)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(t, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def sat(self, cond):
        """is pc and merge guards and cond satisfiable (unknown counts as yes)"""
        cond = z3.simplify(cond)
        if z3.is_false(cond):
            return False
        # the path condition only ever grows, so what was impossible stays so
        cid = cond.get_id()
        if cid in self.dead:
            return False
        if not self.guards and self.alive.get(cid, (-1,))[0] == len(self.pc):
            return True
        allc = [cond] + [g for g in self.guards]
        if self.model is not None:
            try:
                if all(z3.is_true(self.model.eval(c, model_completion=True)) for c in allc):
                    return True
            except z3.Z3Exception:
                pass
        r = self._check(*allc)
        if r == z3.sat:
            if self.model is None:
                self.model = self.solver.model()
            if not self.guards:
                self.alive[cid] = (len(self.pc), cond)
            return True
        if r == z3.unsat and not self.guards:
            self.dead[cid] = cond
        return r == z3.unknown

    def sat_pc(self, cond):
        g, self.guards = self.guards, []
        try:
            return self.sat(cond)
        finally:
            self.guards = g

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise Infeasible()
            return
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond) or not self.sat_pc(cond):
            raise Infeasible()
        self.add(cond)

    def branch(self, cond):
        self.steps += 1
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            if not isinstance(d, bool):
                raise EngineError('non-deterministic re-execution (branch)')
            self.add(cond if d else z3.Not(cond))
            return d
        ncond = z3.Not(cond)
        ft = self.sat_pc(cond)
        ff = self.sat_pc(ncond) if ft else True
        if ft and ff:
            self.stats.forks += 1
            self.pending.append(self.trace + [False])
            self.trace.append(True)
            self.add(cond)
            return True
        # forced, but recorded so that re-execution needs no query
        self.trace.append(ft)
        return ft

    def choose(self, term, limit=4096, what='value'):
        """fork over every feasible value of an integer term"""
        term = z3.simplify(term)
        v = const_int(term)
        if v is not None:
            return v
        i = len(self.trace)
        mk = (lambda k: z3.BitVecVal(k, term.size())) if z3.is_bv(term) else z3.IntVal
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            if not (isinstance(d, tuple) and d[0] == 'c'):
                raise EngineError('non-deterministic re-execution (choose)')
            self.add(term == mk(d[1]))
            return d[1]
        vals = []
        self.solver.push()
        try:
            while len(vals) <= limit:
                r = self._check()
                if r == z3.unsat:
                    break
                if r == z3.unknown:
                    self.weaken('unknown while enumerating ' + what)
                    break
                k = const_int(self.solver.model().eval(term, model_completion=True))
                vals.append(k)
                self.solver.add(term != mk(k))
        finally:
            self.solver.pop()
        if not vals:
            raise Infeasible()
        if len(vals) > limit:
            vals = vals[:8]
            self.weaken('more than %d feasible values for %s' % (limit, what))
        vals.sort()
        # prefer a middle-of-the-range value first so that violations in
        # ordinary territory surface early
        for k in vals[1:]:
            self.pending.append(self.trace + [('c', k)])
        self.stats.forks += len(vals) - 1
        self.trace.append(('c', vals[0]))
        self.add(term == mk(vals[0]))
        return vals[0]

    def concretise(self, term, why):
        """no model for an operation: fix one solver-chosen value (weakening)"""
        term = z3.simplify(term)
        self.weaken(why)
        i = len(self.trace)
        if i < len(self.prefix):
            d = self.prefix[i]
            self.trace.append(d)
            if not (isinstance(d, tuple) and d[0] == 'k'):
                raise EngineError('non-deterministic re-execution (concretise)')
            val = _dec(term, d[1])
        else:
            w = self.witness()
            if w is None:
                raise Infeasible()
            val = w.eval(term, model_completion=True)
            self.trace.append(('k', _enc(val)))
        self.add(term == val)
        return val

    def weaken(self, why):
        self.weak = True
        self.stats.weakened[why] = self.stats.weakened.get(why, 0) + 1

    # ------------------------------------------------------------- variables
    def new(self, name, kind, sort, pref, decode):
        if name in self.vars:
            raise EngineError('duplicate variable ' + name)
        v = z3.Const(name, sort)
        self.vars[name] = (kind, v, pref, decode)
        return v

    def fresh_const(self, sort, hint='u'):
        self.fresh += 1
        return z3.Const('!%s%d' % (hint, self.fresh), sort)

    # ------------------------------------------------------------ assertions
    def check_term(self, cond, label):
        """the deciding query: pc and not cond"""
        self.stats.obligations += 1
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            self.stats.discharged += 1
            self.stats.trivial += 1
            return True
        n = z3.Not(cond)
        r = self._check(n)
        if r == z3.unsat:
            self.stats.discharged += 1
            return True
        if r == z3.unknown:
            self.weaken('solver unknown on assertion ' + label)
            return True
        raise FoundViolation(label, self.assignment(n))

    def witness(self, extra=None, pref=True):
        """a model of pc (and extra), biased towards each variable's preferred
        value where the constraints leave it free"""
        base = [extra] if extra is not None else []
        r = self._check(*base)
        if r != z3.sat:
            return None
        m = self.solver.model()
        if not pref:
            return m
        prefs = {}
        for i, (name, (kind, v, p, dec)) in enumerate(self.vars.items()):
            if p is not None:
                b = z3.Bool('!pref%d' % i)
                prefs[b] = (v == p)
        self.solver.push()
        try:
            self.solver.set('timeout', 3000)
            for b, e in prefs.items():
                self.solver.add(z3.Implies(b, e))
            live = list(prefs)
            for _ in range(12):
                r = self._check(*(base + live))
                if r == z3.sat:
                    m = self.solver.model()
                    break
                if r != z3.unsat:
                    break
                core = {str(c) for c in self.solver.unsat_core()}
                nl = [b for b in live if str(b) not in core]
                if len(nl) == len(live):
                    break
                live = nl
        finally:
            self.solver.pop()
            self.solver.set('timeout', Q_TIMEOUT_MS)
        return m

    def assignment(self, extra=None):
        m = self.witness(extra)
        if m is None:
            return None
        out = {}
        for name, (kind, v, p, dec) in self.vars.items():
            out[name] = dec(m.eval(v, model_completion=True))
        return out


def const_int(t):
    if z3.is_bv_value(t):
        return t.as_signed_long()
    if z3.is_int_value(t):
        return t.as_long()
    return None


def _enc(v):
    if z3.is_bv_value(v):
        return ('bv', v.as_long(), v.size())
    if z3.is_int_value(v):
        return ('int', v.as_long())
    if z3.is_rational_value(v):
        return ('real', v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return ('real', a.numerator_as_long(), a.denominator_as_long())
    if z3.is_true(v) or z3.is_false(v):
        return ('bool', z3.is_true(v))
    raise EngineError('cannot encode %s' % v)


def _dec(term, e):
    if e[0] == 'bv':
        return z3.BitVecVal(e[1], e[2])
    if e[0] == 'int':
        return z3.IntVal(e[1])
    if e[0] == 'real':
        return z3.RatVal(e[1], e[2])
    return z3.BoolVal(e[1])


def stable(name, mod):
    """deterministic pseudo-random number for a name"""
    return zlib.crc32(name.encode()) % mod
