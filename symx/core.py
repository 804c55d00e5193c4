"""Symbolic execution core: path exploration, symbolic integers, booleans, reals.

The code under test is executed by CPython itself on proxy objects; a proxy
asked for its truth value forks the path.  Every decision is a z3 condition
added to the path's solver; every feasible alternative is explored by a forked
process, and what all of them found is gathered at the end.
"""
import fractions
import itertools
import mmap
import numbers
import os
import pickle
import random
import re
import sys
import tempfile
import time
import traceback

import z3

z3.set_param('smt.random_seed', 1)
z3.set_param('sat.random_seed', 1)


class Abort(BaseException):
    """Abandons the current path (never caught by code under test)."""

    def __init__(self, kind, why=''):
        BaseException.__init__(self, kind, why)
        self.kind, self.why = kind, why


class Unsupported(Abort):
    def __init__(self, why):
        Abort.__init__(self, 'unsupported', why)


ENGINE = None          # the engine of the path being executed


def eng():
    return ENGINE


class Stats(object):
    FIELDS = ('paths', 'decisions', 'queries', 'solver_s', 'asserts_discharged',
              'asserts_failed', 'asserts_unknown', 'cut', 'unsupported',
              'infeasible', 'reached')

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.cut_reasons = {}
        self.unsupported_reasons = {}
        self.labels = {}

    def merge(self, d):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + d[f])
        for k in ('cut_reasons', 'unsupported_reasons', 'labels'):
            mine = getattr(self, k)
            for r, n in d[k].items():
                mine[r] = mine.get(r, 0) + n

    def asdict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d['cut_reasons'] = dict(self.cut_reasons)
        d['unsupported_reasons'] = dict(self.unsupported_reasons)
        d['labels'] = dict(self.labels)
        return d


class Engine(object):
    """One engine explores one scenario (a driver function)."""

    def __init__(self, max_paths=100000, time_budget=600.0, unroll=8,
                 query_timeout_ms=20000, div_mode='enumerate'):
        self.max_paths, self.time_budget = max_paths, time_budget
        self.unroll = unroll
        self.div_mode = div_mode
        self.query_timeout_ms = query_timeout_ms
        self.stats = Stats()
        self.failures = []          # counterexamples
        self.samples = []           # path models
        self.incomplete = None
        self.debug = False
        self.tokens_free = None     # semaphore: processors without work
        self.collect = self.absorb = None

    # ------------------------------------------------------------ per path
    def _reset(self):
        self.solver = z3.SolverFor('QF_NIA') if False else z3.Solver()
        self.solver.set('timeout', self.query_timeout_ms)
        self.inputs = {}            # name -> z3 expr or python value
        self.fresh_n = {}
        self.tokens = {}
        self.dead = None
        self.soft = []              # z3 conditions preferred in models
        self.notes = {}             # free-form data for replay / outcome
        self.blobs = {}
        self.hashes = []
        self.compressions = []
        self.altered_from = {}
        self.codecs = []
        self.maybe = {}
        self.path_reached = 0
        self.path_labels = []
        self.last_model = None
        self._funcs = {}
        self.outcome = None
        self.sample_this = True
        self.coincidence = True     # may unrelated contents happen to be equal?
        self.hash_consts = []
        self.ndec = 0
        self.divisions = {}
        self.softer = []

    def fresh_name(self, base):
        n = self.fresh_n.get(base, 0)
        self.fresh_n[base] = n + 1
        return base if n == 0 else '%s!%d' % (base, n)

    # -- solver helpers
    def _check(self, *assumptions):
        t = time.time()
        r = self.solver.check(*assumptions)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        return r

    def feasible(self, cond):
        """Can cond hold on this path?  (unknown counts as yes)"""
        if self.last_model is not None:
            try:
                if z3.is_true(self.last_model.eval(cond, model_completion=True)):
                    return True
            except z3.Z3Exception:
                pass
        r = self._check(cond)
        if r == z3.sat:
            self.last_model = self.solver.model()
        return r != z3.unsat

    def model(self):
        """Some model of the path (None: there is none)."""
        if self.last_model is None:
            r = self._check()
            if r == z3.unsat:
                return None
            if r == z3.unknown:
                raise Unsupported('no model of the path')
            self.last_model = self.solver.model()
        return self.last_model

    def add(self, cond):
        self.solver.add(cond)
        if self.last_model is not None:
            try:
                if not z3.is_true(self.last_model.eval(cond, model_completion=True)):
                    self.last_model = None
            except z3.Z3Exception:
                self.last_model = None

    def assume(self, cond):
        c = boolexpr(cond)
        if c is True:
            return
        if c is False:
            raise Abort('infeasible')
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise Abort('infeasible')
        self.add(c)

    def check_alive(self):
        if self.dead is not None:
            raise self.dead

    def kill(self, exc):
        self.dead = exc
        raise exc

    # -- decisions
    def branch(self, cond):
        """Fork on a z3 boolean; returns a python bool."""
        self.check_alive()
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        return self.choose([cond, z3.Not(cond)]) == 0

    def choose(self, conds):
        """Fork over alternatives; returns the index taken."""
        self.check_alive()
        feas = []
        n = len(conds)
        for i, c in enumerate(conds):
            if n == 2 and i == 1 and not feas:
                feas.append(i)      # exhaustive pair: the other side must hold
                break
            if self.feasible(c):
                feas.append(i)
        if not feas:
            self.kill(Abort('infeasible'))
        if len(feas) == 1:
            # implied (or the only possibility): nothing to add
            return feas[0]
        take = self.fork(feas)
        self.add(conds[take])
        return take

    def choice(self, n):
        """Unconstrained fork over n alternatives (driver-level enumeration)."""
        self.check_alive()
        return self.fork(list(range(n)))

    def concretise(self, expr, why='index'):
        """Fork over the concrete values of an integer expression."""
        self.check_alive()
        expr = z3.simplify(expr)
        if z3.is_int_value(expr):
            return expr.as_long()
        # enumerate the feasible values, small ones first
        vals = []
        limit = self.unroll
        if not self.feasible(z3.Or(expr < 0, expr > 255)):
            cand, rest = (), None
            while True:
                ne = [expr != c for c in vals]
                r = self._check(*ne)
                if r == z3.unsat:
                    break
                if r == z3.unknown:
                    raise Unsupported('values of %s' % why)
                vals.append(self.solver.model().eval(expr, model_completion=True).as_long())
            vals.sort()
        else:
            cand = [c for c in list(range(0, limit + 1)) + [-1]]
            rest = z3.And([expr != c for c in cand])
        for c in cand:
            if self.feasible(expr == c):
                vals.append(c)
        if rest is not None and self.feasible(rest):
            # a single value left over (e.g. a large constant) is taken too
            m = self._some_value(expr, rest)
            if m is not None and not self.feasible(z3.And(rest, expr != m)):
                vals.append(m)
            else:
                self.note_cut('%s value outside 0..%d' % (why, limit))
        if not vals:
            self.kill(Abort('cut', why))
        v = self.fork(vals)
        self.add(expr == v)
        return v

    # -- exploring: every alternative but one is explored by a child process
    def fork(self, items):
        """Returns one of the items here and each other one in a child."""
        self.ndec += len(items) > 1
        if len(items) > 1 and time.time() - self.start > self.time_budget + 10:
            self.incomplete = 'a path was stopped after %.0f s' % (time.time() - self.start)
            self.kill(Abort('stopped'))
        for it in items[:-1]:
            if self.shared[1] >= 12:
                self.kill(Abort('stopped'))
            if self.shared[0] >= self.max_paths or time.time() - self.start > self.time_budget:
                self.incomplete = 'stopped after %d paths, %.0f s' % (self.shared[0], time.time() - self.start)
                return it
            self.stats.decisions += 1
            apart = self.tokens_free is not None and self.tokens_free.acquire(block=False)
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                self.stats = Stats()
                self.failures, self.samples, self.incomplete = [], [], None
                self.children, self.holding, self.in_child = [], apart, True
                return it
            if apart:
                self.children.append(pid)
            else:
                self.reap(pid)
        if self.shared[1] >= 12:
            self.kill(Abort('stopped'))
        return items[-1]

    def reap(self, pid):
        _, st = os.waitpid(pid, 0)
        if st != 0:
            self.incomplete = 'a worker process died (%d)' % st

    def report(self):
        """Hand over what this path found."""
        d = pickle.dumps((self.stats.asdict(), self.failures, self.samples, self.incomplete,
                          self.collect() if self.collect else None))
        os.write(self.log, len(d).to_bytes(8, 'little') + d)

    def _some_value(self, expr, cond):
        if self._check(cond) == z3.sat:
            v = self.solver.model().eval(expr, model_completion=True)
            if z3.is_int_value(v):
                return v.as_long()
        return None

    def note_cut(self, reason):
        self.stats.cut += 1
        self.stats.cut_reasons[reason] = self.stats.cut_reasons.get(reason, 0) + 1

    # -- assertions
    def entails(self, cond):
        c = boolexpr(cond)
        if c is True or c is False:
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if self.last_model is not None:
            try:
                if z3.is_false(self.last_model.eval(c, model_completion=True)):
                    return False
            except z3.Z3Exception:
                pass
        return self._check(z3.Not(c)) == z3.unsat

    def prove(self, cond, label, detail=None):
        """The deciding step: does cond hold for every value on this path?"""
        self.check_alive()
        self.path_reached += 1
        self.stats.reached += 1
        self.stats.labels[label] = self.stats.labels.get(label, 0) + 1
        self.path_labels.append(label)
        c = boolexpr(cond)
        if c is True:
            c = z3.BoolVal(True)
        elif c is False:
            c = z3.BoolVal(False)
        neg = z3.simplify(z3.Not(c))
        r = self._check(neg) if not z3.is_false(neg) else z3.unsat
        if z3.is_false(neg):
            self.stats.queries += 1
        if r == z3.unsat:
            self.stats.asserts_discharged += 1
            return True
        if r == z3.unknown:
            self.stats.asserts_unknown += 1
            self.incomplete = 'unknown on %s' % label
            return None
        self.stats.asserts_failed += 1
        self.failures.append(self._case(neg, label, detail))
        self.shared[1] += 1
        raise Abort('failed', label)

    def crash(self, exc, detail):
        """The scenario can not go on: something is not what it should be."""
        if self.dead is not None:
            raise self.dead
        if self._check() == z3.unsat:
            raise Abort('infeasible', 'dead path')
        self.stats.asserts_failed += 1
        self.failures.append(dict(self._case(None, 'ends with ' + exc, detail), crash=exc))
        self.shared[1] += 1
        raise Abort('failed', exc)

    def _case(self, extra, label, detail=None):
        models = list(self._small_models(extra))
        return {'label': label, 'detail': detail,
                'inputs': [self.eval_inputs(m) for m in models],
                'notes': [self._eval_notes(m) for m in models]}

    def _small_models(self, extra=None, want=3, big=True):
        """Models of the path (plus extra), preferring small inputs."""
        got = 0
        ints = [e for e in self.inputs.values() if is_z3int(e)]
        base = [extra] if extra is not None else []
        # the sizes that random content compresses to, first
        pinned = [iexpr(c.ct) == iexpr(c.n) + 16 for c in self.compressions]
        few = list(self.softer)
        for s in ([pinned + list(self.soft) + few] if pinned else []) + [list(self.soft) + few] + \
                ([pinned + list(self.soft)] if pinned and few else []) + ([list(self.soft)] if few else []) + [[]]:
            for bound in (40, 300, 5000, 70000, 2 ** 21, 2 ** 26, None)[:7 if big else 6]:
                b = [] if bound is None else [z3.And(e <= bound, e >= -bound) for e in ints]
                if self._check(*(base + s + b)) == z3.sat:
                    yield self.solver.model()
                    got += 1
                    break
            if got >= want:
                return

    def eval_inputs(self, m):
        out = {}
        for k, e in self.inputs.items():
            out[k] = eval_value(m, e)
        return out

    def _eval_notes(self, m):
        out = {}
        for k, e in self.notes.items():
            if k.startswith('_'):
                continue
            out[k] = eval_value(m, e)
        return out

    # ------------------------------------------------------------ exploration
    def explore(self, driver):
        """Run driver(engine) over all paths."""
        f = tempfile.TemporaryFile(prefix='sx_')
        self.log = os.open('/proc/self/fd/%d' % f.fileno(), os.O_WRONLY | os.O_APPEND)
        self.start = time.time()
        self.shared = memoryview(mmap.mmap(-1, 64)).cast('q')
        self.children, self.holding, self.in_child = [], False, False
        self._reset()
        try:
            self._run(driver)
        except BaseException:
            if not self.in_child:
                raise
            self.incomplete = traceback.format_exc()[-2000:]
        if self.children:
            # let others run while the other alternatives are being explored
            if self.tokens_free is not None:
                self.tokens_free.release()
            for pid in self.children:
                self.reap(pid)
            if self.tokens_free is not None and not self.holding:
                self.tokens_free.acquire()
            self.holding = False
        if self.in_child:
            code = 1
            try:
                self.report()
                code = 0
            finally:
                if self.holding:
                    self.tokens_free.release()
                os._exit(code)
        os.close(self.log)
        f.seek(0)
        while True:
            h = f.read(8)
            if not h:
                break
            st, fl, sm, inc, got = pickle.loads(f.read(int.from_bytes(h, 'little')))
            self.stats.merge(st)
            self.failures += fl
            self.samples += sm
            self.incomplete = self.incomplete or inc
            if got is not None:
                self.absorb(got)
        f.close()
        return self

    def _run(self, driver):
        global ENGINE
        ENGINE = self
        status = 'ok'
        try:
            driver(self)
        except Abort as a:
            status = a.kind
            if self.dead is None:
                self.dead = a
            if a.kind == 'unsupported':
                self.stats.unsupported += 1
                self.stats.unsupported_reasons[a.why] = \
                    self.stats.unsupported_reasons.get(a.why, 0) + 1
            elif a.kind == 'infeasible':
                self.stats.infeasible += 1
            elif a.kind == 'cut':
                self.note_cut(a.why)
        finally:
            ENGINE = None
        if status == 'infeasible':
            return
        self.stats.paths += 1
        self.shared[0] += 1
        n = self.shared[0]
        if status in ('ok', 'unsupported') and self.sample_this and \
                (n <= 100 or random.Random('%d %s' % (n, self.path_labels)).random() < 150.0 / n):
            ENGINE = self
            try:
                for m in self._small_models(want=1, big=False):
                    self.samples.append({'status': status,
                                         'inputs': self.eval_inputs(m),
                                         'notes': self._eval_notes(m),
                                         'outcome': eval_value(m, self.outcome),
                                         'labels': list(dict.fromkeys(self.path_labels))})
                    break
            except Abort:
                pass
            finally:
                ENGINE = None

    # ------------------------------------------------------------ inputs
    def int(self, name, lo=None, hi=None):
        v = z3.Int(name)
        self.inputs[name] = v
        if lo is not None:
            self.assume(v >= iexpr(lo))
        if hi is not None:
            self.assume(v <= iexpr(hi))
        return SymInt(v)

    def hidden_int(self, name, lo=None, hi=None):
        v = z3.Int(self.fresh_name(name))
        if lo is not None:
            self.assume(v >= iexpr(lo))
        if hi is not None:
            self.assume(v <= iexpr(hi))
        return SymInt(v)

    def bool(self, name):
        v = z3.Bool(name)
        self.inputs[name] = v
        return SymBool(v)

    def hidden_bool(self, name):
        return SymBool(z3.Bool(self.fresh_name(name)))

    def pick(self, name, options):
        i = self.choice(len(options))
        v = options[i]
        self.inputs[name] = v if isinstance(v, (int, str, bool, type(None), list, float)) else repr(v)
        return v

    def token(self, value):
        """A real str standing for a symbolic value inside text."""
        n = len(self.tokens)
        t = '\ue000%d\ue001' % n
        self.tokens[t] = value
        return t


def is_z3int(e):
    return isinstance(e, z3.ArithRef) and e.is_int()


def eval_value(m, e):
    if isinstance(e, (SymInt, SymBool, SymReal)):
        e = e.e
    if isinstance(e, z3.ExprRef):
        v = m.eval(e, model_completion=True)
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        if z3.is_string_value(v):
            return v.as_string()
        if z3.is_rational_value(v):
            return [v.numerator_as_long(), v.denominator_as_long()]
        return str(v)
    if isinstance(e, dict):
        return {str(k): eval_value(m, x) for k, x in e.items()}
    if isinstance(e, (list, tuple)):
        return [eval_value(m, x) for x in e]
    if isinstance(e, bytes):
        return {'hex': e.hex()}
    if hasattr(e, '__sx_eval__'):
        return e.__sx_eval__(m)
    if e is None or isinstance(e, (int, str, float, bool)):
        return e
    return repr(e)


# ---------------------------------------------------------------- expressions
def iexpr(v):
    """z3 Int expression (or python int) for a value."""
    if isinstance(v, SymInt):
        return v.e
    if isinstance(v, SymBool):
        return z3.If(v.e, z3.IntVal(1), z3.IntVal(0))
    if isinstance(v, bool):
        return z3.IntVal(int(v))
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, z3.ArithRef):
        return v
    return None


def rexpr(v):
    if isinstance(v, SymReal):
        return v.e
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return None
        f = fractions.Fraction(v)
        return z3.RealVal('%d/%d' % (f.numerator, f.denominator))
    e = iexpr(v)
    if e is None:
        return None
    return z3.ToReal(e) if e.is_int() else e


EXACT = 2 ** 53        # integers up to this are floats


def fexpr(v):
    """As a float: integers above 2**53 are rounded (to anything within half a unit)."""
    if isinstance(v, bool) or isinstance(v, (SymReal, float)):
        return rexpr(v)
    e = iexpr(v)
    if e is None:
        return None
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return rexpr(float(e.as_long()))
    E = ENGINE
    if E.branch(z3.And(e <= EXACT, e >= -EXACT)):
        return z3.ToReal(e)
    key = ('float', e.get_id())
    if key not in E.divisions:
        r = z3.Real(E.fresh_name('float'))
        x = z3.ToReal(e)
        size = z3.If(x >= 0, x, -x)
        E.add(z3.And((r - x) * EXACT <= size, (x - r) * EXACT <= size))
        E.divisions[key] = (e, r)
    return E.divisions[key][1]


def boolexpr(c):
    if isinstance(c, SymBool):
        return c.e
    if isinstance(c, z3.BoolRef):
        return c
    if isinstance(c, bool):
        return c
    if isinstance(c, SymInt):
        return c.e != 0
    raise TypeError('not a condition: %r' % (c,))


def mk(e):
    """SymInt, or a python int when the expression is a constant."""
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SymInt(e)


def mkb(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def mkr(e):
    return SymReal(z3.simplify(e))


def And(*cs):
    es = []
    for c in cs:
        c = boolexpr(c)
        if c is False:
            return False
        if c is True:
            continue
        es.append(c)
    return mkb(z3.And(es)) if es else True


def Or(*cs):
    es = []
    for c in cs:
        c = boolexpr(c)
        if c is True:
            return True
        if c is False:
            continue
        es.append(c)
    return mkb(z3.Or(es)) if es else False


def Not(c):
    c = boolexpr(c)
    if isinstance(c, bool):
        return not c
    return mkb(z3.Not(c))


def Implies(a, b):
    return Or(Not(a), b)


def If(c, a, b):
    c = boolexpr(c)
    if isinstance(c, bool):
        return a if c else b
    return mk(z3.If(c, iexpr(a), iexpr(b)))


class SymBool(object):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENGINE.branch(self.e)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return And(self, o)
        return SymInt(iexpr(self)) & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return Or(self, o)
        return SymInt(iexpr(self)) | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkb(z3.Xor(self.e, _bz(o)))
        return NotImplemented
    __rxor__ = __xor__

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkb(self.e == o.e)
        if isinstance(o, bool):
            return self if o else Not(self)
        if isinstance(o, (int, SymInt)):
            return mkb(iexpr(self) == iexpr(o))
        return False

    def __ne__(self, o):
        r = self == o
        return Not(r)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))

    def __index__(self):
        return int(bool(self))

    def _int(self):
        return mk(iexpr(self))

    def __add__(self, o):
        return _arith(self, o, lambda a, b: a + b)
    __radd__ = __add__

    def __mul__(self, o):
        return SymInt(iexpr(self)) * o
    __rmul__ = __mul__

    def __lt__(self, o):
        return SymInt(iexpr(self)) < o

    def __le__(self, o):
        return SymInt(iexpr(self)) <= o

    def __gt__(self, o):
        return SymInt(iexpr(self)) > o

    def __ge__(self, o):
        return SymInt(iexpr(self)) >= o

    def __repr__(self):
        if ENGINE is None:
            return 'SymBool(%s)' % self.e
        return 'True' if bool(self) else 'False'

    __str__ = __repr__

    def __format__(self, spec):
        return format(bool(self), spec)


def _bz(v):
    return v.e if isinstance(v, SymBool) else z3.BoolVal(bool(v))


def _arith(a, b, f):
    if isinstance(a, (float, SymReal)) or isinstance(b, (float, SymReal)):
        x, y = fexpr(a), fexpr(b)
        if x is None or y is None:
            return NotImplemented
        return mkr(f(x, y))
    x, y = iexpr(a), iexpr(b)
    if x is None or y is None:
        return NotImplemented
    return mk(f(x, y))


def _cmp(a, b, f):
    if isinstance(a, (float, SymReal)) or isinstance(b, (float, SymReal)):
        if isinstance(b, float) and b in (float('inf'), float('-inf')):
            return NotImplemented
        x, y = rexpr(a), rexpr(b)
    else:
        x, y = iexpr(a), iexpr(b)
    if x is None or y is None:
        return NotImplemented
    return mkb(f(x, y))


def floor_div(x, y):
    """Python floor division and modulo on z3 ints, y a nonzero constant."""
    # z3 div/mod: euclidean (mod >= 0); python: modulo has the divisor's sign
    if y > 0:
        return x / y, x % y
    q, r = (-x) / (-y), (-x) % (-y)
    return q, -r


def sym_divmod(a, b):
    x, y = iexpr(a), iexpr(b)
    if x is None or y is None:
        return NotImplemented
    y = z3.simplify(y)
    if z3.is_int_value(y):
        c = y.as_long()
        if c == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        q, r = floor_div(x, c)
        return mk(q), mk(r)
    E = ENGINE
    if E.branch(y == 0):
        raise ZeroDivisionError('integer division or modulo by zero')
    if E.branch(y < 0):
        q, r = sym_divmod(mk(-x), mk(-y))
        return q, -r
    if E.div_mode == 'nl':
        x = z3.simplify(x)
        for k, neg in ((x, False), (z3.simplify(-x), True)):
            got = E.divisions.get((k.sexpr(), y.sexpr()))
            if got is not None:
                q, r = got
                if neg:
                    q, r = z3.If(r == 0, -q, -q - 1), z3.If(r == 0, 0, y - r)
                return mk(q), mk(r)
        if E.branch(x < 0):
            q, r = sym_divmod(mk(-x), mk(y))
            q, r = iexpr(q), iexpr(r)
            return mk(z3.If(r == 0, -q, -q - 1)), mk(z3.If(r == 0, 0, y - r))
        q, r = z3.Int(E.fresh_name('q')), z3.Int(E.fresh_name('r'))
        E.add(z3.And(x == q * y + r, r >= 0, r < y))
        E.divisions[x.sexpr(), y.sexpr()] = q, r
        return SymInt(q), SymInt(r)
    # linear enumeration of the quotient
    K = E.unroll
    qs = list(range(0, K + 1))
    conds = [z3.And(x >= q * y, x < (q + 1) * y) for q in qs]
    conds.append(x >= (K + 1) * y)
    if E.feasible(x < 0):
        qs += [None] + list(range(-1, -K - 2, -1))
        conds += [z3.And(x >= q * y, x < (q + 1) * y) for q in qs[K + 2:]]
        conds.append(x < -(K + 1) * y)
    else:
        qs.append(None)
    i = E.choose(conds)
    if i >= len(qs) or qs[i] is None:
        E.kill(Abort('cut', 'quotient above %d' % K))
    return qs[i], mk(x - qs[i] * y)


def _pow2(n):
    return n > 0 and (n & (n - 1)) == 0


class SymInt(object):
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    # arithmetic
    def __add__(self, o):
        return _arith(self, o, lambda a, b: a + b)

    def __radd__(self, o):
        return _arith(o, self, lambda a, b: a + b)

    def __sub__(self, o):
        return _arith(self, o, lambda a, b: a - b)

    def __rsub__(self, o):
        return _arith(o, self, lambda a, b: a - b)

    def __mul__(self, o):
        if isinstance(o, (bytes, str, list, tuple)):
            return self.__rmul__(o)
        return _arith(self, o, lambda a, b: a * b)

    def __rmul__(self, o):
        if isinstance(o, bytes):
            from .rope import SymBytes
            return SymBytes.repeat(o, self)
        if isinstance(o, (str, list, tuple)):
            return o * ENGINE.concretise(self.e, 'repetition count')
        return _arith(o, self, lambda a, b: a * b)

    def __neg__(self):
        return mk(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mk(z3.If(self.e >= 0, self.e, -self.e))

    def __floordiv__(self, o):
        if isinstance(o, (float, SymReal)):
            return FloatOf(self) // o
        r = sym_divmod(self, o)
        return r if r is NotImplemented else r[0]

    def __rfloordiv__(self, o):
        r = sym_divmod(o, self)
        return r if r is NotImplemented else r[0]

    def __mod__(self, o):
        r = sym_divmod(self, o)
        return r if r is NotImplemented else r[1]

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            return NotImplemented
        r = sym_divmod(o, self)
        return r if r is NotImplemented else r[1]

    def __divmod__(self, o):
        return sym_divmod(self, o)

    def __rdivmod__(self, o):
        return sym_divmod(o, self)

    def __truediv__(self, o):
        return true_div(self, o)

    def __rtruediv__(self, o):
        return true_div(o, self)

    def __pow__(self, o, mod=None):
        if isinstance(o, int) and 0 <= o <= 4:
            r = 1
            for _ in range(o):
                r = r * self
            return r
        return int(self) ** o

    def __rpow__(self, o):
        return o ** ENGINE.concretise(self.e, 'exponent')

    # bit operations
    def __and__(self, o):
        if isinstance(o, (SymInt, SymBool)):
            a = ENGINE.concretise(iexpr(o), 'bit mask')
            return self & a
        if not isinstance(o, int):
            return NotImplemented
        o = int(o)
        if o == 0:
            return 0
        if o == -1:
            return self
        if o < 0:
            # x & ~m  =  x - (x & m)
            return self - (self & ~o)
        if o & (o + 1) == 0 and ENGINE.entails(z3.And(self.e >= 0, self.e <= o)):
            return self
        total = None
        k = 0
        # group contiguous runs of set bits
        while (o >> k):
            if not (o >> k) & 1:
                k += 1
                continue
            j = k
            while (o >> j) & 1:
                j += 1
            part = (self.e / (1 << k)) % (1 << (j - k)) * (1 << k)
            total = part if total is None else total + part
            k = j
        return mk(total)
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SymInt, SymBool)):
            # disjoint bits are added: try to see it
            oe = iexpr(o)
            for k in (1, 2, 4, 8, 16, 24, 32, 40, 48, 56):
                lo, hi = None, None
                if ENGINE.entails(z3.And(oe >= 0, oe < (1 << k), self.e % (1 << k) == 0)):
                    return mk(self.e + oe)
                if ENGINE.entails(z3.And(self.e >= 0, self.e < (1 << k), oe % (1 << k) == 0)):
                    return mk(self.e + oe)
            return self | ENGINE.concretise(oe, 'bit or')
        if not isinstance(o, int):
            return NotImplemented
        return self + o - (self & o)
    __ror__ = __or__

    def __xor__(self, o):
        if not isinstance(o, int):
            return NotImplemented
        return self + o - 2 * (self & o)
    __rxor__ = __xor__

    def __invert__(self):
        return mk(-self.e - 1)

    def __lshift__(self, o):
        if isinstance(o, SymInt):
            o = ENGINE.concretise(o.e, 'shift')
        return mk(self.e * (1 << o))

    def __rlshift__(self, o):
        return o << ENGINE.concretise(self.e, 'shift')

    def __rshift__(self, o):
        if isinstance(o, SymInt):
            o = ENGINE.concretise(o.e, 'shift')
        return mk(self.e / (1 << o))

    def __rrshift__(self, o):
        return o >> ENGINE.concretise(self.e, 'shift')

    # comparison
    def __eq__(self, o):
        r = _cmp(self, o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = _cmp(self, o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return _cmp(self, o, lambda a, b: a < b)

    def __le__(self, o):
        return _cmp(self, o, lambda a, b: a <= b)

    def __gt__(self, o):
        return _cmp(self, o, lambda a, b: a > b)

    def __ge__(self, o):
        return _cmp(self, o, lambda a, b: a >= b)

    def __bool__(self):
        return ENGINE.branch(self.e != 0)

    def __hash__(self):
        return hash(ENGINE.concretise(self.e, 'hash'))

    def __index__(self):
        return ENGINE.concretise(self.e, 'index')

    __int__ = __index__

    def __float__(self):
        raise Unsupported('float() of a symbolic int at C level')

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def bit_length(self):
        return ENGINE.concretise(self.e, 'bit_length').bit_length()

    def to_bytes(self, length=1, byteorder='big', signed=False):
        from .rope import SymBytes, ISeg
        lo, hi = (-(1 << (8 * length - 1)), (1 << (8 * length - 1)) - 1) if signed \
            else (0, (1 << (8 * length)) - 1)
        if not And(self >= lo, self <= hi):
            raise OverflowError('int too big to convert')
        return SymBytes([ISeg(self, length, byteorder, signed)])

    @property
    def real(self):
        return self

    @property
    def numerator(self):
        return self

    denominator = 1
    imag = 0

    def conjugate(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __str__(self):
        if ENGINE is None:
            return 'SymInt(%s)' % self.e
        from .text import SymText
        return SymText(ENGINE.token(self))

    __repr__ = __str__

    def __format__(self, spec):
        if spec in ('', 'd', 's', 'n', ','):
            return ENGINE.token(self)
        if spec[-1:] in 'dfneg%' and 'b' not in spec:
            return ENGINE.token(self)
        return format(ENGINE.concretise(self.e, 'format'), spec)


numbers.Integral.register(SymInt)


def true_div(a, b):
    ints = all(not isinstance(x, (float, SymReal)) for x in (a, b))
    ea, eb = (rexpr(a), rexpr(b)) if ints else (fexpr(a), fexpr(b))
    if ea is None or eb is None:
        return NotImplemented
    eb = z3.simplify(eb)
    if z3.is_rational_value(eb):
        if eb.numerator_as_long() == 0:
            raise ZeroDivisionError('division by zero')
    elif ENGINE.branch(eb == 0):
        raise ZeroDivisionError('division by zero')
    # the value of a quotient is left opaque when only printed; it is exact
    # real division otherwise, or rounded for integers above 2**53
    return LazyQuot(ea, eb, ints)


class SymReal(object):
    """Exact real standing for a float (see the float assumptions)."""
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __add__(self, o):
        return _arith(self, o, lambda a, b: a + b)

    def __radd__(self, o):
        return _arith(o, self, lambda a, b: a + b)

    def __sub__(self, o):
        return _arith(self, o, lambda a, b: a - b)

    def __rsub__(self, o):
        return _arith(o, self, lambda a, b: a - b)

    def __mul__(self, o):
        return _arith(self, o, lambda a, b: a * b)

    def __rmul__(self, o):
        return _arith(o, self, lambda a, b: a * b)

    def __truediv__(self, o):
        return true_div(self, o)

    def __rtruediv__(self, o):
        return true_div(o, self)

    def __neg__(self):
        return mkr(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkr(z3.If(self.e >= 0, self.e, -self.e))

    def __floordiv__(self, o):
        q = true_div(self, o)
        return q if q is NotImplemented else mkr(z3.ToReal(z3.ToInt(q.e)))

    def __rfloordiv__(self, o):
        q = true_div(o, self)
        return q if q is NotImplemented else mkr(z3.ToReal(z3.ToInt(q.e)))

    def __mod__(self, o):
        q = self // o
        return q if q is NotImplemented else self - q * o

    def __rmod__(self, o):
        q = o // self
        return q if q is NotImplemented else o - q * self

    def __divmod__(self, o):
        return self // o, self % o

    def __eq__(self, o):
        r = _cmp(self, o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = _cmp(self, o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __lt__(self, o):
        return _cmp(self, o, lambda a, b: a < b)

    def __le__(self, o):
        return _cmp(self, o, lambda a, b: a <= b)

    def __gt__(self, o):
        return _cmp(self, o, lambda a, b: a > b)

    def __ge__(self, o):
        return _cmp(self, o, lambda a, b: a >= b)

    def __bool__(self):
        return ENGINE.branch(self.e != 0)

    def __hash__(self):
        raise Unsupported('hash of a symbolic real')

    def trunc(self):
        return mk(z3.If(self.e >= 0, z3.ToInt(self.e), -z3.ToInt(-self.e)))

    __trunc__ = trunc

    def __int__(self):
        return int(self.trunc())

    def floor(self):
        return mk(z3.ToInt(self.e))

    __floor__ = floor

    def __ceil__(self):
        return mk(-z3.ToInt(-self.e))

    def is_integer(self):
        return mkb(z3.ToReal(z3.ToInt(self.e)) == self.e)

    def __round__(self, n=None):
        nd = 0 if n is None else int(n)
        scale = 10 ** nd
        x = self.e * scale
        fl = z3.ToInt(x)
        frac = x - z3.ToReal(fl)
        half = z3.RealVal('1/2')
        up = z3.Or(frac > half, z3.And(frac == half, fl % 2 == 1))
        r = z3.If(up, fl + 1, fl)
        if n is None:
            return mk(r)
        out = mkr(z3.ToReal(r) / scale)
        return out

    def __str__(self):
        if ENGINE is None:
            return 'SymReal(%s)' % self.e
        from .text import SymText
        return SymText(ENGINE.token(self))

    __repr__ = __str__

    def __format__(self, spec):
        return ENGINE.token(Formatted(self, spec))

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class Formatted(object):
    def __init__(self, value, spec):
        self.value, self.spec = value, spec


class LazyQuot(SymReal):
    """a / b: only turned into a formula when used."""
    __slots__ = ('num', 'den', 'ints', '_e')

    def __init__(self, num, den, ints):
        self.num, self.den, self.ints, self._e = num, den, ints, None

    @property
    def e(self):
        if self._e is None:
            num, den = self.num, self.den
            if not self.ints or ENGINE.branch(z3.And(num <= EXACT, num >= -EXACT, den <= EXACT, den >= -EXACT)):
                if z3.is_rational_value(den):
                    self._e = z3.simplify(num / den)
                else:
                    self._e = z3.Real(ENGINE.fresh_name('quot'))
                    ENGINE.add(self._e * den == num)
            else:
                v = z3.Real(ENGINE.fresh_name('quot'))
                size = z3.If(num >= 0, num, -num)
                ENGINE.add(z3.And((v * den - num) * (EXACT // 2) <= size, (num - v * den) * (EXACT // 2) <= size))
                self._e = v
        return self._e


class FloatOf(SymReal):
    """float(n): only turned into a formula when used."""
    __slots__ = ('num', '_e')

    def __init__(self, num):
        self.num, self._e = num, None

    @property
    def e(self):
        if self._e is None:
            self._e = fexpr(self.num)
        return self._e


def is_sym(v):
    return isinstance(v, (SymInt, SymBool, SymReal))
