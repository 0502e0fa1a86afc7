"""Contract cases, the symbolic path explorer, and the run-time (real torch) twin of every case.

One case function, written against the small vocabulary of `Base`, is run two ways:
 * SymBackend: on symbolic inputs through the loader; every check becomes an obligation under the path
   condition, discharged for all values by normal forms or SMT;
 * NumBackend: on concrete float64 inputs through the real torch code; used to replay failures, to find
   failing inputs, and to cross-check the symbolic semantics.
"""
import functools
import hashlib
import inspect
import json
import math
import os
import random
import re
import sys
import time
import traceback
import importlib
import numpy as np
from fractions import Fraction
from . import terms as tm
from .terms import T, SB, Unsupported, lift, ZERO, ONE

CASES = {}        # property -> list of Case


class Case:
    def __init__(self, prop, name, fn, kw, opts):
        self.prop, self.name, self.fn, self.kw, self.opts = prop, name, fn, kw, opts


def case(prop, name=None, params=None, **opts):
    """Registers a contract case; params: list of (suffix, kwargs)."""
    def deco(fn):
        base = name or fn.__name__
        for suf, kw in (params or [('', {})]):
            CASES.setdefault(prop, []).append(Case(prop, base + (':' + suf if suf else ''), fn, kw, opts))
        return fn
    return deco


class Skip(Exception):
    """This sample does not satisfy the precondition."""


class StopCase(Exception):
    pass


def stable_rng(*key):
    h = hashlib.sha256(repr(key).encode()).digest()
    return random.Random(int.from_bytes(h[:8], 'big'))


# ----------------------------------------------------------------------------------------- sampling
class Env:
    """Lazily sampled assignment of variable names."""

    def __init__(self, seed, fixed=None, decl=None):
        self.seed = seed
        self.v = dict(fixed or {})
        self.decl = decl if decl is not None else {}
        self.mode = stable_rng('mode', seed).choice(['n', 'n', 'n', 'u', 's', 'i', 'm'])

    def __contains__(self, k):
        return True

    def __getitem__(self, k):
        r = self.v.get(k)
        if r is None:
            r = self.sample(k)
            self.v[k] = r
        return r

    def sample(self, k):
        rng = stable_rng(self.seed, k)
        d = self.decl.get(k)
        if d is not None and d.get('dist') is not None:
            lo, hi = d['dist']
            if d.get('log'):
                x = math.exp(rng.uniform(math.log(lo), math.log(hi)))
            else:
                x = rng.uniform(lo, hi)
            return x
        pos = k in tm.POSITIVE or (d and d.get('pos'))
        non = k in tm.NONNEG or (d and d.get('nonneg'))
        if pos:
            return math.exp(rng.uniform(-1.5, 1.5))
        m = self.mode
        if m == 'm':
            m = rng.choice('nusi')
        if m == 'n':
            x = rng.gauss(0, 1)
        elif m == 'u':
            x = rng.uniform(-3, 3)
        elif m == 's':
            x = rng.gauss(0, 1) * 0.1
        else:
            x = float(rng.choice([-2, -1, 0, 0, 1, 2]))
        return abs(x) if non else x


def q_of(x):
    return x


# --------------------------------------------------------------------------------------- result store
class Result:
    def __init__(self):
        self.obl = []          # dict(name, status, how)
        self.paths = 0
        self.undecided = []
        self.notes = []

    def add(self, name, status, how, **kw):
        d = {'name': name, 'status': status, 'how': how}
        d.update(kw)
        self.obl.append(d)


def adapt(real, fn):
    """A stand-in that is called by the parameter names of the real function understands them."""
    K = inspect.Parameter
    if not inspect.isfunction(fn) or not inspect.isfunction(real):
        return fn
    r, s = inspect.signature(real), inspect.signature(fn)
    pos = [p for p in s.parameters.values() if p.kind == K.POSITIONAL_OR_KEYWORD]
    anykw = any(p.kind == K.VAR_KEYWORD for p in s.parameters.values())
    if all(p.name in r.parameters for p in pos) and (anykw or all(n in s.parameters for n in r.parameters)):
        return fn

    @functools.wraps(fn)
    def call(*a, **k):
        try:
            s.bind(*a, **k)
        except TypeError:
            try:
                b = r.bind(*a, **k)
            except TypeError:
                return fn(*a, **k)
            args, rest, lead = [], {}, True
            for i, n in enumerate(r.parameters):
                kind = r.parameters[n].kind
                if n not in b.arguments or kind in (K.VAR_POSITIONAL, K.VAR_KEYWORD):
                    lead = False
                elif lead and len(args) < len(pos):
                    args.append(b.arguments[n])
                elif anykw or n in s.parameters:
                    rest[n] = b.arguments[n]
            return fn(*args, **rest)
        return fn(*a, **k)
    return call


class Base:
    sym = False
    opts = {}

    # ---- structure helpers common to both back ends
    def vec(self, name, n, **kw):
        return [self.var('%s%d' % (name, i), **kw) for i in range(n)]

    def mat(self, name, n, m, **kw):
        return [[self.var('%s%d_%d' % (name, i, j), **kw) for j in range(m)] for i in range(n)]

    def symmat(self, name, n, **kw):
        out = [[None] * n for _ in range(n)]
        for i in range(n):
            for j in range(i, n):
                out[i][j] = out[j][i] = self.var('%s%d_%d' % (name, i, j), **kw)
        return out

    def array(self, name, shape, **kw):
        o = np.empty(tuple(shape), object)
        for p in np.ndindex(*o.shape):
            o[p] = self.var(name + '_'.join(map(str, p)), **kw)
        return o

    def eqs(self, name, got, want, **kw):
        self.eq(name, got, want, **kw)

    def isnum(self):
        return not self.sym

    def frozen(self, name, tensors):
        """Returns a closure that checks that the given tensors were not modified."""
        before = [self.arr(t).copy() for t in tensors]

        def chk():
            for i, (b, t) in enumerate(zip(before, tensors)):
                self.eq('%s[%d] unchanged' % (name, i), t, b, exact=True)
        return chk


def _isnanv(x):
    if isinstance(x, T):
        return x.k == 'nan'
    if isinstance(x, (float, np.floating)):
        return x != x
    return False


# ------------------------------------------------------------------------------------- symbolic side
from . import symtorch as st           # noqa: E402
from . import solver                    # noqa: E402
from .loader import Loader, PathEnd     # noqa: E402


class Absent(PathEnd):
    """The internal function this case puts under contract is not in the code: the case does not apply."""
from . import loader as loader_mod      # noqa: E402


class PathState:
    def __init__(self, prefix):
        self.prefix = prefix
        self.taken = []
        self.pc = []
        self.known = {}
        self.alts = []
        self.got = []


class SymBackend(Base):
    sym = True

    def __init__(self, case, seed=1, n_samples=40, feas_timeout=1.0, prove_timeout=10.0, deadline=None, max_paths=600,
                 cut=True):
        self.case = case
        self.loader = None
        self.decl = {}
        self.seed = seed
        self.funcs = {}
        self.samples = [Env((seed, case.name, i), decl=self.decl) for i in range(n_samples)]
        self.feas_timeout, self.prove_timeout = feas_timeout, prove_timeout
        self.deadline = deadline
        self.res = Result()
        self.max_paths = max_paths
        self.cut = cut
        self.witness = []
        self.P = None
        self.reached = set()

    # ---- inputs
    def var(self, name, pos=False, nonneg=False, dist=None, log=False):
        self.decl[name] = {'pos': pos, 'nonneg': nonneg, 'dist': dist, 'log': log}
        t = tm.var(name, pos=pos, nonneg=nonneg)
        if dist is not None and not pos and not nonneg:
            pass
        return t

    def bvar(self, name):
        return SB('bv', (name,))

    def choice(self, name, options):
        """A discrete input: the explorer forks over every option."""
        for i, o in enumerate(options[:-1]):
            if self.decide(SB('bv', ('%s?%d' % (name, i),))):
                return o
        return options[-1]

    def func(self, name, fn, dname=None):
        """Uninterpreted function (symbolic side); fn is its concrete instance used for sampling."""
        self.funcs[name] = fn
        if dname:
            tm.DERIV[name] = lambda args, i: tm.app(dname, *args)
        return lambda *a: tm.app(name, *a)

    # ---- values
    def tensor(self, x, dtype=None):
        return self.torch.tensor(_tolist(x), dtype=dtype)

    def itensor(self, x):
        return self.torch.tensor(x, dtype=self.torch.int64)

    def arr(self, x):
        if isinstance(x, st.SymTensor):
            return x.a
        if isinstance(x, np.ndarray):
            return x if x.dtype == object else _obj_np(x)
        if isinstance(x, (list, tuple)):
            o = np.array(_tolist(x), dtype=object)
            return o
        return st.obj(x)

    def val(self, x):
        if isinstance(x, st.SymTensor):
            x = x.item()
        return x

    def sqrt(self, x):
        return tm.root(lift(x), 2)

    def absv(self, x):
        return abs(lift(x))

    def fmax(self, a, b):
        return tm.t_max(a, b)

    def fmin(self, a, b):
        return tm.t_min(a, b)

    def fn(self, name, *a):
        return tm.app(name, *a)

    @property
    def pi(self):
        return st.PI

    def isnan(self, x):
        a = self.arr(x)
        return any(_isnanv(v) for v in a.reshape(-1))

    def diff(self, t, v):
        return tm.diff(lift(t), v)

    def jac(self, f, x, h=None):
        """d f_i / d x_j for a function of a list of variables."""
        y = self.arr(f(self.tensor(x)))
        o = np.empty(y.shape + (len(x),), object)
        for p in np.ndindex(*y.shape):
            for j, v in enumerate(x):
                o[p + (j,)] = tm.diff(lift(y[p]), v)
        return o

    def agrad(self, f, x):
        """Gradient of a scalar function by automatic differentiation (run time) or symbolic differentiation."""
        y = self.arr(f(self.tensor(x)))
        return [tm.diff(lift(y.reshape(-1)[0]), v) for v in x]

    def num(self, x):
        return lift(x)

    def rat(self, a, b=1):
        return tm.q(Fraction(a, b))

    def ite(self, c, a, b):
        return tm.ite(c, a, b)

    # ---- code
    def mod(self, name):
        return self.loader.load(name)

    @property
    def torch(self):
        return self.loader.torch

    @property
    def nn(self):
        return self.loader.torch.nn

    def set_dtype(self, d):
        self.torch.set_default_dtype(d)

    def override(self, key, fn):
        """Replaces a callee by its contract (modular reasoning); key = 'module:function'."""
        mod, _, f = key.partition(':')
        m = self.loader.shims.get(mod) or self.loader.load(mod)
        setattr(m, f, adapt(getattr(m, '__dict__', {}).get(f), fn))

    def patch(self, obj, name, fn):
        """Replaces a method by its contract, however the class is reached."""
        setattr(obj, name, adapt(getattr(obj, '__dict__', {}).get(name), fn))

    # ---- logic
    def assume(self, c):
        c = tm.as_bool(c)
        if c is True:
            return
        if c is False:
            raise PathEnd()
        self.P.pc.append(c)
        self._learn(c, True)

    def _learn(self, c, val):
        if isinstance(c, bool):
            return
        if c.k == 'not':
            self._learn(c.args[0], not val)
        elif c.k == 'and' and val:
            self._learn(c.args[0], True)
            self._learn(c.args[1], True)
        elif c.k == 'or' and not val:
            self._learn(c.args[0], False)
            self._learn(c.args[1], False)
        elif c.k == 'atom':
            try:
                k, flip = akey(c)
            except Unsupported:
                return
            if k is not None:
                self.P.known[k] = val != flip
        elif c.k == 'bv':
            self.P.known[('bv', c.args[0])] = val

    def decide(self, c):
        if isinstance(c, bool):
            return c
        if c.k == 'not':
            return not self.decide(c.args[0])
        if c.k == 'and':
            return self.decide(c.args[0]) and self.decide(c.args[1])
        if c.k == 'or':
            return self.decide(c.args[0]) or self.decide(c.args[1])
        P = self.P
        if c.k == 'atom':
            k, flip = akey(c)
            if k is None:
                return flip
            # trivially decided by sign information
            d = sign_decide(c)
            if d is not None:
                return d
        else:
            k, flip = ('bv', c.args[0]), False
        if k in P.known:
            return P.known[k] != flip
        i = len(P.taken)
        if i < len(P.prefix):
            v = P.prefix[i]
        else:
            if self.deadline and time.time() > self.deadline:
                raise Unsupported('time limit of the case')
            ft, ff = self._feasible(c), self._feasible(tm.b_not(c))
            if not ft and not ff:
                raise PathEnd()
            if ft and ff:
                P.alts.append(P.taken + [False])
                v = True
            else:
                v = ft
        P.taken.append(v)
        P.known[k] = v != flip
        P.pc.append(c if v else tm.b_not(c))
        return v

    def _feasible(self, c):
        facts = self.P.pc + [c]
        for e in self.samples:
            if self._sat(facts, e):
                return True
        try:
            r, _ = solver.check(solver.relevant(facts, c), self.feas_timeout, rootdefs=True)
        except Unsupported:
            return True
        return r != 'unsat'

    def _sat(self, facts, e):
        try:
            memo = {}
            return all(tm.eval_b(f, e, self.funcs, memo) for f in facts)
        except (ZeroDivisionError, OverflowError, ValueError, KeyError):
            return False

    # ---- obligations
    def note_got(self, name, a):
        self.P.got.append((name, a.copy() if isinstance(a, np.ndarray) else a))

    def eq(self, name, got, want, tol=None, exact=False, alts=None, rtol=None, atol=None):
        g, w = self.arr(got), self.arr(want)
        self.note_got(name, g)
        self._eq(name, g, w, alts)

    def _eq(self, name, g, w, alts=None):
        if g.shape != w.shape:
            self.res.add(name, 'refuted', 'shape %s instead of %s' % (g.shape, w.shape), path=len(self.P.pc))
            return
        for p in np.ndindex(*g.shape):
            self._eq1(name if not g.shape else '%s%s' % (name, list(p)), g[p], w[p])

    def _eq1(self, name, a, b):
        if isinstance(a, (bool, SB)) or isinstance(b, (bool, SB)):
            a = tm.as_bool(a) if not isinstance(a, (bool, SB)) else a
            b = tm.as_bool(b) if not isinstance(b, (bool, SB)) else b
            if isinstance(a, bool) and isinstance(b, bool):
                ok = a == b
            else:
                ok = (a == b) if isinstance(a, SB) else (b == a)
            self.ok(name, ok)
            return
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            self.res.add(name, 'proved' if a == b else 'refuted', 'simplification')
            return
        na, nb = _isnanv(a), _isnanv(b)
        if na or nb:
            self.res.add(name, 'proved' if na and nb else 'refuted', 'nan')
            return
        a, b = lift(a), lift(b)
        d = a - b
        self._obl(name, tm.atom('==', d), diffterm=(a, b))

    def le(self, name, a, b, tol=None):
        a, b = self.val(a), self.val(b)
        if _isnanv(a) or _isnanv(b):
            self.res.add(name, 'refuted', 'nan')
            return
        self._obl(name, tm.atom('<=', lift(a) - lift(b)))

    def lt(self, name, a, b):
        a, b = self.val(a), self.val(b)
        self._obl(name, tm.atom('<', lift(a) - lift(b)))

    def ok(self, name, c):
        if isinstance(c, st.SymTensor):
            c = c.item()
        c = tm.as_bool(c) if not isinstance(c, (bool, SB)) else c
        self._obl(name, c)

    def true(self, name, c):
        self.ok(name, c)

    def expect_type(self, name, c):
        self.res.add(name, 'proved' if c else 'refuted', 'simplification')

    def raises(self, name, fn, exc=Exception):
        try:
            fn()
        except Unsupported:
            raise
        except exc:
            self.res.add(name, 'proved', 'execution')
            return
        self.res.add(name, 'refuted', 'no exception raised')

    def _obl(self, name, goal, diffterm=None):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time limit of the case')
        if goal is True:
            self.res.add(name, 'proved', 'simplification')
            return
        if goal is False:
            # false on this path: it is a violation only if the path is feasible
            st_, m = self._path_model()
            if st_ == 'unsat':
                self.res.add(name, 'proved', 'z3')
            elif st_ == 'sat':
                self.res.add(name, 'refuted', 'false on a feasible path', model=m)
            else:
                self.res.add(name, 'unknown', 'false on a path of unknown feasibility')
            return
        if goal.k == 'atom' and goal.args[0] == '==':
            try:
                if solver.is_zero(goal.args[1]):
                    self.res.add(name, 'proved', 'normal-form')
                    return
            except tm.Budget as e:
                self.res.add(name, 'unknown', str(e))
                return
        # quick refutation by a sample
        e = self._refute(goal, diffterm)
        if e is not None:
            self.res.add(name, 'refuted', 'sample', model=dict(e.v))
            return
        to = self.prove_timeout
        if self.deadline:
            to = max(1.0, min(to, (self.deadline - time.time()) / 4))
        r, how = solver.entails(self.P.pc, goal, to)
        if r == 'refuted':
            # the solver's model may use opaque applications: confirm by evaluation when possible
            m = how or {}
            env = Env(('model', self.seed), fixed=m, decl=self.decl)
            conf = False
            try:
                memo = {}
                conf = all(tm.eval_b(f, env, self.funcs, memo) for f in self.P.pc) and \
                    not eval_b_tol(goal, env, self.funcs, memo, 1e-9)
            except Exception:
                pass
            self.res.add(name, 'refuted' if conf or not self._opaque(goal) else 'unknown', 'solver model', model=m)
        else:
            self.res.add(name, r, how)

    def _opaque(self, goal):
        seen = set()
        found = [False]

        def walk(b):
            if isinstance(b, bool):
                return
            if b.k == 'atom':
                stck = [b.args[1]]
                while stck:
                    x = stck.pop()
                    if x.id in seen:
                        continue
                    seen.add(x.id)
                    if x.k == 'app' and x.args[0] not in ('abs', 'max', 'min'):
                        found[0] = True
                    for a in x.args:
                        if isinstance(a, T):
                            stck.append(a)
            else:
                for a in b.args:
                    if isinstance(a, (SB,)):
                        walk(a)
        walk(goal)
        for f in self.P.pc:
            walk(f)
        return found[0]

    def _refute(self, goal, diffterm):
        for e in self.samples:
            try:
                memo = {}
                if not all(tm.eval_b(f, e, self.funcs, memo) for f in self.P.pc):
                    continue
                if diffterm is not None:
                    x = tm.evaluate(diffterm[0], e, self.funcs, memo)
                    y = tm.evaluate(diffterm[1], e, self.funcs, memo)
                    if x == x and y == y and abs(x - y) > 1e-6 * max(1.0, abs(x), abs(y)):
                        return e
                    if x == x and y == y and abs(x - y) > 1e-9 * max(abs(x), abs(y)) and abs(x - y) > 1e-12:
                        return e
                else:
                    if not eval_b_tol(goal, e, self.funcs, memo):
                        return e
            except (ZeroDivisionError, OverflowError, ValueError, KeyError):
                continue
        return None

    def _path_model(self):
        for e in self.samples:
            if self._sat(self.P.pc, e):
                return 'sat', dict(e.v)
        try:
            return solver.check(self.P.pc, 5.0, True, want_model=True)
        except Unsupported:
            return 'unknown', None

    def lemma(self, name, hyps, goal):
        """A pure obligation over contracts: hyps imply goal; available as a fact afterwards."""
        r, how = solver.entails(list(hyps), goal, self.prove_timeout)
        self.res.add('lemma ' + name, r if r != 'refuted' else 'unknown', how if isinstance(how, str) else 'solver model')

    def cover(self, name):
        """Reachability marker: the path must be feasible for the enclosing case at least once."""
        self.reached.add(name)

    def skip(self):
        raise PathEnd()

    def absent(self):
        raise Absent()

    def put(self, obj, name, value):
        """Sets an attribute of the code under check, which must have it."""
        if not hasattr(obj, name):
            raise Absent()
        setattr(obj, name, value)

    # ---- exploration
    def run(self):
        old = (SB.decide, st.ASSUME[0], st._default[0])
        SB.decide = self.decide
        st.ASSUME[0] = self.assume
        loader_mod.CUT[0] = self.cut
        work = [[]]
        n = 0
        try:
            while work:
                if n >= self.max_paths:
                    self.res.undecided.append('path limit %d reached' % self.max_paths)
                    break
                prefix = work.pop()
                n += 1
                self.P = PathState(prefix)
                self.loader = Loader()
                st._default[0] = st.rt.float64
                tm._FRESH[0] = 0
                mark = len(self.res.obl)
                try:
                    self.case.fn(self, **self.case.kw)
                    if len(self.res.obl) > mark:
                        self.res.paths += 1
                    self._witness()
                except PathEnd:
                    pass
                except Unsupported as e:
                    self.res.undecided.append('%s' % (e,) + _where())
                    if self.deadline and time.time() > self.deadline:
                        break
                except StopCase:
                    pass
                except Exception as e:
                    # an exception of the code under the symbolic semantics: only real execution can tell
                    self.res.undecided.append('exception %s: %s%s' % (type(e).__name__, str(e)[:160], _where()))
                work.extend(self.P.alts)
        finally:
            SB.decide, st.ASSUME[0], st._default[0] = old
        return self.res

    def _witness(self):
        for e in self.samples:
            if not any('!' in k for k in e.v) or True:
                if self._sat(self.P.pc, e):
                    free = set()
                    for f in self.P.pc:
                        solver.b_vars(f, free)
                    hav = any('!' in k for k in free)
                    for _, a in self.P.got:
                        for v in a.reshape(-1):
                            if isinstance(v, T):
                                solver.t_vars(v, free)
                    if any('!' in k for k in free):
                        hav = True
                    ev = []
                    if not hav:
                        memo = {}
                        for name, a in self.P.got:
                            ev.append((name, [_evalv(v, e, self.funcs, memo) for v in a.reshape(-1)]))
                    self.witness.append({'env': {k: v for k, v in e.v.items() if '!' not in k}, 'got': ev, 'havoc': hav})
                    return
        try:
            r, m = solver.check(self.P.pc, 2.0, True, want_model=True)
        except Unsupported:
            return
        if r == 'sat':
            self.witness.append({'env': {k: v for k, v in m.items() if '!' not in k}, 'got': [], 'havoc': True})


def _evalv(v, e, funcs, memo):
    try:
        if isinstance(v, T):
            return tm.evaluate(v, e, funcs, memo)
        if isinstance(v, SB):
            return float(tm.eval_b(v, e, funcs, memo))
        if v is None or isinstance(v, str):
            return None
        return float(v)
    except Exception:
        return None


def _where():
    tb = sys.exc_info()[2]
    fr = traceback.extract_tb(tb)
    src = [f for f in fr if '/hookeai/' in f.filename]
    if src:
        f = src[-1]
        return ' (%s:%d)' % (f.filename.split('/hookeai/')[-1], f.lineno)
    f = fr[-1]
    return ' [%s:%d]' % (os.path.basename(f.filename), f.lineno)


def eval_b_tol(b, env, funcs, memo, tol=1e-7):
    """Truth with slack in favour of True."""
    if isinstance(b, bool):
        return b
    if b.k == 'atom':
        v = tm.evaluate(b.args[1], env, funcs, memo)
        if v != v:
            return True
        s = tol
        return v < s if b.args[0] in ('<', '<=') else abs(v) < s
    if b.k == 'not':
        i = b.args[0]
        if isinstance(i, SB) and i.k == 'atom':
            v = tm.evaluate(i.args[1], env, funcs, memo)
            if v != v:
                return True
            return v > -tol if i.args[0] in ('<', '<=') else True
        if isinstance(i, SB) and i.k in ('and', 'or'):
            f = (tm.b_or if i.k == 'and' else tm.b_and)
            return eval_b_tol(f(tm.b_not(i.args[0]), tm.b_not(i.args[1])), env, funcs, memo, tol)
        return not tm.eval_b(i, env, funcs, memo)
    if b.k == 'and':
        return eval_b_tol(b.args[0], env, funcs, memo, tol) and eval_b_tol(b.args[1], env, funcs, memo, tol)
    if b.k == 'or':
        return eval_b_tol(b.args[0], env, funcs, memo, tol) or eval_b_tol(b.args[1], env, funcs, memo, tol)
    return tm.eval_b(b, env, funcs, memo)


def sign_decide(c):
    """Decides an atom from syntactic sign information of its normal form."""
    rel, t = c.args
    r = tm.nf(t)
    if not r.num:
        return rel != '<'
    if all(tm.p_syntactic_pos(dict(k)) or e % 2 == 0 for k, e in r.den.items()):
        if tm.p_syntactic_pos(r.num):
            return False
        if tm.p_syntactic_pos({m: -c_ for m, c_ in r.num.items()}):
            return rel != '=='
    return None


def akey(c):
    """(canonical key, flipped?) of an atom; key None when the atom is constant (then flip is its truth)."""
    rel, t = c.args
    r = tm.nf(t)
    if not r.num:
        return None, rel != '<'
    if set(r.num) == {()} and not r.den:
        v = r.num[()]
        return None, (v < 0 if rel == '<' else v <= 0 if rel == '<=' else False)
    lead = max(r.num)
    lc = r.num[lead]
    s = abs(Fraction(lc))
    num = {m: Fraction(v) / s for m, v in r.num.items()}
    neg = lc < 0
    if rel == '==':
        if neg:
            num = {m: -v for m, v in num.items()}
        return ('==', tm.p_key(num), tuple(sorted(r.den.items()))), False
    if neg:
        # t < 0  <=>  not (-t <= 0)
        num = {m: -v for m, v in num.items()}
        rel2, flip = ('<=', True) if rel == '<' else ('<', True)
    else:
        rel2, flip = rel, False
    return (rel2, tm.p_key(num), tuple(sorted(r.den.items()))), flip


def _obj_np(x):
    o = np.empty(x.shape, object)
    for p in np.ndindex(*x.shape):
        v = x[p]
        o[p] = v.item() if hasattr(v, 'item') else v
    return o


def _tolist(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (list, tuple)):
        return [_tolist(v) for v in x]
    if isinstance(x, st.SymTensor):
        return x.a.tolist()
    return x


# --------------------------------------------------------------------------------------- concrete side
class NumBackend(Base):
    sym = False

    def __init__(self, case, env, rtol=1e-6, atol=1e-8):
        self.case, self.env = case, env
        self.rtol, self.atol = rtol, atol
        self.fails = []
        self.got = []
        self.n = 0
        self.loader = None
        self.saved = []
        import torch
        self.torch = torch

    @property
    def nn(self):
        return self.torch.nn

    def var(self, name, pos=False, nonneg=False, dist=None, log=False):
        self.env.decl[name] = {'pos': pos, 'nonneg': nonneg, 'dist': dist, 'log': log}
        v = float(self.env[name])
        if pos and not v > 0:
            v = abs(v) + 1e-3
            self.env.v[name] = v
        if nonneg and v < 0:
            v = -v
            self.env.v[name] = v
        return v

    def bvar(self, name):
        return bool(self._bool(name))

    def _bool(self, name, p=0.5):
        if name in self.env.v:
            return bool(self.env.v[name])
        v = stable_rng(self.env.seed, name, 'b').random() < p
        self.env.v[name] = v
        return v

    def choice(self, name, options):
        for i, o in enumerate(options[:-1]):
            if self._bool('%s?%d' % (name, i), 1 / (len(options) - i)):
                return o
        return options[-1]

    def func(self, name, fn, dname=None):
        return fn

    def tensor(self, x, dtype=None):
        return self.torch.tensor(_flt(x), dtype=dtype or self.torch.get_default_dtype())

    def itensor(self, x):
        return self.torch.tensor(x, dtype=self.torch.int64)

    def arr(self, x):
        if isinstance(x, self.torch.Tensor):
            return x.detach().cpu().numpy()
        if isinstance(x, (list, tuple)) and any(isinstance(v, self.torch.Tensor) for v in x):
            x = [self.arr(v) for v in x]
        x = np.array(x)
        if x.dtype == object:
            try:
                x = x.astype(float)
            except (TypeError, ValueError):
                pass
        return x

    def val(self, x):
        if isinstance(x, self.torch.Tensor):
            return x.item()
        return x

    def sqrt(self, x):
        return math.sqrt(x) if x >= 0 else (0.0 if x > -1e-9 else float('nan'))

    def absv(self, x):
        return abs(x)

    def fmax(self, a, b):
        return max(a, b)

    def fmin(self, a, b):
        return min(a, b)

    def fn(self, name, *a):
        if name == 'sigmoid':
            return 1.0 / (1.0 + math.exp(-a[0]))
        return getattr(math, name)(*a)

    pi = math.pi

    def isnan(self, x):
        return bool(np.isnan(self.arr(x).astype(float)).any())

    def diff(self, t, v):
        raise StopCase()

    def jac(self, f, x, h=1e-3):
        """Seven-point central differences of the real function (error O(h^6))."""
        x = [float(v) for v in x]
        cols = []
        for j in range(len(x)):
            acc = 0.0
            for k, c in ((1, 45.0), (2, -9.0), (3, 1.0)):
                for sg in (1, -1):
                    y = list(x)
                    y[j] += sg * k * h
                    acc = acc + sg * c * self.arr(f(self.tensor(y))).astype(float)
            cols.append(acc / (60.0 * h))
        return np.stack(cols, axis=-1)

    def agrad(self, f, x):
        t = self.tensor(x).requires_grad_(True)
        f(t).backward()
        return [float(v) for v in t.grad]

    def num(self, x):
        return float(x)

    def rat(self, a, b=1):
        return a / b

    def ite(self, c, a, b):
        return a if c else b

    def decide(self, c):
        return bool(c)

    def mod(self, name):
        return importlib.import_module(name)

    def set_dtype(self, d):
        self.torch.set_default_dtype(d)

    def override(self, key, fn):
        mod, _, f = key.partition(':')
        m = importlib.import_module(mod)
        if f not in m.__dict__:
            raise Absent()      # the module reaches its callee some other way: nothing to replace here
        self.saved.append((m, f, getattr(m, f)))
        setattr(m, f, adapt(m.__dict__[f], fn))

    def patch(self, obj, name, fn):
        if name.startswith('_') and name not in obj.__dict__:
            raise Absent()
        self.saved.append((obj, name, obj.__dict__[name]))
        setattr(obj, name, adapt(obj.__dict__[name], fn))

    def assume(self, c):
        if not bool(c):
            raise Skip()

    def skip(self):
        raise Skip()

    def absent(self):
        raise Absent()

    def put(self, obj, name, value):
        """Sets an attribute of the code under check, which must have it."""
        if not hasattr(obj, name):
            raise Absent()
        setattr(obj, name, value)

    def cover(self, name):
        pass

    def lemma(self, name, hyps, goal):
        pass

    def eq(self, name, got, want, tol=None, exact=False, alts=None, rtol=None, atol=None):
        try:
            g = self.arr(got)
            w = self.arr(want)
        except (ValueError, TypeError):
            g, w = np.array(0.0), np.array(1.0)
        self.n += 1
        if g.dtype.kind in 'OUS' or w.dtype.kind in 'OUS':
            if not (g.shape == w.shape and (g == w).all()):
                self._fail(name, str(got), str(want))
            return
        self.got.append((name, [float(v) for v in g.reshape(-1)]))
        if g.shape != w.shape:
            self._fail(name, 'shape %s' % (g.shape,), 'shape %s' % (w.shape,))
            return
        g, w = g.astype(float), w.astype(float)
        if g.size == 0:
            return
        nn = np.isnan(g) != np.isnan(w)
        s = max(1e-12, float(np.nanmax(np.abs(w))) if not np.isnan(w).all() else 0.0)
        r = self.rtol if rtol is None else rtol
        a = self.atol if atol is None else atol
        if tol is not None:
            r = a = tol
        lim = r * s + a
        bad = nn | (np.abs(np.nan_to_num(g) - np.nan_to_num(w)) > lim)
        if bad.any():
            p = tuple(int(i) for i in np.argwhere(bad)[0]) if g.shape else ()
            self._fail(name + (str(list(p)) if p else ''), float(g[p]), float(w[p]), lim=lim)

    def le(self, name, a, b, tol=None):
        a, b = float(self.val(a)), float(self.val(b))
        self.n += 1
        lim = (self.rtol * max(abs(a), abs(b)) + self.atol) if tol is None else tol
        if not (a <= b + lim):
            self._fail(name, a, '<= %r' % b, lim=lim)

    def lt(self, name, a, b):
        self.le(name, a, b)

    def ok(self, name, c):
        self.n += 1
        if not bool(c):
            self._fail(name, 'False', 'True')

    def true(self, name, c):
        self.ok(name, c)

    def expect_type(self, name, c):
        self.ok(name, c)

    def raises(self, name, fn, exc=Exception):
        self.n += 1
        try:
            fn()
        except exc:
            return
        self._fail(name, 'no exception', exc.__name__ if isinstance(exc, type) else str(exc))

    def _fail(self, name, got, want, lim=None):
        self.fails.append({'obligation': name, 'got': got, 'want': want, 'tolerance': lim})

    def run(self):
        """Returns 'ok' | 'fail' | 'skip' | 'undecided: ...'"""
        t = self.torch
        old = t.get_default_dtype()
        t.set_default_dtype(t.float64)
        t.manual_seed(0)
        try:
            self.case.fn(self, **self.case.kw)
        except Absent:
            return 'absent'
        except (Skip, PathEnd):
            return 'skip'
        except StopCase:
            pass
        except Exception as e:
            tb = traceback.extract_tb(sys.exc_info()[2])
            repo = [f for f in tb if '/hookeai/' in f.filename]
            last_contract = max([i for i, f in enumerate(tb) if '/contracts/' in f.filename] or [-1])
            last_repo = max([i for i, f in enumerate(tb) if '/hookeai/' in f.filename] or [-1])
            if last_contract > last_repo and _private(e):
                return 'absent'
            if last_repo > last_contract and _standin(e):
                return 'undecided: stand-in used outside its interface: %s%s' % (str(e)[:200], _where())
            if last_repo > last_contract:
                self._fail('no exception', '%s: %s (%s:%d)' % (type(e).__name__, str(e)[:200],
                           tb[last_repo].filename.split('/hookeai/')[-1], tb[last_repo].lineno), 'normal return')
                return 'fail'
            if _malformed(e, tb[last_contract] if last_contract >= 0 else None, not repo and not _standin(e)):
                # a result that is not of the documented form (None, missing key, missing entry)
                self._fail('result of the documented form', '%s: %s%s' % (type(e).__name__, str(e)[:200], _where()), 'as specified')
            if self.fails:
                # the contract could not go on, after an obligation had already failed
                return 'fail'
            return 'undecided: %s: %s%s' % (type(e).__name__, str(e)[:200], _where())
        finally:
            t.set_default_dtype(old)
            for m, f, v in reversed(self.saved):
                setattr(m, f, v)
            self.saved = []
        return 'fail' if self.fails else 'ok'


def _private(e):
    """exception of a contract that only says that an internal name or signature it relies on is not in the code"""
    if isinstance(e, AttributeError):
        return bool(re.match(r'_[a-z]', str(getattr(e, 'name', '') or '')))
    if isinstance(e, TypeError):
        return bool(re.match(r'([\w<>]+\.)*_[a-z]\w*\(\) (got|missing|takes)', str(e)))
    return False


def _standin(e):
    """exception of the code under check that only says that a stand-in of the contracts lacks an attribute or a parameter"""
    if isinstance(e, AttributeError):
        o = getattr(e, 'obj', None)
        t = o if isinstance(o, type) else type(o)
        return str(getattr(t, '__module__', '')).startswith('contracts')
    if isinstance(e, TypeError):
        m = re.match(r'([\w.<>]+)\(\) (got|missing|takes)', str(e))
        return bool(m) and ('<locals>' in m.group(1) or m.group(1).split('.')[0] in _contract_names())
    return False


def _contract_names():
    return {n for k, m in list(sys.modules.items()) if k.startswith('contracts') for n, v in vars(m).items()
            if getattr(v, '__module__', None) == k}


def _malformed(e, frame, direct=False):
    """the contract could not read a result; direct: it failed outside any call of the code under check"""
    if frame is None or re.search(r'\._[a-z]|method\(B, \w+, .._', frame.line or ''):
        return False
    if isinstance(e, (KeyError, IndexError, AssertionError)):
        return True
    if direct and isinstance(e, (TypeError, ValueError, AttributeError, RuntimeError)):
        return True
    return isinstance(e, TypeError) and 'NoneType' in str(e) or isinstance(e, ValueError) and 'unpack' in str(e)


def _flt(x):
    if isinstance(x, np.ndarray):
        return x.astype(float).tolist()
    if isinstance(x, (list, tuple)):
        return [_flt(v) for v in x]
    if isinstance(x, bool):
        return x
    return float(x)
