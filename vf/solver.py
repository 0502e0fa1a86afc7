"""Discharges obligations over the terms of terms.py: rational normal forms first, then z3, then cvc5."""
import sys
import time
import random
from fractions import Fraction
from . import terms as tm
from .terms import T, SB, Unsupported, nf, GENS

_Z3PATH = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
_z3 = None
STATS = {'z3_calls': 0, 'z3_s': 0.0, 'nf_calls': 0, 'nf_s': 0.0, 'cvc5_calls': 0, 'cvc5_s': 0.0}


def z3():
    global _z3
    if _z3 is None:
        try:
            import z3 as m
        except ImportError:
            sys.path.append(_Z3PATH)
            try:
                import z3 as m
            finally:
                sys.path.remove(_Z3PATH)
        _z3 = m
    return _z3


class Tr:
    """One translation context (one query)."""

    def __init__(self, rootdefs=True):
        self.z = z3()
        self.vars = {}
        self.defs = []
        self.rootdefs = rootdefs
        self.bvs = {}
        self.apps = {}
        self.byname = {}

    def gen(self, g):
        v = self.vars.get(g)
        if v is not None:
            return v
        z = self.z
        info = GENS[g]
        kind = info[0]
        name = info[1] if kind == 'v' else '%s_%d' % (kind, g)
        v = z.Real(name)
        self.vars[g] = v
        if kind == 'v':
            if info[1] in tm.POSITIVE:
                self.defs.append(v > 0)
            elif info[1] in tm.NONNEG:
                self.defs.append(v >= 0)
        elif kind == 'root':
            n, arg = info[1], info[2]
            self.defs.append(v >= 0)
            if tm.gen_positive(g):
                self.defs.append(v > 0)
            if self.rootdefs or not arg.num or set(arg.num) == {()}:
                num, den = self.frac(arg)
                self.defs.append(v ** n * den == num)
                self.defs.append(den != 0)
        elif kind == 'app':
            name, args = info[1], info[2]
            if name == 'abs':
                x = self.quot(args[0])
                self.defs.append(v == z.If(x >= 0, x, -x))
            elif name in ('max', 'min'):
                x, y = self.quot(args[0]), self.quot(args[1])
                self.defs.append(v == (z.If(x >= y, x, y) if name == 'max' else z.If(x <= y, x, y)))
            elif name == 'exp':
                self.defs.append(v > 0)
            elif name == 'sigmoid':
                self.defs.append(z.And(v > 0, v < 1))
            elif name == 'tanh':
                self.defs.append(z.And(v > -1, v < 1))
            elif name == 'pi':
                self.defs.append(z.And(v > z.Q(314159, 100000), v < z.Q(314160, 100000)))
            elif name in ('sin', 'cos'):
                self.defs.append(z.And(v >= -1, v <= 1))
                other = 'cos' if name == 'sin' else 'sin'
                key = (args[0].key())
                o = self.apps.get((other, key))
                if o is not None:
                    self.defs.append(v * v + o * o == 1)
            self.apps[(name, tuple(a.key() for a in args) if name not in ('sin', 'cos') else args[0].key())] = v
            if name not in ('abs', 'max', 'min', 'pi') and args:
                # congruence with the applications met before
                xs = [self.quot(a) for a in args]
                if name == 'pow':
                    self.defs.append(z.Implies(xs[0] > 0, v > 0))
                for ys, w in self.byname.setdefault((name, len(xs)), []):
                    self.defs.append(z.Implies(z.And([x == y for x, y in zip(xs, ys)]), v == w))
                self.byname[(name, len(xs))].append((xs, v))
        elif kind == 'ite':
            c = self.b(info[1])
            self.defs.append(v == z.If(c, self.quot(info[2]), self.quot(info[3])))
        return v

    def poly(self, p):
        z = self.z
        ts = []
        for m, c in p.items():
            f = Fraction(c)
            t = None
            for g, e in m:
                x = self.gen(g)
                y = x ** e if e > 1 else x
                t = y if t is None else t * y
            cst = z.RealVal(str(f))
            ts.append(cst if t is None else (t if f == 1 else cst * t))
        if not ts:
            return z.RealVal(0)
        return ts[0] if len(ts) == 1 else z.Sum(ts)

    def frac(self, r):
        """(num, den) z3 polynomials; Laurent exponents cleared."""
        low = {}
        for m in r.num:
            for g, e in m:
                if e < 0 and e < low.get(g, 0):
                    low[g] = e
        num = r.num
        z = self.z
        den = None
        if low:
            mono = tuple(sorted((g, -e) for g, e in low.items()))
            num = {tm.m_mul(m, mono): c for m, c in num.items()}
            for g, e in mono:
                x = self.gen(g)
                self.defs.append(x != 0)
                y = x ** e if e > 1 else x
                den = y if den is None else den * y
        for k, e in r.den.items():
            d = self.poly(dict(k))
            y = d ** e if e > 1 else d
            den = y if den is None else den * y
        return self.poly(num), (z.RealVal(1) if den is None else den)

    def quot(self, r):
        n, d = self.frac(r)
        if z3().is_rational_value(d) and d.as_fraction() == 1:
            return n
        self.defs.append(d != 0)
        return n / d

    def term(self, t):
        return self.quot(nf(t))

    def b(self, s):
        z = self.z
        if isinstance(s, bool):
            return z.BoolVal(s)
        if s.k == 'atom':
            rel, t = s.args
            r = nf(t)
            # sign of the denominator
            low = {}
            for m in r.num:
                for g, e in m:
                    if e < 0 and e < low.get(g, 0):
                        low[g] = e
            num = r.num
            extra = None
            if low:
                mono = []
                for g, e in low.items():
                    e = -e
                    if rel != '==' and e % 2 and not tm.gen_positive(g):
                        e += 1
                    mono.append((g, e))
                    self.defs.append(self.gen(g) != 0)
                num = {tm.m_mul(m, tuple(sorted(mono))): c for m, c in num.items()}
            for k, e in r.den.items():
                p = dict(k)
                d = self.poly(p)
                self.defs.append(d != 0)
                if rel != '==' and e % 2 and not tm.p_syntactic_pos(p):
                    extra = d if extra is None else extra * d
            n = self.poly(num)
            if rel == '==':
                return n == 0
            if extra is not None:
                n = n * extra
            return n < 0 if rel == '<' else n <= 0
        if s.k == 'not':
            return z.Not(self.b(s.args[0]))
        if s.k == 'and':
            return z.And(self.b(s.args[0]), self.b(s.args[1]))
        if s.k == 'or':
            return z.Or(self.b(s.args[0]), self.b(s.args[1]))
        if s.k == 'bv':
            return z.Bool(s.args[0])
        raise Unsupported('z3 of ' + s.k)


def check(facts, timeout=3.0, rootdefs=True, want_model=False, tactic=None):
    """Satisfiability of a conjunction of SBs: ('sat', model|None) | ('unsat', None) | ('unknown', None)."""
    for f in facts:
        if f is False:
            return 'unsat', None
    z = z3()
    tr = Tr(rootdefs)
    cs = [tr.b(f) for f in facts if f is not True]
    i = 0
    s = z.Solver() if tactic is None else z.Tactic(tactic).solver()
    s.set('timeout', int(timeout * 1000))
    s.add(cs)
    s.add(tr.defs)
    t0 = time.time()
    STATS['z3_calls'] += 1
    try:
        r = s.check()
    except z.Z3Exception:
        r = z.unknown
    STATS['z3_s'] += time.time() - t0
    if r == z.sat:
        mod = None
        if want_model:
            m = s.model()
            mod = {}
            for g, v in tr.vars.items():
                if GENS[g][0] == 'v':
                    x = m.eval(v, model_completion=True)
                    try:
                        mod[GENS[g][1]] = float(x.as_fraction())
                    except Exception:
                        try:
                            mod[GENS[g][1]] = float(x.approx(20).as_fraction())
                        except Exception:
                            pass
            for d in m.decls():
                if z.is_bool(m[d]):
                    mod[d.name()] = z.is_true(m[d])
        return 'sat', mod
    if r == z.unsat:
        return 'unsat', None
    return 'unknown', None


def cvc5_check(facts, timeout=10.0, rootdefs=True):
    """Second opinion through SMT-LIB text and the cvc5 binary."""
    import subprocess
    z = z3()
    tr = Tr(rootdefs)
    cs = [tr.b(f) for f in facts if f is not True]
    s = z.Solver()
    s.add(cs)
    s.add(tr.defs)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    t0 = time.time()
    STATS['cvc5_calls'] += 1
    try:
        o = subprocess.run(['cvc5', '--lang=smt2', '--nl-ext-tplanes', '--tlimit=%d' % int(timeout * 1000)], input=txt,
                           capture_output=True, text=True, timeout=timeout + 5).stdout
    except Exception:
        o = ''
    STATS['cvc5_s'] += time.time() - t0
    for line in o.splitlines():
        if line.strip() in ('sat', 'unsat'):
            return line.strip()
    return 'unknown'


def is_zero(t):
    t0 = time.time()
    STATS['nf_calls'] += 1
    try:
        return tm.is_zero(t)
    finally:
        STATS['nf_s'] += time.time() - t0


def negate(b):
    return tm.b_not(b)


def entails(hyps, goal, timeout=10.0, use_cvc5=True):
    """('proved', how) | ('refuted', model) | ('unknown', reason)"""
    if goal is True:
        return 'proved', 'simplification'
    if isinstance(goal, SB) and goal.k == 'atom' and goal.args[0] == '==':
        if is_zero(goal.args[1]):
            return 'proved', 'normal-form'
    ng = tm.b_not(goal) if not isinstance(goal, bool) else (not goal)
    if ng is True:
        facts = list(hyps)
    else:
        facts = list(hyps) + [ng]
    rel = relevant(facts, ng)
    for fs, rd, to in ((rel, False, min(2.0, timeout)), (rel, True, timeout / 2), (facts, True, timeout)):
        if fs is facts and len(rel) == len(facts):
            continue
        try:
            r, m = check(fs, to, rd)
        except Unsupported as e:
            return 'unknown', str(e)
        if r == 'unsat':
            return 'proved', 'z3'
    if use_cvc5:
        try:
            if cvc5_check(facts, timeout) == 'unsat':
                return 'proved', 'cvc5'
        except Unsupported:
            pass
    r, m = check(facts, timeout, True, want_model=True)
    if r == 'unsat':
        return 'proved', 'z3'
    if r == 'sat':
        return 'refuted', m
    return 'unknown', 'solver gave no answer'


def b_vars(b, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    if isinstance(b, bool):
        return acc
    if b.k == 'atom':
        t_vars(b.args[1], acc, seen)
    elif b.k == 'bv':
        acc.add(b.args[0])
    else:
        for a in b.args:
            b_vars(a, acc, seen)
    return acc


def t_vars(t, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.k == 'v':
            acc.add(x.args[0])
        else:
            for a in x.args:
                if isinstance(a, T):
                    st.append(a)
                elif isinstance(a, SB):
                    b_vars(a, acc, seen)
    return acc


def relevant(facts, goal):
    if isinstance(goal, bool):
        return facts
    vs = [(f, b_vars(f)) for f in facts]
    cur = set(b_vars(goal))
    keep = set()
    ch = True
    while ch:
        ch = False
        for i, (f, v) in enumerate(vs):
            if i not in keep and v & cur:
                keep.add(i)
                if not v <= cur:
                    cur |= v
                    ch = True
    return [f for i, (f, v) in enumerate(vs) if i in keep]
