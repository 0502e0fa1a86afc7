"""Exact symbolic scalars: hash-consed real terms, rational-function normal form, derivatives, evaluation.

Numbers are mathematical reals.  A Python float met by the executor is read as the simple rational that
rounds to it (decimal literal or small fraction), otherwise as its exact binary value.
"""
from fractions import Fraction
import math
import sys
sys.setrecursionlimit(100000)


class Unsupported(Exception):
    """The construct is outside the modelled subset (undecided, never a violation)."""


# ---------------------------------------------------------------------------------------------- terms
_INTERN = {}
_NEXT = [0]


def clear_tables():
    pass


def rat_of_float(f):
    if f != f or f in (float('inf'), float('-inf')):
        raise Unsupported('non-finite constant')
    if f == int(f) and abs(f) < 2**53:
        return Fraction(int(f))
    d = Fraction(repr(f))
    if len(repr(f).replace('-', '').replace('.', '').split('e')[0].strip('0')) <= 12:
        return d
    for lim in (1000, 10**5, 10**7):
        g = Fraction(f).limit_denominator(lim)
        if float(g) == f:
            return g
    # the rounded result of a few operations on such fractions (for example 1 - 1/3)
    g = Fraction(f).limit_denominator(1000)
    if abs(g - Fraction(f)) <= 4 * Fraction(math.ulp(f)):
        return g
    return Fraction(f)


def _isinf(o):
    return isinstance(o, float) and o in (float('inf'), float('-inf'))


def _elem(o, f):
    """Scalar with numpy array: elementwise."""
    if (type(o).__module__ == 'numpy' or type(o).__name__ == 'SymArr') and hasattr(o, 'reshape') and getattr(o, 'shape', ()) != ():
        import numpy as np
        r = np.empty(o.shape, object)
        o = o.view(np.ndarray)
        for p in np.ndindex(*o.shape):
            r[p] = f(lift(o[p]) if lift(o[p]) is not None else o[p])
        return r
    return NotImplemented


FORMAT = [None]         # how a real is printed (set by the loader)


class T:
    __slots__ = ('k', 'args', 'id', '_nf', '__weakref__')
    __array_priority__ = 1000
    __array_ufunc__ = None if False else None

    def __hash__(self):
        return hash(('T', self.id))

    # arithmetic
    def __add__(self, o_):
        o = lift(o_)
        return _elem(o_, lambda v: v + self) if o is None else add(self, o)
    __radd__ = __add__

    def __sub__(self, o_):
        o = lift(o_)
        return _elem(o_, lambda v: self - v) if o is None else add(self, mul(MINUS1, o))

    def __rsub__(self, o_):
        o = lift(o_)
        return _elem(o_, lambda v: v - self) if o is None else add(o, mul(MINUS1, self))

    def __mul__(self, o_):
        o = lift(o_)
        return _elem(o_, lambda v: self * v) if o is None else mul(self, o)
    __rmul__ = __mul__

    def __truediv__(self, o_):
        o = lift(o_)
        return _elem(o_, lambda v: self / v) if o is None else div(self, o)

    def __rtruediv__(self, o_):
        o = lift(o_)
        return _elem(o_, lambda v: v / self) if o is None else div(o, self)

    def __neg__(self):
        return mul(MINUS1, self)

    def __pos__(self):
        return self

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return app('pow', lift(o), self)

    def __abs__(self):
        return absolute(self)

    # comparisons
    def __lt__(self, o_):
        if _isinf(o_):
            return o_ > 0
        o = lift(o_)
        return _elem(o_, lambda v: self < v) if o is None else atom('<', self - o)

    def __le__(self, o_):
        if _isinf(o_):
            return o_ > 0
        o = lift(o_)
        return _elem(o_, lambda v: self <= v) if o is None else atom('<=', self - o)

    def __gt__(self, o_):
        if _isinf(o_):
            return o_ < 0
        o = lift(o_)
        return _elem(o_, lambda v: self > v) if o is None else atom('<', o - self)

    def __ge__(self, o_):
        if _isinf(o_):
            return o_ < 0
        o = lift(o_)
        return _elem(o_, lambda v: self >= v) if o is None else atom('<=', o - self)

    def __eq__(self, o):
        o = lift(o)
        return False if o is None else atom('==', self - o)

    def __ne__(self, o):
        o = lift(o)
        if o is None:
            return True
        return b_not(atom('==', self - o))

    def __bool__(self):
        r = b_not(atom('==', self))
        return r if isinstance(r, bool) else bool(r)

    def is_const(self):
        return self.k == 'q'

    def const(self):
        return self.args[0]

    def __float__(self):
        if self.k == 'q':
            return float(self.args[0])
        raise Unsupported('float() of a symbolic value')

    def __int__(self):
        t = self if self.k == 'q' else concretise(self)
        if t is not None and t.k == 'q':
            return int(t.args[0])
        raise Unsupported('int() of a symbolic value')

    def __index__(self):
        t = self if self.k == 'q' else concretise(self)
        if t is not None and t.k == 'q' and t.args[0].denominator == 1:
            return int(t.args[0])
        raise Unsupported('symbolic index')

    def __format__(self, spec):
        return FORMAT[0](self, spec) if FORMAT[0] is not None else str(self)

    def __repr__(self):
        return show(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # methods numpy's object ufuncs call
    def sqrt(self):
        return root(self, 2)

    def conjugate(self):
        return self

    def exp(self):
        return app('exp', self)

    def log(self):
        return app('log', self)

    def sin(self):
        return app('sin', self)

    def cos(self):
        return app('cos', self)

    def tan(self):
        return app('sin', self) / app('cos', self)

    def tanh(self):
        return app('tanh', self)

    def item(self):
        return self


def show(t, depth=6):
    if t.k == 'q':
        return str(t.args[0])
    if t.k == 'v':
        return t.args[0]
    if depth == 0:
        return '...'
    if t.k == '+':
        return '(' + ' + '.join(show(a, depth - 1) for a in t.args[:6]) + (' + ...' if len(t.args) > 6 else '') + ')'
    if t.k == '*':
        return '*'.join(show(a, depth - 1) for a in t.args[:6])
    if t.k == '/':
        return '(%s/%s)' % (show(t.args[0], depth - 1), show(t.args[1], depth - 1))
    if t.k == 'pow':
        return '%s^%d' % (show(t.args[0], depth - 1), t.args[1])
    return '%s(%s)' % (t.k if t.k != 'app' else t.args[0],
                       ', '.join(show(a, depth - 1) if isinstance(a, T) else str(a)
                                 for a in (t.args if t.k != 'app' else t.args[1:])))


def mk(k, args):
    key = (k,) + tuple(a.id if isinstance(a, T) else ('#', a) for a in args)
    t = _INTERN.get(key)
    if t is None:
        t = T.__new__(T)
        t.k = k
        t.args = tuple(args)
        t.id = _NEXT[0]
        _NEXT[0] += 1
        t._nf = None
        _INTERN[key] = t
    return t


def q(x):
    return mk('q', (Fraction(x),))


ZERO, ONE, MINUS1 = q(0), q(1), q(-1)
NAN = mk('nan', ())


def lift(o):
    if isinstance(o, T):
        return o
    if isinstance(o, bool):
        return ONE if o else ZERO
    if isinstance(o, (int, Fraction)):
        return q(o)
    if isinstance(o, float):
        if o != o:
            return NAN
        return q(rat_of_float(o))
    ty = type(o)
    if ty.__module__ == 'numpy':
        import numpy as np
        if isinstance(o, np.bool_):
            return ONE if o else ZERO
        if isinstance(o, np.integer):
            return q(int(o))
        if isinstance(o, np.floating):
            return lift(float(o))
        if isinstance(o, np.ndarray) and o.shape == ():
            return lift(o.item())
    if isinstance(o, SB):
        return ite(o, ONE, ZERO)
    return None


POSITIVE = set()      # names of variables declared > 0
NONNEG = set()
_FRESH = [0]


def var(name, pos=False, nonneg=False):
    if pos:
        POSITIVE.add(name)
    if nonneg:
        NONNEG.add(name)
    return mk('v', (name,))


def fresh(prefix='h', **kw):
    _FRESH[0] += 1
    return var('%s!%d' % (prefix, _FRESH[0]), **kw)


def add(a, b):
    if a.k == 'nan' or b.k == 'nan':
        return NAN
    if a.k == 'q' and b.k == 'q':
        return q(a.args[0] + b.args[0])
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    # flatten sums a little
    xs = (a.args if a.k == '+' and len(a.args) < 64 else (a,)) + (b.args if b.k == '+' and len(b.args) < 64 else (b,))
    c = Fraction(0)
    co = {}
    order = []
    for x in xs:
        if x.k == 'q':
            c += x.args[0]
            continue
        f, r = Fraction(1), x
        if x.k == '*' and x.args[0].k == 'q':
            f = x.args[0].args[0]
            r = mk('*', x.args[1:]) if len(x.args) > 2 else x.args[1]
        if r.id in co:
            co[r.id][0] += f
        else:
            co[r.id] = [f, r]
            order.append(r.id)
    out = []
    for i in order:
        f, r = co[i]
        if f == 0:
            continue
        out.append(r if f == 1 else mul(q(f), r))
    if c != 0:
        out.append(q(c))
    if not out:
        return ZERO
    if len(out) == 1:
        return out[0]
    return mk('+', tuple(out))


def mul(a, b):
    if a.k == 'nan' or b.k == 'nan':
        return NAN
    if a.k == 'q' and b.k == 'q':
        return q(a.args[0] * b.args[0])
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    xs = (a.args if a.k == '*' and len(a.args) < 24 else (a,)) + (b.args if b.k == '*' and len(b.args) < 24 else (b,))
    c = Fraction(1)
    rest = []
    for x in xs:
        if x.k == 'q':
            c *= x.args[0]
        else:
            rest.append(x)
    if c == 0:
        return ZERO
    if not rest:
        return q(c)
    # square roots of constants cancel pairwise
    rest.sort(key=lambda t: t.id)
    i = 0
    out = []
    while i < len(rest):
        x = rest[i]
        if x.k == 'root' and x.args[1] == 2 and x.args[0].k == 'q' and i + 1 < len(rest) and rest[i + 1] is x:
            c *= x.args[0].args[0]
            i += 2
            continue
        out.append(x)
        i += 1
    if not out:
        return q(c)
    if c != 1:
        out = [q(c)] + out
    if len(out) == 1:
        return out[0]
    return mk('*', tuple(out))


def div(a, b):
    if a.k == 'nan' or b.k == 'nan':
        return NAN
    if b.k == 'q':
        if b.args[0] == 0:
            # real torch gives inf or nan here
            raise Unsupported('division by the constant zero')
        return mul(q(1 / b.args[0]), a)
    if a is ZERO:
        return ZERO
    if a is b:
        return ONE
    return mk('/', (a, b))


def power(a, n):
    if isinstance(n, T):
        if not n.is_const():
            return app('pow', a, n)
        n = n.const()
    elif isinstance(n, float):
        n = rat_of_float(n)
    elif hasattr(n, 'a') and hasattr(n, 'item'):
        return power(a, n.item())
    else:
        n = Fraction(n)
    if a.k == 'nan':
        return NAN
    if n.denominator == 1:
        n = int(n)
        if n == 0:
            return ONE
        if a.k == 'q' and (n > 0 or a.args[0] != 0):
            return q(a.args[0] ** n)
        if n < 0:
            return div(ONE, power(a, -n))
        if n == 1:
            return a
        return mk('pow', (a, n))
    r = root(a, n.denominator)
    return power(r, n.numerator)


def isqrt_exact(n):
    r = math.isqrt(n)
    return r if r * r == n else None


def root(a, n):
    a = lift(a)
    if a.k == 'nan':
        return NAN
    if a.k == 'q':
        f = a.args[0]
        if f < 0:
            return NAN
        if n == 2:
            p, d = isqrt_exact(f.numerator), isqrt_exact(f.denominator)
            if p is not None and d is not None:
                return q(Fraction(p, d))
        if f in (0, 1):
            return a
    return mk('root', (a, n))


def absolute(a):
    if a.k == 'nan':
        return NAN
    if a.k == 'q':
        return q(abs(a.args[0]))
    if a.k == 'root' or (a.k == 'v' and (a.args[0] in POSITIVE or a.args[0] in NONNEG)):
        return a
    return app('abs', a)


def t_max(a, b):
    a, b = lift(a), lift(b)
    if a.k == 'q' and b.k == 'q':
        return a if a.args[0] >= b.args[0] else b
    return app('max', a, b)


def t_min(a, b):
    a, b = lift(a), lift(b)
    if a.k == 'q' and b.k == 'q':
        return a if a.args[0] <= b.args[0] else b
    return app('min', a, b)


def ite(c, a, b):
    if isinstance(c, bool):
        return lift(a) if c else lift(b)
    a, b = lift(a), lift(b)
    if a is b:
        return a
    return mk('ite', (c, a, b))


def concretise(t, limit=64):
    """Forks on the conditions of a count (sum of conditionals, max/min of such) until it is a constant; None otherwise."""
    for _ in range(limit):
        if t.k == 'q':
            return t
        st, found, seen = [t], None, set()
        while st and found is None:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.k == 'v':
                return None
            if x.k == 'ite' and not isinstance(x.args[0], bool):
                found = x
            elif x.k == 'app' and x.args[0] in ('max', 'min') and not any(y.k == 'ite' for y in x.args[1:]):
                st.extend(a for a in x.args[1:] if isinstance(a, T))
            elif x.k == 'app' and x.args[0] not in ('max', 'min'):
                return None
            else:
                st.extend(a for a in x.args if isinstance(a, T))
        if found is None:
            return None
        v = found.args[1] if bool(found.args[0]) else found.args[2]
        t = subst(t, {found.id: v})
    return None


_EVEN = {'cos'}
_ODD = {'sin', 'tanh'}


def app(name, *args):
    args = tuple(lift(a) for a in args)
    if any(a.k == 'nan' for a in args):
        return NAN
    if args and all(a.k == 'q' for a in args):
        v = args[0].args[0]
        if name in ('sin', 'tanh') and v == 0:
            return ZERO
        if name in ('cos', 'exp') and v == 0:
            return ONE
        if name == 'log' and v == 1:
            return ZERO
        if name == 'sigmoid' and v == 0:
            return q(Fraction(1, 2))
        if name == 'abs':
            return q(abs(v))
    if name == 'pow' and args[1].k == 'q':
        return power(args[0], args[1].args[0])
    return mk('app', (name,) + args)


# ------------------------------------------------------------------------------------------- booleans
class SB:
    """Symbolic boolean."""
    __slots__ = ('k', 'args')
    __array_priority__ = 1000
    decide = None       # installed by the engine

    def __init__(self, k, args):
        self.k, self.args = k, args

    def __bool__(self):
        if SB.decide is None:
            raise Unsupported('symbolic condition outside an exploration')
        return SB.decide(self)

    def __and__(self, o):
        return b_and(self, as_bool(o))
    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, as_bool(o))
    __ror__ = __or__

    def __invert__(self):
        return b_not(self)

    def __eq__(self, o):
        o = as_bool(o)
        if isinstance(o, bool):
            return self if o else b_not(self)
        if o is self:
            return True
        return b_or(b_and(self, o), b_and(b_not(self), b_not(o)))

    def __ne__(self, o):
        r = self.__eq__(o)
        return (not r) if isinstance(r, bool) else b_not(r)

    def __hash__(self):
        return id(self)

    def __xor__(self, o):
        return self.__ne__(o)

    # arithmetic on booleans
    def _t(self):
        return ite(self, ONE, ZERO)

    def __add__(self, o):
        return self._t() + o
    __radd__ = __add__

    def __mul__(self, o):
        return self._t() * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return self._t() - o

    def __rsub__(self, o):
        return o - self._t()

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        if self.k == 'atom':
            return '(%s %s 0)' % (show(self.args[1]), self.args[0])
        if self.k == 'bv':
            return self.args[0]
        return '%s(%s)' % (self.k, ', '.join(map(repr, self.args)))

    def item(self):
        return self


def as_bool(o):
    if isinstance(o, (SB, bool)):
        return o
    if isinstance(o, T):
        return b_not(atom('==', o))
    if hasattr(o, 'item'):
        return as_bool(o.item())
    return bool(o)


def fresh_bool(prefix='b'):
    _FRESH[0] += 1
    return SB('bv', ('%s!%d' % (prefix, _FRESH[0]),))


def atom(rel, t):
    if t.k == 'nan':
        return False
    if t.k == 'q':
        c = t.args[0]
        return c < 0 if rel == '<' else c <= 0 if rel == '<=' else c == 0
    if t.k == 'v':
        n = t.args[0]
        if n in POSITIVE:
            return False
        if n in NONNEG and rel == '<':
            return False
    if t.k == '*' and len(t.args) == 2 and t.args[0].k == 'q' and t.args[1].k == 'v':
        n, c = t.args[1].args[0], t.args[0].args[0]
        if n in POSITIVE:
            return (c < 0) if rel != '==' else False
    return SB('atom', (rel, t))


def b_not(a):
    if isinstance(a, bool):
        return not a
    if a.k == 'not':
        return a.args[0]
    return SB('not', (a,))


def b_and(a, b):
    if isinstance(a, bool):
        return b if a else False
    if isinstance(b, bool):
        return a if b else False
    return SB('and', (a, b))


def b_or(a, b):
    if isinstance(a, bool):
        return True if a else b
    if isinstance(b, bool):
        return True if b else a
    return SB('or', (a, b))


# ------------------------------------------------------------------------------- polynomials, rationals
# generator table: id -> ('v', name) | ('root', n, Rat) | ('app', name, (Rat, ...)) | ('ite', SB, Rat, Rat) | ('opaque', term)
GENS = []
_GENKEY = {}


def gen_id(key, info):
    g = _GENKEY.get(key)
    if g is None:
        g = len(GENS)
        GENS.append(info)
        _GENKEY[key] = g
    return g


def p_add(a, b, s=1):
    if len(a) < len(b) and s == 1:
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + (c if s == 1 else s * c)
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        ga, ea = a[i]
        gb, eb = b[j]
        if ga < gb:
            out.append(a[i])
            i += 1
        elif gb < ga:
            out.append(b[j])
            j += 1
        else:
            e = ea + eb
            if e:
                out.append((ga, e))
            i += 1
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


class Budget(Unsupported):
    pass


P_LIMIT = 400000


def p_mul(a, b):
    if len(a) * len(b) > 40 * P_LIMIT:
        raise Budget('polynomial product too large')
    if len(a) == 1 and () in a:
        c = a[()]
        return b if c == 1 else {m: c * v for m, v in b.items()}
    if len(b) == 1 and () in b:
        c = b[()]
        return a if c == 1 else {m: c * v for m, v in a.items()}
    r = {}
    for ma, ca in a.items():
        for mb, cb in b.items():
            m = m_mul(ma, mb)
            v = r.get(m, 0) + ca * cb
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
    if len(r) > P_LIMIT:
        raise Budget('polynomial too large')
    return r


def p_key(p):
    return tuple(sorted(p.items()))


class Rat:
    """num / prod(den factors); Laurent monomials allowed in num; den: dict polykey -> exponent > 0."""
    __slots__ = ('num', 'den', '_key')

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}
        self._key = None

    def is_zero(self):
        return not self.num

    def key(self):
        if self._key is None:
            r = r_cancel(self)
            self._key = (p_key(r.num), tuple(sorted(r.den.items())))
        return self._key


def r_const(c):
    return Rat({(): c} if c else {})


R0, R1 = r_const(0), r_const(1)


def p_pow(p, n):
    r = {(): 1}
    for _ in range(n):
        r = p_mul(r, p)
    return r


def r_add(a, b, s=1):
    if not b.num:
        return a
    if not a.num:
        return b if s == 1 else Rat({m: -c for m, c in b.num.items()}, b.den)
    if a.den == b.den:
        n = p_add(a.num, b.num, s)
        return Rat(n, a.den) if n else R0
    na, nb = a.num, b.num
    den = dict(a.den)
    for k, e in b.den.items():
        den[k] = max(den.get(k, 0), e)
    for k, e in den.items():
        ea, eb = e - a.den.get(k, 0), e - b.den.get(k, 0)
        p = dict(k)
        if ea:
            na = reduce_gens(p_mul(na, p_pow(p, ea)))
        if eb:
            nb = reduce_gens(p_mul(nb, p_pow(p, eb)))
    # reduce_gens may return Rat
    if isinstance(na, Rat) or isinstance(nb, Rat):
        ra = na if isinstance(na, Rat) else Rat(na)
        rb = nb if isinstance(nb, Rat) else Rat(nb)
        return r_mul(r_add(ra, rb, s), Rat({(): 1}, den))
    n = p_add(na, nb, s)
    return Rat(n, den) if n else R0


def r_mul(a, b):
    if not a.num or not b.num:
        return R0
    den = dict(a.den)
    for k, e in b.den.items():
        den[k] = den.get(k, 0) + e
    n = reduce_gens(p_mul(a.num, b.num))
    if isinstance(n, Rat):
        d2 = dict(den)
        for k, e in n.den.items():
            d2[k] = d2.get(k, 0) + e
        return Rat(n.num, d2) if n.num else R0
    return Rat(n, den) if n else R0


def _needs_reduce(p):
    for m in p:
        for g, e in m:
            if (e < 0 or e > 1):
                info = GENS[g]
                if info[0] == 'root' and (e < 0 or e >= info[1]):
                    return True
    return False


def reduce_gens(p):
    """Applies r^n -> arg for root generators.  Returns a poly, or a Rat when args have denominators."""
    if not _needs_reduce(p):
        return p
    acc_p = {}
    acc = R0
    subs_cache = {}
    for m, c in p.items():
        bad = None
        for g, e in m:
            info = GENS[g]
            if info[0] == 'root' and (e < 0 or e >= info[1]):
                bad = (g, e, info)
                break
        if bad is None:
            v = acc_p.get(m, 0) + c
            if v == 0:
                acc_p.pop(m, None)
            else:
                acc_p[m] = v
            continue
        rest = []
        fac = R1
        for g, e in m:
            info = GENS[g]
            if info[0] == 'root' and (e < 0 or e >= info[1]):
                n = info[1]
                k, r = divmod(e, n)
                if r:
                    rest.append((g, r))
                ck = (g, k)
                if ck not in subs_cache:
                    subs_cache[ck] = r_powi(info[2], k)
                fac = r_mul(fac, subs_cache[ck])
            else:
                rest.append((g, e))
        acc = r_add(acc, r_mul(Rat({tuple(rest): c}), fac))
    if not acc.num:
        return acc_p
    res = r_add(Rat(acc_p), acc) if acc_p else acc
    if not res.den:
        return reduce_gens(res.num)
    return res


def p_content(p):
    """(constant, monomial, primitive) with p = c * mono * prim; prim has integer coprime coefficients and no monomial factor."""
    from math import gcd
    g = 0
    l = 1
    for c in p.values():
        c = Fraction(c)
        l = l * c.denominator // gcd(l, c.denominator)
    for c in p.values():
        g = gcd(g, int(Fraction(c) * l))
    const = Fraction(g, l)
    # monomial gcd
    it = iter(p)
    common = dict(next(it))
    for m in it:
        d = dict(m)
        for k in list(common):
            e = d.get(k, 0)
            if k not in d:
                e = 0
            common[k] = min(common[k], e)
        for k, e in d.items():
            if k not in common and e < 0:
                common[k] = e
    # generators absent from some monomial have exponent 0 there
    for k in list(common):
        if common[k] > 0 and any(dict(m).get(k, 0) == 0 for m in p):
            common[k] = 0
        if common[k] == 0:
            del common[k]
    mono = tuple(sorted(common.items()))
    inv = tuple((k, -e) for k, e in mono)
    prim = {m_mul(m, inv): Fraction(c) / const for m, c in p.items()}
    prim = {m: (int(c) if c.denominator == 1 else c) for m, c in prim.items()}
    return const, mono, prim


def r_inv(a):
    if not a.num:
        raise ZeroDivisionError
    c, mono, prim = p_content(a.num)
    num = {(): Fraction(1) / c}
    if any(GENS[g][0] == 'root' for g, e in mono):
        r = reduce_gens({tuple((g, -e) for g, e in mono): Fraction(1) / c})
        base = r if isinstance(r, Rat) else Rat(r)
    else:
        base = Rat({tuple((g, -e) for g, e in mono): Fraction(1) / c})
    if len(prim) == 1 and () in prim and prim[()] < 0:
        base = Rat({m: -v for m, v in base.num.items()}, base.den)
    if len(prim) > 1:
        # conjugate when the primitive part is linear in constant roots (rationalise), e.g. 5 + 3*sqrt(5)
        k = p_key(prim)
        rr = _rationalise(prim)
        if rr is not None:
            base = r_mul(base, rr)
        else:
            lead = max(prim)
            if prim[lead] < 0:
                prim = {m: -v for m, v in prim.items()}
                base = Rat({m: -v for m, v in base.num.items()}, base.den)
                k = p_key(prim)
            base = Rat(base.num, dict(base.den, **{}) if not base.den else dict(base.den))
            d = dict(base.den)
            d[k] = d.get(k, 0) + 1
            base = Rat(base.num, d)
    out = base
    for k, e in a.den.items():
        p = p_pow(dict(k), e)
        out = r_mul(out, Rat(p))
    return out


def _rationalise(p):
    gs = set()
    for m in p:
        for g, e in m:
            gs.add(g)
    if not gs:
        return None
    for g in gs:
        info = GENS[g]
        if not (info[0] == 'root' and info[1] == 2 and not info[2].den and set(info[2].num) <= {()}):
            return None
    num = {(): 1}
    den = p
    for g in gs:
        conj = {m: (-c if dict(m).get(g, 0) else c) for m, c in den.items()}
        num = reduce_gens(p_mul(num, conj))
        den = reduce_gens(p_mul(den, conj))
        if isinstance(num, Rat) or isinstance(den, Rat) or not den:
            return None
    if set(den) != {()}:
        return None
    c = Fraction(1) / Fraction(den[()])
    return Rat({m: c * v for m, v in num.items()})


def r_powi(a, n):
    if n < 0:
        return r_powi(r_inv(a), -n)
    r = R1
    for _ in range(n):
        r = r_mul(r, a)
    return r


def p_divexact(p, d):
    """Exact division of Laurent-free-enough polynomials; None if not exact (bounded effort)."""
    if len(p) > 4000:
        return None
    lead = max(d)
    lc = d[lead]
    linv = tuple((g, -e) for g, e in lead)
    rem = dict(p)
    out = {}
    steps = 0
    while rem:
        steps += 1
        if steps > 3000:
            return None
        m = max(rem)
        qm = m_mul(m, linv)
        if any(e < 0 and not any(g == gg for gg, _ in _neg_gens(p)) for g, e in qm):
            return None
        qc = Fraction(rem[m]) / lc
        if qm in out:
            return None
        out[qm] = qc
        for dm, dc in d.items():
            mm = m_mul(qm, dm)
            v = rem.get(mm, 0) - qc * dc
            if v == 0:
                rem.pop(mm, None)
            else:
                rem[mm] = v
        if len(out) > 3000:
            return None
    return {m: (int(c) if c.denominator == 1 else c) for m, c in out.items()}


def _neg_gens(p):
    return ()


def _grevkey(m):
    return m


def r_cancel(a):
    if not a.den or not a.num:
        return a if a.num else R0
    num = a.num
    if any(e < 0 for m in num for g, e in m):
        # clear negative exponents for division
        pass
    den = dict(a.den)
    changed = False
    for k in list(den):
        d = dict(k)
        if any(GENS[g][0] == 'root' for m in d for g, e in m):
            continue
        while den.get(k, 0):
            qn = poly_div(num, d)
            if qn is None:
                break
            num = qn
            changed = True
            den[k] -= 1
            if not den[k]:
                del den[k]
    return Rat(num, den) if changed else a


def poly_div(p, d):
    """Exact quotient p/d using an elimination order on dense exponent vectors; None if inexact."""
    if len(p) * len(d) > 200000:
        return None
    gens = sorted({g for m in p for g, _ in m} | {g for m in d for g, _ in m})
    if not {g for m in d for g, _ in m} <= {g for m in p for g, _ in m}:
        return None
    pos = {g: i for i, g in enumerate(gens)}
    n = len(gens)
    low = [0] * n
    for m in p:
        for g, e in m:
            if e < low[pos[g]]:
                low[pos[g]] = e

    def dense(m, off=None):
        v = [0] * n
        for g, e in m:
            v[pos[g]] = e
        if off:
            v = [x - o for x, o in zip(v, off)]
        return tuple(v)
    P = {dense(m, low): Fraction(c) for m, c in p.items()}
    D = {dense(m): Fraction(c) for m, c in d.items()}
    if any(e < 0 for v in D for e in v):
        return None
    lead = max(D)
    lc = D[lead]
    out = {}
    while P:
        m = max(P)
        qm = tuple(x - y for x, y in zip(m, lead))
        if any(x < 0 for x in qm):
            return None
        qc = P[m] / lc
        out[qm] = qc
        if len(out) > 20000:
            return None
        for dm, dc in D.items():
            mm = tuple(x + y for x, y in zip(qm, dm))
            v = P.get(mm, 0) - qc * dc
            if v == 0:
                P.pop(mm, None)
            else:
                P[mm] = v
    res = {}
    for v, c in out.items():
        m = tuple((gens[i], v[i] + low[i]) for i in range(n) if v[i] + low[i])
        res[m] = int(c) if c.denominator == 1 else c
    return res


# positivity oracle: installed by the solver; called with a polynomial (dict), returns True/False
POS_ORACLE = [None]


def p_syntactic_pos(p):
    """All coefficients positive and all generators known positive."""
    strict = False
    for m, c in p.items():
        if c < 0:
            return False
        ok_strict = True
        for g, e in m:
            if e % 2 == 0:
                if not gen_positive(g):
                    ok_strict = False
                continue
            if gen_positive(g):
                continue
            if gen_nonneg(g) and e > 0:
                ok_strict = False
                continue
            return False
        strict = strict or ok_strict
    return strict


def gen_positive(g):
    info = GENS[g]
    if info[0] == 'v':
        return info[1] in POSITIVE
    if info[0] == 'root':
        r = info[2]
        return not r.den and p_syntactic_pos(r.num)
    if info[0] == 'app':
        return info[1] in POS_APPS
    return False


POS_APPS = {'exp', 'sigmoid', 'pi'}


def gen_nonneg(g):
    info = GENS[g]
    if info[0] == 'v':
        return info[1] in POSITIVE or info[1] in NONNEG
    if info[0] == 'root':
        return True
    if info[0] == 'app':
        return info[1] in POS_APPS or info[1] == 'abs'
    return False


def poly_positive(p):
    if p_syntactic_pos(p):
        return True
    if POS_ORACLE[0] is not None:
        return POS_ORACLE[0](p)
    return False


def _prime_factors(n):
    out = {}
    d = 2
    while d * d <= n and d < 100000:
        while n % d == 0:
            out[d] = out.get(d, 0) + 1
            n //= d
        d += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def r_root(r, n):
    """Normal form of the n-th root of r (defined where r >= 0)."""
    r = r_cancel(r)
    if not r.num:
        return R0
    const, mono, prim = p_content(r.num)
    outside = R1
    in_const = Fraction(1)
    # constants: prime by prime
    num_f = dict(_prime_factors(const.numerator))
    for p_, e in _prime_factors(const.denominator).items():
        num_f[p_] = num_f.get(p_, 0) - e
    sgn = 1
    roots = []
    for p_, e in num_f.items():
        k, rem = divmod(e, n)
        outside = r_mul(outside, r_const(Fraction(p_) ** k))
        if rem:
            g = gen_id(('root', n, ('const', p_)), ('root', n, r_const(p_)))
            roots.append((g, rem))
    inside_mono = []
    for g, e in mono:
        k, rem = divmod(e, n)
        if k and gen_positive(g) or (k and n % 2 == 1):
            outside = r_mul(outside, Rat({((g, k),): 1}))
            if rem:
                inside_mono.append((g, rem))
        else:
            inside_mono.append((g, e))
    inside_den = {}
    extra_num = {(): 1}
    for k, e in r.den.items():
        p_ = dict(k)
        if poly_positive(p_):
            kk = -((-e) // n)
            outside = r_mul(outside, r_powi(r_inv(Rat(p_)), kk))
            rem = kk * n - e
            if rem:
                extra_num = p_mul(extra_num, p_pow(p_, rem))
        else:
            inside_den[k] = e
    inner_num = reduce_gens(p_mul(p_mul(prim, {tuple(inside_mono): 1}), extra_num))
    inner = inner_num if isinstance(inner_num, Rat) else Rat(inner_num)
    if inside_den:
        inner = r_mul(inner, Rat({(): 1}, inside_den))
    res = outside
    if roots:
        rr = reduce_gens({tuple(sorted(roots)): 1})
        res = r_mul(res, rr if isinstance(rr, Rat) else Rat(rr))
    if not (inner.num == {(): 1} and not inner.den):
        if set(inner.num) == {()} and not inner.den:
            c = Fraction(inner.num[()])
            if c > 0:
                return r_mul(res, r_root(r_const(c), n))
        g = gen_id(('root', n, inner.key()), ('root', n, inner))
        res = r_mul(res, Rat({((g, 1),): 1}))
    return res


NF_EPOCH = [0]


def nf(t):
    """Rational normal form of a term (cached per term)."""
    c = t._nf
    if c is not None and c[0] == NF_EPOCH[0]:
        return c[1]
    # iterative post-order to avoid deep recursion
    stack = [t]
    while stack:
        x = stack[-1]
        if x._nf is not None and x._nf[0] == NF_EPOCH[0]:
            stack.pop()
            continue
        kids = [a for a in x.args if isinstance(a, T)]
        todo = [a for a in kids if a._nf is None or a._nf[0] != NF_EPOCH[0]]
        if todo:
            stack.extend(todo)
            continue
        x._nf = (NF_EPOCH[0], _nf1(x))
        stack.pop()
    return t._nf[1]


def _n(a):
    return a._nf[1]


def _nf1(x):
    k = x.k
    if k == 'q':
        f = x.args[0]
        return r_const(int(f) if f.denominator == 1 else f)
    if k == 'v':
        g = gen_id(('v', x.args[0]), ('v', x.args[0]))
        return Rat({((g, 1),): 1})
    if k == '+':
        acc = {}
        rest = R0
        for a in x.args:
            r = _n(a)
            if r.den:
                rest = r_add(rest, r)
            else:
                acc = p_add(acc, r.num)
        res = Rat(acc)
        return r_add(res, rest) if rest.num else res
    if k == '*':
        r = R1
        for a in sorted(x.args, key=lambda a: len(_n(a).num)):
            r = r_mul(r, _n(a))
        return r
    if k == '/':
        d = _n(x.args[1])
        if not d.num:
            raise Unsupported('division by a term that is identically zero')
        return r_mul(_n(x.args[0]), r_inv(d))
    if k == 'pow':
        return r_powi(_n(x.args[0]), x.args[1])
    if k == 'root':
        return r_root(_n(x.args[0]), x.args[1])
    if k == 'app':
        name = x.args[0]
        args = [_n(a) for a in x.args[1:]]
        sign = 1
        if name == 'abs':
            if not args[0].num:
                return R0
            args[0], s = _norm_sign(args[0])
            if poly_positive_r(args[0]):
                return args[0]
            if poly_positive_r(r_mul(r_const(-1), args[0])):
                return r_mul(r_const(-1), args[0])
        elif name in _ODD or name in _EVEN:
            if not args[0].num:
                return R0 if name in _ODD else R1
            args[0], s = _norm_sign(args[0])
            if name in _ODD:
                sign = s
        elif name in ('max', 'min'):
            d = r_add(args[0], args[1], -1)
            sg = r_sign(d)
            if sg is not None:
                return args[0] if (sg >= 0) == (name == 'max') else args[1]
        key = ('app', name) + tuple(a.key() for a in args)
        g = gen_id(key, ('app', name, tuple(args), x))
        return Rat({((g, 1),): sign})
    if k == 'ite':
        key = ('ite', id(x))
        g = gen_id(key, ('ite', x.args[0], _n(x.args[1]), _n(x.args[2]), x))
        return Rat({((g, 1),): 1})
    raise Unsupported('normal form of ' + k)


def _norm_sign(r):
    lead = max(r.num)
    if r.num[lead] < 0:
        return Rat({m: -c for m, c in r.num.items()}, r.den), -1
    return r, 1


def r_sign(r):
    """1: never negative, -1: never positive, None: not known (syntactic)."""
    if not r.num:
        return 1
    if not all(e % 2 == 0 or p_syntactic_pos(dict(k)) for k, e in r.den.items()):
        return None
    if p_syntactic_nonneg(r.num):
        return 1
    if p_syntactic_nonneg({m: -c for m, c in r.num.items()}):
        return -1
    return None


def p_syntactic_nonneg(p):
    return all(c > 0 and all(e % 2 == 0 or gen_nonneg(g) for g, e in m) for m, c in p.items())


def poly_positive_r(r):
    return all(p_syntactic_pos(dict(k)) for k in r.den) and p_syntactic_pos(r.num)


def new_epoch():
    """Forget normal forms (needed when positivity facts change)."""
    NF_EPOCH[0] += 1


def is_zero(t):
    return nf(t).is_zero()


# ------------------------------------------------------------------------------------------ calculus
DERIV = {}       # app name -> function(args, i) -> term


def diff(t, v, memo=None):
    """d t / d v for a variable term v (v.k == 'v')."""
    memo = {} if memo is None else memo

    def d(x):
        if x is v:
            return ONE
        if x.k in ('q', 'v'):
            return ZERO
        r = memo.get(x.id)
        if r is not None:
            return r
        k = x.k
        if k == '+':
            r = ZERO
            for a in x.args:
                r = r + d(a)
        elif k == '*':
            r = ZERO
            for i, a in enumerate(x.args):
                da = d(a)
                if da is ZERO:
                    continue
                p = da
                for j, b in enumerate(x.args):
                    if j != i:
                        p = p * b
                r = r + p
        elif k == '/':
            a, b = x.args
            da, db = d(a), d(b)
            r = ZERO
            if da is not ZERO:
                r = da / b
            if db is not ZERO:
                r = r - a * db / (b * b)
        elif k == 'pow':
            a, n = x.args
            da = d(a)
            r = ZERO if da is ZERO else q(n) * power(a, n - 1) * da
        elif k == 'root':
            a, n = x.args
            da = d(a)
            r = ZERO if da is ZERO else da * x / (q(n) * a)
        elif k == 'app':
            r = ZERO
            for i, a in enumerate(x.args[1:]):
                da = d(a)
                if da is ZERO:
                    continue
                r = r + d_app(x, i) * da
        elif k == 'ite':
            r = ite(x.args[0], d(x.args[1]), d(x.args[2]))
        else:
            raise Unsupported('derivative of ' + k)
        memo[x.id] = r
        return r
    return d(t)


def d_app(x, i):
    name, args = x.args[0], x.args[1:]
    if name == 'exp':
        return x
    if name == 'log':
        return ONE / args[0]
    if name == 'sin':
        return app('cos', args[0])
    if name == 'cos':
        return -app('sin', args[0])
    if name == 'tanh':
        return ONE - x * x
    if name == 'sigmoid':
        return x * (ONE - x)
    if name == 'abs':
        return ite(atom('<', args[0]), MINUS1, ONE)
    if name in ('max', 'min'):
        # one-sided at a tie
        first = atom('<', args[1] - args[0]) if name == 'max' else atom('<', args[0] - args[1])
        return ite(first, ONE, ZERO) if i == 0 else ite(first, ZERO, ONE)
    if name == 'pow':
        a, b = args
        if i == 0:
            return b * app('pow', a, b) / a
        return x * app('log', a)
    if name in DERIV:
        return DERIV[name](args, i)
    raise Unsupported('derivative of ' + name)


def subst(t, env, memo=None):
    """Replace terms (keys: term ids) in t."""
    memo = {} if memo is None else memo

    def s(x):
        if x.id in env:
            return env[x.id]
        if not x.args or x.k in ('q', 'v'):
            return x
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.k == '+':
            r = ZERO
            for a in x.args:
                r = r + s(a)
        elif x.k == '*':
            r = ONE
            for a in x.args:
                r = r * s(a)
        elif x.k == '/':
            r = s(x.args[0]) / s(x.args[1])
        elif x.k == 'pow':
            r = power(s(x.args[0]), x.args[1])
        elif x.k == 'root':
            r = root(s(x.args[0]), x.args[1])
        elif x.k == 'app':
            args = [s(a) for a in x.args[1:]]
            n_ = x.args[0]
            r = (absolute(args[0]) if n_ == 'abs' else t_max(*args) if n_ == 'max' else t_min(*args) if n_ == 'min'
                 else app(n_, *args))
        elif x.k == 'ite':
            r = ite(subst_b(x.args[0], env, memo), s(x.args[1]), s(x.args[2]))
        else:
            r = x
        memo[x.id] = r
        return r
    return s(t)


def subst_b(b, env, memo=None):
    if isinstance(b, bool):
        return b
    if b.k == 'atom':
        return atom(b.args[0], subst(b.args[1], env, memo))
    if b.k == 'not':
        return b_not(subst_b(b.args[0], env, memo))
    if b.k == 'and':
        return b_and(subst_b(b.args[0], env, memo), subst_b(b.args[1], env, memo))
    if b.k == 'or':
        return b_or(subst_b(b.args[0], env, memo), subst_b(b.args[1], env, memo))
    return b


# ------------------------------------------------------------------------------------------ evaluation
def evaluate(t, env, funcs=None, memo=None):
    """Float value of a term under env: name -> float; funcs: app name -> python function."""
    funcs = funcs or {}
    memo = {} if memo is None else memo

    def ev(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        k = x.k
        if k == 'q':
            r = float(x.args[0])
        elif k == 'nan':
            r = float('nan')
        elif k == 'v':
            r = float(env[x.args[0]])
        elif k == '+':
            r = math.fsum(ev(a) for a in x.args)
        elif k == '*':
            r = 1.0
            for a in x.args:
                r *= ev(a)
        elif k == '/':
            b = ev(x.args[1])
            r = ev(x.args[0]) / b if b else float('nan')
        elif k == 'pow':
            r = ev(x.args[0]) ** x.args[1]
        elif k == 'root':
            v = ev(x.args[0])
            if v < 0:
                r = float('nan') if v < -1e-9 else 0.0
            else:
                r = v ** (1.0 / x.args[1]) if x.args[1] != 2 else math.sqrt(v)
        elif k == 'app':
            name = x.args[0]
            args = [ev(a) for a in x.args[1:]]
            if name in funcs:
                r = funcs[name](*args)
            elif name == 'abs':
                r = abs(args[0])
            elif name == 'max':
                r = max(args)
            elif name == 'min':
                r = min(args)
            elif name == 'sigmoid':
                r = 1.0 / (1.0 + math.exp(-args[0])) if args[0] > -700 else 0.0
            elif name == 'pow':
                r = args[0] ** args[1]
            elif name == 'pi':
                r = math.pi
            else:
                r = getattr(math, name)(*args)
        elif k == 'ite':
            r = ev(x.args[1]) if eval_b(x.args[0], env, funcs, memo) else ev(x.args[2])
        else:
            raise Unsupported('evaluate ' + k)
        memo[x.id] = r
        return r
    return ev(t)


def eval_b(b, env, funcs=None, memo=None):
    if isinstance(b, bool):
        return b
    if b.k == 'atom':
        v = evaluate(b.args[1], env, funcs, memo)
        return v < 0 if b.args[0] == '<' else v <= 0 if b.args[0] == '<=' else v == 0
    if b.k == 'not':
        return not eval_b(b.args[0], env, funcs, memo)
    if b.k == 'and':
        return eval_b(b.args[0], env, funcs, memo) and eval_b(b.args[1], env, funcs, memo)
    if b.k == 'or':
        return eval_b(b.args[0], env, funcs, memo) or eval_b(b.args[1], env, funcs, memo)
    if b.k == 'bv':
        return bool(env[b.args[0]])
    raise Unsupported('eval_b ' + b.k)
