"""Shared vocabulary of the material-model contracts."""
import numpy as np
from contracts.c01 import SYM

S3 = (('1', '1'), ('2', '2'), ('3', '3'), ('1', '2'), ('2', '3'), ('1', '3'))
STD = 'simulators.fetorch.material.models.standard.'
VM = 'simulators.fetorch.material.models.vmap.'


def pt_dim(pt):
    return 3 if pt == 4 else 2


def order(pt):
    """Matricial component order of a problem type (the documented one)."""
    return ('11', '22', '33', '12', '23', '13') if pt == 4 else ('11', '22', '12')


def kf(B, c):
    return B.num(1) if c[0] == c[1] else B.sqrt(B.num(2))


def mf(B, m, pt):
    """Kelvin storage of a symmetric matrix."""
    return [kf(B, c) * m[int(c[0]) - 1][int(c[1]) - 1] for c in order(pt)]


def sym(B, name, pt, **kw):
    n = pt_dim(pt)
    return B.symmat(name, n, **kw)


def full(B, m, pt, m33=0):
    """3x3 matrix of a (plane) symmetric state with its out-of-plane value."""
    if pt == 4:
        return [list(r) for r in m]
    z = B.num(0)
    return [[m[0][0], m[0][1], z], [m[0][1], m[1][1], z], [z, z, m33]]


def unmf(B, v, pt, v33=None):
    """3x3 matrix from a Kelvin vector (and the out-of-plane value in plane problems)."""
    v = list(B.arr(v).reshape(-1))
    z = B.num(0)
    m = [[z] * 3 for _ in range(3)]
    for c, x in zip(order(pt), v):
        i, j = int(c[0]) - 1, int(c[1]) - 1
        m[i][j] = m[j][i] = x if i == j else x / B.sqrt(B.num(2))
    if pt != 4 and v33 is not None:
        m[2][2] = v33
    return m


def trace(m):
    return m[0][0] + m[1][1] + m[2][2]


def dev(B, m):
    t = trace(m) / 3
    return [[m[i][j] - (t if i == j else 0) for j in range(3)] for i in range(3)]


def ddot(a, b):
    s = 0
    for i in range(3):
        for j in range(3):
            s = s + a[i][j] * b[i][j]
    return s


def norm(B, m):
    return B.sqrt(ddot(m, m))


def scal(k, m):
    return [[k * x for x in r] for r in m]


def madd(a, b, k=1):
    return [[x + k * y for x, y in zip(r, s)] for r, s in zip(a, b)]


def moduli(B):
    """Bulk and shear modulus as the free parameters; the technical constants derived from them."""
    K, G = B.var('K', pos=True, dist=(0.5, 3)), B.var('G', pos=True, dist=(0.3, 2))
    E = 9 * K * G / (3 * K + G)
    v = (3 * K - 2 * G) / (2 * (3 * K + G))
    return K, G, E, v


def hooke(B, K, G, m):
    """Isotropic linear elasticity: K tr(e) I + 2 G dev(e)."""
    t = trace(m)
    d = dev(B, m)
    return [[2 * G * d[i][j] + (K * t if i == j else 0) for j in range(3)] for i in range(3)]


def eqm(B, name, got, want, **kw):
    """Equality of symmetric 3x3 matrices, component by component."""
    ix = [(0, 0), (1, 1), (2, 2), (0, 1), (1, 2), (0, 2)]
    B.eq(name, [got[i][j] for i, j in ix], [want[i][j] for i, j in ix], **kw)


def item(B, x):
    a = B.arr(x).reshape(-1)
    B.true('scalar', a.shape == (1,))
    return a[0]


def params(law, name=''):
    """The parameters of a law; the law checks that it is given them and not those of another."""
    law.tags = getattr(law, 'tags', ()) + ('%s%s' % (name, type(law).__name__),)
    return {'law': law.tags[-1]}


def own(law, given):
    if hasattr(law, 'tags') and not (isinstance(given, dict) and given.get('law') in law.tags):
        law.B.true('every hardening law is called with its own parameters', False)


class Law:
    """An arbitrary (positive, non-decreasing) hardening law.

    Symbolically an uninterpreted function `name` with derivative `name'`; positivity and monotonicity are assumed at every
    point where the code or the contract evaluates it.  Numerically a concrete smooth law with sampled parameters.
    """

    def __init__(self, B, name='hy', kind=None, positive=True):
        self.B, self.name, self.seen = B, name, []
        self.positive = positive
        self.kind = kind
        if B.sym and kind is None:
            B.func(name, lambda x: 1.0 + 0.6 * x if x > 0 else 1.0, dname=name + "'")
            B.func(name + "'", lambda x: 0.6 if x > 0 else 0.0)
        else:
            if kind is None:
                kind = self.kind = B.choice(name + 'k', ['linear', 'voce'])
            self.s0 = B.var(name + '_s0', pos=True, dist=(0.2, 2.0)) if positive else 0.0
            self.a = B.var(name + '_a', nonneg=True, dist=(0.0, 2.0))
            self.b = 3.0

    def at(self, x):
        """(value, slope) at a scalar."""
        B = self.B
        if self.kind == 'linear':
            if B.sym:
                return self.s0 + self.a * x, self.a
            return self.s0 + self.a * x, self.a
        if self.kind == 'voce':
            import math
            y = x
            if y < -5:
                y = -5.0
            e = math.exp(-self.b * y)
            return self.s0 + self.a * (1 - e) + 0.2 * y, self.a * self.b * e + 0.2
        v, h = B.fn(self.name, x), B.fn(self.name + "'", x)
        if self.positive:
            B.assume(v >= B.rat(1, 10 ** 6))
        B.assume(h >= 0)
        for y, w in self.seen:
            if y is x:
                break
            d = B.num(0) + x - y
            if B.sym:
                B.assume((d <= 0) | (w <= v))
                B.assume((d >= 0) | (v <= w))
        else:
            self.seen.append((x, v))
        return v, h

    def __call__(self, hardening_parameters, acc_p_strain, is_check_data=False):
        own(self, hardening_parameters)
        B = self.B
        a = B.arr(acc_p_strain)
        val, slo = np.empty(a.shape, object), np.empty(a.shape, object)
        for p in np.ndindex(*a.shape):
            val[p], slo[p] = self.at(a[p] if B.sym else float(a[p]))
        if not B.sym:
            return B.tensor(val.astype(float)), B.tensor(slo.astype(float))
        if not a.shape:
            return B.tensor(val[()]), B.tensor(slo[()])
        return B.tensor(val), B.tensor(slo)


class Jump:
    """A non-decreasing law with a jump at `where`: a return mapping whose solution would lie in the jump has none."""

    def __init__(self, B, low, high, where):
        self.B, self.low, self.high, self.where = B, low, high, where

    def __call__(self, hardening_parameters, acc_p_strain, is_check_data=False):
        own(self, hardening_parameters)
        B = self.B
        a = B.arr(acc_p_strain)
        val = np.empty(a.shape, object)
        for p in np.ndindex(*a.shape):
            x = a[p]
            val[p] = B.num(self.high if B.decide(B.num(0) + x >= self.where) else self.low)
        t = B.tensor(val if a.shape else val[()])
        return t, t * 0.0
