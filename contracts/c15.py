"""C15: Lou-Zhang-Yoon yield function, its derivatives and the state update that uses them."""
import numpy as np
from vf.engine import case
from contracts.mat import (STD, VM, Law, mf, sym, full, unmf, moduli, hooke, eqm, item, order, pt_dim, trace, dev, ddot, norm,
                           madd, scal, kf, Jump, params, own)
from contracts.c11 import TOL, is_true, all_nan, old_state, check_failed
FUNCTIONS = ['LouZhangYoon.get_stress_invariants', 'LouZhangYoon.get_stress_invariants_and_derivatives',
             'LouZhangYoon.get_effective_stress', 'LouZhangYoon.get_residual_and_jacobian', 'LouZhangYoon.state_update',
             'LouZhangYoon.state_init', 'LouZhangYoonVMAP.get_stress_invariants',
             'LouZhangYoonVMAP.get_stress_invariants_and_derivatives', 'LouZhangYoonVMAP.get_effective_stress',
             'LouZhangYoonVMAP._get_residual_and_jacobian', 'LouZhangYoonVMAP.state_update', 'LouZhangYoonVMAP._elastic_step',
             'LouZhangYoonVMAP._plastic_step', 'LouZhangYoonVMAP._plastic_step_cone', 'LouZhangYoonVMAP._plastic_step_apex',
             'LouZhangYoonVMAP._nr_iteration', 'LouZhangYoonVMAP._nr_iteration_apex']
ASSUMPTIONS = ['the radicands of the yield function are positive and the stress deviator is nonsingular (domain of the formulas)',
               'yield parameters a, b positive, 27 a^2 b^2 < 9 at zero plastic strain (domain of the apex formula)',
               'callers are checked against the contract of their callee: get_residual_and_jacobian uses arbitrary invariants and '
               'derivatives, state_update an arbitrary effective stress and arbitrary residuals',
               'torch.linalg.solve: only A x = b is assumed', 'Newton loops are cut at their heads']
IMPL = [('standard', dict(impl='standard')), ('vmap', dict(impl='vmap'))]
I3 = [[1 if i == j else 0 for j in range(3)] for i in range(3)]
O6 = ('11', '22', '33', '12', '23', '13')


def cls_of(B, impl):
    return B.mod(STD + 'lou').LouZhangYoon if impl == 'standard' else B.mod(VM + 'lou').LouZhangYoonVMAP


def laws(B, fixed=False, same=False):
    k = None if B.sym else 'linear'
    h = Law(B, 'hy', kind=k)
    if same and not B.sym:
        h.s0, h.a = 1.0, 0.6
    if fixed:
        return [h] + [Fixed(B, n, d) for n, d in (('fa', (0.5, 1.2)), ('fb', (0.05, 0.3)), ('fc', (0.1, 0.6)), ('fd', (0.05, 0.3)))]
    return [h] + [Smooth(B, n, d, same) for n, d in (('ha', (0.5, 1.2)), ('hb', (0.05, 0.3)), ('hc', (0.1, 0.6)), ('hd', (0.05, 0.3)))]


class Fixed:
    """A yield parameter that does not evolve."""

    def __init__(self, B, name, dist):
        self.B, self.v = B, B.var(name, pos=True, dist=dist)

    def at(self, x):
        return self.v, self.B.num(0)

    def __call__(self, hardening_parameters, acc_p_strain, is_check_data=False):
        own(self, hardening_parameters)
        return self.B.tensor(self.v), self.B.tensor(self.B.num(0))


class Smooth:
    """A yield parameter that evolves in any differentiable way (numerically: linearly)."""

    def __init__(self, B, name, dist, same=False):
        self.B, self.name = B, name
        if B.sym:
            B.func(name, lambda x: sum(dist) / 2 + 0.02 * x, dname=name + "'")
            B.func(name + "'", lambda x: 0.02)
        else:
            self.v0, self.s = B.var(name + '0', dist=dist), B.var(name + '1', dist=(0.0, 0.05))
            if same:
                self.v0, self.s = sum(dist) / 2, 0.02

    def at(self, x):
        B = self.B
        if not B.sym:
            return self.v0 + self.s * x, self.s
        v = B.fn(self.name, x)
        if self.name in ('ha', 'hb'):
            B.assume(v > 0)
        return v, B.fn(self.name + "'", x)

    def __call__(self, hardening_parameters, acc_p_strain, is_check_data=False):
        own(self, hardening_parameters)
        B = self.B
        a = B.arr(acc_p_strain)
        x = a.reshape(-1)[0] if a.shape else a[()]
        v, s = self.at(x if B.sym else float(x))
        return B.tensor(v), B.tensor(s)


def build(B, impl, pt, ls, E, v, assoc=False, **kw):
    p = {'elastic_symmetry': 'isotropic', 'E': E, 'v': v, 'euler_angles': (0.0, 0.0, 0.0), 'hardening_law': ls[0],
         'hardening_parameters': params(ls[0]), 'is_associative_hardening': assoc}
    for n, l in zip('abcd', ls[1:]):
        p[n + '_hardening_law'] = l
        p[n + '_hardening_parameters'] = params(l, n)
    c = kw.pop('cls', None) or cls_of(B, impl)
    return c('infinitesimal', pt, p, **kw)


def det3(m):
    return (m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0])
            + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]))


def mm(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(1, 3)), a[i][0] * b[0][j]) for j in range(3)] for i in range(3)]


def proj(B, i, j, k, l):
    return B.rat(1, 2) * (I3[i][k] * I3[j][l] + I3[i][l] * I3[j][k]) - B.rat(1, 3) * I3[i][j] * I3[k][l]


def inst(B, impl, fixed=True, **kw):
    return build(B, impl, 4, [Fixed(B, n, (0.2, 0.4)) for n in ('f0', 'fa', 'fb', 'fc', 'fd')], 1.0, 0.3, **kw)


@case('C15', params=IMPL, ntrials=15)
def invariants(B, impl):
    s = B.symmat('s', 3, dist=(-2, 2))
    t = B.tensor(s)
    keep = B.frozen('stress', [t])
    r = inst(B, impl).get_stress_invariants(t)
    keep()
    d = dev(B, s)
    i1 = trace(s)
    for n, g, w in zip(('i1', 'i2', 'i3', 'j1', 'j2', 'j3'), r,
                       (i1, (i1 * i1 - ddot(s, s)) / 2, det3(s), i1, ddot(d, d) / 2, det3(d))):
        B.eq(n, item(B, g), w)


@case('C15', params=IMPL, ntrials=15, rtol=1e-5)
def invariant_derivatives(B, impl):
    s = B.symmat('s', 3, dist=(-2, 2))
    d = dev(B, s)
    j3 = det3(d)
    B.assume(B.absv(j3) > B.rat(1, 1000))
    r = inst(B, impl).get_stress_invariants_and_derivatives(3, B.tensor(s))
    i1, j2 = trace(s), ddot(d, d) / 2
    for n, g, w in zip(('i1', 'i2', 'i3', 'j1', 'j2', 'j3'), r,
                       (i1, (i1 * i1 - ddot(s, s)) / 2, det3(s), i1, j2, j3)):
        B.eq(n, item(B, g), w)
    dd = mm(d, d)
    t3 = [[dd[i][j] - B.rat(2, 3) * j2 * I3[i][j] for j in range(3)] for i in range(3)]
    B.eq('di1', r[6], np.array(I3, object) if B.sym else np.array(I3, float))
    B.eq('dj2', r[7], d)
    B.eq('dj3', r[8], t3)
    P = [[[[proj(B, i, j, k, l) for l in range(3)] for k in range(3)] for j in range(3)] for i in range(3)]
    B.eq('d2j2', r[9], P)
    # derivative of s.s - 2/3 j2 I
    Q = [[[[sum((d[i][m] * P[m][j][k][l] + d[j][m] * P[m][i][k][l] for m in range(1, 3)),
                d[i][0] * P[0][j][k][l] + d[j][0] * P[0][i][k][l]) - B.rat(2, 3) * I3[i][j] * d[k][l]
            for l in range(3)] for k in range(3)] for j in range(3)] for i in range(3)]
    B.eq('d2j3', r[10], Q)


def cbrt(B, x):
    if B.sym:
        from vf import terms as tm
        return tm.root(tm.lift(x), 3)
    return x ** (1 / 3)


def effective(B, i1, j2, j3, a, b, c, d):
    return a * (b * i1 + cbrt(B, B.sqrt(j2 * j2 * j2 - c * j3 * j3) - d * j3))


@case('C15', params=IMPL, ntrials=25)
def effective_stress(B, impl):
    s = B.symmat('s', 3, dist=(-2, 2))
    a, b, c, d = (B.var(n, dist=ds) for n, ds in (('a', (0.5, 1.5)), ('b', (-0.2, 0.5)), ('c', (-1, 2)), ('d', (-1, 1))))
    v = dev(B, s)
    j2, j3 = ddot(v, v) / 2, det3(v)
    w4 = j2 * j2 * j2 - c * j3 * j3
    B.assume(w4 > B.num(1e-9))
    B.assume(B.sqrt(w4) - d * j3 > B.num(1e-6))
    r = inst(B, impl).get_effective_stress(B.tensor(s), B.tensor(a), B.tensor(b), B.tensor(c), B.tensor(d))
    B.eq('effective stress', item(B, r), effective(B, trace(s), j2, j3, a, b, c, d))


JP = [('%s,%s,%s' % (i, 'associative' if a else 'plastic strain norm', 'fixed' if f else 'evolving'),
       dict(impl=i, assoc=a, fixed=f)) for i in ('standard', 'vmap') for a in (False, True) for f in (False, True)
      if not (i == 'standard' and f)]


def call_residual(B, m, impl, fixed, ls, assoc, C, args):
    es, et, acc, acc0, inc, y0 = args
    f = m.get_residual_and_jacobian if impl == 'standard' else m._get_residual_and_jacobian
    pos = [3, O6, B.tensor(es), B.tensor(et), B.tensor(acc), B.tensor(acc0), B.tensor(inc), C, B.tensor(y0)]
    for l in ls:
        pos += [l, params(l, str(len(pos)))]
    return f(*pos, assoc) if impl == 'standard' else f(*pos, assoc, fixed)


@case('C15', params=JP, ntrials=12, sym_s=200)
def residual_and_jacobian(B, impl, assoc, fixed):
    """Residuals as documented; the Jacobian is their derivative.  The invariants are replaced by arbitrary values with
    arbitrary (symmetric) derivatives, which is what invariant_derivatives establishes of them."""
    K, G, E, v = moduli(B)
    ls = laws(B, fixed, same=True)
    i1, j2, j3 = B.var('i1', dist=(-1, 1)), B.var('j2', pos=True, dist=(0.3, 2)), B.var('j3', dist=(-0.4, 0.4))
    S, T = B.symmat('S', 3, dist=(-1, 1)), B.symmat('T', 3, dist=(-1, 1))
    Q = B.symmat('Q', 6, dist=(-1, 1))
    ix = {}
    for n, c in enumerate(O6):
        ix[int(c[0]) - 1, int(c[1]) - 1] = ix[int(c[1]) - 1, int(c[0]) - 1] = n
    P4 = [[[[proj(B, i, j, k, l) for l in range(3)] for k in range(3)] for j in range(3)] for i in range(3)]
    Q4 = [[[[Q[ix[i, j]][ix[k, l]] for l in range(3)] for k in range(3)] for j in range(3)] for i in range(3)]
    ty = object if B.sym else float
    inv = [B.tensor(x) for x in (i1, B.var('i2'), B.var('i3'), i1, j2, j3)] + \
          [B.tensor(np.array(x, ty)) for x in (I3, S, T, P4, Q4)]
    base = cls_of(B, impl)

    class M(base):
        if impl == 'standard':
            def get_stress_invariants_and_derivatives(self, n_dim, stress):
                return tuple(inv)
        else:
            @classmethod
            def get_stress_invariants_and_derivatives(cls, n_dim, stress):
                return tuple(inv)
    m = build(B, impl, 4, ls, E, v, assoc, cls=M)
    es, et = B.symmat('e', 3, dist=(-0.5, 0.5)), B.symmat('t', 3, dist=(-0.5, 0.5))
    acc, acc0, inc = B.var('acc', nonneg=True, dist=(0.05, 0.5)), B.var('acc0', nonneg=True, dist=(0, 0.05)), B.var('inc', nonneg=True, dist=(0.0, 0.3))
    y0 = B.var('y0', pos=True, dist=(0.5, 2))
    lam = K - B.rat(2, 3) * G
    C4 = [[[[lam * I3[i][j] * I3[k][l] + G * (I3[i][k] * I3[j][l] + I3[i][l] * I3[j][k]) for l in range(3)] for k in range(3)]
           for j in range(3)] for i in range(3)]
    C = B.tensor(C4)
    (sy, hy), (a, a1), (b, b1), (c, c1), (d, d1) = [l.at(acc) for l in ls]
    w4 = j2 * j2 * j2 - c * j3 * j3
    B.assume(w4 > B.num(1e-4))
    w5 = B.sqrt(w4) - d * j3
    B.assume(w5 > B.num(1e-2))
    r1, r2, r3, J = call_residual(B, m, impl, fixed, ls, assoc, C, (es, et, acc, acc0, inc, y0))

    def flow(sij, tij, dij, j2=j2, j3=j3, a=a, b=b, c=c, d=d):
        w4 = j2 * j2 * j2 - c * j3 * j3
        w5 = B.sqrt(w4) - d * j3
        q = cbrt(B, w5)
        return a * (b * dij + (B.rat(1, 2) * (3 * j2 * j2 * sij - 2 * c * j3 * tij) / B.sqrt(w4) - d * tij) / (3 * q * q))
    N = [[flow(S[i][j], T[i][j], I3[i][j]) for j in range(3)] for i in range(3)]
    B.eq('flow rule residual', r1, [[es[i][j] - et[i][j] + inc * N[i][j] for j in range(3)] for i in range(3)])
    nN = norm(B, N)
    B.eq('plastic strain residual', item(B, r2), acc - acc0 - inc * (B.num(1) if assoc else B.sqrt(B.rat(2, 3)) * nN))
    B.eq('yield residual', item(B, r3), (effective(B, i1, j2, j3, a, b, c, d) - sy) / y0)
    if not B.sym:
        return
    from vf import terms as tm
    sv, tv, j2v, j3v, i1v = (tm.var(n + '!d') for n in ('sv', 'tv', 'j2v', 'j3v', 'i1v'))
    tm.POSITIVE.add('j2v!d')
    Jt = B.arr(J)
    kk = [kf(B, o) for o in O6]
    id_ = [(int(o[0]) - 1, int(o[1]) - 1) for o in O6]

    def contract(X):
        """X : C for a symmetric X (isotropic C)."""
        t = trace(X)
        return [[2 * G * X[i][j] + lam * t * I3[i][j] for j in range(3)] for i in range(3)]
    dN = {}
    for i, j in id_:
        n = tm.lift(flow(sv, tv, I3[i][j], j2=j2v, j3=j3v))
        back = {sv.id: tm.lift(S[i][j]), tv.id: tm.lift(T[i][j]), j2v.id: j2, j3v.id: j3}
        ds, dt, d2, d3 = (tm.subst(tm.diff(n, x), back) for x in (sv, tv, j2v, j3v))
        dN[i, j] = contract([[ds * P4[i][j][k][l] + dt * Q4[i][j][k][l] + d2 * S[k][l] + d3 * T[k][l] for l in range(3)]
                             for k in range(3)])
    dNa = {(i, j): tm.diff(tm.lift(N[i][j]), acc) if not fixed else tm.ZERO for i, j in id_}
    for x, (i, j) in enumerate(id_):
        for y, (k, l) in enumerate(id_):
            sy_ = B.rat(1, 2) * (I3[i][k] * I3[j][l] + I3[i][l] * I3[j][k])
            B.eq('d flow residual / d elastic strain [%d,%d]' % (x, y), Jt[x, y], kk[x] * kk[y] * (sy_ + inc * dN[i, j][k][l]))
        B.eq('d flow residual / d plastic strain [%d]' % x, Jt[x, 6], kk[x] * inc * dNa[i, j])
        B.eq('d flow residual / d multiplier [%d]' % x, Jt[x, 7], kk[x] * N[i][j])
    NC = contract(N)
    ef = tm.lift(effective(B, i1, j2, j3, a, b, c, d)) - sy
    for y, (k, l) in enumerate(id_):
        B.eq('d yield residual / d elastic strain [%d]' % y, Jt[7, y], kk[y] * NC[k][l] / y0)
        if assoc:
            B.eq('d plastic strain residual / d elastic strain [%d]' % y, Jt[6, y], B.num(0))
    B.eq('d yield residual / d plastic strain', Jt[7, 6], tm.diff(ef, acc) / y0)
    B.eq('d yield residual / d multiplier', Jt[7, 7], B.num(0))
    B.eq('d plastic strain residual / d multiplier', Jt[6, 7], B.num(-1) if assoc else -B.sqrt(B.rat(2, 3)) * nN)
    if assoc:
        B.eq('d plastic strain residual / d plastic strain', Jt[6, 6], B.num(1))
        return
    f = inc * B.sqrt(B.rat(2, 3)) / nN
    w = [1, 1, 1, 2, 2, 2]
    for y, (k, l) in enumerate(id_):
        t = B.num(0)
        for n, (i, j) in zip(w, id_):
            t = t + n * N[i][j] * dN[i, j][k][l]
        B.eq('d plastic strain residual / d elastic strain [%d]' % y, Jt[6, y], -kk[y] * f * t)
    t = B.num(0)
    for n, (i, j) in zip(w, id_):
        t = t + n * N[i][j] * dNa[i, j]
    B.eq('d plastic strain residual / d plastic strain', Jt[6, 6], 1 - f * t)


@case('C15', params=JP, ntrials=12, sym=False,
      why='composition of residual_and_jacobian and invariant_derivatives by the chain rule; run on the real code as a cross-check')
def jacobian_on_real_stresses(B, impl, assoc, fixed):
    K, G, E, v = moduli(B)
    ls = laws(B, fixed)
    m = build(B, impl, 4, ls, E, v, assoc)
    es, et = B.symmat('e', 3, dist=(-0.5, 0.5)), B.symmat('t', 3, dist=(-0.5, 0.5))
    acc, acc0, inc = B.var('acc', dist=(0.05, 0.5)), B.var('acc0', dist=(0, 0.05)), B.var('inc', dist=(0.0, 0.3))
    y0 = B.var('y0', dist=(0.5, 2))
    lam = K - 2 / 3 * G
    C = B.tensor([[[[lam * I3[i][j] * I3[k][l] + G * (I3[i][k] * I3[j][l] + I3[i][l] * I3[j][k]) for l in range(3)]
                    for k in range(3)] for j in range(3)] for i in range(3)])
    (sy, hy), (a, a1), (b, b1), (c, c1), (d, d1) = [l.at(acc) for l in ls]
    dv = dev(B, hooke(B, K, G, es))
    j2, j3 = ddot(dv, dv) / 2, det3(dv)
    B.assume(abs(j3) > 2e-2)
    B.assume(j2 ** 3 - c * j3 ** 2 > 1e-3 and (j2 ** 3 - c * j3 ** 2) ** 0.5 - d * j3 > 2e-2)
    J = call_residual(B, m, impl, fixed, ls, assoc, C, (es, et, acc, acc0, inc, y0))[3]

    def f(x):
        z = [float(q) for q in B.arr(x)]
        e = [[z[{(0, 0): 0, (1, 1): 1, (2, 2): 2, (0, 1): 3, (1, 2): 4, (0, 2): 5}[min(i, j), max(i, j)]] /
              (1 if i == j else np.sqrt(2.0)) for j in range(3)] for i in range(3)]
        q1, q2, q3, _ = call_residual(B, m, impl, fixed, ls, assoc, C, (e, et, z[6], acc0, z[7], y0))
        return B.tensor(mf(B, B.arr(q1), 4) + [float(q2), float(q3)])
    B.eq('Jacobian is the derivative of the residuals', J, B.jac(f, mf(B, es, 4) + [acc, inc], h=2e-4), rtol=1e-4, atol=1e-5)


def opaque(B, impl, calls=None, effs=None):
    """Method overrides that put the contracts of the effective stress and of the residuals in place of their bodies."""
    from vf import terms as tm
    calls, effs = [] if calls is None else calls, [] if effs is None else effs
    name = 'get_residual_and_jacobian' if impl == 'standard' else '_get_residual_and_jacobian'
    if not hasattr(cls_of(B, impl), name) or impl == 'vmap' and not hasattr(cls_of(B, impl), '_nr_iteration'):
        B.absent()

    def eff(stress, a, b, c, d):
        x = tm.var('effective!', pos=True)
        effs.append(([[q for q in r] for r in B.arr(stress)], [item(B, y) for y in (a, b, c, d)]))
        return B.tensor(x)

    def res(n_dim, comps, e, et, acc, acc0, inc, C, y0, *laws_, **kw):
        r1 = [[tm.var('r1%s%s!%d' % (min(i, j), max(i, j), len(calls))) for j in range(3)] for i in range(3)]
        r2, r3 = tm.var('r2!%d' % len(calls)), tm.var('r3!%d' % len(calls))
        J = np.empty((8, 8), object)
        for p in np.ndindex(8, 8):
            J[p] = tm.var('J%d%d!%d' % (p + (len(calls),)), pos=True) if p[0] == p[1] else tm.ZERO
        calls.append(dict(e=B.arr(e), et=B.arr(et), acc=item(B, acc), acc0=item(B, acc0), inc=item(B, inc), C=B.arr(C),
                          y0=item(B, y0), laws=laws_, kw=kw, r1=r1, r2=r2, r3=r3))
        return B.tensor(np.array(r1, object)), B.tensor(r2), B.tensor(r3), B.tensor(J)
    if impl == 'standard':
        return {'get_effective_stress': lambda self, *a: eff(*a), name: lambda self, *a, **k: res(*a, **k)}
    else:
        return {'get_effective_stress': classmethod(lambda cls, *a: eff(*a)), name: classmethod(lambda cls, *a, **k: res(*a, **k)),
              '_nr_iteration': classmethod(lambda cls, r, j: B.tensor(np.array([tm.fresh('it') for _ in range(8)], object)))}


CFG = [('%s,%s,%s' % (i, n, 'associative' if a else 'plastic strain norm'), dict(impl=i, pt=p, assoc=a))
       for i in ('standard', 'vmap') for n, p in (('plane strain', 1), ('3D', 4)) for a in (False, True)]
# (the vectorised update is taken in two parts: from the virgin state, and from any state with plastic strain)
UPD = [(x, k) for x, k in CFG if k['impl'] == 'standard'] + \
      [('%s,%s' % (x, 'virgin' if w else 'loaded'), dict(k, virgin=w)) for x, k in CFG if k['impl'] == 'vmap'
       for w in (False, True) if k['assoc'] == (k['pt'] == 1) or not w]


@case('C15', params=UPD, ntrials=40, sym_s=200)
def update(B, impl, pt, assoc, virgin=None, fixed=True):
    """The state update against the contracts of the effective stress and of the residuals (both arbitrary here)."""
    K, G, E, v = moduli(B)
    ls = laws(B, fixed=fixed)
    calls, effs = [], []
    base = cls_of(B, impl)
    ns = opaque(B, impl, calls, effs) if B.sym else {}
    from vf import terms as tm
    m = build(B, impl, pt, ls, E, v, assoc, cls=type('M', (base,), ns))
    old, es, ts, e33, al = old_state(B, m, pt)
    if virgin:
        if not B.sym:
            al = B.num(0)
            old['acc_p_strain'] = B.tensor(al)
        B.assume(al < B.num(1e-8))
    elif virgin is False:
        B.assume(al >= B.num(1e-8))
    n = pt_dim(pt)
    inc = [list(r) for r in sym(B, 'd', pt, dist=(-0.5, 0.5))]
    vol = B.var('dv', dist=(-0.3, 0.9))
    for i in range(n):
        inc[i][i] = inc[i][i] + vol
    tr = madd(full(B, es, pt, e33), full(B, inc, pt, 0))
    st = hooke(B, K, G, tr)
    p = K * trace(tr)
    a, b, c, d = [l.at(al)[0] for l in ls[1:]]
    a0, b0 = [l.at(B.num(0))[0] for l in ls[1:3]]
    for x, y in ((a, b),) if fixed else ((a, b), (a0, b0)):
        B.assume(27 * x * x * y * y < B.num(8))
        B.assume(y > B.num(1e-5))
        B.assume(x * y > B.num(1e-5))
    B.assume(norm(B, tr) > B.num(1e-7))
    if not B.sym:
        dv = dev(B, st)
        j2, j3 = ddot(dv, dv) / 2, det3(dv)
        B.assume(abs(j3) > 1e-3 and j2 ** 3 - c * j3 ** 2 > 1e-4 and (j2 ** 3 - c * j3 ** 2) ** 0.5 - d * j3 > 1e-3)
    ti = B.tensor(inc)
    keep = B.frozen('input', [ti] + [old[k] for k in sorted(old) if k in (
        'e_strain_mf', 'strain_mf', 'acc_p_strain', 'stress_mf', 'e_strain_33')])
    new, tan = m.state_update(ti, old)
    keep()
    B.eq('total strain', new['strain_mf'], mf(B, [[ts[i][j] + inc[i][j] for j in range(n)] for i in range(n)], pt))
    if is_true(B, new['is_su_fail']):
        B.cover('failed')
        for k in ('e_strain_mf', 'stress_mf', 'acc_p_strain'):
            B.true('failed state is not a state: ' + k, all_nan(B, new[k]))
        return
    en = unmf(B, new['e_strain_mf'], pt, item(B, new['e_strain_33']) if pt == 1 else None)
    sn = unmf(B, new['stress_mf'], pt, item(B, new['stress_33']) if pt == 1 else None)
    an = item(B, new['acc_p_strain'])
    eqm(B, 'stress is the elastic law of the elastic strain', sn, hooke(B, K, G, en))
    sy0, _ = ls[0].at(al)
    if B.sym:
        eqm(B, 'effective stress of the trial stress', effs[0][0], st)
        B.eq('yield parameters of the effective stress', effs[0][1], [a, b, c, d])
        q = tm.var('effective!', pos=True)
    else:
        q = effective(B, trace(st), j2, j3, a, b, c, d)
    if not is_true(B, new['is_plast']):
        B.cover('elastic')
        eqm(B, 'elastic step', en, tr)
        B.eq('elastic step: accumulated plastic strain', an, al)
        B.le('elastic step does not exceed yield', q, sy0 * (1 + B.num(TOL)))
        return
    B.lt('plastic step only beyond yield', sy0, q)
    lim = B.rat(95, 100) * sy0 / (3 * a * b)
    if not bool(B.decide(p > lim) if B.sym else p > lim):
        B.cover('surface')
        if B.sym:
            k = calls[-1]
            # (plane strain stores no out-of-plane shear)
            keepc = [(0, 0), (1, 1), (2, 2), (0, 1)] + ([(1, 2), (0, 2)] if pt == 4 else [])
            B.eq('residual evaluated at the new elastic strain', [k['e'][x] for x in keepc], [en[i][j] for i, j in keepc])
            B.eq('residual evaluated at the new plastic strain', k['acc'], an)
            eqm(B, 'residual of the trial elastic strain', k['et'], tr)
            B.eq('residual of the old plastic strain', k['acc0'], al)
            B.eq('residual scaled by the initial yield stress', k['y0'], ls[0].at(B.num(0))[0])
            B.true('residual of the model laws', all(x is y for x, y in zip(k['laws'][0:10:2], ls)))
            B.true('hardening type', bool(k['kw'].get('is_associative_hardening', (list(k['laws'][10:]) + [None])[0])) == assoc)
            r1, r2, r3 = k['r1'], k['r2'], k['r3']
        else:
            args = (en, tr, float(an), float(al), 0.0, float(ls[0].at(0.0)[0]))
            dv = dev(B, sn)
            j2, j3 = ddot(dv, dv) / 2, det3(dv)
            a, b, c, d = [l.at(float(an))[0] for l in ls[1:]]
            r3 = (effective(B, trace(sn), j2, j3, a, b, c, d) - ls[0].at(float(an))[0]) / args[5]
            B.le('on the yield surface', abs(r3), B.num(3.1 * TOL))
            # flow along the gradient
            w4 = (j2 ** 3 - c * j3 ** 2) ** 0.5
            w5 = w4 - d * j3
            dd = mm(dv, dv)
            N = [[a * (b * I3[i][j] + (0.5 * (3 * j2 ** 2 * dv[i][j] - 2 * c * j3 * (dd[i][j] - 2 / 3 * j2 * I3[i][j])) / w4
                                       - d * (dd[i][j] - 2 / 3 * j2 * I3[i][j])) / (3 * w5 ** (2 / 3))) for j in range(3)]
                 for i in range(3)]
            g = float(an - al) if assoc else float(an - al) / (np.sqrt(2 / 3) * norm(B, N))
            eqm(B, 'plastic flow along the gradient', madd(tr, en, -1), scal(g, N), rtol=1e-4, atol=1e-5)
            B.le('plastic strain never decreases', B.num(0), an - al)
            return
        t = B.num(3 * TOL)
        B.le('yield residual small', B.absv(r3), t)
        acc = B.num(0)
        for i in range(3):
            for j in range(3):
                acc = acc + r1[i][j] * r1[i][j]
        nt = norm(B, tr)
        B.ok('flow residual small', (B.sqrt(acc) <= t) | (B.sqrt(acc) / nt <= t))
        B.ok('plastic strain residual small', (B.absv(r2) <= t) | (B.absv(r2 / al) <= t))
        return
    B.cover('apex')
    dv = trace(madd(tr, en, -1))
    eqm(B, 'apex stress is hydrostatic', dev(B, sn), [[0, 0, 0]] * 3)
    B.eq('apex pressure', trace(sn) / 3, p - K * dv)
    ey = 3 * a0 * b0
    al_ = 2 * B.sqrt(B.num(3)) / 3 * B.sqrt(1 - ey * ey / 3) / ey
    B.eq('apex hardening', an - al, al_ * dv)
    s1, _ = ls[0].at(an)
    a, b = [l.at(an)[0] for l in ls[1:3]]
    if not fixed:
        B.assume(b > B.num(1e-5))
    ey = 3 * a * b
    B.le('on the apex (from above)', trace(sn) / 3 - s1 / ey, B.num(TOL) * s1)
    B.le('on the apex (from below)', s1 / ey - trace(sn) / 3, B.num(TOL) * s1)


@case('C15', params=CFG, ntrials=40, sym=False, why='yield parameters that evolve with the plastic strain (constant ones: update)')
def update_evolving(B, impl, pt, assoc):
    update(B, impl, pt, assoc, fixed=False)


@case('C15', params=[(x, dict(impl=k['impl'], pt=k['pt'])) for x, k in CFG if not k['assoc']], ntrials=2)
def initial(B, impl, pt):
    K, G, E, v = moduli(B)
    s = build(B, impl, pt, laws(B), E, v).state_init()
    for k in ('e_strain_mf', 'strain_mf', 'stress_mf'):
        B.eq(k, s[k], [0.0] * len(order(pt)))
    if pt == 1:
        B.eq('initial out-of-plane strain', item(B, s['e_strain_33']), B.num(0))
        B.eq('initial out-of-plane stress', item(B, s['stress_33']), B.num(0))
    B.eq('acc', item(B, s['acc_p_strain']), B.num(0))
    B.true('sound', not is_true(B, s['is_su_fail']) and not is_true(B, s['is_plast']))


@case('C15', params=CFG, ntrials=1, sym=False, why='one concrete state of every branch (the general case is the update contract)')
def no_solution(B, impl, pt, assoc):
    """A return to the surface or to the apex without a solution is reported as a failure."""
    K, G = B.num(2), B.num(1)
    E, v = 9 * K * G / (3 * K + G), (3 * K - 2 * G) / (2 * (3 * K + G))
    n = pt_dim(pt)
    fixed = [Const(B, x) for x in (0.8, 0.15, 0.3, 0.15)]
    shear = [[B.num(0.9 if sorted((i, j)) == [0, 1] else [1.1, -0.6, -0.3][i] if i == j else 0) for j in range(n)] for i in range(n)]
    vol = [[B.num(2) if i == j else B.num(0.01 * (i + j)) for j in range(n)] for i in range(n)]
    for inc in (shear, vol):
        acc = []
        for y in (2.0, 1.0):
            m = build(B, impl, pt, [Const(B, y)] + fixed, E, v, assoc)
            new, _ = m.state_update(B.tensor(inc), m.state_init())
            B.true('sound without the jump', not is_true(B, new['is_su_fail']) and is_true(B, new['is_plast']))
            acc.append(item(B, new['acc_p_strain']))
            sn = unmf(B, new['stress_mf'], pt, item(B, new['stress_33']) if pt == 1 else None)
            B.true('branch', (norm(B, dev(B, sn)) < 1e-8) == (inc is vol))
        B.true('less plastic strain with a higher yield stress', acc[0] < acc[1])
        m = build(B, impl, pt, [Jump(B, 1.0, 2.0, (acc[0] + acc[1]) / 2)] + fixed, E, v, assoc)
        new, _ = m.state_update(B.tensor(inc), m.state_init())
        check_failed(B, new, ('e_strain_mf', 'stress_mf', 'acc_p_strain'))


class Const:
    """A law that does not evolve, with the given value."""

    def __init__(self, B, v):
        self.B, self.v = B, v

    def __call__(self, hardening_parameters, acc_p_strain, is_check_data=False):
        own(self, hardening_parameters)
        return self.B.tensor(self.B.num(self.v)), self.B.tensor(self.B.num(0))
