"""C14: the consistent tangent is the derivative of the updated stress with respect to the strain increment."""
import numpy as np
from vf.engine import case
from contracts.mat import (STD, VM, Law, mf, sym, full, moduli, hooke, order, pt_dim, trace, dev, ddot, norm, madd, scal, item, kf)
from contracts import c11, c12, c13
from contracts.c11 import CFG, SMALL, is_true
FUNCTIONS = ['Elastic.state_update', 'VonMises.state_update', 'VonMisesMixed.state_update', 'DruckerPrager.state_update',
             'VonMisesVMAP.state_update', 'VonMisesMixedVMAP.state_update',
             'DruckerPragerVMAP.state_update']
ASSUMPTIONS = ['the plastic increment is the exact root of its consistency condition (implicit function theorem at the root the '
               'iteration converged to); stress and residual are the ones C11-C13 prove of the same functions',
               'vectorised models: the inverse norm of the flow direction may be regularised by the constant 1e-8',
               'hardening laws are arbitrary differentiable functions; the slope they return is the derivative (C16)']
I3 = [[1 if i == j else 0 for j in range(3)] for i in range(3)]


def incvars(B, pt, inc):
    return [inc[int(c[0]) - 1][int(c[1]) - 1] for c in order(pt)]


def tangent_of(B, pt, stress, inc, g, res):
    """Kelvin matrix of d stress / d inc along res(inc, g) = 0; stress is a 3x3 of terms in inc and g."""
    from vf import terms as tm
    o = order(pt)
    xs = incvars(B, pt, inc)
    dr = None
    if res is not None:
        rg = tm.diff(tm.lift(res), g)
        dr = [-(tm.diff(tm.lift(res), x) / rg) for x in xs]
    D = np.empty((len(o), len(o)), object)
    for a, c in enumerate(o):
        s = tm.lift(stress[int(c[0]) - 1][int(c[1]) - 1])
        sg = tm.diff(s, g) if res is not None else None
        for b, e in enumerate(o):
            d = tm.diff(s, xs[b])
            if res is not None:
                d = d + sg * dr[b]
            w = B.num(1) if e[0] == e[1] else 1 / B.sqrt(B.num(2))
            D[a, b] = kf(B, c) * w * d
    return D


def kelvin4(B, pt, f):
    """Kelvin matrix of a fourth-order tensor given by components f(i, j, k, l)."""
    o = order(pt)
    D = np.empty((len(o), len(o)), object)
    for a, c in enumerate(o):
        for b, e in enumerate(o):
            D[a, b] = kf(B, c) * kf(B, e) * f(int(c[0]) - 1, int(c[1]) - 1, int(e[0]) - 1, int(e[1]) - 1)
    return D


def proj(B, i, j, k, l):
    d = I3
    return B.rat(1, 2) * (d[i][k] * d[j][l] + d[i][l] * d[j][k]) - B.rat(1, 3) * d[i][j] * d[k][l]


def generalise(B, acc, *mats):
    """Replace the value the iteration ended with (a sum, factor of a term of the accumulated strain) by a fresh variable:
    proving the equality for every increment is stronger and keeps the terms small."""
    from vf import terms as tm
    for a in getattr(acc, 'args', ()):
        for f in (getattr(a, 'args', ()) if getattr(a, 'k', '') == '*' else ()):
            if getattr(f, 'k', '') == '+':
                env, memo = {f.id: tm.fresh('g')}, {}
                r = []
                for m in mats:
                    if m is None:
                        r.append(None)
                        continue
                    o = np.empty(m.shape, object)
                    for p in np.ndindex(*m.shape):
                        o[p] = tm.subst(tm.lift(m[p]), env, memo)
                    r.append(o)
                return r
    return list(mats)


def compare(B, name, tan, D, alt=None, acc=None):
    if acc is not None:
        tan, D, alt = generalise(B, acc, B.arr(tan), D, alt)
    if alt is not None:
        from vf import terms as tm
        t = B.arr(tan)
        if t.shape == alt.shape and all(tm.is_zero(tm.lift(x) - tm.lift(y)) for x, y in zip(t.reshape(-1), alt.reshape(-1))):
            B.eq(name, tan, alt)
            return
    B.eq(name, tan, D)


def finite_difference(B, m, pt, old, inc, new, tan, keys=('is_plast',), shift=None):
    """Numeric mode: central differences of the real update; skipped when a neighbour is on another branch."""
    import copy
    o = order(pt)
    h = 2e-5
    cols = []
    flags = [is_true(B, new[k]) for k in keys if k in new]

    def at(b, s):
        x = [[float(v) for v in r] for r in inc]
        i, j = int(o[b][0]) - 1, int(o[b][1]) - 1
        x[i][j] += s
        if i != j:
            x[j][i] += s
        n, _ = m.state_update(B.tensor(x), copy.deepcopy(old))
        if [is_true(B, n[k]) for k in keys if k in n] != flags or is_true(B, n.get('is_su_fail', False)):
            B.skip()
        return B.arr(n['stress_mf']).reshape(-1).astype(float)
    for b in range(len(o)):
        w = 1.0 if o[b][0] == o[b][1] else 1 / np.sqrt(2.0)
        cols.append(w * (8 * (at(b, h) - at(b, -h)) - (at(b, 2 * h) - at(b, -2 * h))) / (12 * h))
    B.eq('tangent is the derivative of the stress', tan, np.stack(cols, axis=-1), rtol=2e-5, atol=2e-5)


def law(B, name='hy', positive=True):
    return Law(B, name, kind=None if B.sym else 'linear', positive=positive)


@case('C14', params=CFG[:2], ntrials=12)
def elastic(B, impl, pt):
    K, G, E, v = moduli(B)
    p = {'elastic_symmetry': 'isotropic', 'E': E, 'v': v, 'euler_angles': (0.0, 0.0, 0.0)}
    m = B.mod(STD + 'elastic').Elastic('infinitesimal', pt, p)
    old = m.state_init()
    es = sym(B, 'e', pt, dist=(-0.4, 0.4))
    old['e_strain_mf'] = B.tensor(mf(B, es, pt))
    old['strain_mf'] = B.tensor(mf(B, es, pt))
    inc = sym(B, 'd', pt, dist=(-0.6, 0.6))
    new, tan = m.state_update(B.tensor(inc), old)
    if not B.sym:
        finite_difference(B, m, pt, old, inc, new, tan, ())
        return
    tr = madd(full(B, es, pt, 0), full(B, inc, pt, 0))
    B.eq('tangent is the derivative of the stress', tan, tangent_of(B, pt, hooke(B, K, G, tr), inc, None, None))


def trial(B, pt, es, e33, dist=(-0.7, 0.7)):
    """The increment that leads to an arbitrary trial elastic strain (free in-plane components x)."""
    x = sym(B, 'x', pt, dist=dist)
    n = pt_dim(pt)
    return [[x[i][j] - es[i][j] for j in range(n)] for i in range(n)], full(B, x, pt, e33)


def vm_closed(B, pt, K, G, q, s, ninv, g, H):
    """K I(x)I + 2G(1 - 3G g/q) P + 6G^2 (g/q - 1/(3G + H)) n(x)n, with n = s ninv."""
    a = 2 * G * (1 - 3 * G * g / q)
    b = 6 * G * G * (g / q - 1 / (3 * G + H)) * ninv * ninv
    return kelvin4(B, pt, lambda i, j, k, l: K * I3[i][j] * I3[k][l] + a * proj(B, i, j, k, l) + b * s[i][j] * s[k][l])


PTS = [('plane strain', dict(pt=1)), ('3D', dict(pt=4))]


@case('C14', params=PTS, num=False, sym_s=200)
def closed_form_von_mises(B, pt):
    """Lemma: the closed form is the derivative of the return-mapped stress along the consistency condition."""
    from vf import terms as tm
    K, G, E, v = moduli(B)
    tr = full(B, sym(B, 'x', pt), pt, B.var('e33') if pt == 1 else 0)
    al, g = B.var('al', nonneg=True), tm.fresh('g')
    st = dev(B, hooke(B, K, G, tr))
    nn = norm(B, st)
    q = B.sqrt(B.rat(3, 2)) * nn
    Law(B)
    B.assume(ddot(st, st) > B.num(0))
    s = madd(madd(st, scal(K * trace(tr), I3)), scal(-(3 * G * g / q), st))
    D = tangent_of(B, pt, s, tr, g, q - 3 * G * g - tm.app('hy', al + g))
    B.eq('closed form is the derivative', vm_closed(B, pt, K, G, q, st, 1 / nn, g, tm.app("hy'", al + g)), D)


@case('C14', params=PTS, num=False, sym_s=300)
def closed_form_mixed(B, pt):
    from vf import terms as tm
    K, G, E, v = moduli(B)
    tr = full(B, sym(B, 'x', pt), pt, B.var('e33') if pt == 1 else 0)
    be = [list(r) for r in full(B, sym(B, 'b', pt), pt, 0)]
    be[2][2] = -(be[0][0] + be[1][1])
    al, g = B.var('al', nonneg=True), tm.fresh('g')
    st = dev(B, hooke(B, K, G, tr))
    eta = madd(st, be, -1)
    nn = norm(B, eta)
    q = B.sqrt(B.rat(3, 2)) * nn
    Law(B), Law(B, 'hk', positive=False)
    B.assume(ddot(eta, eta) > B.num(0))
    s = madd(madd(st, scal(K * trace(tr), I3)), scal(-(3 * G * g / q), eta))
    D = tangent_of(B, pt, s, tr, g, q - 3 * G * g - tm.app('hy', al + g) - tm.app('hk', al + g) + tm.app('hk', al))
    B.eq('closed form is the derivative',
         vm_closed(B, pt, K, G, q, eta, 1 / nn, g, tm.app("hy'", al + g) + tm.app("hk'", al + g)), D)


@case('C14', params=CFG, ntrials=40, sym_s=200)
def von_mises(B, impl, pt):
    K, G, E, v = moduli(B)
    hl = law(B)
    m = c11.build(B, impl, pt, hl, K, G, E, v)
    old, es, ts, e33, al = c11.old_state(B, m, pt)
    inc, tr = trial(B, pt, es, e33)
    new, tan = m.state_update(B.tensor(inc), old)
    if is_true(B, new['is_su_fail']):
        return
    if not B.sym:
        finite_difference(B, m, pt, old, inc, new, tan)
        return
    if not is_true(B, new['is_plast']):
        B.eq('elastic tangent', tan, tangent_of(B, pt, hooke(B, K, G, tr), tr, None, None))
        return
    st = dev(B, hooke(B, K, G, tr))
    gam = item(B, new['acc_p_strain']) - al
    nn = norm(B, st)
    q = B.sqrt(B.rat(3, 2)) * nn
    H = hl.at(al + gam)[1]
    compare(B, 'plastic tangent', tan, vm_closed(B, pt, K, G, q, st, 1 / nn, gam, H),
            vm_closed(B, pt, K, G, q, st, 1 / c12.reg_norm(B, st), gam, H) if impl == 'vmap' else None)


@case('C14', params=CFG, ntrials=40, sym_s=300)
def von_mises_mixed(B, impl, pt):
    K, G, E, v = moduli(B)
    hl, hk = law(B), law(B, 'hk', positive=False)
    m = c12.build(B, impl, pt, hl, hk, K, G, E, v)
    old, es, ts, e33, al = c11.old_state(B, m, pt)
    inc, tr = trial(B, pt, es, e33)
    # the old back stress is the one that leads to an arbitrary relative trial stress eta
    st = dev(B, hooke(B, K, G, tr))
    eta = [list(r) for r in full(B, sym(B, 'h', pt, dist=(-2, 2)), pt, 0)]
    eta[2][2] = -(eta[0][0] + eta[1][1])
    be = madd(st, eta, -1)
    n = pt_dim(pt)
    old['back_stress_mf'] = B.tensor(mf(B, [r[:n] for r in be[:n]], pt))
    if pt == 1:
        old['back_stress_33'] = B.tensor(be[2][2])
    new, tan = m.state_update(B.tensor(inc), old)
    if is_true(B, new['is_su_fail']):
        return
    if not B.sym:
        finite_difference(B, m, pt, old, inc, new, tan)
        return
    if not is_true(B, new['is_plast']):
        B.eq('elastic tangent', tan, tangent_of(B, pt, hooke(B, K, G, tr), tr, None, None))
        return
    gam = item(B, new['acc_p_strain']) - al
    nn = norm(B, eta)
    q = B.sqrt(B.rat(3, 2)) * nn
    H = hl.at(al + gam)[1] + hk.at(al + gam)[1]
    compare(B, 'plastic tangent', tan, vm_closed(B, pt, K, G, q, eta, 1 / nn, gam, H),
            vm_closed(B, pt, K, G, q, eta, 1 / c12.reg_norm(B, eta), gam, H) if impl == 'vmap' else None)


def dp_closed(B, pt, K, G, xi, ey, ef, ed, ninv, g, H):
    s1 = g * ninv / B.sqrt(B.num(2))
    s2 = 1 / (G + K * ey * ef + xi * xi * H)
    u = scal(ninv, ed)
    return kelvin4(B, pt, lambda i, j, k, l: 2 * G * (1 - s1) * proj(B, i, j, k, l) + 2 * G * (s1 - G * s2) * u[i][j] * u[k][l]
                   - B.sqrt(B.num(2)) * G * s2 * K * (ey * u[i][j] * I3[k][l] + ef * I3[i][j] * u[k][l])
                   + K * (1 - K * ey * ef * s2) * I3[i][j] * I3[k][l])


def apex_closed(B, pt, K, xi, ey, ef, H):
    return kelvin4(B, pt, lambda i, j, k, l: K * (1 - K / (K + xi / ef * xi / ey * H)) * I3[i][j] * I3[k][l])


@case('C14', params=PTS, num=False, sym_s=200)
def closed_form_drucker_prager(B, pt):
    from vf import terms as tm
    K, G, E, v = moduli(B)
    xi, ey, ef = c13.cone(B)
    tr = full(B, sym(B, 'x', pt), pt, B.var('e33') if pt == 1 else 0)
    al, g = B.var('al', nonneg=True), tm.fresh('g')
    Law(B)
    st, ed, p = dev(B, hooke(B, K, G, tr)), dev(B, tr), K * trace(tr)
    B.assume(ddot(ed, ed) > B.num(0))
    q = norm(B, st) / B.sqrt(B.num(2))
    s = madd(scal(p - K * ef * g, I3), scal(1 - G * g / q, st))
    D = tangent_of(B, pt, s, tr, g, q - G * g + ey * (p - K * ef * g) - xi * tm.app('hy', al + xi * g))
    B.eq('cone closed form is the derivative',
         dp_closed(B, pt, K, G, xi, ey, ef, ed, 1 / norm(B, ed), g, tm.app("hy'", al + xi * g)), D)
    D = tangent_of(B, pt, scal(p - K * g, I3), tr, g, xi / ey * tm.app('hy', al + xi / ef * g) - p + K * g)
    B.eq('apex closed form is the derivative', apex_closed(B, pt, K, xi, ey, ef, tm.app("hy'", al + xi / ef * g)), D)


@case('C14', params=CFG, ntrials=60, sym_s=300)
def drucker_prager(B, impl, pt):
    K, G, E, v = moduli(B)
    xi, ey, ef = c13.cone(B)
    hl = law(B)
    m = c13.build(B, impl, pt, hl, E, v, xi, ey, ef)
    old, es, ts, e33, al = c11.old_state(B, m, pt)
    inc, tr = trial(B, pt, es, e33, dist=(-0.5, 0.9))
    st, ed = dev(B, hooke(B, K, G, tr)), dev(B, tr)
    B.assume(ddot(st, st) / 2 >= B.num(1e-8))
    B.assume(ddot(ed, ed) >= B.num(1e-12))
    new, tan = m.state_update(B.tensor(inc), old)
    if is_true(B, new['is_su_fail']):
        return
    if not B.sym:
        finite_difference(B, m, pt, old, inc, new, tan, ('is_plast', 'is_apex_return'))
        return
    if not is_true(B, new['is_plast']):
        B.eq('elastic tangent', tan, tangent_of(B, pt, hooke(B, K, G, tr), tr, None, None))
        return
    an = item(B, new['acc_p_strain'])
    H = hl.at(an)[1]
    if is_true(B, new['is_apex_return']):
        B.eq('apex tangent', tan, apex_closed(B, pt, K, xi, ey, ef, H))
        return
    gam = (an - al) / xi
    alt = None
    if impl == 'vmap':
        acc = B.num(0)
        for i in range(3):
            for j in range(3):
                acc = acc + (ed[i][j] + B.num(SMALL)) * (ed[i][j] + B.num(SMALL))
        alt = dp_closed(B, pt, K, G, xi, ey, ef, ed, 1 / B.sqrt(acc), gam, H)
    compare(B, 'cone tangent', tan, dp_closed(B, pt, K, G, xi, ey, ef, ed, 1 / norm(B, ed), gam, H), alt, an)
