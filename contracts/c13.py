"""C13: Drucker-Prager return mapping (cone and apex)."""
from vf.engine import case
from contracts.mat import (STD, VM, Law, Jump, mf, sym, full, unmf, moduli, hooke, eqm, item, order, pt_dim, trace, dev, ddot, norm,
                           madd, scal, params)
from contracts.c11 import CFG, TOL, is_true, all_nan, check_failed, old_state
FUNCTIONS = ['DruckerPrager.__init__', 'DruckerPrager.state_init', 'DruckerPrager.state_update', 'DruckerPragerVMAP.__init__',
             'DruckerPragerVMAP.state_init', 'DruckerPragerVMAP.state_update', 'DruckerPragerVMAP._elastic_step',
             'DruckerPragerVMAP._plastic_step', 'DruckerPragerVMAP._nr_iteration_surface',
             'DruckerPragerVMAP._plastic_step_apex', 'DruckerPragerVMAP._nr_iteration_apex']
ASSUMPTIONS = ['cohesion law: any non-decreasing function, at least 1e-6; cone parameters strictly positive',
               'the return-mapping iterations are cut at their loop heads with every loop-carried value arbitrary',
               'trial deviators with J2 < 1e-8 (1e-16 in the scalar model) are regularised by the code and excluded']


def cone(B):
    return (B.var('xi', pos=True, dist=(0.4, 1.5)), B.var('ey', pos=True, dist=(0.1, 0.8)), B.var('ef', pos=True, dist=(0.1, 0.8)))


def build(B, impl, pt, law, E, v, xi, ey, ef):
    p = {'elastic_symmetry': 'isotropic', 'E': E, 'v': v, 'euler_angles': (0.0, 0.0, 0.0), 'hardening_law': law,
         'hardening_parameters': params(law), 'yield_cohesion_parameter': xi, 'yield_pressure_parameter': ey, 'flow_pressure_parameter': ef}
    if impl == 'standard':
        return B.mod(STD + 'drucker_prager').DruckerPrager('infinitesimal', pt, p)
    return B.mod(VM + 'drucker_prager').DruckerPragerVMAP('infinitesimal', pt, p)


def increment(B, pt):
    """Deviatoric and volumetric parts free; sampled so that all branches occur."""
    n = pt_dim(pt)
    d = [list(r) for r in sym(B, 'd', pt, dist=(-0.4, 0.4))]
    v = B.var('dv', dist=(-0.3, 1.2))
    for i in range(n):
        d[i][i] = d[i][i] + v
    return d


@case('C13', params=CFG, ntrials=60, sym_s=200)
def update(B, impl, pt):
    K, G, E, v = moduli(B)
    xi, ey, ef = cone(B)
    law = Law(B)
    m = build(B, impl, pt, law, E, v, xi, ey, ef)
    old, es, ts, e33, al = old_state(B, m, pt)
    inc = increment(B, pt)
    ti = B.tensor(inc)
    tr = madd(full(B, es, pt, e33), full(B, inc, pt, 0))
    st = dev(B, hooke(B, K, G, tr))
    p = K * trace(tr)
    j2 = ddot(st, st) / 2
    B.assume(j2 >= B.num(1e-8))
    keep = B.frozen('input', [ti] + [old[k] for k in sorted(old) if k in (
        'e_strain_mf', 'strain_mf', 'acc_p_strain', 'stress_mf', 'e_strain_33')])
    new, tan = m.state_update(ti, old)
    keep()
    n = pt_dim(pt)
    B.eq('total strain', new['strain_mf'], mf(B, [[ts[i][j] + inc[i][j] for j in range(n)] for i in range(n)], pt))
    if is_true(B, new['is_su_fail']):
        B.cover('failed')
        for k in ('e_strain_mf', 'stress_mf', 'acc_p_strain'):
            B.true('failed state is not a state: ' + k, all_nan(B, new[k]))
        return
    q = norm(B, st) / B.sqrt(B.num(2))
    c0, _ = law.at(al)
    en = unmf(B, new['e_strain_mf'], pt, item(B, new['e_strain_33']) if pt == 1 else None)
    sn = unmf(B, new['stress_mf'], pt, item(B, new['stress_33']) if pt == 1 else None)
    eqm(B, 'stress is the elastic law of the elastic strain', sn, hooke(B, K, G, en))
    an = item(B, new['acc_p_strain'])
    if not is_true(B, new['is_plast']):
        B.cover('elastic')
        B.true('not an apex return', not is_true(B, new['is_apex_return']))
        eqm(B, 'elastic step', en, tr)
        B.eq('elastic step: accumulated plastic strain', an, al)
        B.le('elastic step does not exceed yield', q + ey * p, (xi + B.num(TOL)) * c0)
        return
    B.lt('plastic step only beyond yield', xi * c0, q + ey * p)
    c1, _ = law.at(an)
    dp = madd(tr, en, -1)
    tol = B.num(TOL) * c1
    if not is_true(B, new['is_apex_return']):
        B.cover('cone')
        gam = (an - al) / xi
        eqm(B, 'cone flow: deviator', dev(B, dp), scal(gam / (2 * q), st))
        B.eq('cone flow: volume', trace(dp), ef * gam)
        res = q - G * gam + ey * (p - K * ef * gam) - xi * c1
        B.le('on the cone (from above)', res, tol)
        B.le('on the cone (from below)', B.num(0) - tol, res)
        B.le('on the cone side of the apex', G * gam, q)
        B.le('plastic strain never decreases', B.num(0), gam)
        d2 = dev(B, sn)
        B.eq('updated J2', ddot(d2, d2) / 2, (q - G * gam) * (q - G * gam), rtol=1e-5)
        B.eq('updated pressure', trace(sn) / 3, p - K * ef * gam)
    else:
        B.cover('apex')
        dv = trace(dp)
        eqm(B, 'apex stress is hydrostatic', dev(B, sn), [[0, 0, 0]] * 3)
        B.eq('apex hardening', an - al, xi / ef * dv)
        res = ey * (p - K * dv) - xi * c1
        B.le('on the apex (from above)', res, tol * ey)
        B.le('on the apex (from below)', B.num(0) - tol * ey, res)
        B.eq('apex pressure', trace(sn) / 3, p - K * dv)
        if not B.sym:
            B.le('the apex is the closest point', ef * q, G * dv + 1e-4)
            B.le('plastic strain never decreases', B.num(0), dv)


@case('C13', params=CFG, ntrials=40, cut=False)
def linear_hardening_succeeds(B, impl, pt):
    """With linear hardening both iterations are exact: the update succeeds, picks the apex exactly when the cone return is
    beyond it, and gives the closed-form increment."""
    K, G, E, v = moduli(B)
    xi, ey, ef = cone(B)
    law = Law(B, kind='linear')
    m = build(B, impl, pt, law, E, v, xi, ey, ef)
    old, es, ts, e33, al = old_state(B, m, pt)
    inc = increment(B, pt)
    tr = madd(full(B, es, pt, e33), full(B, inc, pt, 0))
    st = dev(B, hooke(B, K, G, tr))
    p = K * trace(tr)
    B.assume(ddot(st, st) / 2 >= B.num(1e-8))
    new, tan = m.state_update(B.tensor(inc), old)
    B.true('success', not is_true(B, new['is_su_fail']))
    if not is_true(B, new['is_plast']):
        return
    q = norm(B, st) / B.sqrt(B.num(2))
    c0 = law.s0 + law.a * al
    gam = (q + ey * p - xi * c0) / (G + K * ef * ey + xi * xi * law.a)
    an = item(B, new['acc_p_strain'])
    if is_true(B, new['is_apex_return']):
        B.cover('apex')
        B.lt('apex only beyond the cone', q, G * gam)
        al_, be_ = xi / ef, xi / ey
        dv = (p - be_ * c0) / (K + al_ * be_ * law.a)
        B.eq('apex increment', an - al, al_ * dv)
    else:
        B.cover('cone')
        B.le('cone while the cone is there', G * gam, q)
        B.eq('cone increment', an - al, xi * gam)


@case('C13', params=CFG, ntrials=2)
def initial(B, impl, pt):
    K, G, E, v = moduli(B)
    s = build(B, impl, pt, Law(B), E, v, *cone(B)).state_init()
    for k in ('e_strain_mf', 'strain_mf', 'stress_mf'):
        B.eq(k, s[k], [0.0] * len(order(pt)))
    if pt == 1:
        B.eq('initial out-of-plane strain', item(B, s['e_strain_33']), B.num(0))
        B.eq('initial out-of-plane stress', item(B, s['stress_33']), B.num(0))
    B.eq('acc', item(B, s['acc_p_strain']), B.num(0))
    B.true('sound', not any(is_true(B, s[k]) for k in ('is_su_fail', 'is_plast', 'is_apex_return')))


@case('C13', params=CFG, ntrials=1, sym=False, why='one concrete state of every branch (the general case is the update contract)')
def no_solution(B, impl, pt):
    """A return to the cone or to the apex without a solution is reported as a failure."""
    K, G, xi, ey, ef = B.num(2), B.num(1), B.num(1), B.rat(3, 10), B.rat(1, 5)
    E, v = 9 * K * G / (3 * K + G), (3 * K - 2 * G) / (2 * (3 * K + G))
    n = pt_dim(pt)
    # cone: sqrt(J2) = 2 G e12 = 4, no pressure: increments 3/1.12 and 2/1.12 with the two cohesions
    shear = [[B.num(2 if sorted((i, j)) == [0, 1] else 0) for j in range(n)] for i in range(n)]
    # apex: volumetric strain 6 and a small deviator; cone increments 2.3 and 1.5, apex hardening 5 (6 - 5/3) and 5 (6 - 10/3)
    vol = [[B.num(3 if n == 2 else 2) if i == j else B.num(0) for j in range(n)] for i in range(n)]
    for i, j in ((0, 1), (1, 0)):
        vol[i][j] = B.rat(1, 100)
    for inc, where in ((shear, B.rat(22, 10)), (vol, B.num(17))):
        m = build(B, impl, pt, Jump(B, 1.0, 2.0, where), E, v, xi, ey, ef)
        new, _ = m.state_update(B.tensor(inc), m.state_init())
        check_failed(B, new, ('e_strain_mf', 'stress_mf', 'acc_p_strain'))
        m = build(B, impl, pt, Jump(B, 1.0, 2.0, B.num(90)), E, v, xi, ey, ef)
        new, _ = m.state_update(B.tensor(inc), m.state_init())
        B.true('sound without the jump', not is_true(B, new['is_su_fail']) and is_true(B, new['is_plast']))
        B.true('branch', is_true(B, new['is_apex_return']) == (inc is vol))
