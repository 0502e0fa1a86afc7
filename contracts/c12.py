"""C12: von Mises return mapping with isotropic and kinematic hardening."""
from vf.engine import case
from contracts.mat import (STD, VM, Law, Jump, mf, sym, full, unmf, moduli, hooke, eqm, item, order, pt_dim, trace, dev, ddot, norm,
                           madd, scal, params)
from contracts.c11 import CFG, TOL, SMALL, is_true, all_nan, eqalt, check_failed, build as build_iso
FUNCTIONS = ['VonMisesMixed.__init__', 'VonMisesMixed.state_init', 'VonMisesMixed.state_update', 'VonMisesMixedVMAP.__init__',
             'VonMisesMixedVMAP.state_update', 'VonMisesMixedVMAP._elastic_step', 'VonMisesMixedVMAP._plastic_step',
             'VonMisesMixedVMAP._nr_iteration']
ASSUMPTIONS = ['isotropic law: any non-decreasing function, at least 1e-6; kinematic law: any non-decreasing function',
               'the old back stress is deviatoric (invariant established by the initial state and preserved by the update)',
               'the return-mapping iteration is cut at its loop head with every loop-carried value arbitrary',
               'vectorised model: the flow direction may be regularised by its constant 1e-8 (accepted alternative)']


def build(B, impl, pt, law, kin, K, G, E, v):
    p = {'elastic_symmetry': 'isotropic', 'E': E, 'v': v, 'euler_angles': (0.0, 0.0, 0.0), 'hardening_law': law,
         'hardening_parameters': params(law), 'kinematic_hardening_law': kin, 'kinematic_hardening_parameters': params(kin, 'kinematic ')}
    if impl == 'standard':
        return B.mod(STD + 'von_mises_mixed').VonMisesMixed('infinitesimal', pt, p)
    return B.mod(VM + 'von_mises_mixed').VonMisesMixedVMAP('infinitesimal', pt, p)


def old_state(B, m, pt):
    s = m.state_init()
    es = sym(B, 'e', pt, dist=(-0.4, 0.4))
    ts = sym(B, 't', pt, dist=(-0.4, 0.4))
    be = [list(r) for r in sym(B, 'b', pt, dist=(-0.4, 0.4))]
    e33 = B.var('e33', dist=(-0.4, 0.4)) if pt == 1 else 0
    b33 = -(be[0][0] + be[1][1])
    if pt == 4:
        be[2][2] = b33
    al = B.var('al', nonneg=True, dist=(0.0, 1.0))
    s['e_strain_mf'] = B.tensor(mf(B, es, pt))
    s['strain_mf'] = B.tensor(mf(B, ts, pt))
    s['back_stress_mf'] = B.tensor(mf(B, be, pt))
    s['acc_p_strain'] = B.tensor(al)
    if pt == 1:
        s['e_strain_33'] = B.tensor(e33)
        s['back_stress_33'] = B.tensor(b33)
    return s, es, ts, e33, al, full(B, be, pt, b33)


def reg_norm(B, m):
    acc = B.num(0)
    for x in mf(B, m, 4):
        acc = acc + (x + B.num(SMALL)) * (x + B.num(SMALL))
    return B.sqrt(acc)


@case('C12', params=CFG, ntrials=40, sym_s=150)
def update(B, impl, pt):
    K, G, E, v = moduli(B)
    law, kin = Law(B), Law(B, 'hk', positive=False)
    m = build(B, impl, pt, law, kin, K, G, E, v)
    old, es, ts, e33, al, be = old_state(B, m, pt)
    inc = sym(B, 'd', pt, dist=(-0.6, 0.6))
    ti = B.tensor(inc)
    keep = B.frozen('input', [ti] + [old[k] for k in sorted(old) if k in (
        'e_strain_mf', 'strain_mf', 'acc_p_strain', 'stress_mf', 'e_strain_33', 'back_stress_mf', 'back_stress_33')])
    new, tan = m.state_update(ti, old)
    keep()
    n = pt_dim(pt)
    B.eq('total strain', new['strain_mf'], mf(B, [[ts[i][j] + inc[i][j] for j in range(n)] for i in range(n)], pt))
    if is_true(B, new['is_su_fail']):
        for k in ('e_strain_mf', 'stress_mf', 'acc_p_strain', 'back_stress_mf'):
            B.true('failed state is not a state: ' + k, all_nan(B, new[k]))
        return
    tr = madd(full(B, es, pt, e33), full(B, inc, pt, 0))
    eta = madd(dev(B, hooke(B, K, G, tr)), be, -1)
    q = B.sqrt(B.rat(3, 2)) * norm(B, eta)
    sy0, _ = law.at(al)
    en = unmf(B, new['e_strain_mf'], pt, item(B, new['e_strain_33']) if pt == 1 else None)
    sn = unmf(B, new['stress_mf'], pt, item(B, new['stress_33']) if pt == 1 else None)
    bn = unmf(B, new['back_stress_mf'], pt, item(B, new['back_stress_33']) if pt == 1 else None)
    eqm(B, 'stress is the elastic law of the elastic strain', sn, hooke(B, K, G, en))
    an = item(B, new['acc_p_strain'])
    B.eq('back stress stays deviatoric', trace(bn), B.num(0))
    if not is_true(B, new['is_plast']):
        eqm(B, 'elastic step', en, tr)
        eqm(B, 'elastic step: back stress', bn, be)
        B.eq('elastic step: accumulated plastic strain', an, al)
        B.le('elastic step does not exceed yield', q, sy0 * (1 + B.num(TOL)))
        return
    B.lt('plastic step only beyond yield', sy0, q)
    gam = an - al
    sy, _ = law.at(an)
    k0, _ = kin.at(al)
    k1, _ = kin.at(an)
    dp = madd(tr, en, -1)
    B.eq('plastic flow is deviatoric', trace(dp), B.num(0))
    rt = B.sqrt(B.rat(3, 2))
    nn = norm(B, eta)
    regs = [reg_norm(B, eta)] if B.sym and impl == 'vmap' else []
    eqalt(B, 'plastic flow along the relative stress', dp, scal(gam * rt / nn, eta), [scal(gam * rt / r, eta) for r in regs])
    c = (k1 - k0) * rt * B.rat(2, 3)
    db = madd(bn, be, -1)
    eqalt(B, 'back stress increment', db, scal(c / nn, eta), [scal(c / r, eta) for r in regs])
    res = q - 3 * G * gam - (k1 - k0)
    B.le('yield condition from above', res, sy * (1 + B.num(TOL)))
    B.le('yield condition from below', sy * (1 - B.num(TOL)), res)
    B.le('plastic strain never decreases', B.num(0), gam)
    if impl == 'standard' or not B.sym:
        s2 = madd(dev(B, sn), bn, -1)
        B.eq('updated relative equivalent stress', B.rat(3, 2) * ddot(s2, s2), res * res, rtol=1e-5)


@case('C12', params=CFG, ntrials=25, cut=False)
def linear_hardening_succeeds(B, impl, pt):
    K, G, E, v = moduli(B)
    law, kin = Law(B, kind='linear'), Law(B, 'hk', kind='linear', positive=False)
    m = build(B, impl, pt, law, kin, K, G, E, v)
    old, es, ts, e33, al, be = old_state(B, m, pt)
    inc = sym(B, 'd', pt, dist=(-0.6, 0.6))
    new, tan = m.state_update(B.tensor(inc), old)
    B.true('success', not is_true(B, new['is_su_fail']))
    if is_true(B, new['is_plast']):
        tr = madd(full(B, es, pt, e33), full(B, inc, pt, 0))
        q = B.sqrt(B.rat(3, 2)) * norm(B, madd(dev(B, hooke(B, K, G, tr)), be, -1))
        B.eq('increment', item(B, new['acc_p_strain']) - al, (q - law.s0 - law.a * al) / (3 * G + law.a + kin.a))


@case('C12', params=CFG, ntrials=15, cut=False)
def constant_kinematic_law(B, impl, pt):
    """No kinematic hardening: same result as the isotropic model (from a state without back stress)."""
    K, G, E, v = moduli(B)
    law = Law(B, kind='linear')

    class Const:
        def __call__(self, hardening_parameters, acc_p_strain, is_check_data=False):
            return acc_p_strain * 0.0 + c, acc_p_strain * 0.0
    c = 0.0 if B.sym else 0.3
    m = build(B, impl, pt, law, Const(), K, G, E, v)
    mi = build_iso(B, impl, pt, law, K, G, E, v)
    so, si = m.state_init(), mi.state_init()
    es = sym(B, 'e', pt, dist=(-0.4, 0.4))
    inc = sym(B, 'd', pt, dist=(-0.6, 0.6))
    for s in (so, si):
        s['e_strain_mf'] = B.tensor(mf(B, es, pt))
        s['strain_mf'] = B.tensor(mf(B, es, pt))
    a, ta = m.state_update(B.tensor(inc), so)
    b, tb = mi.state_update(B.tensor(inc), si)
    for k in ('stress_mf', 'e_strain_mf', 'strain_mf', 'acc_p_strain'):
        B.eq(k, B.arr(a[k]).reshape(-1), B.arr(b[k]).reshape(-1))
    B.eq('no back stress', a['back_stress_mf'], [0.0] * len(order(pt)))
    B.true('flags', is_true(B, a['is_plast']) == is_true(B, b['is_plast']) and
           is_true(B, a['is_su_fail']) == is_true(B, b['is_su_fail']))


@case('C12', params=CFG, ntrials=2)
def initial(B, impl, pt):
    K, G, E, v = moduli(B)
    s = build(B, impl, pt, Law(B), Law(B, 'hk', positive=False), K, G, E, v).state_init()
    for k in ('e_strain_mf', 'strain_mf', 'stress_mf', 'back_stress_mf'):
        B.eq(k, s[k], [0.0] * len(order(pt)))
    if pt == 1:
        B.eq('initial out-of-plane strain', item(B, s['e_strain_33']), B.num(0))
        B.eq('initial out-of-plane stress', item(B, s['stress_33']), B.num(0))
        B.eq('initial out-of-plane back stress', item(B, s['back_stress_33']), B.num(0))
    B.eq('acc', item(B, s['acc_p_strain']), B.num(0))
    B.true('sound', not is_true(B, s['is_su_fail']) and not is_true(B, s['is_plast']))


@case('C12', params=CFG, ntrials=1, sym=False, why='one concrete state of every branch (the general case is the update contract)')
def no_solution(B, impl, pt):
    """A return mapping without a solution is reported as a failure, and the next sound step is not affected."""
    K, G = B.num(2), B.num(1)
    E, v = 9 * K * G / (3 * K + G), (3 * K - 2 * G) / (2 * (3 * K + G))
    for iso in (True, False):
        jump, flat = Jump(B, 1.0, 2.0, B.rat(18, 10)), Jump(B, 1.0, 1.0, B.num(50))
        m = build(B, impl, pt, *((jump, flat) if iso else (flat, jump)), K, G, E, v)
        n = pt_dim(pt)
        inc = [[B.num(2 if sorted((i, j)) == [0, 1] else 0) for j in range(n)] for i in range(n)]
        new, _ = m.state_update(B.tensor(inc), m.state_init())
        check_failed(B, new, ('e_strain_mf', 'stress_mf', 'acc_p_strain'))
        half = [[x / 4 for x in r] for r in inc]
        new, _ = m.state_update(B.tensor(half), m.state_init())
        B.true('sound step after a failure', not is_true(B, new['is_su_fail']) and is_true(B, new['is_plast']))
