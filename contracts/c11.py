"""C11: von Mises return mapping."""
import numpy as np
from vf.engine import case
from contracts.mat import (STD, VM, Law, Jump, mf, sym, full, unmf, moduli, hooke, eqm, item, order, pt_dim, trace, dev, ddot, norm,
                           madd, scal, params)
FUNCTIONS = ['VonMises.__init__', 'VonMises.state_init', 'VonMises.state_update', 'VonMisesVMAP.__init__',
             'VonMisesVMAP.state_update', 'VonMisesVMAP._elastic_step', 'VonMisesVMAP._plastic_step',
             'VonMisesVMAP._nr_iteration']
ASSUMPTIONS = ['hardening law: any non-decreasing function, at least 1e-6 (the code treats deviators below 1e-8 as zero), of the accumulated plastic strain (uninterpreted)',
               'the return-mapping iteration is cut at its loop head with every loop-carried value arbitrary (loop invariant '
               'true), so the facts used after the loop are those of its exit tests',
               'vectorised model: the flow direction may be regularised by its constant 1e-8 (accepted alternative)']
TOL = 1e-6
SMALL = 1e-8
CFG = [('%s,%s' % (v, n), dict(impl=v, pt=p)) for v in ('standard', 'vmap') for n, p in (('plane strain', 1), ('3D', 4))]


def build(B, impl, pt, law, K, G, E, v, mixed=False):
    p = {'elastic_symmetry': 'isotropic', 'E': E, 'v': v, 'euler_angles': (0.0, 0.0, 0.0),
         'hardening_law': law, 'hardening_parameters': params(law)}
    if impl == 'standard':
        return B.mod(STD + 'von_mises').VonMises('infinitesimal', pt, p)
    return B.mod(VM + 'von_mises').VonMisesVMAP('infinitesimal', pt, p)


def old_state(B, m, pt, scale=1.0):
    """An arbitrary state: elastic and total strain, accumulated plastic strain."""
    s = m.state_init()
    es = sym(B, 'e', pt, dist=(-0.4, 0.4))
    ts = sym(B, 't', pt, dist=(-0.4, 0.4))
    e33 = B.var('e33', dist=(-0.4, 0.4)) if pt == 1 else 0
    al = B.var('al', nonneg=True, dist=(0.0, 1.0))
    s['e_strain_mf'] = B.tensor(mf(B, es, pt))
    s['strain_mf'] = B.tensor(mf(B, ts, pt))
    s['acc_p_strain'] = B.tensor(al)
    if pt == 1:
        s['e_strain_33'] = B.tensor(e33)
    return s, es, ts, e33, al


def is_true(B, x):
    if hasattr(x, 'shape') and not B.sym:
        return bool(x)
    return bool(B.val(x)) if hasattr(x, 'item') else bool(x)


def all_nan(B, x):
    a = B.arr(x).reshape(-1)
    if B.sym:
        return all(getattr(v, 'k', None) == 'nan' for v in a)
    return bool(np.isnan(a.astype(float)).all())


@case('C11', params=CFG, ntrials=40, sym_s=150)
def update(B, impl, pt):
    K, G, E, v = moduli(B)
    law = Law(B)
    m = build(B, impl, pt, law, K, G, E, v)
    old, es, ts, e33, al = old_state(B, m, pt)
    inc = sym(B, 'd', pt, dist=(-0.6, 0.6))
    ti = B.tensor(inc)
    keep = B.frozen('input', [ti] + [old[k] for k in sorted(old) if k in (
        'e_strain_mf', 'strain_mf', 'acc_p_strain', 'stress_mf', 'e_strain_33')])
    new, tan = m.state_update(ti, old)
    keep()
    n = pt_dim(pt)
    # total strain accumulates, whatever happened
    B.eq('total strain', new['strain_mf'], mf(B, [[ts[i][j] + inc[i][j] for j in range(n)] for i in range(n)], pt))
    if is_true(B, new['is_su_fail']):
        B.cover('failed')
        for k in ('e_strain_mf', 'stress_mf', 'acc_p_strain'):
            B.true('failed state is not a state: ' + k, all_nan(B, new[k]))
        return
    tr = madd(full(B, es, pt, e33), full(B, inc, pt, 0))
    st = dev(B, hooke(B, K, G, tr))
    q = B.sqrt(B.rat(3, 2)) * norm(B, st)
    sy0, _ = law.at(al)
    en = unmf(B, new['e_strain_mf'], pt, item(B, new['e_strain_33']) if pt == 1 else None)
    sn = unmf(B, new['stress_mf'], pt, item(B, new['stress_33']) if pt == 1 else None)
    eqm(B, 'stress is the elastic law of the elastic strain', sn, hooke(B, K, G, en))
    an = item(B, new['acc_p_strain'])
    if not is_true(B, new['is_plast']):
        B.cover('elastic')
        eqm(B, 'elastic step', en, tr)
        B.eq('elastic step: accumulated plastic strain', an, al)
        B.le('elastic step does not exceed yield', q, sy0 * (1 + B.num(TOL)))
        return
    B.cover('plastic')
    B.lt('plastic step only beyond yield', sy0, q)
    gam = an - al
    sy, _ = law.at(an)
    dp = madd(tr, en, -1)
    B.eq('plastic flow is deviatoric', trace(dp), B.num(0))
    # direction and size: dp = gamma sqrt(3/2) st / |st|
    want = scal(gam * B.sqrt(B.rat(3, 2)) / norm(B, st), st)
    alts = None
    res = q - 3 * G * gam
    if B.sym and impl == 'vmap':
        kel = mf(B, st, 4)
        acc = B.num(0)
        for x in kel:
            acc = acc + (x + B.num(SMALL)) * (x + B.num(SMALL))
        reg = B.sqrt(acc)
        alts = [scal(gam * B.sqrt(B.rat(3, 2)) / reg, st)]
    eqalt(B, 'plastic flow along the trial deviator', dp, want, alts)
    # consistency
    B.le('yield condition from above', res, sy * (1 + B.num(TOL)))
    B.le('yield condition from below', sy * (1 - B.num(TOL)), res)
    B.le('plastic strain never decreases', B.num(0), gam)
    if impl == 'standard' or not B.sym:
        s2 = dev(B, sn)
        B.eq('updated equivalent stress', B.rat(3, 2) * ddot(s2, s2), res * res, rtol=1e-5)


def eqalt(B, name, got, want, alts):
    if alts:
        from vf import terms as tm
        for w in alts:
            if all(tm.is_zero(tm.lift(got[i][j]) - tm.lift(w[i][j])) for i in range(3) for j in range(i, 3)):
                eqm(B, name, got, w)
                return
    eqm(B, name, got, want)


@case('C11', params=CFG, ntrials=25, cut=False)
def linear_hardening_succeeds(B, impl, pt):
    """With linear hardening the iteration is exact, so the update must not fail."""
    K, G, E, v = moduli(B)
    law = Law(B, kind='linear')
    m = build(B, impl, pt, law, K, G, E, v)
    old, es, ts, e33, al = old_state(B, m, pt)
    inc = sym(B, 'd', pt, dist=(-0.6, 0.6))
    new, tan = m.state_update(B.tensor(inc), old)
    B.true('success', not is_true(B, new['is_su_fail']))
    if is_true(B, new['is_plast']):
        st = dev(B, hooke(B, K, G, madd(full(B, es, pt, e33), full(B, inc, pt, 0))))
        q = B.sqrt(B.rat(3, 2)) * norm(B, st)
        B.eq('increment', item(B, new['acc_p_strain']) - al, (q - law.s0 - law.a * al) / (3 * G + law.a))


@case('C11', params=CFG, ntrials=2)
def initial(B, impl, pt):
    K, G, E, v = moduli(B)
    s = build(B, impl, pt, Law(B), K, G, E, v).state_init()
    for k in ('e_strain_mf', 'strain_mf', 'stress_mf'):
        B.eq(k, s[k], [0.0] * len(order(pt)))
    if pt == 1:
        B.eq('initial out-of-plane strain', item(B, s['e_strain_33']), B.num(0))
        B.eq('initial out-of-plane stress', item(B, s['stress_33']), B.num(0))
    B.eq('acc', item(B, s['acc_p_strain']), B.num(0))
    B.true('sound', not is_true(B, s['is_su_fail']) and not is_true(B, s['is_plast']))


def check_failed(B, new, keys):
    B.true('failure is flagged', is_true(B, new['is_su_fail']))
    for k in keys:
        B.true('failed state is not a state: ' + k, all_nan(B, new[k]))


@case('C11', params=CFG, ntrials=1, sym=False, why='one concrete state of every branch (the general case is the update contract)')
def no_solution(B, impl, pt):
    """A return mapping without a solution is reported as a failure, and the next sound step is not affected."""
    K, G = B.num(2), B.num(1)
    E, v = 9 * K * G / (3 * K + G), (3 * K - 2 * G) / (2 * (3 * K + G))
    # (shear e12 = 2: equivalent stress 2 sqrt(3) G e12; increments of 1.98 and 1.64 with the two yield stresses)
    m = build(B, impl, pt, Jump(B, 1.0, 2.0, B.rat(18, 10)), K, G, E, v)
    n = pt_dim(pt)
    inc = [[B.num(2 if sorted((i, j)) == [0, 1] else 0) for j in range(n)] for i in range(n)]
    new, _ = m.state_update(B.tensor(inc), m.state_init())
    check_failed(B, new, ('e_strain_mf', 'stress_mf', 'acc_p_strain'))
    B.eq('total strain', new['strain_mf'], mf(B, inc, pt))
    half = [[x / 4 for x in r] for r in inc]
    new, _ = m.state_update(B.tensor(half), m.state_init())
    B.true('sound step after a failure', not is_true(B, new['is_su_fail']) and is_true(B, new['is_plast']))
