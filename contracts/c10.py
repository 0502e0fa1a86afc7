"""C10: elasticity."""
import numpy as np
from vf.engine import case
from contracts.mat import (STD, mf, sym, full, unmf, moduli, hooke, eqm, item, order, kf, pt_dim)
EL = STD + 'elastic'
FUNCTIONS = ['Elastic.__init__', 'Elastic.state_init', 'Elastic.state_update', 'Elastic.elastic_tangent_modulus',
             'Elastic.get_technical_from_elastic_moduli', 'Elastic.get_available_elastic_symmetries']
ASSUMPTIONS = ['isotropic admissible constants are parametrised by bulk and shear modulus K, G > 0',
               'infinitesimal strain formulation (the only one whose state update the package implements)']
PTS = [('plane strain', dict(pt=1)), ('3D', dict(pt=4))]


def params(B, how):
    K, G, E, v = moduli(B)
    if how == 'Ev':
        p = {'elastic_symmetry': 'isotropic', 'E': E, 'v': v}
    else:
        p = {'elastic_symmetry': 'isotropic', 'E1111': K + 4 * G / 3, 'E1122': K - 2 * G / 3}
    p['euler_angles'] = (0.0, 0.0, 0.0)
    return K, G, E, v, p


@case('C10', params=[('%s,%s' % (n, h), dict(pt=k['pt'], how=h)) for n, k in PTS for h in ('Ev', 'moduli')], ntrials=10)
def step(B, pt, how):
    """One update from an arbitrary state: strain adds up, stress is the law of the elastic strain."""
    K, G, E, v, p = params(B, how)
    m = B.mod(EL).Elastic('infinitesimal', pt, p)
    old = m.state_init()
    es = sym(B, 'e', pt)
    e33 = B.var('e33') if pt == 1 else 0
    inc = sym(B, 'd', pt)
    old['e_strain_mf'] = B.tensor(mf(B, es, pt))
    old['strain_mf'] = B.tensor(mf(B, es, pt))
    if pt == 1:
        old['e_strain_33'] = B.tensor(e33)
    ti = B.tensor(inc)
    keep = B.frozen('input', [ti, old['e_strain_mf'], old['strain_mf'], old['stress_mf']])
    new, tan = m.state_update(ti, old)
    tot = [[full(B, es, pt, e33)[i][j] + full(B, inc, pt, 0)[i][j] for j in range(3)] for i in range(3)]
    sig = hooke(B, K, G, tot)
    for k in ('e_strain_mf', 'strain_mf'):
        B.eq(k, new[k], mf(B, tot, pt))
    B.eq('stress', new['stress_mf'], mf(B, sig, pt))
    if pt == 1:
        B.eq('out-of-plane strain', item(B, new['e_strain_33']), e33)
        B.eq('out-of-plane stress', item(B, new['stress_33']), sig[2][2])
    B.true('not failed', not new['is_su_fail'])
    B.true('not plastic', not new['is_plast'])
    keep()
    # tangent reproduces the law on a second arbitrary strain
    w = sym(B, 'w', pt)
    tw = np.array(B.arr(tan)).dot(np.array(mf(B, w, pt), dtype=object if B.sym else float))
    B.eq('tangent', tw, mf(B, hooke(B, K, G, full(B, w, pt, 0)), pt))


@case('C10', params=PTS, ntrials=6)
def history(B, pt):
    """Path independence over several increments from the initial state (induction base plus the step case)."""
    K, G, E, v, p = params(B, 'Ev')
    m = B.mod(EL).Elastic('infinitesimal', pt, p)
    s = m.state_init()
    B.eq('initial strain', s['e_strain_mf'], [0.0] * len(order(pt)))
    B.eq('initial total strain', s['strain_mf'], [0.0] * len(order(pt)))
    B.eq('initial stress', s['stress_mf'], [0.0] * len(order(pt)))
    if pt == 1:
        B.eq('initial out-of-plane strain', item(B, s['e_strain_33']), 0.0)
        B.eq('initial out-of-plane stress', item(B, s['stress_33']), 0.0)
    B.true('initially sound', not s['is_su_fail'] and not s['is_plast'])
    incs = [sym(B, 'd%d' % i, pt) for i in range(3)]
    for i in range(3):
        s, _ = m.state_update(B.tensor(incs[i]), s)
    n = pt_dim(pt)
    tot = [[incs[0][i][j] + incs[1][i][j] + incs[2][i][j] for j in range(n)] for i in range(n)]
    B.eq('total strain', s['e_strain_mf'], mf(B, tot, pt))
    B.eq('stress', s['stress_mf'], mf(B, hooke(B, K, G, full(B, tot, pt, 0)), pt))


@case('C10', ntrials=10)
def constants(B):
    K, G, E, v, p = params(B, 'moduli')
    M = B.mod(EL).Elastic
    t = M.get_technical_from_elastic_moduli('isotropic', p)
    B.eq('E', t['E'], E)
    B.eq('v', t['v'], v)
    t = M.get_technical_from_elastic_moduli('isotropic', {'E': E, 'v': v})
    B.eq('E kept', t['E'], E)
    B.eq('v kept', t['v'], v)
    B.eq('both parametrisations give one matrix', M.elastic_tangent_modulus({'E': E, 'v': v}),
         M.elastic_tangent_modulus({'E1111': p['E1111'], 'E1122': p['E1122']}))
    m = M('infinitesimal', 4, p)
    mp = m.get_model_parameters() if hasattr(m, 'get_model_parameters') else p
    B.eq('model E', mp['E'], E)
    B.eq('model v', mp['v'], v)


# independent moduli and the entries (pairs of components) each fills, from the material symmetry
A_, B_, C_, D_, F_, H_ = '11', '22', '33', '12', '23', '13'
ENTRIES = {
    'isotropic': {'E1111': [(A_, A_), (B_, B_), (C_, C_)], 'E1122': [(A_, B_), (A_, C_), (B_, C_)]},
    'transverse_isotropic': {'E1111': [(A_, A_), (B_, B_)], 'E3333': [(C_, C_)], 'E1122': [(A_, B_)],
                             'E1133': [(A_, C_), (B_, C_)], 'E2323': [(F_, F_), (H_, H_)]},
}
ORTHO = [(A_, A_), (B_, B_), (C_, C_), (A_, B_), (A_, C_), (B_, C_), (D_, D_), (F_, F_), (H_, H_)]
MONO = ORTHO + [(A_, D_), (B_, D_), (C_, D_), (F_, H_)]
_o = [A_, B_, C_, D_, F_, H_]
TRI = [(_o[i], _o[j]) for i in range(6) for j in range(i, 6)]
for _n, _l in (('orthotropic', ORTHO), ('monoclinic', MONO), ('triclinic', TRI)):
    ENTRIES[_n] = {'E' + a + b: [(a, b)] for a, b in _l}


@case('C10', params=[(s, dict(s=s)) for s in ENTRIES], ntrials=8)
def symmetry(B, s):
    vals = {k: B.var(k) for k in ENTRIES[s]}
    t = B.mod(EL).Elastic.elastic_tangent_modulus(dict(vals), elastic_symmetry=s)
    ten = {}
    for k, es in ENTRIES[s].items():
        for a, b in es:
            ten[(a, b)] = ten[(b, a)] = vals[k]
    if s in ('isotropic', 'transverse_isotropic'):
        sh = (vals['E1111'] - vals['E1122']) / 2
        ten[('12', '12')] = sh
        if s == 'isotropic':
            ten[('23', '23')] = ten[('13', '13')] = sh
    o = order(4)
    want = [[kf(B, a) * kf(B, b) * ten.get((a, b), B.num(0)) for b in o] for a in o]
    B.eq('matrix', t, want)


@case('C10', params=[(s, dict(s=s)) for s in ENTRIES], ntrials=2)
def missing(B, s):
    """Each declared independent modulus is really required."""
    M = B.mod(EL).Elastic
    B.true('declared moduli', set(M.get_available_elastic_symmetries()[s]) == set(ENTRIES[s]))
    for k in ENTRIES[s]:
        d = {x: 1.0 for x in ENTRIES[s] if x != k}
        B.raises('missing ' + k, lambda: M.elastic_tangent_modulus(d, elastic_symmetry=s), RuntimeError)
    B.raises('unknown symmetry', lambda: M.elastic_tangent_modulus({'E': 1.0, 'v': 0.2}, elastic_symmetry='cubic'), RuntimeError)
