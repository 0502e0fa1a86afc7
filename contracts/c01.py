"""C01: matricial storage of tensors."""
import itertools
import numpy as np
from vf.engine import case
MOD = 'simulators.fetorch.math.matrixops'
FUNCTIONS = ['get_problem_type_parameters', 'get_tensor_mf', 'vget_tensor_mf', 'get_tensor_from_mf', 'vget_tensor_from_mf',
             'kelvin_factor', 'get_state_3Dmf_from_2Dmf', 'vget_state_3Dmf_from_2Dmf', 'get_state_2Dmf_from_3Dmf',
             'vget_state_2Dmf_from_3Dmf']
ASSUMPTIONS = ['component orders quantified over the declared order, its reversal, a rotation and a version that names the '
               'off-diagonal components by their transposes (finite set of configurations, all values symbolic)']
SYM = {2: ('11', '22', '12'), 3: ('11', '22', '33', '12', '23', '13')}
NSYM = {2: ('11', '21', '12', '22'), 3: ('11', '21', '31', '12', '22', '32', '13', '23', '33')}


def orders(n, sym):
    base = SYM[n] if sym else NSYM[n]
    out = [('std', base), ('rev', base[::-1]), ('rot', base[2:] + base[:2])]
    if sym:
        out.append(('transp', tuple(c[::-1] for c in base)))
    return out


def ix(c):
    return int(c[0]) - 1, int(c[1]) - 1


def w_(B, c, kelvin):
    return B.sqrt(2) if kelvin and c[0] != c[1] else B.num(1)


def tensor2(B, n, sym, name='a'):
    return np.array(B.symmat(name, n), object) if sym else B.array(name, (n, n))


def tensor4(B, n, sym, name='A'):
    if not sym:
        return B.array(name, (n,) * 4)
    o = np.empty((n,) * 4, object)
    cs = SYM[n]
    for p in cs:
        for q in cs:
            v = B.var('%s%s_%s' % (name, p, q))
            (i, j), (k, l) = ix(p), ix(q)
            for a, b in ((i, j), (j, i)):
                for c, e in ((k, l), (l, k)):
                    o[a, b, c, e] = v
    return o


CFG = [('order=%d,n=%d,%s,%s,%s' % (od, n, 'sym' if s else 'nsym', on, 'kelvin' if k else 'plain'),
        dict(od=od, n=n, sym=s, co=co, kelvin=k))
       for od in (2, 4) for n in (2, 3) for s in (True, False) for on, co in orders(n, s) for k in (True, False)]


@case('C01', params=CFG, ntrials=4)
def store_and_recover(B, od, n, sym, co, kelvin):
    M = B.mod(MOD)
    a = (tensor2 if od == 2 else tensor4)(B, n, sym)
    t = B.tensor(a)
    keep = B.frozen('tensor', [t])
    kw = dict(is_kelvin_notation=kelvin)
    k = kelvin and sym
    if od == 2:
        want = np.array([w_(B, c, k) * a[ix(c)] for c in co], object)
    else:
        want = np.empty((len(co),) * 2, object)
        for p, c in enumerate(co):
            for q, e in enumerate(co):
                want[p, q] = w_(B, c, k) * w_(B, e, k) * a[ix(c) + ix(e)]
    mf, vmf = M.get_tensor_mf(t, n, co, **kw), M.vget_tensor_mf(t, n, co, **kw)
    B.eq('stored components', mf, want)
    B.eq('vectorised stored components', vmf, want)
    keep()
    m = B.tensor(want)
    keepm = B.frozen('matricial form', [m])
    B.eq('recovered tensor', M.get_tensor_from_mf(m, n, co, **kw), a)
    B.eq('vectorised recovered tensor', M.vget_tensor_from_mf(m, n, co, **kw), a)
    B.eq('round trip', M.get_tensor_from_mf(mf, n, co, **kw), a)
    B.eq('vectorised round trip', M.vget_tensor_from_mf(vmf, n, co, **kw), a)
    keepm()


@case('C01', params=[('n=%d,%s,%s' % (n, 'sym' if s else 'nsym', on), dict(n=n, sym=s, co=co))
                     for n in (2, 3) for s in (True, False) for on, co in orders(n, s)], ntrials=4)
def metric(B, n, sym, co):
    """Matricial products are tensor contractions."""
    M = B.mod(MOD)
    a, b, A = tensor2(B, n, sym, 'a'), tensor2(B, n, sym, 'b'), tensor4(B, n, sym, 'A')
    for nm, st in (('loop', M.get_tensor_mf), ('vectorised', M.vget_tensor_mf)):
        ma, mb, mA = (B.arr(st(B.tensor(x), n, co)) for x in (a, b, A))
        R = range(n)
        N = range(len(co))
        B.eq(nm + ' a:b', sum(ma[i] * mb[i] for i in N), sum(a[i, j] * b[i, j] for i in R for j in R))
        got = [sum(mA[p, q] * mb[q] for q in N) for p in N]
        Ab = np.array([[sum(A[i, j, k, l] * b[k, l] for k in R for l in R) for j in R] for i in R], object)
        B.eq(nm + ' A:b', got, st(B.tensor(Ab), n, co))


@case('C01', params=[(('sym' if s else 'nsym'), dict(sym=s)) for s in (True, False)], ntrials=4)
def plane_and_3d(B, sym):
    M = B.mod(MOD)
    c2, c3 = (SYM if sym else NSYM)[2], (SYM if sym else NSYM)[3]
    a = B.vec('a', len(c2))
    z = B.var('z')
    t = B.tensor(a)
    keep = B.frozen('plane state', [t])
    want = [a[c2.index(c)] if c in c2 else (z if c == '33' else B.num(0)) for c in c3]
    for nm, r in (('loop', M.get_state_3Dmf_from_2Dmf(1, t, z)), ('vectorised', M.vget_state_3Dmf_from_2Dmf(t, z)),
                  ('loop (tensor comp_33)', M.get_state_3Dmf_from_2Dmf(1, t, B.tensor(z))),
                  ('vectorised (tensor comp_33)', M.vget_state_3Dmf_from_2Dmf(t, B.tensor(z)))):
        B.eq(nm + ' plane to 3D', r, want)
        B.eq(nm + ' back to plane', M.get_state_2Dmf_from_3Dmf(1, r), a)
        B.eq(nm + ' back to plane, vectorised', M.vget_state_2Dmf_from_3Dmf(r), a)
    keep()
    b = B.vec('b', len(c3))
    m = B.array('m', (len(c3), len(c3)))
    tb, tmm = B.tensor(b), B.tensor(m)
    keep = B.frozen('3D state', [tb, tmm])
    id_ = [c3.index(c) for c in c2]
    for nm, f in (('loop', lambda x: M.get_state_2Dmf_from_3Dmf(1, x)), ('vectorised', M.vget_state_2Dmf_from_3Dmf)):
        B.eq(nm + ' reduced vector', f(tb), [b[i] for i in id_])
        B.eq(nm + ' reduced matrix', f(tmm), [[m[i, j] for j in id_] for i in id_])
    keep()


@case('C01', ntrials=2)
def declared_orders_and_factors(B):
    M = B.mod(MOD)
    for pt, n in ((1, 2), (4, 3)):
        nd, cs, cn = M.get_problem_type_parameters(pt)
        B.true('dimension %d' % pt, nd == n)
        B.true('independent symmetric components %d' % pt,
               sorted(tuple(sorted(c)) for c in cs) == sorted(tuple(sorted(c)) for c in SYM[n]))
        B.true('all components %d' % pt, sorted(cn) == sorted(NSYM[n]))
        for co, s in ((cs, True), (cn, False)):
            for i, c in enumerate(co):
                B.eq('kelvin_factor %s %d' % (c, len(co)), M.kelvin_factor(i, co), w_(B, c, s))
                for j, e in enumerate(co):
                    B.eq('kelvin_factor %s%s %d' % (c, e, len(co)), M.kelvin_factor([i, j], co),
                         w_(B, c, s) * w_(B, e, s))
    B.raises('unavailable problem type', lambda: M.get_problem_type_parameters(7), RuntimeError)
    z = B.tensor(B.mat('a', 2, 2))
    B.raises('invalid component', lambda: M.get_tensor_mf(z, 2, ('11', '22', '13')), RuntimeError)
    B.raises('duplicated component', lambda: M.get_tensor_mf(z, 2, ('11', '22', '22')), RuntimeError)
    B.raises('wrong number of components', lambda: M.vget_tensor_mf(z, 2, ('11', '22')), RuntimeError)
