"""C02: Voigt storage of strain and stress."""
import numpy as np
from vf.engine import case
from contracts.c01 import SYM, orders, ix
MOD = 'simulators.fetorch.math.voigt_notation'
FUNCTIONS = ['get_strain_from_vmf', 'vget_strain_from_vmf', 'get_stress_vmf', 'vget_stress_vmf', 'get_projection_tensors_vmf']
ASSUMPTIONS = ['component orders quantified over the declared order, its reversal, a rotation and its transposed naming']
CFG = [('n=%d,%s' % (n, on), dict(n=n, co=co)) for n in (2, 3) for on, co in orders(n, True)]


@case('C02', params=CFG, ntrials=6)
def conversions(B, n, co):
    V = B.mod(MOD)
    e = B.vec('e', len(co))
    s = np.array(B.symmat('s', n), object)
    te, ts = B.tensor(e), B.tensor(s)
    keep = B.frozen('argument', [te, ts])
    want = np.empty((n, n), object)
    for q, c in enumerate(co):
        i, j = ix(c)
        want[i, j] = want[j, i] = e[q] if i == j else e[q] * B.rat(1, 2)
    for nm, fe, fs in (('loop', V.get_strain_from_vmf, V.get_stress_vmf),
                       ('vectorised', V.vget_strain_from_vmf, V.vget_stress_vmf)):
        E, S = fe(te, n, co), fs(ts, n, co)
        B.eq(nm + ' strain tensor', E, want)
        B.eq(nm + ' stress vector', S, [s[ix(c)] for c in co])
        Ea, Sa = B.arr(E), B.arr(S)
        B.eq(nm + ' work', sum(Sa[q] * e[q] for q in range(len(co))),
             sum(s[i, j] * Ea[i, j] for i in range(n) for j in range(n)))
    keep()


@case('C02', params=CFG, ntrials=6)
def projections(B, n, co):
    V = B.mod(MOD)
    vol, dev = (B.arr(x) for x in V.get_projection_tensors_vmf(n, co))
    N = range(len(co))
    a = B.vec('a', len(co))
    ap = lambda P, x: [sum(P[i, j] * x[j] for j in N) for i in N]
    tr = sum(a[q] for q, c in enumerate(co) if c[0] == c[1])
    va, da = ap(vol, a), ap(dev, a)
    B.eq('volumetric part', va, [tr / n if c[0] == c[1] else B.num(0) for c in co])
    B.eq('complementary', [x + y for x, y in zip(va, da)], a)
    B.eq('traceless', sum(da[q] for q, c in enumerate(co) if c[0] == c[1]), B.num(0))
    B.eq('vol idempotent', ap(vol, va), va)
    B.eq('dev idempotent', ap(dev, da), da)
    B.eq('orthogonal', ap(vol, da), [B.num(0) for _ in co])


@case('C02', ntrials=2)
def rejected(B):
    V = B.mod(MOD)
    t = B.tensor(B.mat('a', 2, 2))
    v = B.tensor(B.vec('v', 3))
    B.raises('strain of wrong rank', lambda: V.get_strain_from_vmf(t, 2, SYM[2]), RuntimeError)
    B.raises('stress of wrong rank', lambda: V.get_stress_vmf(v, 2, SYM[2]), RuntimeError)
    B.raises('component out of range', lambda: V.get_strain_from_vmf(v, 2, ('11', '22', '13')), RuntimeError)
    B.raises('duplicated component', lambda: V.get_stress_vmf(t, 2, ('11', '12', '12')), RuntimeError)
