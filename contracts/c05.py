"""C05: Gauss quadratures."""
import itertools
from math import factorial
from vf.engine import case
from contracts.elems import ELEMS, make
MOD = 'simulators.fetorch.element.type.quadratures'
FUNCTIONS = ['gauss_quadrature', 'gauss_quadrature_1d', 'gauss_quadrature_2d', 'gauss_quadrature_3d',
             'uniform_grid_quadrature', 'ElementType.get_gauss_integration_points',
             'ElementType.get_batched_gauss_integration_points', 'ElementType.get_n_gauss']
# domain -> (dim, {number of points: design degree (per direction for product rules, total for simplices)})
RULES = {'linear': (1, {1: 1, 2: 3, 3: 5}), 'quadrilateral': (2, {1: 1, 4: 3, 9: 5}), 'hexahedral': (3, {1: 1, 8: 3, 27: 5}),
         'triangular': (2, {1: 1, 3: 2}), 'tetrahedral': (3, {1: 1, 4: 2})}
SIMPLEX = ('triangular', 'tetrahedral')


def integral(B, dom, a):
    if dom in SIMPLEX:
        n = 1
        for x in a:
            n *= factorial(x)
        return B.rat(n, factorial(sum(a) + len(a)))
    r = B.num(1)
    for x in a:
        r = r * (B.num(0) if x % 2 else B.rat(2, x + 1))
    return r


def exact(B, dom, deg, X, W):
    n = RULES[dom][0]
    for a in itertools.product(range(deg + 1), repeat=n):
        if dom in SIMPLEX and sum(a) > deg:
            continue
        s = B.num(0)
        for x, w in zip(X, W):
            t = w
            for v, p in zip(x, a):
                for _ in range(p):
                    t = t * v
            s = s + t
        B.eq('integral of monomial %s' % (a,), s, integral(B, dom, a))
    for i, (x, w) in enumerate(zip(X, W)):
        B.lt('weight %d positive' % (i + 1), B.num(0), w)
        for v in x:
            if dom in SIMPLEX:
                B.le('point %d inside' % (i + 1), B.num(0), v)
            else:
                B.le('point %d inside' % (i + 1), B.absv(v), B.num(1))
        if dom in SIMPLEX:
            B.le('point %d inside' % (i + 1), sum(x), B.num(1))
    pts = {tuple(str(v) for v in x) for x in X}
    B.true('points distinct', len(pts) == len(X))


@case('C05', params=[('%s,%d' % (d, m), dict(dom=d, m=m)) for d in RULES for m in RULES[d][1]], ntrials=1)
def rule(B, dom, m):
    c, w = B.mod(MOD).gauss_quadrature(m, dom)
    keys = [str(i + 1) for i in range(m)]
    B.true('labels', sorted(c) == sorted(keys) and sorted(w) == sorted(keys))
    X = [list(B.arr(c[k])) for k in keys]
    W = [B.val(w[k]) for k in keys]
    B.true('dimension', all(len(x) == RULES[dom][0] for x in X))
    exact(B, dom, RULES[dom][1][m], X, W)


@case('C05', params=[('%s,%s' % (e, m), dict(e=e, m=m)) for e in ELEMS for m in ELEMS[e][4] + (None,)], ntrials=1)
def element_rule(B, e, m):
    el = make(B, e) if m is None else make(B, e, n_gauss=m)
    dom = ELEMS[e][5]
    if m is None:
        m = el.get_n_gauss()
        B.true('default rule is admissible', m in ELEMS[e][4])
    B.true('number of points', el.get_n_gauss() == m)
    c, w = el.get_gauss_integration_points()
    keys = [str(i + 1) for i in range(m)]
    B.true('labels', sorted(c) == sorted(keys) and sorted(w) == sorted(keys))
    X = [list(B.arr(c[k])) for k in keys]
    W = [B.val(w[k]) for k in keys]
    exact(B, dom, RULES[dom][1][m], X, W)
    bc, bw = el.get_batched_gauss_integration_points()
    B.eq('batched points', bc, X)
    B.eq('batched weights', bw, W)
    # the caller owns what it gets
    c['1'] = c['1'] + 1.0
    for k in keys:
        w[k] += 1.0
    c2, w2 = el.get_gauss_integration_points()
    B.eq('points after the caller changed its copy', [list(B.arr(c2[k])) for k in keys], X)
    B.eq('weights after the caller changed its copy', [B.val(w2[k]) for k in keys], W)


@case('C05', ntrials=1)
def rejected(B):
    Q = B.mod(MOD)
    for d, m in (('linear', 4), ('quadrilateral', 3), ('triangular', 4), ('hexahedral', 9), ('tetrahedral', 5)):
        B.raises('%s %d' % (d, m), lambda: Q.gauss_quadrature(m, d), RuntimeError)
    B.raises('unknown domain', lambda: Q.gauss_quadrature(1, 'prism'), RuntimeError)
    B.raises('inadmissible rule', lambda: make(B, 'quad4', n_gauss=9), RuntimeError)
