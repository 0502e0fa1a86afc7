"""C03: tensor operators against their index definitions."""
import itertools
import numpy as np
from vf.engine import case
MOD = 'simulators.fetorch.math.tensorops'
FUNCTIONS = ['dyad11', 'dyad22_1', 'dyad22_2', 'dyad22_3', 'dot21_1', 'dot12_1', 'dot42_1', 'dot42_2', 'dot42_3',
             'dot24_1', 'dot24_2', 'dot24_3', 'dot24_4', 'ddot22_1', 'ddot42_1', 'ddot44_1', 'ddot24_1',
             'get_id_operators', 'fo_dinv_sym', 'dd']

# operator -> (order of a, order of b, order of result, definition)
I = range


def d(A, B, n, name):
    z = {}
    S = lambda f: sum(f(m) for m in I(n))
    SS = lambda f: sum(f(m, k) for m in I(n) for k in I(n))
    return {
        'dyad11': lambda i, j: A[i] * B[j],
        'dyad22_1': lambda i, j, k, l: A[i, j] * B[k, l],
        'dyad22_2': lambda i, j, k, l: A[i, k] * B[j, l],
        'dyad22_3': lambda i, j, k, l: A[i, l] * B[j, k],
        'dot21_1': lambda i: S(lambda j: A[i, j] * B[j]),
        'dot12_1': lambda j: S(lambda i: A[i] * B[i, j]),
        'dot42_1': lambda i, j, k, l: S(lambda m: A[i, j, k, m] * B[l, m]),
        'dot42_2': lambda i, j, k, l: S(lambda p: A[i, p, k, l] * B[j, p]),
        'dot42_3': lambda i, j, k, l: S(lambda m: A[i, j, k, m] * B[m, l]),
        'dot24_1': lambda i, j, k, l: S(lambda m: A[i, m] * B[m, j, k, l]),
        'dot24_2': lambda i, j, k, l: S(lambda m: A[j, m] * B[i, m, k, l]),
        'dot24_3': lambda i, j, k, l: S(lambda m: A[k, m] * B[i, j, m, l]),
        'dot24_4': lambda i, j, k, l: S(lambda m: A[l, m] * B[i, j, k, m]),
        'ddot22_1': lambda: SS(lambda i, j: A[i, j] * B[i, j]),
        'ddot42_1': lambda i, j: SS(lambda k, l: A[i, j, k, l] * B[k, l]),
        'ddot44_1': lambda i, j, k, l: SS(lambda m, q: A[i, j, m, q] * B[m, q, k, l]),
        'ddot24_1': lambda i, j: SS(lambda k, l: A[k, l] * B[k, l, i, j]),
    }[name]


OPS = {'dyad11': (1, 1, 2), 'dyad22_1': (2, 2, 4), 'dyad22_2': (2, 2, 4), 'dyad22_3': (2, 2, 4), 'dot21_1': (2, 1, 1),
       'dot12_1': (1, 2, 1), 'dot42_1': (4, 2, 4), 'dot42_2': (4, 2, 4), 'dot42_3': (4, 2, 4), 'dot24_1': (2, 4, 4),
       'dot24_2': (2, 4, 4), 'dot24_3': (2, 4, 4), 'dot24_4': (2, 4, 4), 'ddot22_1': (2, 2, 0), 'ddot42_1': (4, 2, 2),
       'ddot44_1': (4, 4, 4), 'ddot24_1': (2, 4, 2)}


@case('C03', params=[('%s,n=%d' % (o, n), dict(op=o, n=n)) for o in OPS for n in (2, 3)], ntrials=6)
def operator(B, op, n):
    oa, ob, orr = OPS[op]
    A, Bt = B.array('a', (n,) * oa), B.array('b', (n,) * ob)
    ta, tb = B.tensor(A), B.tensor(Bt)
    unchanged = B.frozen('argument', [ta, tb])
    r = getattr(B.mod(MOD), op)(ta, tb)
    f = d(A, Bt, n, op)
    w = np.empty((n,) * orr, object)
    for p in np.ndindex(*w.shape):
        w[p] = f(*p)
    B.eq(op, r, w if orr else w[()])
    unchanged()


@case('C03', params=[('n=%d' % n, dict(n=n)) for n in (2, 3)], ntrials=6)
def identity_operators(B, n):
    T = B.mod(MOD)
    soid, foid, fotransp, fosym, fodiagtrace, fodevproj, fodevprojsym = T.get_id_operators(n)
    a = B.array('a', (n, n))
    tr = sum(a[i, i] for i in range(n))
    third = B.rat(1, 3)

    def apply(op):
        o = B.arr(op)
        w = np.empty((n, n), object)
        for i, j in np.ndindex(n, n):
            w[i, j] = sum(o[i, j, k, l] * a[k, l] for k in range(n) for l in range(n))
        return w
    E = np.array([[1 if i == j else 0 for j in range(n)] for i in range(n)])
    sym = [[(a[i, j] + a[j, i]) * B.rat(1, 2) for j in range(n)] for i in range(n)]
    B.eq('second-order identity', soid, B.tensor([[1.0 * E[i, j] for j in range(n)] for i in range(n)]))
    B.eq('foid : a = a', fl(B, apply(foid)), a)
    B.eq('fotransp : a = a^T', fl(B, apply(fotransp)), a.T)
    B.eq('fosym : a = sym(a)', fl(B, apply(fosym)), sym)
    B.eq('fodiagtrace : a = tr(a) I', fl(B, apply(fodiagtrace)), [[tr * int(E[i, j]) for j in range(n)] for i in range(n)])
    B.eq('fodevproj : a = a - tr(a)/3 I', fl(B, apply(fodevproj)),
         [[a[i, j] - tr * third * int(E[i, j]) for j in range(n)] for i in range(n)])
    B.eq('fodevprojsym : a = sym(a) - tr(a)/3 I', fl(B, apply(fodevprojsym)),
         [[sym[i][j] - tr * third * int(E[i, j]) for j in range(n)] for i in range(n)])


def fl(B, w):
    return w if B.sym else w.astype(float)


@case('C03', params=[('n=%d' % n, dict(n=n)) for n in (2, 3)], ntrials=10)
def inverse_derivative(B, n):
    """d(S^-1)/dS for symmetric S: with F = S^-1, the derivative in direction H (symmetric) is -F H F."""
    F = np.array(B.symmat('f', n), dtype=object)
    H = np.array(B.symmat('h', n), dtype=object)
    dv = B.arr(B.mod(MOD).fo_dinv_sym(B.tensor(F)))
    w = np.empty((n, n), object)
    g = np.empty((n, n), object)
    for i, j in np.ndindex(n, n):
        g[i, j] = sum(dv[i, j, k, l] * H[k, l] for k in range(n) for l in range(n))
        w[i, j] = -sum(F[i, k] * H[k, l] * F[l, j] for k in range(n) for l in range(n))
    B.eq('dS^-1[H] = -S^-1 H S^-1', fl(B, g), fl(B, w))
    for i, j, k, l in np.ndindex(n, n, n, n):
        if k < l:
            B.eq('minor symmetry', dv[i, j, k, l], dv[i, j, l, k])


@case('C03', ntrials=2)
def kronecker(B):
    dd = B.mod(MOD).dd
    for i in range(4):
        for j in range(4):
            B.eq('dd(%d,%d)' % (i, j), dd(i, j), 1 if i == j else 0)
