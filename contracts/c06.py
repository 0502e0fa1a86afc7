"""C06: Jacobian, global derivatives and discrete gradient operators."""
import numpy as np
from vf.engine import case
from contracts.elems import ELEMS, make
from contracts.c01 import SYM, NSYM, orders, ix
G_ = 'simulators.fetorch.element.derivatives.gradients'
J_ = 'simulators.fetorch.element.derivatives.jacobian'
FUNCTIONS = ['eval_jacobian', 'eval_shapefun_deriv', 'build_discrete_sym_gradient', 'vbuild_discrete_sym_gradient',
             'build_discrete_gradient', 'vbuild_discrete_gradient', 'vexpand_grad_operator_sym_2d_to_3d',
             'vreduce_grad_operator_sym_3d_to_2d'] + ['MaterialModelFinder.' + f for f in (
                 'vcompute_local_vol_sym_gradient', 'vcompute_local_dev_sym_gradient', 'vcompute_element_vol_grad_hist',
                 'vcompute_local_vol_grad_operator_hist', 'vcompute_local_gradient', 'vcompute_local_strain_vbar')]
ASSUMPTIONS = ['chain rule proved against the contract of eval_shapefun_local_deriv (an arbitrary matrix) for the node counts '
               'instantiated; gradient operators proved for every node count of the element catalogue']


class AnyElement:
    """Element known only through its contract: any local derivative matrix."""

    def __init__(self, B, m, n):
        self.D = np.array([[B.var('d%d_%d' % (a, i)) for i in range(n)] for a in range(m)], object)
        self.t = B.tensor(self.D)

    def eval_shapefun_local_deriv(self, c):
        return self.t


def det(M):
    if len(M) == 2:
        return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    return sum((-1) ** j * M[0][j] * det([[r[k] for k in range(3) if k != j] for r in M[1:]]) for j in range(3))


def chain(B, el, X, c, n, m, D, lin=True):
    tX, tc = B.tensor(X), B.tensor(c)
    keep = B.frozen('argument', [tX, tc])
    J, dj, Dl = B.mod(J_).eval_jacobian(el, tX, tc)
    w = [[sum(D[a, i] * X[a][k] for a in range(m)) for k in range(n)] for i in range(n)]
    B.eq('jacobian', J, w)
    B.eq('jacobian determinant', dj, det(w))
    B.eq('local derivatives handed on', Dl, D)
    if not B.sym and abs(det(w)) < 0.05:
        B.skip()
    G, J2, dj2 = B.mod(G_).eval_shapefun_deriv(el, tX, tc)
    B.eq('jacobian (derivatives)', J2, w)
    B.eq('determinant (derivatives)', dj2, det(w))
    g = B.arr(G)
    B.true('shape of derivatives', tuple(g.shape) == (m, n))
    B.eq('chain rule', [[sum(w[i][k] * g[a, k] for k in range(n)) for i in range(n)] for a in range(m)], D)
    if lin:
        # linear field u = A x + b at the nodes
        A = B.mat('A', n, n)
        grad = [[sum(g[a, k] * sum(A[i][q] * X[a][q] for q in range(n)) for a in range(m)) for k in range(n)] for i in range(n)]
        B.eq('gradient of a linear field', grad, A)
    keep()
    return g


@case('C06', params=[('m=%d,n=%d' % (m, n), dict(m=m, n=n)) for m, n in ((3, 2), (4, 2), (6, 2), (4, 3))], ntrials=15, rtol=1e-5)
def arbitrary_element(B, m, n):
    el = AnyElement(B, m, n)
    X = B.mat('x', m, n)
    chain(B, el, X, B.vec('c', n), n, m, el.D)


@case('C06', params=[('%s,%s' % (e, k), dict(e=e, kind=k)) for e in ELEMS for k in ('affine', 'distorted')
                     if (e, k) != ('hexa20', 'distorted')], ntrials=12, rtol=1e-5,
      sym_s=40.0)
def catalogue_element(B, e, kind):
    """Real element, arbitrary affine image or arbitrary nodes."""
    el = make(B, e)
    n, R = ELEMS[e][2], ELEMS[e][3]
    m = len(R)
    ref = [[B.rat(int(2 * v), 2) for v in r] for r in R]
    c = B.vec('c', n, dist=(0.05, 0.45))
    if kind == 'distorted':
        X = [[ref[a][k] + B.var('p%d_%d' % (a, k), dist=(-0.12, 0.12)) for k in range(n)] for a in range(m)]
    else:
        F = [[B.var('F%d_%d' % (i, j), dist=(-1, 1)) for j in range(n)] for i in range(n)]
        X = [[B.var('t%d' % k) + sum(F[k][j] * ref[a][j] for j in range(n)) for k in range(n)] for a in range(m)]
    D = B.arr(el.eval_shapefun_local_deriv(B.tensor(c)))
    g = chain(B, el, X, c, n, m, D)
    B.eq('constant field has zero gradient', [sum(g[a, k] for a in range(m)) for k in range(n)], [B.num(0)] * n)


@case('C06', params=[('m=%d,n=%d' % (m, n), dict(m=m, n=n)) for n, ms in ((2, (3, 4, 6, 8)), (3, (4, 8, 10, 20))) for m in ms],
      ntrials=8, rtol=1e-5)
def against_jacobian_contract(B, m, n):
    """eval_shapefun_deriv against the contract of eval_jacobian (any Jacobian), every node count of the catalogue."""
    J = B.mat('J', n, n)
    D = B.array('d', (m, n))
    if not B.sym and abs(det(J)) < 0.05:
        B.skip()
    used = []

    def eval_jacobian(el, X, c, *a, **k):
        used.append(1)
        return B.tensor(J), B.tensor(det(J)), B.tensor(D)
    B.override(G_ + ':eval_jacobian', eval_jacobian)
    el = AnyElement(B, m, n)
    G, J2, dj = B.mod(G_).eval_shapefun_deriv(el, B.tensor(B.mat('x', m, n)), B.tensor(B.vec('c', n)))
    if not used:
        B.skip()
    g = B.arr(G)
    B.eq('jacobian handed on', J2, J)
    B.eq('determinant handed on', dj, det(J))
    B.eq('chain rule', [[sum(J[i][k] * g[a, k] for k in range(n)) for i in range(n)] for a in range(m)], D)


@case('C06', ntrials=12, rtol=1e-5)
def jacobian_hexa20(B):
    el = make(B, 'hexa20')
    X, c = B.mat('x', 20, 3), B.vec('c', 3, dist=(-1, 1))
    D = B.arr(el.eval_shapefun_local_deriv(B.tensor(c)))
    J, dj, Dl = B.mod(J_).eval_jacobian(el, B.tensor(X), B.tensor(c))
    B.eq('jacobian', J, [[sum(D[a, i] * X[a][k] for a in range(20)) for k in range(3)] for i in range(3)])
    B.eq('local derivatives handed on', Dl, D)


@case('C06', ntrials=3)
def invalid_configuration(B):
    el = make(B, 'quad4')
    for nm, X, bad in (('valid', ELEMS['quad4'][3], False), ('clockwise', ELEMS['quad4'][3][::-1], True),
                       ('collapsed', [(0, 0), (1, 0), (2, 0), (3, 0)], True)):
        f = lambda: B.mod(J_).eval_jacobian(el, B.tensor([[float(v) for v in x] for x in X]), B.tensor([0.0, 0.0]), is_check_det=True)
        if bad:
            B.raises(nm + ' rejected', f, RuntimeError)
        else:
            B.eq(nm + ' determinant', f()[1], B.num(1))


OPC = [('n=%d,m=%d,%s' % (n, m, on), dict(n=n, m=m, co=co)) for n, ms in ((2, (3, 4, 6, 8)), (3, (4, 8, 10, 20)))
       for m in ms for on, co in orders(n, True) if m < 6 or on == 'std']


@case('C06', params=OPC, ntrials=5)
def sym_gradient(B, n, m, co):
    M = B.mod(G_)
    G = B.array('g', (m, n))
    u = B.array('u', (m, n))
    t = B.tensor(G)
    keep = B.frozen('derivatives', [t])
    H = [[sum(u[a, i] * G[a, j] for a in range(m)) for j in range(n)] for i in range(n)]
    want = [H[ix(c)[0]][ix(c)[1]] if c[0] == c[1] else H[ix(c)[0]][ix(c)[1]] + H[ix(c)[1]][ix(c)[0]] for c in co]
    fl = [u[a, i] for a in range(m) for i in range(n)]
    for nm, f in (('loop', M.build_discrete_sym_gradient), ('vectorised', M.vbuild_discrete_sym_gradient)):
        op = B.arr(f(t, co))
        B.true(nm + ' shape', op.shape == (len(co), n * m))
        B.eq(nm + ' symmetric gradient', [sum(op[q, p] * fl[p] for p in range(n * m)) for q in range(len(co))], want)
    keep()


OPN = [('n=%d,m=%d,%s' % (n, m, on), dict(n=n, m=m, co=co)) for n, ms in ((2, (3, 4, 6, 8)), (3, (4, 8, 10, 20)))
       for m in ms for on, co in orders(n, False) + [('default', None)] if m < 6 or on in ('std', 'default')]


@case('C06', params=OPN, ntrials=5)
def full_gradient(B, n, m, co):
    M = B.mod(G_)
    G = B.array('g', (m, n))
    u = B.array('u', (m, n))
    t = B.tensor(G)
    keep = B.frozen('derivatives', [t])
    cc = NSYM[n] if co is None else co
    want = [sum(u[a, ix(c)[0]] * G[a, ix(c)[1]] for a in range(m)) for c in cc]
    fl = [u[a, i] for a in range(m) for i in range(n)]
    for nm, f in (('loop', M.build_discrete_gradient), ('vectorised', M.vbuild_discrete_gradient)):
        op = B.arr(f(t, co))
        B.true(nm + ' shape', op.shape == (len(cc), n * m))
        B.eq(nm + ' gradient', [sum(op[q, p] * fl[p] for p in range(n * m)) for q in range(len(cc))], want)
    keep()


@case('C06', params=[('m=%d' % m, dict(m=m)) for m in (3, 4, 6, 8)], ntrials=5)
def plane_expansion(B, m):
    M = B.mod(G_)
    op = B.array('b', (3, 2 * m))
    t = B.tensor(op)
    keep = B.frozen('operator', [t])
    u = B.array('u', (m, 3))
    E = M.vexpand_grad_operator_sym_2d_to_3d(t)
    e3 = B.arr(E)
    B.true('expanded shape', e3.shape == (6, 3 * m))
    f2 = [u[a, i] for a in range(m) for i in range(2)]
    f3 = [u[a, i] for a in range(m) for i in range(3)]
    s2 = [sum(op[q, p] * f2[p] for p in range(2 * m)) for q in range(3)]
    B.eq('plane strain in 3D', [sum(e3[q, p] * f3[p] for p in range(3 * m)) for q in range(6)],
         [s2[SYM[2].index(c)] if c in SYM[2] else B.num(0) for c in SYM[3]])
    B.eq('reduced back', M.vreduce_grad_operator_sym_3d_to_2d(E), op)
    keep()
    op3 = B.array('c', (6, 3 * m))
    t3 = B.tensor(op3)
    keep = B.frozen('3D operator', [t3])
    B.eq('reduced operator', M.vreduce_grad_operator_sym_3d_to_2d(t3),
         [[op3[SYM[3].index(c), 3 * a + i] for a in range(m) for i in range(2)] for c in SYM[2]])
    keep()


@case('C06', ntrials=2)
def rejected(B):
    M = B.mod(G_)
    t = B.tensor(B.mat('g', 4, 2))
    for nm in ('build_discrete_sym_gradient', 'vbuild_discrete_sym_gradient'):
        B.raises(nm, lambda: getattr(M, nm)(t, SYM[3]), RuntimeError)
    for nm in ('build_discrete_gradient', 'vbuild_discrete_gradient'):
        B.raises(nm, lambda: getattr(M, nm)(t, NSYM[3]), RuntimeError)


MDF = 'material_model_finder.model.material_discovery'


def mean_part(B, op, n):
    """Volumetric part of an operator: the mean of the three normal rows on the normal rows, none on the others."""
    cols = range(op.shape[1])
    tr = [sum(op[SYM[n].index('%d%d' % (i, i)), p] for i in range(1, n + 1)) * B.rat(1, 3) for p in cols]
    return np.array([[tr[p] if c[0] == c[1] else B.num(0) for p in cols] for c in SYM[n]], object)


def model_finder(B, d):
    from contracts.c18 import mkdir
    B.override(MDF + ':make_directory', mkdir)
    return B.mod(MDF).MaterialModelFinder(d)


@case('C06', params=[('n=%d,m=%d' % (n, m), dict(n=n, m=m)) for n, m in ((2, 3), (2, 4), (2, 8), (3, 4), (3, 8))], ntrials=4)
def volumetric_split(B, n, m):
    """Volumetric and deviatoric operators: the mean part (of three normal strains, also in plane problems) and the rest."""
    from contracts.c18 import Scratch
    with Scratch() as d:
        f = model_finder(B, d)
        op = B.array('b', (len(SYM[n]), n * m))
        t = B.tensor(op)
        keep = B.frozen('operator', [t])
        vol = mean_part(B, op, n)
        B.eq('volumetric operator', f.vcompute_local_vol_sym_gradient(t, n), vol)
        B.eq('deviatoric operator', f.vcompute_local_dev_sym_gradient(t, n), op - vol)
        keep()


BBAR = [('%s' % e, dict(e=e)) for e in ('tri3', 'tri6', 'quad4', 'tetra4')]


@case('C06', params=BBAR, ntrials=3, rtol=1e-5, sym_s=60.0)
def averaged_volumetric_operator(B, e):
    """Element average of the volumetric operator over its volume, and the strain with the averaged volumetric part."""
    from contracts.c18 import Scratch
    el = make(B, e)
    n, loc = ELEMS[e][2], ELEMS[e][3]
    m = len(loc)
    T = 2
    pt = 1 if n == 2 else 4
    co = SYM[n]
    M = B.mod(G_)
    with Scratch() as d:
        f = model_finder(B, d)
        X = np.empty((m, n, T), object)
        q = lambda v: B.rat(int(2 * v), 2)
        for a in range(m):
            for t in range(T):
                for i in range(n):
                    x = [q(v) for v in loc[a]]
                    X[a, i, t] = B.num(2 + t) * x[i] + B.rat(t * (1 + i), 8) * x[0] * x[1] + B.rat(1, 4) * x[(i + 1) % n]
        U = B.array('u', (m, n, T), dist=(-1, 1))
        P, W = el.get_gauss_integration_points()
        num_, vol, ops = [], [], []
        for t in range(T):
            tX = B.tensor(X[:, :, t])
            s, v, row = 0, B.num(0), []
            for g in range(el.get_n_gauss()):
                D, _, dj = M.eval_shapefun_deriv(el, tX, P[str(g + 1)])
                b = B.arr(M.vbuild_discrete_sym_gradient(D, co))
                w = B.val(W[str(g + 1)]) * B.val(dj)
                row.append((b, w))
                s = s + w * mean_part(B, b, n)
                v = v + w
            num_.append(s)
            vol.append(v)
            ops.append(row)
        times = B.tensor([B.num(t) for t in range(T)])
        tX, tU = B.tensor(X), B.tensor(U)
        A = f.vcompute_element_vol_grad_hist(tX, tU, 'infinitesimal', pt, el, times)
        want = [num_[t] / vol[t] for t in range(T)]
        B.eq('average of the volumetric operator', A, want)
        for g in range(el.get_n_gauss()):
            for t in range(T):
                c = P[str(g + 1)]
                dj, op = f.vcompute_local_gradient(B.tensor(X[:, :, t]), c, co, el, True)
                B.eq('local operator', op, ops[t][g][0])
                B.eq('local volume', B.val(W[str(g + 1)]) * B.val(dj), ops[t][g][1])
                eps, op = f.vcompute_local_strain_vbar(B.tensor(X[:, :, t]), B.tensor(U[:, :, t]), B.tensor(want[t]), c, 'infinitesimal', n, co, el)
                b = ops[t][g][0]
                bb = b - mean_part(B, b, n) + want[t]
                B.eq('operator with averaged volumetric part', op, bb)
                u = [U[a, i, t] for a in range(m) for i in range(n)]
                sv = [sum(r[p] * u[p] for p in range(n * m)) for r in bb]
                E = [[None] * n for _ in range(n)]
                for q, k in enumerate(co):
                    i, j = ix(k)
                    E[i][j] = E[j][i] = sv[q] * (B.num(1) if i == j else B.rat(1, 2))
                B.eq('strain with averaged volumetric part', eps, E)
