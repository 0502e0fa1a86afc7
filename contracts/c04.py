"""C04: shape functions and their local derivatives."""
import numpy as np
from vf.engine import case
from contracts.elems import ELEMS, make
FUNCTIONS = ['FETri3', 'FETri6', 'FEQuad4', 'FEQuad8', 'FETetra4', 'FETetra10', 'FEHexa8', 'FEHexa20',
             'eval_shapefun', 'eval_shapefun_local_deriv', 'get_n_node', 'get_n_dof_node']
ALL = [(e, dict(e=e)) for e in ELEMS]


@case('C04', params=ALL, ntrials=20)
def basis(B, e):
    el = make(B, e)
    _, _, n, X, _, _ = ELEMS[e]
    B.true('number of nodes', el.get_n_node() == len(X))
    B.true('dofs per node', el.get_n_dof_node() == n)
    for i, x in enumerate(X):
        B.eq('shape functions at node %d' % (i + 1), el.eval_shapefun(B.tensor([float(v) for v in x])),
             [B.num(int(i == j)) for j in range(len(X))])
    c = B.vec('c', n, dist=(-1.5, 1.5))
    t = B.tensor(c)
    keep = B.frozen('local coordinates', [t])
    N = B.arr(el.eval_shapefun(t))
    B.eq('partition of unity', sum(N[i] for i in range(len(X))), B.num(1))
    for j in range(n):
        B.eq('linear field %d' % (j + 1), sum(N[i] * B.rat(int(2 * X[i][j]), 2) for i in range(len(X))), c[j])
    keep()


@case('C04', params=ALL, ntrials=20)
def derivatives(B, e):
    el = make(B, e)
    n = ELEMS[e][2]
    c = B.vec('c', n, dist=(-1.5, 1.5))
    t = B.tensor(c)
    keep = B.frozen('local coordinates', [t])
    D = el.eval_shapefun_local_deriv(t)
    B.eq('derivative', D, B.jac(el.eval_shapefun, c, h=1e-2), rtol=1e-6)
    keep()
    # same values again on the same object: no hidden state
    B.eq('repeatable', el.eval_shapefun_local_deriv(B.tensor(c)), D)


@case('C04', params=ALL, ntrials=3)
def nodes_on_record(B, e):
    el = make(B, e)
    X = getattr(el, '_nodes_local_coords', None)
    if X is None:
        B.skip()
    B.eq('node coordinates', X, [[B.rat(int(2 * v), 2) for v in x] for x in ELEMS[e][3]])


@case('C04', params=ALL, ntrials=3)
def batched(B, e):
    """Batched evaluation over points equals the pointwise one."""
    el = make(B, e)
    n = ELEMS[e][2]
    P = B.array('p', (3, n), dist=(-1, 1))
    t = B.tensor(P)
    for nm, f in (('values', el.eval_shapefun), ('derivatives', el.eval_shapefun_local_deriv)):
        v = B.torch.vmap(f)(t)
        for i in range(3):
            B.eq('%s at point %d' % (nm, i), v[i], f(B.tensor(list(P[i]))))
