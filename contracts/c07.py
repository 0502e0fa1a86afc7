"""C07: element internal forces."""
import numpy as np
from vf.engine import case
from contracts.elems import ELEMS, make
from contracts.c01 import SYM, ix
I_ = 'simulators.fetorch.element.integrations.internal_forces'
FUNCTIONS = ['compute_element_internal_forces', 'compute_infinitesimal_inc_strain', 'compute_infinitesimal_strain',
             'material_state_update']
ASSUMPTIONS = ['modular case: element derivatives and material response replaced by arbitrary values (their contracts are C04/C06 '
               'and C10-C15); end-to-end case: the real element functions on arbitrary affine images']


class AnyMaterial:
    """Material known only through its contract: any stress, any new state; records what it is asked."""

    def __init__(self, B, n):
        self.B, self.n = B, n
        self.calls = []

    def get_strain_type(self):
        return 'infinitesimal'

    def state_update(self, inc_strain, old):
        B, n, g = self.B, self.n, len(self.calls)
        S = B.symmat('s%d_' % g, n)
        self.calls.append((inc_strain, old, S))
        mf = [S[ix(c)[0]][ix(c)[1]] * (B.num(1) if c[0] == c[1] else B.sqrt(2)) for c in SYM[n]]
        return {'stress_mf': B.tensor(mf), 'tag': g}, None


def check(B, n, m, ng, mat, out, olds, G, wd, du, keep):
    f, st = out
    f = B.arr(f)
    B.true('length', f.shape == (n * m,))
    B.true('one update per point', len(mat.calls) == ng)
    if len(mat.calls) != ng:
        return
    R = range(n)
    seen = []
    B.true('updated from a state', all(isinstance(old, dict) for _, old, _ in mat.calls))
    for e, old, S in mat.calls:
        g = old['id']
        seen.append(g)
    B.true('each point updated from its own state', sorted(seen) == list(range(ng)))
    pos = {g: k for k, g in enumerate(seen)}
    want = [B.num(0)] * (n * m)
    for g in range(ng):
        e, old, S = mat.calls[pos[g]]
        H = [[sum(du[a, i] * G[g][a, j] for a in range(m)) for j in R] for i in R]
        B.eq('strain increment at point %d' % (g + 1), e, [[(H[i][j] + H[j][i]) * B.rat(1, 2) for j in R] for i in R])
        B.eq('old state handed to point %d' % (g + 1), old['q'], olds[g])
        B.true('new state kept at point %d' % (g + 1), st[str(g + 1)]['tag'] == pos[g])
        for a in range(m):
            for i in R:
                want[a * n + i] = want[a * n + i] + wd[g] * sum(S[i][j] * G[g][a, j] for j in R)
    B.eq('internal forces', f, want)
    keep()


def setup(B, n, ng):
    mat = AnyMaterial(B, n)
    q = [B.var('q%d' % g) for g in range(ng)]
    old = {str(g + 1): {'id': g, 'q': B.tensor([q[g]])} for g in range(ng)}
    return mat, old, [[x] for x in q]


@case('C07', params=[('%s,%d' % (e, g), dict(e=e, ng=g)) for e in ELEMS for g in ELEMS[e][4]], ntrials=6)
def modular(B, e, ng):
    n, R = ELEMS[e][2], ELEMS[e][3]
    m = len(R)
    el = make(B, e, n_gauss=ng)
    G = [B.array('g%d_' % k, (m, n)) for k in range(ng)]
    dj = [B.var('j%d' % k, pos=True) for k in range(ng)]
    pts, ws = el.get_gauss_integration_points()
    P = [list(B.arr(pts[str(k + 1)])) for k in range(ng)]
    W = [B.val(ws[str(k + 1)]) for k in range(ng)]
    used = []

    def deriv(elt, X, c, *a, **k):
        c = list(B.arr(c))
        k = [j for j in range(ng) if all(bool(p == q) for p, q in zip(P[j], c))][0]
        used.append(k)
        return B.tensor(G[k]), None, B.tensor(dj[k])
    B.override(I_ + ':eval_shapefun_deriv', deriv)
    mat, old, q = setup(B, n, ng)
    X, u, du = B.array('x', (m, n)), B.array('u', (m, n)), B.array('v', (m, n))
    ts = [B.tensor(v) for v in (X, u, du)]
    keep0 = B.frozen('argument', ts + [old[k]['q'] for k in old])
    out = B.mod(I_).compute_element_internal_forces('infinitesimal', 1 if n == 2 else 4, el, mat, old, *ts)
    if not used:
        B.skip()
    check(B, n, m, ng, mat, out, q, G, [W[k] * dj[k] for k in range(ng)], du, keep0)
    B.true('old state keys', sorted(old) == sorted(str(k + 1) for k in range(ng)) and all(old[str(k + 1)]['id'] == k for k in range(ng)))


SMALL = [(e, g) for e in ELEMS for g in ELEMS[e][4] if len(ELEMS[e][3]) * g <= 40]


@case('C07', params=[('%s,%d' % c, dict(e=c[0], ng=c[1])) for c in SMALL] + [('hexa8,8', dict(e='hexa8', ng=8))], ntrials=6,
      rtol=1e-5, sym_s=60.0)
def end_to_end(B, e, ng):
    """Real element on an affine image x = F X + t of the reference element: dN/dx = F^-T dN/dX, det J = det F."""
    n, R = ELEMS[e][2], ELEMS[e][3]
    m = len(R)
    el = make(B, e, n_gauss=ng)
    F = B.mat('F', n, n, dist=(-1.5, 1.5))
    t = B.vec('t', n)
    det = F[0][0] * F[1][1] - F[0][1] * F[1][0] if n == 2 else sum(
        F[0][j] * (F[1][(j + 1) % 3] * F[2][(j + 2) % 3] - F[1][(j + 2) % 3] * F[2][(j + 1) % 3]) for j in range(3))
    if not B.sym and abs(det) < 0.1:
        B.skip()
    if n == 2:
        inv = [[F[1][1] / det, -F[0][1] / det], [-F[1][0] / det, F[0][0] / det]]
    else:
        cof = lambda i, j: (F[(i + 1) % 3][(j + 1) % 3] * F[(i + 2) % 3][(j + 2) % 3]
                            - F[(i + 1) % 3][(j + 2) % 3] * F[(i + 2) % 3][(j + 1) % 3])
        inv = [[cof(j, i) / det for j in range(3)] for i in range(3)]
    ref = [[B.rat(int(2 * v), 2) for v in r] for r in R]
    X = np.array([[t[k] + sum(F[k][j] * ref[a][j] for j in range(n)) for k in range(n)] for a in range(m)], object)
    pts, ws = el.get_gauss_integration_points()
    G, wd = [], []
    for k in range(ng):
        D = B.arr(el.eval_shapefun_local_deriv(pts[str(k + 1)]))
        G.append(np.array([[sum(D[a, j] * inv[j][i] for j in range(n)) for i in range(n)] for a in range(m)], object))
        wd.append(B.val(ws[str(k + 1)]) * det)
    mat, old, q = setup(B, n, ng)
    u, du = B.array('u', (m, n)), B.array('v', (m, n))
    ts = [B.tensor(v) for v in (X, u, du)]
    keep = B.frozen('argument', ts + [old[k]['q'] for k in old])
    out = B.mod(I_).compute_element_internal_forces('infinitesimal', 1 if n == 2 else 4, el, mat, old, *ts)
    check(B, n, m, ng, mat, out, q, G, wd, du, keep)
    f = B.arr(out[0])
    B.eq('forces balance', [sum(f[a * n + i] for a in range(m)) for i in range(n)], [B.num(0)] * n, atol=1e-7)


@case('C07', ntrials=5)
def strains(B):
    M = B.mod(I_)
    op, u = B.array('b', (3, 8)), B.array('u', (4, 2))
    fl = [u[a, i] for a in range(4) for i in range(2)]
    w = [sum(op[q, p] * fl[p] for p in range(8)) for q in range(3)]
    B.eq('strain', M.compute_infinitesimal_strain(B.tensor(op), B.tensor(u)), w)
    B.eq('incremental strain', M.compute_infinitesimal_inc_strain(B.tensor(op), B.tensor(u)), w)


@case('C07', ntrials=2)
def rejected(B):
    el = make(B, 'quad4')
    mat, old, q = setup(B, 2, 4)
    t = B.tensor([[float(v) for v in x] for x in ELEMS['quad4'][3]])
    B.raises('finite strains', lambda: B.mod(I_).compute_element_internal_forces('finite', 1, el, mat, old, t, t, t), RuntimeError)


@case('C07', params=[('n=%d' % n, dict(n=n)) for n in (2, 3)], ntrials=4)
def material_interface(B, n):
    """material_state_update hands increment and old state to the model and returns its answer."""
    M = B.mod('simulators.fetorch.material.material_su')
    mat = AnyMaterial(B, n)
    e = B.tensor(B.symmat('e', n))
    old = {'id': 0, 'q': B.tensor(B.vec('q', 2))}
    st, tg = M.material_state_update('infinitesimal', 1 if n == 2 else 4, mat, e, old)
    B.true('one call', len(mat.calls) == 1)
    B.eq('increment', mat.calls[0][0], e)
    B.eq('old state', mat.calls[0][1]['q'], old['q'])
    B.true('state returned', st['tag'] == 0 and tg is None)
