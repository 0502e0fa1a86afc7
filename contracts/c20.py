"""C20: the recurrent material model chains the state update over every path."""
import numpy as np
from vf.engine import case, stable_rng
from contracts.c19 import RM, make, material, law
from contracts.mat import STD, VM, order, pt_dim, mf, item
FUNCTIONS = ['RecurrentConstitutiveModel.forward', 'RecurrentConstitutiveModel._recurrent_constitutive_model',
             'RecurrentConstitutiveModel._compute_stress_path', 'RecurrentConstitutiveModel._vrecurrent_constitutive_model',
             'RecurrentConstitutiveModel._vcompute_stress_path', 'RecurrentConstitutiveModel.build_tensor_from_comps',
             'RecurrentConstitutiveModel.store_tensor_comps', 'RecurrentConstitutiveModel.vbuild_tensor_from_comps',
             'RecurrentConstitutiveModel.vstore_tensor_comps', 'material_state_update']
ASSUMPTIONS = ['path lengths up to 4 and batches up to 3 are unrolled (the step itself is verified for an arbitrary state and '
               'increment, every state update returns arbitrary values)', 'torch.vmap: maps the function over the batch axis']


class Material:
    """Any material: each update returns arbitrary values; the calls are recorded."""

    def __init__(self, B, pt, fail=()):
        self.B, self.pt, self.calls, self.fail, self.k = B, pt, [], fail, 0

    def get_strain_type(self):
        return 'finite-kinext'

    def set_device(self, d):
        pass

    def new(self, k, zero=False):
        B = self.B
        n = pt_dim(self.pt)
        s = {}
        for v in ('stress', 'e_strain', 'strain'):
            m = [[None] * n for _ in range(n)]
            for i in range(n):
                for j in range(i, n):
                    m[i][j] = m[j][i] = B.num(0) if zero else self.sym('%s%d%d' % (v, i, j), k)
            s['_' + v] = m
            s[v + '_mf'] = B.tensor(mf(B, m, self.pt))
        s['acc_p_strain'] = B.tensor(B.num(0) if zero else self.sym('acc', k))
        s['_acc'] = s['acc_p_strain']
        s['is_su_fail'] = B.torch.tensor(False)
        s['is_plast'] = B.torch.tensor(False)
        return s

    def sym(self, name, k):
        if not self.B.sym:
            return self.B.num(round(stable_rng(name, k).uniform(-1, 1), 3))
        from vf import terms as tm
        return tm.var('%s!%d' % (name, k))

    def state_init(self):
        s = self.new(0, zero=True)
        s['_id'] = ('init', len(self.calls))
        return s

    def state_update(self, inc_strain, state_variables_old):
        B = self.B
        self.k += 1
        s = self.new(self.k)
        if self.k in self.fail:
            s['is_su_fail'] = B.torch.tensor(True)
            for v in ('stress_mf', 'e_strain_mf', 'acc_p_strain'):
                s[v] = B.torch.full_like(s[v], float('nan'))
        s['_id'] = ('update', self.k)
        self.calls.append((B.arr(inc_strain).copy(), dict(state_variables_old), s))
        return s, None


def comps_to_matrix(c, pt):
    n = pt_dim(pt)
    m = [[None] * n for _ in range(n)]
    for x, o in zip(c, order(pt)):
        i, j = int(o[0]) - 1, int(o[1]) - 1
        m[i][j] = m[j][i] = x
    return m


def comps_of(m, pt):
    return [m[int(o[0]) - 1][int(o[1]) - 1] for o in order(pt)]


FEATS = [('stress', {}), ('acc', {'acc_p_strain': 1}), ('elastic strain+acc', {'e_strain_mf': -1, 'acc_p_strain': 1}),
         ('acc+total strain', {'acc_p_strain': 1, 'strain_mf': -1})]
CFG = [('%s,%s,%s' % (i, n, f), dict(impl=i, pt=p, feats=q)) for i in ('standard', 'vmap') for n, p in (('plane strain', 1), ('3D', 4))
       for f, q in FEATS]


@case('C20', params=[c for c in CFG if c[1]['impl'] == 'standard'], ntrials=2)
def chain(B, impl, pt, feats):
    check_chain(B, impl, pt, feats)


@case('C20', name='chain', params=[c for c in CFG if c[1]['impl'] == 'vmap'], num=False)
def chain_vmap(B, impl, pt, feats):
    check_chain(B, impl, pt, feats)


def check_chain(B, impl, pt, feats):
    nc = len(order(pt))
    feats = {k: (nc if v < 0 else v) for k, v in feats.items()}
    nout = nc + sum(feats.values())
    name = 'von_mises' + ('_vmap' if impl == 'vmap' else '')
    for T, N in ((1, 1), (2, 1), (4, 2), (3, 3), (3, 0)):
        m = B.mod(RM).RecurrentConstitutiveModel(nc, nout, {}, 'infinitesimal', pt, name, material(name), None,
                                                 state_features_out=dict(feats), is_save_model_init_file=False)
        mat = Material(B, pt)
        B.put(m, '_constitutive_model', mat)
        shape = (T, N, nc) if N else (T, nc)
        x = B.array('x%d%d_' % (T, N), shape)
        if not B.sym:
            # (distinct increments, so that every update can be told from its increment)
            r = stable_rng('paths', B.env.seed, T, N)
            for q in np.ndindex(*shape):
                x[q] = B.num(round(r.uniform(-1, 1), 3))
        t = B.tensor(x)
        keep = B.frozen('paths', [t])
        y = m.forward(t)
        keep()
        B.true('response shape', tuple(y.shape) == ((T, N, nout) if N else (T, nout)))
        nb = max(N, 1)
        B.true('one update per step and path', len(mat.calls) == nb * (T - 1))
        ya, xa = B.arr(y).reshape(T, nb, nout), x.reshape(T, nb, nc)
        if len(mat.calls) != nb * (T - 1):
            return
        for b in range(nb):
            B.eq('starts at zero', list(ya[0, b]), [B.num(0)] * nout)
            # (the calls may come path by path or step by step)
            for s in range(1, T):
                inc = [[q - r for q, r in zip(u, w)] for u, w in zip(comps_to_matrix(xa[s, b], pt), comps_to_matrix(xa[s - 1, b], pt))]
                k = [c for c in mat.calls if same(B, c[0], inc)]
                if B.true('one update with the increment of the step', len(k) == 1) is False or len(k) != 1:
                    return
                _, old, new = k[0]
                if s == 1:
                    B.true('first state is the initial state', old['_id'][0] == 'init')
                else:
                    B.true('state of the previous step of this path', old['_id'] == prev['_id'])
                    for v in ('stress_mf', 'e_strain_mf', 'strain_mf', 'acc_p_strain'):
                        B.eq('previous state is unchanged: ' + v, old[v], prev[v])
                prev = new
                want = comps_of(new['_stress'], pt)
                for f in feats:
                    want += [item(B, new['_acc'])] if f == 'acc_p_strain' else comps_of(new['_' + f[:-3]], pt)
                B.eq('response of the step', list(ya[s, b]), want)


def same(B, a, b):
    n = len(b)
    if not B.sym:
        return all(abs(float(a[i][j]) - float(b[i][j])) < 1e-5 for i in range(n) for j in range(n))
    return all(a[i][j] == b[i][j] if isinstance(a[i][j] == b[i][j], bool) else a[i][j] is b[i][j] for i in range(n) for j in range(n))


@case('C20', params=[('%d,%s' % (k, n), dict(bad=k, pt=p)) for k in (1, 3, 4) for n, p in (('plane strain', 1), ('3D', 4))], ntrials=1)
def failure_reported(B, bad, pt):
    """A failed update of a (non-vectorised) material is an error, not a response."""
    nc = len(order(pt))
    m = B.mod(RM).RecurrentConstitutiveModel(nc, nc, {}, 'infinitesimal', pt, 'von_mises', material('von_mises'), None,
                                             is_save_model_init_file=False)
    B.put(m, '_constitutive_model', Material(B, pt, fail=(bad,)))
    B.raises('failure is reported', lambda: m.forward(B.tensor(B.array('x', (3, 2, nc)))), RuntimeError)
    B.put(m, '_constitutive_model', Material(B, pt, fail=(bad,)))
    B.put(m, '_is_check_su_fail', True)


@case('C20', ntrials=2)
def shapes(B):
    for name in ('von_mises', 'von_mises_vmap'):
        m = B.mod(RM).RecurrentConstitutiveModel(3, 5, {}, 'infinitesimal', 1, name, material(name), None, is_save_model_init_file=False)
        if name == 'von_mises':
            B.raises('rank', lambda: m.forward(B.torch.zeros((3,))), RuntimeError)
        B.raises('number of output features', lambda: m.forward(B.torch.zeros((1, 2, 3))), RuntimeError)


@case('C20', params=[('plane strain', dict(pt=1)), ('3D', dict(pt=4))], ntrials=4)
def components(B, pt):
    C = B.mod(RM).RecurrentConstitutiveModel
    o, n = order(pt), pt_dim(pt)
    c = B.vec('c', len(o), dist=(-1, 1))
    t = B.tensor(c)
    for k, f in (('built', lambda: C.build_tensor_from_comps(n, o, t, is_symmetric=True)), ('vectorised', lambda: C.vbuild_tensor_from_comps(n, o, t))):
        T = f()
        B.eq('tensor ' + k, T, comps_to_matrix(c, pt))
        B.eq('stored ' + k, C.store_tensor_comps(o, T), c)
        B.eq('stored vectorised ' + k, C.vstore_tensor_comps(o, T), c)
    full = [a + b for a in '123'[:n] for b in '123'[:n]]
    g = B.vec('g', len(full), dist=(-1, 1))
    T = C.build_tensor_from_comps(n, full, B.tensor(g))
    B.eq('nonsymmetric tensor', T, [[g[i * n + j] for j in range(n)] for i in range(n)])
    B.eq('nonsymmetric stored', C.store_tensor_comps(full, T), g)
    B.eq('nonsymmetric stored vectorised', C.vstore_tensor_comps(full, T), g)


@case('C20', params=[('%s,%s' % (nm, n), dict(name=nm, pt=p)) for nm in ('elastic', 'von_mises', 'von_mises_vmap', 'drucker_prager',
                                                                         'drucker_prager_vmap', 'von_mises_mixed', 'von_mises_mixed_vmap')
                     for n, p in (('plane strain', 1), ('3D', 4))], ntrials=3, sym=False,
      why='cross-check of the chaining with the real materials on sampled paths; the proof is case chain')
def real_materials(B, name, pt):
    nc = len(order(pt))
    h = B.mod('simulators.fetorch.material.models.standard.hardening')
    law = h.get_hardening_law('linear')
    p = material(name)
    hp = {'s0': 1.0, 'a': 0.5}
    for k in list(p):
        if k.endswith('hardening_law'):
            p[k] = law
        if k.endswith('hardening_parameters'):
            p[k] = dict(hp)
    p['E'] = 10.0
    feats = {} if name == 'elastic' else {'acc_p_strain': 1, 'e_strain_mf': nc}
    nout = nc + sum(feats.values())
    m = B.mod(RM).RecurrentConstitutiveModel(nc, nout, {}, 'infinitesimal', pt, name, p, None, state_features_out=feats,
                                             is_save_model_init_file=False)
    T, N = 4, 3
    x = B.array('x', (T, N, nc), dist=(-0.2, 0.2)).astype(float)
    t = B.tensor(x)
    y = B.arr(m(t))
    for b in range(N):
        y1 = B.arr(m(B.tensor(x[:, b, :])))
        y2 = B.arr(m(B.tensor(x[:, b:b + 1, :])))
        B.eq('batch of one', y2[:, 0, :], y1, rtol=1e-9, atol=1e-12)
        B.eq('paths are independent', y[:, b, :], y1, rtol=1e-9, atol=1e-12)
        s = m._constitutive_model.state_init()
        B.eq('starts at zero', y[0, b], [0.0] * nout)
        for k in range(1, T):
            inc = np.array(comps_to_matrix(x[k, b], pt)) - np.array(comps_to_matrix(x[k - 1, b], pt))
            s, _ = m._constitutive_model.state_update(B.tensor(inc), s)
            sc = [v / (1 if o[0] == o[1] else 2 ** 0.5) for v, o in zip(B.arr(s['stress_mf']), order(pt))]
            B.eq('stress', y[k, b, :nc], sc)
            if feats:
                B.eq('state', y[k, b, nc:], [float(s['acc_p_strain'])] + [
                    v / (1 if o[0] == o[1] else 2 ** 0.5) for v, o in zip(B.arr(s['e_strain_mf']), order(pt))])
