"""C18: force equilibrium loss of the material model finder."""
import itertools
import os
import shutil
import tempfile
import numpy as np
from vf.engine import case, stable_rng
from contracts.elems import ELEMS, make
from contracts.mat import order, pt_dim
FUNCTIONS = ['MaterialModelFinder.' + f for f in (
    '__init__', 'set_specimen_data', 'check_force_equilibrium_loss_type', 'forward', 'forward_sequential_time',
    'forward_sequential_element', 'compute_element_internal_forces_hist', 'recurrent_material_state_update', 'force_equilibrium_loss',
    'build_element_local_samples', 'build_tensor_from_comps', 'store_tensor_comps', 'vforward_sequential_element',
    'vcompute_elements_internal_forces_hist', 'vcompute_element_internal_forces_hist', 'vcompute_local_internal_forces_hist',
    'vcompute_local_strain', 'vrecurrent_material_state_update', 'vcompute_local_internal_forces', 'vbuild_internal_forces_mesh_hist',
    'vassemble_internal_forces', 'vforce_equilibrium_hist_loss', 'vforce_equilibrium_loss', 'force_equilibrium_loss_components_hist',
    'build_elements_local_samples', 'compute_dirichlet_sets_reaction_hist', 'compute_dirichlet_sets_reaction',
    'vbuild_tensor_from_comps', 'vstore_tensor_comps', 'features_out_extractor', 'set_fitted_force_data_scalers',
    'set_material_models_fitted_data_scalers', 'check_model_in_normalized', 'check_model_out_normalized',
    'store_force_equilibrium_loss_components_hist', 'store_dirichlet_sets_reaction_hist')] + ['SpecimenNumericalData.' + f for f in (
        'set_specimen_mesh', 'set_specimen_data', 'update_specimen_mesh_configuration', 'get_batched_mesh_configuration_hist',
        'get_element_nodes_field_hist', 'get_n_dim', 'check_dirichlet_bc_mesh_hist')]
ASSUMPTIONS = ['boundary labels do not change in time (the loss takes them at the first time)',
               'node numbers, dimensions and history lengths are enumerated (up to 6 nodes, 3 steps); all label assignments of two plane '
               'nodes are enumerated, larger ones are pseudo-random; forces, reactions, weights and scaling are unrestricted',
               'forward modes: meshes have concrete rational node coordinates, displacements, reactions and weights are unrestricted, the '
               'material response is an arbitrary affine function of its strain path',
               'torch.vmap maps the function over the batch axis']
MD = 'material_model_finder.model.material_discovery'
SD = 'material_model_finder.data.specimen_data'
KINDS = ('pointwise', 'dirichlet_sets')


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='vf18_')
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def mkdir(d, is_overwrite=False, **k):
    os.makedirs(d, exist_ok=True)
    return d


class State:
    """Structure material state known through its contract (C09)."""

    def __init__(self, pt, mats, recurrent, init=None):
        self.pt, self.mats, self.rec, self.init = pt, mats, recurrent, init
        self.cur, self.old = {}, {}

    def get_strain_formulation(self):
        return 'infinitesimal'

    def get_problem_type(self):
        return self.pt

    def get_elements_material(self):
        return dict(self.mats)

    def get_material_models(self):
        out = {}
        for m in self.mats.values():
            if not any(m is v for v in out.values()):
                out[str(len(out) + 1)] = m
        return out

    def get_n_element_material_type(self):
        return len({type(m) for m in self.mats.values()})

    def get_element_model_recurrency(self, e):
        return self.rec

    def get_element_state(self, e, time='current', is_copy=True):
        s = (self.cur if time == 'current' else self.old).get(str(e))
        return self.init(e) if s is None and self.init else s

    def update_element_state(self, e, s, time='current', is_copy=True):
        (self.cur if time == 'current' else self.old)[str(e)] = s

    def update_converged_elements_state(self, is_copy=True):
        self.old = dict(self.cur)


class Data:
    """Specimen data known through its contract."""

    def __init__(self, B, n, T):
        self.time_hist, self.n = B.tensor([B.num(t) for t in range(T)]), n

    def check_dirichlet_bc_mesh_hist(self, kind):
        pass

    def get_n_dim(self):
        return self.n


def finder(B, d, kind, norm=False, T=1, n=2, w=None, scale=None, **kw):
    B.override(MD + ':make_directory', mkdir)
    f = B.mod(MD).MaterialModelFinder(d, force_equilibrium_loss_type=kind, is_force_normalization=norm, **kw)
    lims = {}
    fac = [B.num(1)] * n
    if norm:
        lo = B.vec('lo', n, dist=(-3, -1))
        r = [B.var('r%d' % i, pos=True, dist=(1, 4)) for i in range(n)]
        lims = dict(force_minimum=B.tensor(lo), force_maximum=B.tensor([a + b for a, b in zip(lo, r)]))
        fac = [B.num(2) / x for x in r]
    return f, fac, lims


def setup(B, d, kind, norm, T, n, weights, scaled, **kw):
    f, fac, lims = finder(B, d, kind, norm, T, n, **kw)
    w = [B.num(1)] * T
    if weights:
        w = list(B.vec('w', T, dist=(0.1, 2)))
        lims['loss_time_weights'] = B.tensor(w)
    s = B.num(1)
    if scaled:
        s = B.var('scale', pos=True, dist=(0.1, 5))
        lims['loss_scaling_factor'] = B.tensor(s)
    return f, fac, w, s, lims


def spec(B, kind, fac, I, E, R, lab):
    """Free and constrained parts of the loss at one time."""
    nn, n = lab.shape
    free, sets = B.num(0), {}
    for a in range(nn):
        for i in range(n):
            l = lab[a, i]
            im = fac[i] * (I[a, i] - E[a, i] - (R[a, i] if l else B.num(0)))
            if l == 0:
                free = free + im * im
            else:
                k = int(l) if kind == 'dirichlet_sets' else (a, i)
                sets[k] = sets.get(k, B.num(0)) + im
    dbc = B.num(0)
    for v in sets.values():
        dbc = dbc + v * v
    return free, dbc


def labels(nn, n, kind, count=None):
    vals = (0, 1) if kind == 'pointwise' else (0, 1, 2)
    if count is None:
        return [np.array(v).reshape(nn, n) for v in itertools.product(vals, repeat=nn * n)]
    out = []
    for k in range(count):
        r = stable_rng('labels', kind, nn, n, k)
        pool = (0, 1) if kind == 'pointwise' else [(0, 1, 2), (0, 3, 7), (1, 2, 5), (0, 100, 4), (3,), (0,)][k % 6]
        out.append(np.array([pool[int(r.random() * len(pool))] for _ in range(nn * n)]).reshape(nn, n))
    return out


@case('C18', params=[('%s,%s' % (k, 'scaled forces' if s else 'plain'), dict(kind=k, norm=s)) for k in KINDS for s in (False, True)],
      ntrials=2)
def loss_one_time(B, kind, norm):
    with Scratch() as d:
        for nn, n, cnt in ((2, 2, None), (1, 2, None), (3, 2, 6), (2, 3, 6), (4, 2, 3)):
            f, fac, w, s, kw = setup(B, d, kind, norm, 1, n, False, False)
            f.set_specimen_data(Data(B, n, 1), State(1, {}, False), **kw)
            I, E, R = (B.array(c + '%d%d_' % (nn, n), (nn, n)) for c in 'ier')
            ts = [B.tensor(v) for v in (I, E, R)]
            keep = B.frozen('forces', ts)
            for lab in labels(nn, n, kind, cnt):
                got = f.vforce_equilibrium_loss(*ts, B.itensor(lab.tolist()))
                a, b = spec(B, kind, fac, I, E, R, lab)
                B.eq('loss with labels %s' % lab.tolist(), got, a + b)
                if kind == 'pointwise':
                    B.eq('node-by-node loss with labels %s' % lab.tolist(),
                         f.force_equilibrium_loss(*ts, B.itensor(lab.tolist())), a + b)
            keep()


@case('C18', params=[('%s,%s' % (k, 'scaled forces' if s else 'plain'), dict(kind=k, norm=s)) for k in KINDS for s in (False, True)],
      ntrials=3)
def loss_history(B, kind, norm):
    with Scratch() as d:
        for nn, n, T, wt, sc in ((2, 2, 2, True, False), (3, 2, 3, True, True), (2, 3, 1, False, True), (1, 2, 3, False, False)):
            f, fac, w, s, kw = setup(B, d, kind, norm, T, n, wt, sc)
            f.set_specimen_data(Data(B, n, T), State(1, {}, False), **kw)
            I, E, R = (B.array(c + '%d%d%d_' % (nn, n, T), (nn, n, T)) for c in 'ier')
            ts = [B.tensor(v) for v in (I, E, R)]
            keep = B.frozen('forces', ts)
            for lab in labels(nn, n, kind, 4):
                tl = B.itensor(np.repeat(lab[:, :, None], T, axis=2).tolist())
                parts = [spec(B, kind, fac, I[:, :, t], E[:, :, t], R[:, :, t], lab) for t in range(T)]
                total = B.num(0)
                for t in range(T):
                    total = total + w[t] * (parts[t][0] + parts[t][1])
                name = 'labels %s' % lab.tolist()
                B.eq('history loss, ' + name, f.vforce_equilibrium_hist_loss(*ts, tl), total)
                c = f.force_equilibrium_loss_components_hist(*ts, tl)
                B.true('components shape', tuple(c.shape) == ((1 if kind == 'pointwise' else 3), T))
                ca = B.arr(c)
                B.eq('total per time, ' + name, list(ca[0]), [s * w[t] * (parts[t][0] + parts[t][1]) for t in range(T)])
                if kind == 'dirichlet_sets':
                    B.eq('free part per time, ' + name, list(ca[1]), [s * w[t] * parts[t][0] for t in range(T)])
                    B.eq('constrained part per time, ' + name, list(ca[2]), [s * w[t] * parts[t][1] for t in range(T)])
                ul = sorted(set(lab.reshape(-1).tolist()))
                r = f.compute_dirichlet_sets_reaction_hist(ts[0], ts[1], tl)
                want = [[[sum((I[a, i, t] - E[a, i, t] for a in range(nn) for i in range(n) if lab[a, i] == l), B.num(0))
                          for t in range(T)]] for l in ul]
                B.true('set reactions shape', tuple(r.shape) == (len(ul), 1, T))
                B.eq('set reactions, ' + name, r, want)
            keep()


MESHES = {'tri3': (1, 4, ['tri3'] * 2, [(1, 2, 3), (1, 3, 4)], [(0, 0), (2, 0), (3, 1), (0, 1)]),
          'tri3 shuffled': (1, 5, ['tri3'] * 3, [(5, 1, 2), (2, 3, 5), (3, 4, 5)], [(0, 0), (1, 0), (2, 1), (1, 2), (0, 1)]),
          'quad4': (1, 6, ['quad4'] * 2, [(1, 2, 3, 4), (2, 5, 6, 3)], [(0, 0), (1, 0), (1, 2), (0, 2), (3, 0), (3, 2)]),
          'tetra4': (4, 5, ['tetra4'] * 2, [(1, 2, 3, 4), (2, 5, 3, 4)], [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 1)])}


class Affine:
    """Arbitrary affine map of the strain path (component (t, k) from all earlier components)."""

    def __init__(self, B, T, nc, tag='', tuple_out=False):
        r = stable_rng('affine', T, nc, tag)
        self.A = [[B.rat(int(r.random() * 9) - 4, 2) for _ in range(T * nc)] for _ in range(T * nc)]
        self.b = [B.rat(int(r.random() * 5) - 2, 3) for _ in range(T * nc)]
        if T * nc <= 6:
            self.A[0][0], self.A[-1][0], self.b[-1] = (B.var('mat%s%d' % (tag, i)) for i in range(3))

    def __call__(self, B, x):
        """Response of a path given as a list of lists."""
        nc = len(x[0])
        fl = [v for row in x for v in row]
        y = [sum((a * v for a, v in zip(r, fl)), b) for r, b in zip(self.A, self.b)]
        return [y[i:i + nc] for i in range(0, len(y), nc)]


def module(B, aff, T, nc, tup=False, scal=None):
    """Recurrent model computing the affine map."""
    A, b = B.tensor(aff.A), B.tensor(aff.b)

    class Model(B.nn.Module):
        def forward(self, x):
            y = (B.torch.matmul(A, x.reshape(-1)) + b).reshape(T, nc)
            return (y, None) if tup else y
    m = Model()
    if scal:
        m.is_model_in_normalized = m.is_model_out_normalized = True
        m._data_scalers = scal
    return m


class Incremental:
    """Incremental model: stress += C : increment, plus a constant."""

    def __init__(self, B, pt, C):
        self.B, self.pt, self.C = B, pt, C

    def get_strain_type(self):
        return 'infinitesimal'

    def state_init(self):
        B, nc = self.B, len(order(self.pt))
        return {'strain_mf': B.tensor([B.num(0)] * nc), 'stress_mf': B.tensor([B.num(0)] * nc)}

    def state_update(self, inc, old):
        B, n = self.B, pt_dim(self.pt)
        e = B.arr(inc)
        k = [B.num(1) if c[0] == c[1] else B.sqrt(B.num(2)) for c in order(self.pt)]
        de = [q * e[int(c[0]) - 1, int(c[1]) - 1] for q, c in zip(k, order(self.pt))]
        ds = [sum(a * v for a, v in zip(r, de)) for r in self.C]
        s0, e0 = B.arr(old['stress_mf']), B.arr(old['strain_mf'])
        return {'strain_mf': B.tensor([a + b for a, b in zip(e0, de)]), 'stress_mf': B.tensor([a + b for a, b in zip(s0, ds)])}, None


def geometry(B, name):
    pt, nn, types, con, X = MESHES[name]
    n = pt_dim(pt)
    et = {str(i + 1): make(B, t) for i, t in enumerate(types)}
    cn = {str(i + 1): c for i, c in enumerate(con)}
    X = np.array([[B.num(v) for v in x] for x in X], object)
    ev = B.mod('simulators.fetorch.element.derivatives.gradients').eval_shapefun_deriv
    gps = []
    for i, c in enumerate(con):
        e = et[str(i + 1)]
        P, W = e.get_gauss_integration_points()
        Xe = B.tensor(np.array([X[a - 1] for a in c], object))
        row = []
        for g in range(e.get_n_gauss()):
            D, _, dj = ev(e, Xe, P[str(g + 1)])
            row.append((B.arr(D), B.val(W[str(g + 1)]) * B.val(dj)))
        gps.append(row)
    return pt, nn, n, et, cn, con, X, gps


def specimen(B, geo, U, R, lab, T):
    pt, nn, n, et, cn, con, X, gps = geo
    S = B.mod(SD).SpecimenNumericalData()
    S.set_specimen_mesh(B.tensor(X), et, cn, B.itensor((lab > 0).astype(int).tolist()))
    S.set_specimen_data(B.tensor(U), B.tensor(R), B.itensor(np.repeat(lab[:, :, None], T, axis=2).tolist()),
                        B.tensor([B.num(t) for t in range(T)]))
    return S


def strain_path(B, geo, U, e, g, T):
    pt, nn, n, et, cn, con, X, gps = geo
    D = gps[e][g][0]
    out = []
    for t in range(T):
        H = [[sum(U[a - 1, i, t] * D[k, j] for k, a in enumerate(con[e])) for j in range(n)] for i in range(n)]
        out.append([(H[int(c[0]) - 1][int(c[1]) - 1] + H[int(c[1]) - 1][int(c[0]) - 1]) * B.rat(1, 2) for c in order(pt)])
    return out


def forces(B, geo, stress, T):
    """Internal forces of the mesh; stress[(e, g)] = path of stress components."""
    pt, nn, n, et, cn, con, X, gps = geo
    F = np.full((nn, n, T), B.num(0), object)
    for e, c in enumerate(con):
        for g, (D, w) in enumerate(gps[e]):
            for t in range(T):
                S = {}
                for o, v in zip(order(pt), stress[e, g][t]):
                    S[int(o[0]) - 1, int(o[1]) - 1] = S[int(o[1]) - 1, int(o[0]) - 1] = v
                for k, a in enumerate(c):
                    for i in range(n):
                        F[a - 1, i, t] = F[a - 1, i, t] + w * sum(S[i, j] * D[k, j] for j in range(n))
    return F


def demo_labels(nn, n, kind):
    if kind == 'pointwise':
        return np.array([[int((2 * a + i) % 3 == 0) for i in range(n)] for a in range(nn)])
    return np.array([[(i + 1 if a % 2 == 0 else (n + 1 + i if a == 1 else 0)) for i in range(n)] for a in range(nn)])


def want_loss(B, kind, fac, F, R, lab, w, s, T):
    Z = np.full(F.shape[:2], B.num(0), object)
    tot = B.num(0)
    for t in range(T):
        a, b = spec(B, kind, fac, F[:, :, t], Z, R[:, :, t], lab)
        tot = tot + w[t] * (a + b)
    return s * tot


def check_samples(B, name, samples, geo, els, strains, stresses, T):
    keys = [(e - 1, g) for e in els for g in range(len(geo[7][e - 1]))]
    B.true(name + ': one sample per integration point', len(samples) == len(keys))
    for k, s in zip(keys, samples):
        B.eq(name + ': strain path', s['strain_path'], strains[k])
        B.eq(name + ': stress path', s['stress_path'], stresses[k])
        B.true(name + ': orders', tuple(s['strain_comps_order']) == order(geo[0]) and tuple(s['stress_comps_order']) == order(geo[0]))
        B.eq(name + ': times', s['time_hist'], [[B.num(t)] for t in range(T)])


REC = [('%s,%s,%s' % (m, k, v), dict(name=m, kind=k, var=v)) for m, k, v in (
    ('tri3', 'pointwise', 'plain'), ('tri3', 'dirichlet_sets', 'plain'), ('tri3', 'pointwise', 'scaled forces'),
    ('tri3', 'dirichlet_sets', 'scaled forces'), ('tri3', 'pointwise', 'scaled model'), ('tri3 shuffled', 'pointwise', 'tuple output'),
    ('tri3 shuffled', 'dirichlet_sets', 'plain'), ('quad4', 'pointwise', 'plain'), ('quad4', 'dirichlet_sets', 'plain'),
    ('tetra4', 'pointwise', 'plain'), ('tetra4', 'dirichlet_sets', 'plain'))]


@case('C18', params=REC, ntrials=3, rtol=1e-5, sym_s=60.0)
def recurrent_modes(B, name, kind, var):
    T = 2
    geo = geometry(B, name)
    pt, nn, n, et, cn, con, X, gps = geo
    nc = len(order(pt))
    lab = demo_labels(nn, n, kind)
    U, R = B.array('u', (nn, n, T), dist=(-1, 1)), B.array('r', (nn, n, T))
    aff = Affine(B, T, nc)
    scal = None
    nrm = den = lambda p: p
    if var == 'scaled model':
        SC = B.mod('utilities.data_scalers')
        mi, mo = B.vec('mi', nc), B.vec('mo', nc)
        si, so = ([B.var('%s%d' % (c, i), pos=True, dist=(0.5, 2)) for i in range(nc)] for c in ('si', 'so'))
        a, b = SC.TorchStandardScaler(nc), SC.TorchStandardScaler(nc)
        a.set_mean_and_std(B.tensor(mi), B.tensor(si))
        b.set_mean_and_std(B.tensor(mo), B.tensor(so))
        scal = {'features_in': a, 'features_out': b}
        nrm = lambda p: [[(v - m) / s for v, m, s in zip(r, mi, si)] for r in p]
        den = lambda p: [[v * s + m for v, m, s in zip(r, mo, so)] for r in p]
    mod = module(B, aff, T, nc, tup=var == 'tuple output', scal=scal)
    keys = [(e, g) for e in range(len(con)) for g in range(len(gps[e]))]
    eps = {k: strain_path(B, geo, U, k[0], k[1], T) for k in keys}
    sig = {k: den(aff(B, nrm(eps[k]))) for k in keys}
    F = forces(B, geo, sig, T)
    saved = []
    B.override(MD + ':save_dataset', lambda ds, name, d, **k: saved.append(list(ds)))
    with Scratch() as d:
        for els in (None, [2]):
            f, fac, w, s, kw = setup(B, d, kind, var == 'scaled forces', T, n, True, True, is_store_local_paths=True,
                                     local_paths_elements=els)
            S = specimen(B, geo, U, R, lab, T)
            f.set_specimen_data(S, State(pt, {k: mod for k in et}, True), **kw)
            want = want_loss(B, kind, fac, F, R, lab, w, s, T)
            modes = ['sequential_element_vmap'] + (['sequential_element'] if kind == 'pointwise' else [])
            for mode in modes:
                del saved[:]
                B.eq('loss, ' + mode, f.forward(mode), want)
                B.true('local paths stored once', len(saved) == 1)
                if saved:
                    check_samples(B, mode, saved[0], geo, els or [e + 1 for e in range(len(con))], eps, sig, T)
        B.raises('unknown mode', lambda: f.forward('fast'), RuntimeError)


@case('C18', params=[('%s%s' % (m, ',scaled forces' if s else ''), dict(name=m, norm=s)) for m in MESHES for s in (False, True)
                     if not (s and m != 'tri3')], ntrials=3, rtol=1e-5, sym_s=60.0)
def incremental_modes(B, name, norm):
    """Time-by-time and element-by-element evaluation with an incremental material."""
    T = 3 if name == 'tri3' else 2
    geo = geometry(B, name)
    pt, nn, n, et, cn, con, X, gps = geo
    nc = len(order(pt))
    lab = demo_labels(nn, n, 'pointwise')
    U, R = B.array('u', (nn, n, T), dist=(-1, 1)), B.array('r', (nn, n, T))
    rr = stable_rng('incremental', name)
    C = [[B.rat(int(rr.random() * 9) - 4, 2) for _ in range(nc)] for _ in range(nc)]
    mat = Incremental(B, pt, C)
    keys = [(e, g) for e in range(len(con)) for g in range(len(gps[e]))]
    kf = [B.num(1) if c[0] == c[1] else B.sqrt(B.num(2)) for c in order(pt)]
    eps, sig = {}, {}
    for k in keys:
        p = strain_path(B, geo, U, k[0], k[1], T)
        eps[k] = [[a - b for a, b in zip(q, p[0])] for q in p]
        sig[k] = [[sum(C[i][j] * kf[j] * q[j] for j in range(nc)) / kf[i] for i in range(nc)] for q in eps[k]]
    F = forces(B, geo, sig, T)
    saved = []
    B.override(MD + ':save_dataset', lambda ds, name, d, **k: saved.append(list(ds)))
    with Scratch() as d:
        for mode in ('sequential_time', 'sequential_element'):
            f, fac, w, s, kw = setup(B, d, 'pointwise', norm, T, n, True, True, is_store_local_paths=True)
            S = specimen(B, geo, U, R, lab, T)
            init = lambda e: {str(g + 1): mat.state_init() for g in range(len(gps[int(e) - 1]))}
            f.set_specimen_data(S, State(pt, {k: mat for k in et}, False, init), **kw)
            B.eq('loss, ' + mode, f.forward(mode), want_loss(B, 'pointwise', fac, F, R, lab, w, s, T))
        B.true('local paths stored once', len(saved) == 1)
        if saved:
            check_samples(B, 'sequential_element', saved[0], geo, [e + 1 for e in range(len(con))], eps, sig, T)


@case('C18', params=[(m, dict(name=m)) for m in ('tri3', 'quad4', 'tetra4')], ntrials=3, rtol=1e-5, sym_s=60.0)
def averaged_volumetric_strain(B, name):
    """Local internal forces with a given average volumetric operator: work conjugate to the strain that operator gives."""
    from contracts.c06 import mean_part
    T = 2
    geo = geometry(B, name)
    pt, nn, n, et, cn, con, X, gps = geo
    nc = len(order(pt))
    aff = Affine(B, T, nc)
    mod = module(B, aff, T, nc)
    el, c = et['1'], con[0]
    m = len(c)
    U = B.array('u', (m, n, T), dist=(-1, 1))
    r = stable_rng('average', name)
    A = np.array([B.rat(int(r.random() * 9) - 4, 3) for _ in range(T * nc * n * m)], object).reshape(T, nc, n * m)
    Xh = np.array([[[X[a - 1][i]] * T for i in range(n)] for a in c], object)
    P, W = el.get_gauss_integration_points()
    G = B.mod('simulators.fetorch.element.derivatives.gradients')
    times = B.tensor([B.num(t) for t in range(T)])
    with Scratch() as d:
        f, _, _ = finder(B, d, 'pointwise', T=T, n=n)
        for g, (D, w) in enumerate(gps[0]):
            b = B.arr(G.vbuild_discrete_sym_gradient(B.tensor(D), order(pt)))
            ops = [b - mean_part(B, b, n) + A[t] for t in range(T)]
            eps = []
            for t in range(T):
                u = [U[a, i, t] for a in range(m) for i in range(n)]
                eps.append([sum(x * y for x, y in zip(row, u)) * (B.num(1) if k[0] == k[1] else B.rat(1, 2))
                            for row, k in zip(ops[t], order(pt))])
            sig = aff(B, eps)
            F, S = f.vcompute_local_internal_forces_hist(
                P[str(g + 1)], W[str(g + 1)], 'infinitesimal', pt, el, B.tensor(Xh), B.tensor(U), times, mod, True, B.tensor(A))
            B.eq('state history', S, [list(a) + list(s) for a, s in zip(eps, sig)])
            B.eq('forces', F, [[w * sum(ops[t][q, p] * sig[t][q] for q in range(nc)) for t in range(T)] for p in range(n * m)])
        B.raises('no average operator', lambda: f.vcompute_local_internal_forces_hist(
            P['1'], W['1'], 'infinitesimal', pt, el, B.tensor(Xh), B.tensor(U), times, mod, True), RuntimeError)


@case('C18', ntrials=3)
def assembly(B):
    """The vectorised assembly is the element-by-element one."""
    from contracts.c08 import MESH, ids
    with Scratch() as d:
        f = finder(B, d, 'pointwise')[0]
        for name in ('quad strip', 'tri fan', 'tetra', 'hexa', 'random0', 'random1', 'random3', 'random5'):
            _, nn, types, con = MESH[name]
            n = ELEMS[types[0]][2]
            et = {str(i + 1): make(B, t) for i, t in enumerate(types)}
            cn = {str(i + 1): c for i, c in enumerate(con)}
            S = B.mod('simulators.fetorch.structure.structure_mesh').StructureMesh(
                B.tensor(B.array('x', (nn, n))), et, cn, B.itensor([[0] * n] * nn))
            T = 2
            q = B.array('f' + name[0] + name[-1], (len(con), len(con[0]) * n, T))
            t = B.tensor(q)
            keep = B.frozen('element forces', [t])
            r = f.vbuild_internal_forces_mesh_hist(t, S.build_elements_mesh_indexing(n), nn, n)
            keep()
            want = np.full((nn, n, T), B.num(0), object)
            for e, c in enumerate(con):
                for p, g in enumerate(ids(c, n)):
                    for s in range(T):
                        want[g // n, g % n, s] = want[g // n, g % n, s] + q[e, p, s]
            B.true('shape, ' + name, tuple(r.shape) == (nn, n, T))
            B.eq('assembled, ' + name, r, want)
            for s in range(T):
                B.eq('element by element, ' + name, S.element_assembler({str(e + 1): B.tensor(q[e, :, s]) for e in range(len(con))}),
                     list(want[:, :, s].reshape(-1)))


@case('C18', params=[('quad4', dict(name='quad4')), ('tetra4', dict(name='tetra4')), ('tri3 shuffled', dict(name='tri3 shuffled'))], ntrials=3)
def specimen_data(B, name):
    geo = geometry(B, name)
    pt, nn, n, et, cn, con, X, gps = geo
    T = 3
    U, R = B.array('u', (nn, n, T)), B.array('r', (nn, n, T))
    lab = demo_labels(nn, n, 'pointwise')
    S = specimen(B, geo, U, R, lab, T)
    B.true('dimensions', S.get_n_dim() == n)
    keep = B.frozen('histories', [S.nodes_disps_mesh_hist, S.reaction_forces_mesh_hist, S.dirichlet_bc_mesh_hist])
    for upd in (False, True):
        c, u = S.get_batched_mesh_configuration_hist(is_update_coords=upd, device=B.torch.device('cpu'))
        m = len(con[0])
        B.true('batched shapes', tuple(c.shape) == tuple(u.shape) == (len(con), m, n, T))
        wu = np.array([[U[a - 1] for a in q] for q in con], object).reshape(len(con), m, n, T)
        wc = np.array([[[[X[a - 1, i] + (U[a - 1, i, t] if upd else B.num(0)) for t in range(T)] for i in range(n)] for a in q]
                       for q in con], object)
        B.eq('batched displacements', u, wu)
        B.eq('batched coordinates', c, wc)
    for t in range(T):
        for upd in (False, True):
            S2 = specimen(B, geo, U, R, lab, T)
            S2.update_specimen_mesh_configuration(t, is_update_coords=upd)
            for tm, k in (('last', max(t - 1, 0)), ('current', t)):
                c, u = S2.specimen_mesh.get_mesh_configuration(tm)
                B.eq('%s displacements' % tm, u, U[:, :, k])
                B.eq('%s coordinates' % tm, c, [[X[a, i] + (U[a, i, k] if upd else B.num(0)) for i in range(n)] for a in range(nn)])
    keep()
    for t in (-1, T):
        B.raises('time index %d' % t, lambda: S.update_specimen_mesh_configuration(t), RuntimeError)


@case('C18', ntrials=1)
def accepted_labels(B):
    """Which label histories each loss type accepts (all assignments of two plane nodes, two times sampled)."""
    geo = geometry(B, 'tri3')
    S = B.mod(SD).SpecimenNumericalData()
    for kind in KINDS:
        for v in itertools.product((-1, 0, 1, 2), repeat=4):
            a = np.array(v).reshape(2, 2)
            S.dirichlet_bc_mesh_hist = B.itensor(np.repeat(a[:, :, None], 2, axis=2).tolist())
            if kind == 'pointwise':
                ok = set(v) <= {0, 1}
            else:
                ok = min(v) >= 0 and not (set(a[:, 0].tolist()) & set(a[:, 1].tolist()) - {0})
            if ok:
                S.check_dirichlet_bc_mesh_hist(kind)
                B.true('%s accepts %r' % (kind, v), True)
            else:
                B.raises('%s rejects %r' % (kind, v), lambda: S.check_dirichlet_bc_mesh_hist(kind), RuntimeError)
        h = [[[0, 0, 0], [0, 2, 0]], [[0, 0, 2], [0, 0, 0]]]
        S.dirichlet_bc_mesh_hist = B.itensor(h)
        B.raises('%s rejects a label moving between dimensions' % kind, lambda: S.check_dirichlet_bc_mesh_hist(kind), RuntimeError)
    B.raises('unknown type', lambda: S.check_dirichlet_bc_mesh_hist('sets'), RuntimeError)
    with Scratch() as d:
        B.raises('unknown loss type', lambda: finder(B, d, 'sets'), RuntimeError)
        for w in ([B.num(1)] * 2, [[B.num(1)] * 3]):
            f = finder(B, d, 'pointwise')[0]
            B.raises('inconsistent weights', lambda: f.set_specimen_data(Data(B, 2, 3), State(1, {}, False),
                                                                        loss_time_weights=B.tensor(w)), RuntimeError)
        f = finder(B, d, 'pointwise', norm=True)[0]
        B.raises('missing force limits', lambda: f.set_specimen_data(Data(B, 2, 3), State(1, {}, False)), RuntimeError)
    bad = specimen(B, geo, B.array('u', (4, 2, 2)), B.array('r', (4, 2, 2)), demo_labels(4, 2, 'pointwise') * 2, 2)
    with Scratch() as d:
        f = finder(B, d, 'pointwise')[0]
        B.raises('labels checked on setting the specimen', lambda: f.set_specimen_data(bad, State(1, {}, False)), RuntimeError)


@case('C18', params=[('plane', dict(pt=1)), ('3D', dict(pt=4))], ntrials=3)
def component_arrays(B, pt):
    n, o = pt_dim(pt), order(pt)
    K = B.mod(MD).MaterialModelFinder
    c = B.vec('c', len(o))
    m = [[None] * n for _ in range(n)]
    for v, q in zip(c, o):
        m[int(q[0]) - 1][int(q[1]) - 1] = m[int(q[1]) - 1][int(q[0]) - 1] = v
    t, tm = B.tensor(c), B.tensor(m)
    keep = B.frozen('arrays', [t, tm])
    B.eq('symmetric tensor', K.build_tensor_from_comps(n, o, t, is_symmetric=True), m)
    B.eq('symmetric tensor (vectorised)', K.vbuild_tensor_from_comps(n, o, t), m)
    B.eq('components', K.store_tensor_comps(o, tm), c)
    B.eq('components (vectorised)', K.vstore_tensor_comps(o, tm), c)
    full = tuple('%d%d' % (i + 1, j + 1) for j in range(n) for i in range(n))
    a = B.mat('a', n, n)
    v = [a[int(q[0]) - 1][int(q[1]) - 1] for q in full]
    B.eq('tensor', K.build_tensor_from_comps(n, full, B.tensor(v)), a)
    B.eq('tensor (vectorised)', K.vbuild_tensor_from_comps(n, full, B.tensor(v)), a)
    B.eq('all components', K.store_tensor_comps(full, B.tensor(a)), v)
    B.eq('all components (vectorised)', K.vstore_tensor_comps(full, B.tensor(a)), v)
    keep()
    B.true('output', K.features_out_extractor(t) is t and K.features_out_extractor((tm, None)) is tm)
    B.raises('unknown output', lambda: K.features_out_extractor([t]), RuntimeError)


@case('C18', ntrials=1)
def undefined_forces(B):
    """A failed state update (undefined internal forces) is an error, not a loss."""
    geo = geometry(B, 'tri3')
    pt, nn, n, et, cn, con, X, gps = geo
    T, nc = 2, 3
    lab = demo_labels(nn, n, 'pointwise')
    S = specimen(B, geo, B.array('u', (nn, n, T)), B.array('r', (nn, n, T)), lab, T)

    class Bad(B.nn.Module):
        def forward(self, x):
            return x * float('nan')
    m = Bad()
    with Scratch() as d:
        f = finder(B, d, 'pointwise')[0]
        f.set_specimen_data(S, State(pt, {k: m for k in et}, True))
        B.raises('undefined forces', lambda: f.forward('sequential_element_vmap'), RuntimeError)
        class Other(B.nn.Module):
            pass
        f.set_specimen_data(S, State(pt, {'1': m, '2': Other()}, True))
        B.raises('several materials', lambda: f.forward('sequential_element_vmap'), RuntimeError)


@case('C18', ntrials=2, sym=False, why='writes files (bounded)')
def stored_files(B):
    import pickle
    B.override(MD + ':plot_xy_data', lambda *a, **k: (None, None))
    B.override(MD + ':save_figure', lambda *a, **k: None)
    with Scratch() as d:
        f = finder(B, d, 'dirichlet_sets')[0]
        c = B.array('c', (3, 4))
        f.store_force_equilibrium_loss_components_hist(B.tensor(c))
        p = pickle.load(open(os.path.join(d, 'force_equilibrium_loss_components', 'force_equilibrium_loss_data.pkl'), 'rb'))
        B.eq('stored components', p['force_equilibrium_loss_components_hist'], c)
        r = B.array('r', (2, 1, 3))
        f.store_dirichlet_sets_reaction_hist(B.tensor(r))
        p = pickle.load(open(os.path.join(d, 'dirichlet_sets_reaction_forces', 'dirichlet_sets_data.pkl'), 'rb'))
        B.eq('stored reactions', p['dirichlet_sets_reaction_hist'], r)
        rows = open(os.path.join(d, 'dirichlet_sets_reaction_forces', 'dirichlet_reaction_hist_sets.csv')).read().splitlines()
        got = [[float(x) for x in l.split(',')] for l in rows[1:]]
        B.eq('exported reactions', got, [[r[s, 0, t] for s in range(2)] for t in range(3)])
