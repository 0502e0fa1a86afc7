"""C36: processed specimen histories (noise, denoising, boundary labels, reactions) and local path data sets of patches."""
import os
import numpy as np
from contracts.c31 import scratch, txt, plain, write_hist
from contracts.c34 import links_dat, node_output, COLS
from vf.engine import case
FUNCTIONS = ['inject_displacements_noise', 'denoise_displacements_noise', 'copy_dbc_labels', 'build_dirichlet_sets_reaction_history',
             'get_element_local_paths_idx', 'get_patch_analysis_dirs', 'set_analysis_dir', 'set_simulation_dir', 'gen_patch_formatted_data', 'gen_patch_data',
             'gen_patch_local_dataset', 'compute_patch_local_paths', 'build_local_paths_dataset', 'gen_specimen_local_dataset']
ASSUMPTIONS = ['noise generator (C24, C32) and denoisers (C25) are known by their contracts only: any values',
               'the material model finder is known by its contract (C18): it leaves the local paths of the specimen it is given in its model directory',
               'numbers of nodes, time steps and patches are enumerated; coordinates, displacements, reactions and noise are arbitrary',
               'a number written to a table reads back as itself', 'the file system is the real one, in a scratch directory',
               'the material model of the patches is an isotropic elastic one with arbitrary moduli (the random one of the script is not used)']
IN = 'miscellaneous.noisy_data.inject_disp_noise_csv'
DE = 'miscellaneous.noisy_data.denoise_disp_noise_csv'
PS = 'user_scripts.global_model_update.utilities.process_specimen_data'
LP = 'user_scripts.global_model_update.material_finder.gen_specimen_local_paths'
BL = 'user_scripts.synthetic_data.build_local_paths_dataset'
TD = 'time_series_data.time_dataset'
HEAD = 'NODE,X1,X2,X3,U1,U2,U3,RF1,RF2,RF3'
STEPS = (0, 2, 10, 9)


def tables(B, d, n, steps=STEPS, name='s', ncol=10):
    """One table per time step; returns {step: rows of nine values}."""
    V = {}
    for k in steps:
        V[k] = [[B.var('v%d_%d_%d' % (k, i, c), dist=(-3, 3)) for c in range(9)] for i in range(n)]
        plain(os.path.join(d, '%s_tstep_%d.csv' % (name, k)), [HEAD + ',MORE' * (ncol - 10)] +
              [','.join([str(i + 1)] + [txt(B, x) for x in r] + ['0'] * (ncol - 10)) for i, r in enumerate(V[k])])
    return V


def cells(B, path):
    """Header and rows of a written table."""
    L = [l.split(',') for l in open(path).read().splitlines()]
    if B.sym:
        from vf.loader import _cell
        return L[0], [[_cell(x) for x in r] for r in L[1:]]
    return L[0], [[float(x) for x in r] for r in L[1:]]


def texts(d):
    return {f: open(os.path.join(d, f)).read() for f in os.listdir(d) if os.path.isfile(os.path.join(d, f))}


@case('C36', params=[('n%d' % n, dict(n=n)) for n in (1, 3)], ntrials=3)
@scratch
def noise(B, d, n):
    """Only displacements change, by exactly the generated noise, and the first time step not at all."""
    M = B.mod(IN)
    V = tables(B, d, n)
    plain(os.path.join(d, 'other.csv'), ['1'])
    plain(os.path.join(d, 's_tstep_1.csv.bak'), ['1'])
    src = texts(d)
    calls = []

    class Noise:
        def set_noise_distribution(self, x):
            calls.append(('distribution', x))

        def set_noise_parameters(self, x):
            calls.append(('parameters', x['amp']))

        def generate_noise_path(self, x, *a, **k):
            j = sum(c[0] == 'noise' for c in calls)
            calls.append(('noise', np.array(x, dtype=object)))
            e = B.arr(B.array('e%d_' % j, (n, 3)))
            return np.array(e, dtype=object) if B.sym else np.asarray(e, dtype=float)
    B.override(IN + ':NoiseGenerator', Noise)
    os.makedirs(os.path.join(d, 'noisy'))
    plain(os.path.join(d, 'noisy', 's_tstep_77.csv'), ['1'])
    M.inject_displacements_noise(d, {'distribution': 'uniform', 'amp': 0.5, 'dirname': 'noisy'})
    B.true('source unchanged', texts(d) == src)
    B.true('noise of the requested kind', ('distribution', 'uniform') in calls and ('parameters', 0.5) in calls)
    B.true('files', sorted(os.listdir(os.path.join(d, 'noisy'))) == sorted('s_tstep_%d.csv' % k for k in STEPS))
    ns = [c[1] for c in calls if c[0] == 'noise']
    B.true('noise for every later step', len(ns) == len(STEPS) - 1)
    for j, k in enumerate(sorted(STEPS)):
        h, r = cells(B, os.path.join(d, 'noisy', 's_tstep_%d.csv' % k))
        B.true('columns', h == HEAD.split(',') and len(r) == n)
        e = B.arr(B.array('e%d_' % (j - 1), (n, 3))) if j else None
        for i in range(n):
            B.eq('node number', r[i][0], B.num(i + 1))
            for c in range(9):
                v = V[k][i][c]
                B.eq('value %d' % c, r[i][c + 1], v + e[i][c - 3] if j and 3 <= c < 6 else v, atol=1e-9)
            if j:
                B.eq('noise for the displacements of the step', list(ns[j - 1][i]), V[k][i][3:6], atol=1e-12)


@case('C36', ntrials=1)
@scratch
def noise_refused(B, d):
    tables(B, d, 1, ncol=11)
    B.raises('columns', lambda: B.mod(IN).inject_displacements_noise(d, {'distribution': 'uniform', 'amp': 0.5, 'dirname': 'n'}), RuntimeError)
    B.raises('directory', lambda: B.mod(IN).inject_displacements_noise(os.path.join(d, 'no'), {'distribution': 'uniform', 'amp': 0.5, 'dirname': 'n'}), RuntimeError)
    par = dict(denoise_method='moving_average', denoiser_parameters={'window_size': 3}, n_denoise_cycle=1, denoise_dirname='n')
    B.raises('columns', lambda: B.mod(DE).denoise_displacements_noise(d, par), RuntimeError)
    B.raises('directory', lambda: B.mod(DE).denoise_displacements_noise(os.path.join(d, 'no'), par), RuntimeError)


@case('C36', params=[('n%d' % n, dict(n=n)) for n in (1, 3)], ntrials=3)
@scratch
def denoised(B, d, n):
    """The history of every node is denoised as a whole in time order, starts undeformed, and nothing else changes."""
    M = B.mod(DE)
    V = tables(B, d, n)
    src = texts(d)
    T = len(STEPS)
    calls = []

    class Denoiser:
        def denoise(self, x, method, denoise_parameters=None, n_denoise_cycle=1):
            calls.append((np.array(B.arr(x), dtype=object), method, dict(denoise_parameters), n_denoise_cycle))
            return B.tensor(B.arr(B.array('q%d_' % (len(calls) - 1), (T, 3))))
    B.override(DE + ':Denoiser', Denoiser)
    M.denoise_displacements_noise(d, dict(denoise_method='moving_average', denoiser_parameters={'window_size': 3}, n_denoise_cycle=2, denoise_dirname='clean'))
    B.true('source unchanged', texts(d) == src)
    B.true('one history per node', len(calls) == n and all(c[1:] == ('moving_average', {'window_size': 3}, 2) for c in calls))
    for i in range(n):
        for j, k in enumerate(sorted(STEPS)):
            B.eq('history of node %d' % (i + 1), list(calls[i][0][j]), V[k][i][3:6])
    B.true('files', sorted(os.listdir(os.path.join(d, 'clean'))) == sorted('s_tstep_%d.csv' % k for k in STEPS))
    for j, k in enumerate(sorted(STEPS)):
        h, r = cells(B, os.path.join(d, 'clean', 's_tstep_%d.csv' % k))
        B.true('columns', h == HEAD.split(',') and len(r) == n)
        for i in range(n):
            q = B.arr(B.array('q%d_' % i, (T, 3)))
            B.eq('node number', r[i][0], B.num(i + 1))
            for c in range(9):
                want = V[k][i][c] if not 3 <= c < 6 else (q[j][c - 3] if j else B.num(0))
                B.eq('value %d' % c, r[i][c + 1], want, atol=1e-9)


@case('C36', ntrials=3)
@scratch
def copied_labels(B, d):
    """The labels of the prescribed degrees of freedom are those of the source, step by step; the target keeps everything else."""
    M = B.mod(PS)
    a, b = os.path.join(d, 'a'), os.path.join(d, 'b')
    os.mkdir(a), os.mkdir(b)
    pa, Da = write_hist(B, a, 3, 3)
    V = tables(B, b, 3, steps=(0, 1, 2))
    keep = texts(a)
    M.copy_dbc_labels('s', a, b)
    B.true('source unchanged', texts(a) == keep)
    B.true('files', sorted(os.listdir(b)) == ['s_tstep_%d.csv' % k for k in range(3)])
    for k in range(3):
        h, r = cells(B, os.path.join(b, 's_tstep_%d.csv' % k))
        B.true('columns', h == HEAD.split(',') + ['DBC1', 'DBC2', 'DBC3'] and len(r) == 3)
        for i in range(3):
            for c in range(9):
                B.eq('value %d' % c, r[i][c + 1], V[k][i][c])
            B.eq('labels', r[i][10:], [B.num(x) for x in Da[k][i][1]])
    os.remove(os.path.join(b, 's_tstep_2.csv'))
    B.raises('lengths', lambda: M.copy_dbc_labels('s', a, b), RuntimeError)
    c = os.path.join(d, 'c')
    os.mkdir(c)
    tables(B, c, 3, steps=(0, 1))
    B.raises('no labels', lambda: M.copy_dbc_labels('s', c, b), RuntimeError)


@case('C36', params=[('%d_%d_%d' % (dim, n, t), dict(n_dim=dim, n=n, t=t)) for dim, n, t in ((3, 4, 2), (3, 6, 1), (2, 5, 3))], ntrials=3)
@scratch
def reactions(B, d, n_dim, n, t):
    """One history per dimension and label: the sum of the reactions of exactly the nodes with that label at the start."""
    M = B.mod(PS)
    paths, D = write_hist(B, d, n, t)
    hist, labels, disp, nodes = M.build_dirichlet_sets_reaction_history('s', d, n_dim=n_dim)
    want = [(c, l) for c in range(n_dim) for l in sorted({D[0][i][1][c] for i in range(n)})]
    B.true('labels', list(labels) == ['dim_%d_label_%d' % (c + 1, l) for c, l in want] and tuple(hist.shape) == (len(want), 1, t))
    for q, (c, l) in enumerate(want):
        mem = [i for i in range(n) if D[0][i][1][c] == l]
        B.true('nodes of a set', [int(i) for i in nodes[q]] == [i + 1 for i in mem])
        for k in range(t):
            s = B.num(0)
            for i in mem:
                s = s + D[k][i][0][6 + c]
            B.eq('reaction of set %d' % q, hist[q, 0, k], s, rtol=1e-5, atol=1e-5)
    B.true('displacements', tuple(disp.shape) == (n, n_dim, t))
    for i in range(n):
        for k in range(t):
            B.eq('displacement', list(disp[i, :, k]), D[k][i][0][3:3 + n_dim], rtol=1e-6, atol=1e-6)


@case('C36', ntrials=1)
def element_paths(B):
    f = B.mod('miscellaneous.other.element_paths_indices').get_element_local_paths_idx
    for g in (1, 4, 8):
        every = [i for e in range(1, 6) for i in f(e, g)]
        B.true('consecutive, no path twice', every == list(range(5 * g)))


@case('C36', params=[(n, dict(name=n)) for n in ('patch', 'random_specimen')], ntrials=1)
@scratch
def patch_dirs(B, d, name):
    """The directories of the patches, in the order of their numbers."""
    M = B.mod(BL)
    for k in (10, 2, 0, 1, 21):
        os.mkdir(os.path.join(d, '%s_%d' % (name, k)))
    for o in ('%s_x' % name, 'a%s_3' % name, '%s_4b' % name, name, '%s_' % name):
        os.mkdir(os.path.join(d, o))
    got = M.get_patch_analysis_dirs(d, name)
    B.true('directories in order', [os.path.normpath(p) for p in got] == [os.path.join(d, '%s_%d' % (name, k)) for k in (0, 1, 2, 10, 21)])
    B.raises('none', lambda: M.get_patch_analysis_dirs(d, 'other'), RuntimeError)
    B.raises('missing', lambda: M.get_patch_analysis_dirs(os.path.join(d, 'no'), name), RuntimeError)
    os.mkdir(os.path.join(d, 'empty'))
    B.raises('empty', lambda: M.get_patch_analysis_dirs(os.path.join(d, 'empty'), name), RuntimeError)


def load(B, p):
    return B.torch.load(p) if B.sym else B.torch.load(p, weights_only=False)


@case('C36', params=[('%s' % et, dict(et=et, ne=ne)) for et, ne in (('SHEXA8', (1, 1, 1)), ('SHEXA20', (1, 1, 1)))], ntrials=1)
@scratch
def patches(B, d, et, ne):
    """The data set holds the local paths of every patch in the order of the patches, each computed from the mesh and history of its own simulation."""
    M, T = B.mod(BL), B.mod(TD)
    P, V = {}, {}
    st = (1, 2, 10)
    for k in (2, 10, 1):
        s = os.path.join(d, 'patch_%d' % k, 'simulations')
        os.makedirs(s)
        with tagged(B, 'p%d_' % k):
            P[k], dat = links_dat(B, s, et, ne, name='patch', free={1: (0, 2)} if k == 2 else ())
            _, V[k] = node_output(B, s, 'patch', st, len(P[k].X))
    seen = []
    keep = {k: open(os.path.join(d, 'patch_%d' % k, 'simulations', 'patch.dat')).read() for k in P}

    def local(specimen_data_path, specimen_material_state_path, model_directory, **kw):
        k = (1, 2, 10)[len(seen)]
        p, v = P[k], V[k]
        x, z = load(B, specimen_data_path), load(B, specimen_material_state_path)
        m = x.specimen_mesh
        B.true('own directory', os.path.isdir(model_directory) and not os.listdir(model_directory) and
               all(os.path.realpath(q).startswith(os.path.realpath(os.path.join(d, 'patch_%d' % k)) + os.sep)
                   for q in (specimen_data_path, specimen_material_state_path, model_directory)))
        n = len(p.X)
        B.true('sizes', m.get_n_node_mesh() == n and m.get_n_elem() == 1 and tuple(x.nodes_disps_mesh_hist.shape) == (n, 3, len(st)))
        X = m.get_mesh_configuration(time='init')[0]
        for i in sorted(p.X):
            B.eq('coordinates', X[i - 1], p.X[i], rtol=1e-6, atol=1e-8)
            for t, q in enumerate(sorted(st)):
                B.eq('displacements', x.nodes_disps_mesh_hist[i - 1, :, t], [v[q][i - 1][c] for c in COLS[4:7]], rtol=1e-6, atol=1e-6)
                B.eq('reactions', x.reaction_forces_mesh_hist[i - 1, :, t], [v[q][i - 1][c] for c in COLS[7:10]], rtol=1e-6, atol=1e-6)
        db = m.get_dirichlet_bool_mesh()
        B.true('prescribed degrees of freedom', [[int(db[i - 1, c]) for c in range(3)] for i in sorted(p.X)] ==
               [[int(i in p.u and p.u[i][c] is not None) for c in range(3)] for i in sorted(p.X)])
        B.true('material of every element', sorted(z.get_elements_material()) == ['1'])
        seen.append(k)
        return T.TimeSeriesDatasetInMemory([{'id': (k, j)} for j in range(2)]), B.num(0)
    par = {'elastic_symmetry': 'isotropic', 'E': B.var('E', pos=True), 'v': B.var('v', dist=(0.1, 0.4)), 'euler_angles': (0.0, 0.0, 0.0)}

    def model():
        return ('infinitesimal', 4, 3, 'rc_elastic', par, {
            'n_features_in': 6, 'n_features_out': 6, 'learnable_parameters': {'E': {'initial_value': 70.0, 'bounds': (50, 150)}},
            'strain_formulation': 'infinitesimal', 'problem_type': 4, 'material_model_name': 'elastic', 'material_model_parameters': par,
            'state_features_out': {}, 'is_auto_sync_parameters': True, 'is_check_su_fail': False, 'model_directory': None,
            'model_name': 'rc_elastic', 'is_normalized_parameters': False, 'is_model_in_normalized': False,
            'is_model_out_normalized': False, 'device_type': 'cpu'})
    B.override(BL + ':set_material_model_parameters', model)
    B.override(BL + ':gen_specimen_local_dataset', local)
    ds = M.build_local_paths_dataset(d, 'patch')
    B.true('all patches once, in order', seen == [1, 2, 10])
    B.true('samples in the order of the patches', [ds[i]['id'] for i in range(len(ds))] == [(k, j) for k in (1, 2, 10) for j in range(2)])
    B.true('simulations unchanged', keep == {k: open(os.path.join(d, 'patch_%d' % k, 'simulations', 'patch.dat')).read() for k in P})


class tagged:
    """Variables declared in this block get names of their own."""

    def __init__(self, B, tag):
        self.B, self.tag = B, tag

    def __enter__(self):
        self.old = self.B.var
        self.B.var = lambda name, *a, **k: self.old(self.tag + name, *a, **k)

    def __exit__(self, *a):
        del self.B.var


@case('C36', params=[('e%d' % n, dict(n=n)) for n in (1, 3)], ntrials=2)
@scratch
def local_dataset(B, d, n):
    """The finder works on the specimen and material states of the files, stores the paths of all elements, and these are what is returned."""
    M, T = B.mod(LP), B.mod(TD)
    log = []

    class Mesh:
        def get_n_elem(self):
            return n

    class Data:
        specimen_mesh = Mesh()

    class State:
        def update_material_models_device(self, x):
            log.append(('device', x))
    data, state = Data(), State()
    B.override(LP + ':torch', Box(B.torch, load=lambda p, *a, **k: {'data.pt': data, 'state.pt': state}[os.path.basename(p)]))

    class Finder:
        def __init__(self, model_directory, **kw):
            log.append(('init', model_directory, kw))

        def set_specimen_data(self, a, b, **kw):
            log.append(('data', a is data, b is state))

        def __call__(self, *a, **kw):
            kws = log[1][2] if log and log[0][0] == 'device' else {}
            sub = os.path.join(d, 'model', 'local_response_dataset')
            os.makedirs(sub)
            if kws.get('is_store_local_paths'):
                ds = T.TimeSeriesDatasetInMemory([{'id': e, 'x': B.tensor(B.array('x%d_' % e, (2,)))} for e in kws['local_paths_elements']])
                T.save_dataset(ds, 'ss_paths_dataset', sub)
            plain(os.path.join(sub, 'ss_paths_dataset.txt'), ['1'])
            log.append(('run',))
            return B.var('loss')
    B.override(LP + ':MaterialModelFinder', Finder)
    os.mkdir(os.path.join(d, 'model'))
    ds, loss = M.gen_specimen_local_dataset(os.path.join(d, 'data.pt'), os.path.join(d, 'state.pt'), os.path.join(d, 'model'))
    B.true('steps', [e[0] for e in log] == ['device', 'init', 'data', 'run'] and log[2][1:] == (True, True))
    B.true('model directory', os.path.normpath(log[1][1]) == os.path.join(d, 'model'))
    B.true('all elements', w_ids(ds) == list(range(1, n + 1)))
    for i in range(n):
        B.eq('paths', ds[i]['x'], B.array('x%d_' % (i + 1), (2,)))
    B.eq('loss', loss, B.var('loss'))


def w_ids(ds):
    return [ds[i]['id'] for i in range(len(ds))]


class Box:
    def __init__(self, base, **kw):
        self.__dict__.update(kw)
        self._base = base

    def __getattr__(self, k):
        return getattr(self._base, k)
