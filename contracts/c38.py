"""C38: the complete local model updating pipeline: dependency data sets, their assembly, updating and evaluation."""
import inspect
import os
import types
import numpy as np
from vf import terms as tm
from vf.engine import case
from contracts.c31 import scratch, plain
from contracts.c37 import ORDER
FUNCTIONS = ['generate_material_data', 'assemble_material_datasets', 'perform_material_model_updating', 'set_lmu_dir', 'set_dependencies_dir',
             'set_dataset_type_dir', 'set_strain_path_generator', 'set_data_material_model', 'get_model_parameters', 'polynomial', 'plot_model_parameters',
             'get_dataset_basename', 'find_dataset_file', 'get_gru_material_model', 'build_gru_features_in', 'forward_gru_material_model',
             'get_vm_material_model', 'forward_vm_material_model', 'forward_material_model', 'get_uniaxial_stress_path', 'plot_strain_stress_paths']
ASSUMPTIONS = ['strain path generators (C24), response of a material along a path (C32), data set classes and files (C23, C30), ensembles of models (C37), '
               'data scaling (C17, C30) and model state files (C28) are known by contract: arbitrary paths, responses and failures',
               'numbers of samples, temperatures, compositions and failing trials are enumerated; temperatures and compositions differ in their first two decimals',
               'random draws: any value of the interval; one enumerated permutation and selection (symbolic), any (real code)',
               'get_uniaxial_stress_path is checked on the real code only (automatic differentiation), for linear and cubic responses: bounded',
               'evaluate_gru_material_model and build_uniaxial_stress_dataset (fixed paths of the authors) are not run']
L = 'user_scripts.complete_pipelines.local_model_update'
G = 'user_scripts.complete_pipelines.evaluate_gru_model'
TD = 'time_series_data.time_dataset'


def nparr(B, x):
    a = np.array(x, dtype=object)
    return a if B.sym else a.astype(float)


class Draws:
    """Arbitrary draws."""

    def __init__(self, B):
        self.B, self.k = B, 0

    def __getattr__(self, name):
        # other ways to draw: the library's
        if self.__dict__['B'].sym:
            raise tm.Unsupported('random.%s' % name)
        import random
        return getattr(random, name)

    def uniform(self, a, b):
        self.k += 1
        x = self.B.var('draw%d' % self.k, nonneg=True, dist=(0, 1))
        self.B.assume(x <= 1)
        return a + (b - a) * x

    def sample(self, population, k):
        p = list(population)
        return (p[1::2][::-1] + p[0::2])[:k]


class World:
    """Stands for the path generators, the materials and their response."""

    def __init__(self, B, fails=(), n_time=2):
        self.B, self.n_time, self.paths, self.resp = B, n_time, [], []
        me = self
        for kind, mod, cls in (('random', 'random_path', 'RandomStrainPathGenerator'), ('proportional', 'proportional_path', 'ProportionalStrainPathGenerator')):
            c = getattr(B.mod('data_generation.strain_paths.' + mod), cls)

            def generate(s, *a, kind=kind, **kw):
                k = len(me.paths)
                x = [[B.var('x%d_%d_%d' % (k, i, j)) for j in range(6)] for i in range(n_time)]
                t = [B.var('t%d_%d' % (k, i)) for i in range(n_time)]
                me.paths.append((kind, x, t))
                return ORDER, nparr(B, t), nparr(B, x)
            B.patch(c, 'generate_strain_path', generate)
        B.override(L + ':get_model_parameters', lambda model_name, temperature, composition: {'T': temperature, 'C': composition, 'of': model_name})

        class Model:
            def __init__(s, strain_formulation, problem_type, model_parameters, *a, **k):
                s.par = model_parameters
                B.true('problem', (strain_formulation, problem_type) == ('infinitesimal', 4))
        B.override(L + ':VonMises', Model)
        c = B.mod('user_scripts.synthetic_data.gen_response_dataset').MaterialResponseDatasetGenerator

        def respond(s, strain_comps_order, time_hist, strain_path, constitutive_model, state_features={}, **kw):
            k = len(me.resp)
            st = [[B.var('s%d_%d_%d' % (k, i, j)) for j in range(6)] for i in range(n_time)]
            ap = [[B.var('a%d_%d' % (k, i))] for i in range(n_time)]
            B.true('orders', tuple(strain_comps_order) == ORDER)
            B.true('one response per path', k < len(me.paths))
            B.eq('response to the last path', B.arr(strain_path), me.paths[-1][1])
            B.eq('response at its times', B.arr(time_hist).reshape(-1), me.paths[-1][2])
            f = k in fails if not callable(fails) else fails(k)
            me.resp.append(dict(path=me.paths[-1], stress=st, ap=ap, par=constitutive_model.par, fail=f))
            return ORDER, nparr(B, st), ({'acc_p_strain': nparr(B, ap)} if 'acc_p_strain' in state_features else {}), f
        B.patch(c, 'compute_stress_path', respond)


def stored(B, d):
    """The single data set of a directory."""
    f = [x for x in sorted(os.listdir(d)) if x.endswith('.pkl')]
    B.true('one data set', len(f) == 1)
    return f[0], B.mod(TD).load_dataset(os.path.join(d, f[0]))


TS, CS = [25.0, 125.0, 325.0], [0.0, 0.25, 1.0]
GEN = {'one': dict(ts=[125.0], cs=[0.5], n={'training': 2}, r={'training': 0.5}, fails=()),
       'default': dict(ts=[25.0, 625.0], cs=[0.5], n={'training': 2, 'testing_id': 1}, r=None, fails=()),
       'grid': dict(ts=TS, cs=[0.25, 0.75], n={'training': 3, 'validation': 2}, r={'training': 0.4, 'validation': 0.5}, fails=(0, 3, 4, 10)),
       'inner': dict(ts=TS, cs=CS, n={'testing_id': 2}, r={'testing_id': 0.5}, fails=(1, 2, 3)),
       'unlisted': dict(ts=[25.0], cs=[1.0], n={'testing_od': 3, 'training': 1}, r={'testing_od': 0.67}, fails=(2,)),
       'nine': dict(ts=[25.0], cs=[1.0], n={'training': 2}, r={'training': 0.5}, fails=tuple(range(1, 10)))}


@case('C38', params=[(k, dict(k=k)) for k in GEN], ntrials=3)
@scratch
def generated(B, d, k):
    """Every temperature and composition gets its own data sets, of materials at (or between the neighbours of) this point."""
    c = GEN[k]
    W = World(B, c['fails'])
    draws(B)
    plain(os.path.join(d, 'keep'), ['me'])
    os.makedirs(os.path.join(d, '0_simulation', 'T99.00_C0.00', 'training_dataset'))
    kw = {} if c['r'] is None else {'rnd_strain_path_ratio': dict(c['r'])}
    B.mod(L).generate_material_data(d, 'infinitesimal', 4, 'von_mises', temperatures=c['ts'], compositions=c['cs'], n_sample_type=dict(c['n']),
                                    is_save_dataset_plots=False, **kw)
    B.true('nothing else is touched', sorted(os.listdir(d)) == ['0_simulation', 'keep'])
    base = os.path.join(d, '0_simulation')
    pts = [(t, x) for t in c['ts'] for x in c['cs']]
    B.true('one directory per point', sorted(os.listdir(base)) == sorted('T%.2f_C%.2f' % p for p in pts))
    good = [r for r in W.resp if not r['fail']]
    B.true('one path per trial', len(W.paths) == len(W.resp))
    used = 0
    for t, x in pts:
        q = os.path.join(base, 'T%.2f_C%.2f' % (t, x))
        B.true('data set types', sorted(os.listdir(q)) == sorted(y + '_dataset' for y in c['n']))
        for y, n in c['n'].items():
            name, D = stored(B, os.path.join(q, y + '_dataset'))
            B.true('data set name', name == 'ss_paths_dataset_n%d.pkl' % n)
            B.true('number of samples', len(D) == n and used + n <= len(good))
            n_rnd = int(n * ((c['r'] or {}).get(y, 1.0)))
            mine = good[used:used + n]
            used += n
            B.true('share of random paths', sum(r['path'][0] == 'random' for r in mine) == n_rnd)
            for i, r in enumerate(mine):
                s = D[i]
                B.true('component orders', tuple(s['strain_comps_order']) == ORDER and tuple(s['stress_comps_order']) == ORDER)
                B.eq('strain path', s['strain_path'], r['path'][1])
                B.eq('stress path', s['stress_path'], r['stress'])
                B.eq('state path', s['acc_p_strain'], r['ap'])
                B.eq('time', s['time_hist'], [[v] for v in r['path'][2]])
                B.true('material', r['par']['of'] == 'von_mises')
                B.eq('temperature of the material', s['temperature_hist'], [[r['par']['T']]] * W.n_time)
                B.eq('composition of the material', s['composition_hist'], [[r['par']['C']]] * W.n_time)
                for v, at, vals in ((r['par']['T'], t, c['ts']), (r['par']['C'], x, c['cs'])):
                    if y in ('validation', 'testing_id'):
                        i_ = vals.index(at)
                        B.le('not below the lower neighbour', B.num(vals[max(i_ - 1, 0)]), v)
                        B.le('not above the upper neighbour', v, B.num(vals[min(i_ + 1, len(vals) - 1)]))
                    else:
                        B.eq('value of the point', v, B.num(at))
    B.true('all responses are stored', used == len(good))


def draws(B, x=None):
    if B.sym or hasattr(B.mod(L), 'random'):
        B.override(L + ':random', x or Draws(B))


class Ends:
    """Draws at an end of the interval."""

    def __init__(self, i):
        self.i, self.k = i, 0

    def uniform(self, a, b):
        self.k += 1
        return (a, b)[self.i]

    def __getattr__(self, name):
        import random
        return getattr(random, name)


@case('C38', params=[(k, dict(i=i)) for i, k in enumerate(('lowest', 'highest'))], ntrials=1)
@scratch
def interval(B, d, i):
    """The materials in between reach up to the neighbours of the point."""
    W, e = World(B), Ends(i)
    draws(B, e)
    ts, cs = [25.0, 125.0, 325.0, 625.0], [0.0, 0.25, 1.0]
    B.mod(L).generate_material_data(d, 'infinitesimal', 4, 'von_mises', temperatures=ts, compositions=cs, n_sample_type={'validation': 2},
                                    rnd_strain_path_ratio={'validation': 0.5}, is_save_dataset_plots=False)
    if e.k != 2 * len(W.resp):
        return      # drawn in another way
    pts = [(a, b) for a in range(4) for b in range(3) for _ in range(2)]
    B.true('samples', len(W.resp) == len(pts))
    for (a, b), r in zip(pts, W.resp):
        s = 1 if i else -1
        B.eq('temperature', r['par']['T'], B.num(ts[min(max(a + s, 0), 3)]))
        B.eq('composition', r['par']['C'], B.num(cs[min(max(b + s, 0), 2)]))


@case('C38', ntrials=2)
@scratch
def impossible(B, d):
    """Materials that never respond, unknown materials and shares without samples are refused; failing samples are never stored."""
    W = World(B, lambda k: True)
    draws(B)
    M = B.mod(L)

    def run(**kw):
        a = dict(temperatures=[25.0], compositions=[0.5], n_sample_type={'training': 2}, rnd_strain_path_ratio={'training': 0.5}, is_save_dataset_plots=False)
        a.update(kw)
        m = a.pop('model', 'von_mises')
        return lambda: M.generate_material_data(d, 'infinitesimal', 4, m, **a)
    B.raises('never responds', run(), RuntimeError)
    B.true('a bounded number of trials', 10 <= len(W.resp) <= 11)
    B.true('nothing stored', not [f for _, _, fs in os.walk(d) for f in fs])
    n = len(W.resp)
    B.raises('unknown material', run(model='other'), RuntimeError)
    B.raises('no random path', run(rnd_strain_path_ratio={'training': 0.4}), RuntimeError)
    B.raises('no proportional path', run(n_sample_type={'training': 0}), RuntimeError)
    B.true('no further trial', len(W.resp) == n)


def sample(B, k):
    x = {'strain_path': B.array('e%d_' % k, (2, 6)), 'stress_path': B.array('s%d_' % k, (2, 6)), 'time_hist': B.array('t%d_' % k, (2, 1))}
    return x, {**{a: B.tensor(v) for a, v in x.items()}, 'strain_comps_order': ORDER, 'stress_comps_order': ORDER, 'tag': k}


ASM = {'all': dict(types=('training', 'validation', 'testing_id'), red=None), 'some': dict(types=['validation'], red=None),
       'reduced': dict(types=('training', 'testing_id'), red={'training': 0.7, 'validation': 0.1}),
       'wrong': dict(types=('training', 'testing_id'), red={'training': 1.5, 'testing_id': 1})}


@case('C38', params=[(k, dict(k=k)) for k in ASM], ntrials=4)
@scratch
def assembled(B, d, k):
    """An assembled data set has every sample of its type, once, and no other; reductions keep the share of every point."""
    c = ASM[k]
    M = B.mod(L)
    draws(B)
    data, at, n = {}, {}, 0
    for i, (p, size) in enumerate((('T25.00_C0.00', 3), ('T25.00_C0.50', 1), ('T625.00_C0.50', 5))):
        for y, m in (('training', size + 1), ('validation', size), ('testing_id', 2)):
            q = os.path.join(d, '0_simulation', p, y + '_dataset')
            os.makedirs(os.path.join(q, 'plots'))
            plain(os.path.join(q, 'notes.txt'), ['x'])
            got = []
            for _ in range(m):
                x, s = sample(B, n)
                data[n] = x
                got.append(s)
                at.setdefault((y, p), []).append(n)
                n += 1
            B.mod(TD).save_dataset(B.mod(TD).TimeSeriesDatasetInMemory(got), 'ss_paths_dataset', q, is_append_n_sample=True)
    # earlier assembly
    old = os.path.join(d, '1_training_dataset')
    os.mkdir(old)
    plain(os.path.join(old, 'ss_paths_dataset_n1.pkl'), ['old'])
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        M.assemble_material_datasets(d, 'infinitesimal', 4, c['types'], 'ss_paths_dataset', size_balanced_reduction=c['red'])
    dirs = {'training': '1_training_dataset', 'validation': '2_validation_dataset', 'testing_id': '5_testing_id_dataset'}
    B.true('directories', sorted(os.listdir(d)) == sorted({'0_simulation', '1_training_dataset'} | {dirs[y] for y in c['types']}))
    if 'training' not in c['types']:
        B.true('other data sets are kept', os.listdir(old) == ['ss_paths_dataset_n1.pkl'])
    for y in c['types']:
        name, D = stored(B, os.path.join(d, dirs[y]))
        tags = [D[i]['tag'] for i in range(len(D))]
        B.true('each sample once', len(set(tags)) == len(tags))
        f = (c['red'] or {}).get(y, 1.0)
        f = f if isinstance(f, float) and 0 <= f <= 1 else 1.0
        for (z, p), ids in at.items():
            kept = [t for t in tags if t in ids]
            B.true('share of every point', len(kept) == (int(len(ids) * f) if z == y else 0))
        B.true('data set name', name == 'ss_paths_dataset_n%d.pkl' % len(tags))
        for t, i in sorted((t, i) for i, t in enumerate(tags)):
            for a, v in data[t].items():
                B.eq('%s of a sample' % a, D[i][a], v)
    for (y, p), ids in at.items():
        B.true('the parts are kept', len(stored(B, os.path.join(d, '0_simulation', p, y + '_dataset'))[1]) == len(ids))


@case('C38', ntrials=1)
@scratch
def unknown_type(B, d):
    """A type of data set without a place is refused and the assembled data sets are kept."""
    for y in ('training', 'testing_od'):
        q = os.path.join(d, '0_simulation', 'T25.00_C0.00', y + '_dataset')
        os.makedirs(q)
        got = [sample(B, 10 * len(y) + k)[1] for k in range(len(y))]
        B.mod(TD).save_dataset(B.mod(TD).TimeSeriesDatasetInMemory(got), 'ss_paths_dataset', q, is_append_n_sample=True)
    B.raises('refused', lambda: B.mod(L).assemble_material_datasets(d, 'infinitesimal', 4, ('training', 'testing_od'), 'ss_paths_dataset'), Exception)
    q = os.path.join(d, '1_training_dataset')
    if os.path.isdir(q):
        B.true('the training data set is not replaced', os.listdir(q) == ['ss_paths_dataset_n%d.pkl' % len('training')])


@case('C38', params=[('%s_%s' % (a, b), dict(train=a == 'train', old=b == 'again')) for a in ('train', 'predict') for b in ('first', 'again')], ntrials=1)
@scratch
def updated(B, d, train, old):
    """The ensemble is trained, validated and tested on the assembled data sets; trained models are only given up for new ones."""
    M = B.mod(L)
    paths = {}
    for y in ('1_training_dataset', '2_validation_dataset', '5_testing_id_dataset', '0_simulation'):
        os.mkdir(os.path.join(d, y))
        paths[y] = os.path.join(d, y, 'ss_paths_dataset_n%d.pkl' % len(y))
        plain(paths[y], [y])
        plain(os.path.join(d, y, 'ss_paths_dataset_n12.txt'), ['x'])
    uq = os.path.join(d, 'uncertainty_quantification')
    if old:
        os.makedirs(os.path.join(uq, 'model_0'))
        os.mkdir(os.path.join(d, '3_model'))
        plain(os.path.join(d, '3_model', 'stale'), ['x'])
    real = inspect.signature(B.mod('user_scripts.local_model_update.rnn_material_model.uncertainty_quantification').perform_model_uq)
    calls, plots = [], []

    def ensemble(*a, **k):
        b = real.bind(*a, **k)
        b.apply_defaults()
        v = b.arguments
        calls.append(v)
        same = lambda p, *q: os.path.exists(p) and os.path.samefile(p, os.path.join(d, *q))
        B.true('directory of the ensemble', same(v['uq_directory'], 'uncertainty_quantification'))
        B.true('earlier models', os.listdir(v['uq_directory']) == (['model_0'] if old and not train else []))
        B.true('training data', same(v['train_dataset_file_path'], paths['1_training_dataset']))
        B.true('validation data', same(v['val_dataset_file_path'], paths['2_validation_dataset']))
        B.true('testing data', same(v['test_dataset_file_path'], paths['5_testing_id_dataset']))
        B.true('number of models', v['n_model_sample'] == 3 and bool(v['is_model_training']) == train)
        B.true('model directory', same(v['model_directory'], '3_model') and not os.listdir(v['model_directory']))
        B.true('prediction directory', same(v['predict_directory'], '7_prediction', 'in_distribution') and not os.listdir(v['predict_directory']))
        plain(os.path.join(v['uq_directory'], 'done'), ['x'])
        plain(os.path.join(v['model_directory'], 'tmp'), ['x'])
    B.override(L + ':perform_model_uq', ensemble)
    B.override(L + ':gen_model_uq_plots', lambda uq_directory, n_model_sample, testing_dataset_dir, testing_type, **k: plots.append(
        (os.path.samefile(uq_directory, uq), n_model_sample, os.path.samefile(testing_dataset_dir, os.path.join(d, '5_testing_id_dataset')), testing_type)))
    M.perform_material_model_updating(d, n_model_sample=3, is_model_training=train, is_generate_uq_plots=old)
    B.true('one ensemble', len(calls) == 1)
    B.true('plots of it', plots == ([(True, 3, True, 'in_distribution')] if old else []))
    B.true('working directories are removed, the rest is kept', sorted(os.listdir(d)) == sorted(list(paths) + ['uncertainty_quantification'])
           and 'done' in os.listdir(uq) and all(os.path.isfile(p) for p in paths.values()))
    os.remove(paths['2_validation_dataset'])
    calls.clear()
    B.raises('a missing data set is refused', lambda: M.perform_material_model_updating(d, n_model_sample=3, is_model_training=train), RuntimeError)
    B.true('nothing is trained', not calls)


@case('C38', ntrials=1)
@scratch
def directories(B, d):
    """Directories are made in the given place, and emptied only on request."""
    M = B.mod(L)
    a = M.set_lmu_dir(d)
    B.true('made', os.path.isdir(a) and os.path.samefile(a, os.path.join(d, 'local_model_update')))
    plain(os.path.join(a, 'x'), ['x'])
    B.true('kept', os.listdir(M.set_lmu_dir(d)) == ['x'])
    B.true('emptied on request', os.listdir(M.set_lmu_dir(d, is_overwrite=True)) == [])
    gone = os.path.join(d, 'gone')
    B.raises('no base', lambda: M.set_lmu_dir(gone), RuntimeError)
    B.raises('no target', lambda: M.set_dependencies_dir(gone, 25.0, 0.5), RuntimeError)
    B.raises('no target of a type', lambda: M.set_dataset_type_dir(gone, 'training'), RuntimeError)
    b = M.set_dependencies_dir(a, 25.0, 0.5)
    B.true('point', os.path.samefile(b, os.path.join(a, 'T25.00_C0.50')))
    B.true('type', os.path.samefile(M.set_dataset_type_dir(b, 'training'), os.path.join(b, 'training_dataset')))
    B.true('named type', os.path.samefile(M.set_dataset_type_dir(b, 'training', dir_basename='7_x'), os.path.join(b, '7_x')))


@case('C38', ntrials=1)
def generators(B):
    """Strain paths of the requested kind, for the requested components."""
    M = B.mod(L)
    for kind, cls in (('random', 'RandomStrainPathGenerator'), ('proportional', 'ProportionalStrainPathGenerator')):
        g, kw = M.set_strain_path_generator('infinitesimal', 3, ORDER, strain_path_type=kind)
        B.true('kind', type(g).__name__ == cls)
        B.true('components', sorted(kw['strain_bounds']) == sorted(ORDER) and all(b[0] < b[1] for b in kw['strain_bounds'].values()))
        names = inspect.signature(type(g).generate_strain_path).parameters
        B.true('options of the generator', all(k in names for k in kw))
    B.raises('unknown', lambda: M.set_strain_path_generator('infinitesimal', 3, ORDER, strain_path_type='other'), RuntimeError)


def law(B, T, C):
    """The fitted laws: elastic constants, initial yield stress and hardening modulus."""
    r = B.num
    t, c = (T - r(325)) / B.rat(180606, 1000), (C - B.rat(1, 2)) / B.rat(3168, 10000)
    q = lambda n: B.rat(int(round(n * 1000)), 1000)
    E = (q(135.546) + q(20.186) * c + (q(-8.489) + q(0.936) * c) * t) * r(1000)
    Gm = (q(52.891) + q(8.843) * c + (q(-3.34) + q(0.405) * c) * t) * r(1000)
    s0 = ((q(25.107) + q(-47.582) * c + q(39.738) * c * c) * B.fn('exp', -(q(0.883) + q(0.018) * c + q(-0.091) * c * c) * t)
          + q(541.225) + q(-74.391) * c + q(-121.669) * c * c + q(29.518) * c * c * c + q(20.025) * c * c * c * c)
    s1 = q(7253.7) + q(2213.1) * c + (q(-68.7) + q(-57.7) * c) * t
    return E, Gm, s0, s1


@case('C38', ntrials=6)
def parameters(B):
    """The parameters of a material are the fitted laws at its own temperature and composition, which have to be in the fitted range."""
    M = B.mod(L)
    T, C = B.var('T', dist=(25, 625)), B.var('C', dist=(0, 1))
    for v, a, b in ((T, 25, 625), (C, 0, 1)):
        B.assume(v >= a)
        B.assume(v <= b)
    m = M.get_model_parameters('von_mises', T, C)
    E, Gm, s0, s1 = law(B, T, C)
    B.assume(Gm > 0)
    B.eq('Young modulus', m['E'], E, rtol=1e-9)
    B.eq('shear modulus', m['E'], Gm * 2 * (m['v'] + 1), rtol=1e-9)
    B.true('isotropic', m['elastic_symmetry'] == 'isotropic' and tuple(m['euler_angles']) == (0.0, 0.0, 0.0))
    P = B.arr(m['hardening_parameters']['hardening_points'])
    B.true('hardening points', P.ndim == 2 and P.shape[1] == 2 and P.shape[0] >= 2)
    B.eq('range of the hardening law', [P[0, 0], P[-1, 0]], [B.num(0), B.num(2)])
    pick = sorted({0, 1, len(P) // 2, len(P) - 1})
    for i in pick:
        B.eq('yield stress', P[i, 1], s0 + s1 * P[i, 0], rtol=1e-9)
    if not B.sym:
        y, _ = m['hardening_law'](m['hardening_parameters'], B.torch.tensor(0.0))
        B.eq('initial yield stress', B.arr(y).reshape(-1)[0], s0, rtol=1e-6)
        B.true('every yield stress', bool(np.allclose(P[:, 1], s0 + s1 * P[:, 0], rtol=1e-9)) and bool(np.all(np.diff(P[:, 0]) > 0)))
    B.raises('unknown material', lambda: M.get_model_parameters('other', T, C), RuntimeError)


@case('C38', params=[(k, dict(k=k)) for k in ('cold', 'hot', 'negative', 'excess')], ntrials=2)
def out_of_range(B, k):
    """Outside the fitted range there is no material."""
    M = B.mod(L)
    x = B.var('beyond', pos=True)
    T, C = {'cold': (B.num(25) - x, B.num(0)), 'hot': (B.num(625) + x, B.num(1)), 'negative': (B.num(25), -x), 'excess': (B.num(625), B.num(1) + x)}[k]
    B.raises('refused', lambda: M.get_model_parameters('von_mises', T, C), RuntimeError)
    t, c = {'cold': (25.0, 0.0), 'hot': (625.0, 1.0), 'negative': (25.0, 0.0), 'excess': (625.0, 1.0)}[k]
    B.true('the ends are in the range', isinstance(M.get_model_parameters('von_mises', t, c), dict))


@case('C38', ntrials=3)
def material(B):
    """The material of a point has the parameters of this point."""
    M = B.mod(L)
    T, C = B.var('T'), B.var('C')
    B.override(L + ':get_model_parameters', lambda model_name, temperature, composition: (model_name, temperature, composition))
    B.override(L + ':VonMises', lambda strain_formulation, problem_type, model_parameters, **k: (strain_formulation, problem_type, model_parameters))
    m, f = M.set_data_material_model('infinitesimal', 4, 'von_mises', T, C)
    B.true('problem', m[:2] == ('infinitesimal', 4) and m[2][0] == 'von_mises' and f == {'acc_p_strain': 1})
    B.eq('point', [m[2][1], m[2][2]], [T, C])
    B.raises('unknown', lambda: M.set_data_material_model('infinitesimal', 4, 'elastic', T, C), RuntimeError)
    a = B.vec('a', 4)
    B.eq('polynomial', M.polynomial(list(a), T), a[0] + a[1] * T + a[2] * T * T + a[3] * T * T * T)


class Gru:
    """Stands for a recurrent model: any causal map of its (normalised) input."""

    def __init__(self, B, i, o, n_out=6):
        self.B, self.is_model_in_normalized, self.is_model_out_normalized, self.n_out = B, i, o, n_out
        self.asked = []

    def parameters(self):
        return iter(())

    def eval(self):
        return self

    def __call__(self, features_in, hidden_features_in=None):
        B, x = self.B, features_in
        self.asked.append((B.arr(x), hidden_features_in))
        a = B.arr(x)
        rows, acc = [], [B.num(0)] * self.n_out
        for t in range(a.shape[0]):
            acc = [acc[j] + a[t][j % a.shape[1]] * (j + 2) + a[t][-1] + a[t][-2] * 3 for j in range(self.n_out)]
            rows.append(acc)
        return B.tensor(rows), None


@case('C38', params=[('in%d_out%d_%d' % (i, o, n), dict(i=i, o=o, n=n)) for i in (False, True) for o in (False, True) for n in (6, 8)], ntrials=3)
def gru_response(B, i, o, n):
    """The stress of the network: strain, temperature and composition in, in the units of the data, from a fresh memory."""
    M = B.mod(G)
    e = B.array('e', (3, 6))
    T, C = B.var('T'), B.var('C')
    m = Gru(B, i, o, n)
    log = []

    def scale(model, tensor, features_type, mode='normalize', **k):
        B.true('model of the scaling', model is m)
        log.append((features_type, mode))
        return tensor * 3 + 1 if mode == 'normalize' else tensor * 5 - 2
    B.override(G + ':data_scaler_transform', scale)
    x = M.build_gru_features_in(B.tensor(e), T, C)
    want = [list(e[t]) + [T, C] for t in range(3)]
    B.eq('input features', x, want)
    s = M.forward_material_model('gru', m, B.tensor(e), T, C)
    B.true('asked once', len(m.asked) == 1 and m.asked[0][1] is None)
    B.eq('input in the units of the model', m.asked[0][0], [[v * 3 + 1 if i else v for v in r] for r in want])
    B.true('scaling', sorted(log) == sorted([('features_in', 'normalize')] * i + [('features_out', 'denormalize')] * o))
    ref = Gru(B, i, o, n)
    y = B.arr(ref(B.tensor([[v * 3 + 1 if i else v for v in r] for r in want]))[0])
    B.eq('stress in the units of the data', s, [[v * 5 - 2 if o else v for v in r[:6]] for r in y])


@case('C38', ntrials=2)
def refused_response(B):
    """Unknown models and responses of another shape are refused."""
    M = B.mod(G)
    e = B.tensor(B.array('e', (2, 6)))
    B.raises('unknown model', lambda: M.forward_material_model('other', lambda x: x, e, 25.0, 0.5), ValueError)
    B.raises('other shape', lambda: M.forward_material_model('von_mises', lambda x: x[:1], e, 25.0, 0.5), ValueError)
    B.raises('no tensor', lambda: M.forward_material_model('von_mises', lambda x: None, e, 25.0, 0.5), TypeError)
    B.eq('response of the material', M.forward_material_model('von_mises', lambda x: x * 2, e, 25.0, 0.5), B.arr(e) * 2)


@case('C38', params=[(k, dict(k=k)) for k in ('best', 'last')], ntrials=1)
def network(B, k):
    """The evaluated network is the one of the directory, in the requested state; its state files are kept."""
    M = B.mod(G)
    log = []

    class Net:
        def set_device(self, d):
            log.append(('device', d))

        def to(self, device=None):
            return self
    net = Net()

    class Cls:
        @staticmethod
        def init_model_from_file(model_directory):
            log.append(('init', model_directory))
            return net

    def load(model, model_load_state=None, is_remove_posterior=True, **kw):
        log.append(('load', model is net, model_load_state, is_remove_posterior))
        return 0
    B.override(G + ':GRURNNModel', Cls)
    B.override(G + ':load_model_state', load)
    r = M.get_gru_material_model('/some/model', model_load_state=k)
    B.true('model', r is net and ('init', '/some/model') in log)
    B.true('state', [x for x in log if x[0] == 'load'] == [('load', True, k, False)])


@case('C38', ntrials=2)
def reference(B):
    """The reference material has the parameters of its temperature and composition, and nothing to learn."""
    M = B.mod(G)
    T, C = B.var('T'), B.var('C')
    B.override(G + ':get_model_parameters', lambda model_name, temperature, composition: (model_name, temperature, composition))
    got = []
    real = inspect.signature(B.mod('model_architectures.rc_base_model.model.recurrent_model').RecurrentConstitutiveModel.__init__)

    def make(*a, **k):
        got.append(real.bind(None, *a, **k).arguments)
        return 'model'
    B.override(G + ':RecurrentConstitutiveModel', make)
    B.true('model', M.get_vm_material_model('infinitesimal', 4, T, C) == 'model' and len(got) == 1)
    v = got[0]
    B.true('definition', (v['n_features_in'], v['n_features_out'], dict(v['learnable_parameters'])) == (6, 6, {}) and v['strain_formulation'] == 'infinitesimal'
           and v['problem_type'] == 4 and v['material_model_name'] == 'von_mises' and v.get('is_save_model_init_file') is False)
    p = v['material_model_parameters']
    B.true('law', p[0] == 'von_mises')
    B.eq('point', [p[1], p[2]], [T, C])


@case('C38', params=[('%s_%d' % (k, n), dict(k=k, n=n)) for k in ('linear', 'cubic') for n in (2, 4)], ntrials=4, sym=False,
      why='Newton iteration with automatic differentiation: checked on the real code only')
def uniaxial(B, k, n):
    """The path found has the requested axial strain and no lateral stress, and its stress is the response to it."""
    M = B.mod(G)
    t = B.torch
    lam, mu = B.var('lam', dist=(0.5, 2)), B.var('mu', dist=(0.5, 2))
    ax = [B.num(0)] + [B.var('ax%d' % i, dist=(0.02, 0.2)) for i in range(1, n)]
    hist = k == 'cubic'

    def model(e):
        tr = e[:, 0:1] + e[:, 1:2] + e[:, 2:3]
        d = t.cat((t.ones((1, 3), dtype=e.dtype), t.zeros((1, 3), dtype=e.dtype)), dim=1)
        s = e * (2 * mu) + tr * d * lam
        if hist:
            c = t.cumsum(e, dim=0)
            s = s + e * e * e * 3 + c * 0.1 * t.arange(1, len(e) + 1, dtype=e.dtype).reshape(-1, 1)
        return s
    p, s = M.get_uniaxial_stress_path(t.tensor(ax, dtype=t.get_default_dtype()), 'von_mises', model, 25.0, 0.5)
    p, s = B.arr(p), B.arr(s)
    B.true('shapes', p.shape == (n, 6) and s.shape == (n, 6))
    B.eq('axial strain', p[:, 2], ax, rtol=1e-5, atol=1e-7)
    B.eq('no lateral stress', s[:, :2], np.zeros((n, 2)), atol=1e-5)
    B.eq('no shear', p[:, 3:], np.zeros((n, 3)))
    B.eq('stress is the response', s, B.arr(model(t.tensor(p, dtype=t.get_default_dtype()))), rtol=1e-4, atol=1e-5)


@case('C38', params=[('%d' % n, dict(n=n)) for n in (1, 3)], ntrials=2)
def compared(B, n):
    """Every stress is drawn against its own strain."""
    M = B.mod(G)
    got = []

    def plot(data_xy, data_labels=None, **k):
        got.append((data_xy, data_labels, k))
        return 'fig', 'ax'
    B.override(G + ':plot_xy_data', plot)
    e = [nparr(B, B.vec('e%d_' % i, 3)) for i in range(n)]
    s = [nparr(B, B.vec('s%d_' % i, 3)) for i in range(n)]
    r = M.plot_strain_stress_paths(list(e), [x.reshape(-1, 1) for x in s], ['l%d' % i for i in range(n)], title='t')
    B.true('figure', r == ('fig', 'ax') and len(got) == 1 and list(got[0][1]) == ['l%d' % i for i in range(n)] and got[0][2].get('title') == 't')
    B.eq('data', got[0][0], [[x for i in range(n) for x in (e[i][t], s[i][t])] for t in range(3)])


@case('C38', ntrials=2)
def surfaces(B):
    """Parameter surfaces show the parameters at their own temperature and composition."""
    M = B.mod(L)
    ts, cs = [25.0, 325.0, 625.0], [0.0, 1.0]
    v = {(t, c): B.vec('p%d_%d' % (t, c), 4) for t in ts for c in cs}

    def par(model_name, temperature, composition):
        x = v[float(temperature), float(composition)]
        return {'E': x[0], 'v': x[1], 'hardening_parameters': {'hardening_points': B.tensor([[B.num(0), x[2]], [B.num(1), x[2] + x[3]], [B.num(2), x[2] + x[3] * 2]])}}
    B.override(L + ':get_model_parameters', par)
    got = []

    def plot(x_mesh, y_mesh, z_mesh, **k):
        got.append((x_mesh, y_mesh, z_mesh, k.get('z_label')))
        return 'fig', 'ax'
    B.override(L + ':plot_surface_xyz_data', plot)
    B.override(L + ':plt', types.SimpleNamespace(close=lambda *a: None, show=lambda *a: None))
    M.plot_model_parameters('von_mises', ts, cs)
    B.true('four surfaces', len(got) == 4)
    for x, y, z, lab in got:
        j = [i for i, a in enumerate(('E$', 'nu', 'sigma', '$H')) if a in lab]
        B.true('label', len(j) == 1)
        j = j[0]
        for a in range(3):
            for b in range(2):
                t, c = float(B.arr(x)[a, b]), float(B.arr(y)[a, b])
                B.true('mesh', (t, c) == (ts[a], cs[b]))
                B.eq('value', B.arr(z)[a, b], v[t, c][j] * (B.rat(1, 1000) if j == 0 else B.num(1)), rtol=1e-5, atol=1e-6)
    B.raises('nothing to plot', lambda: M.plot_model_parameters('von_mises', [], cs), RuntimeError)
    B.raises('unknown', lambda: M.plot_model_parameters('other', ts, cs), RuntimeError)
