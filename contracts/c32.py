"""C32: synthetic response data sets are the response of the material model to the strain paths."""
import itertools
import os
import re
import numpy as np
from vf.engine import case
from contracts.c31 import scratch, txt, plain
from contracts.c01 import SYM, ix
FUNCTIONS = ['MaterialResponseDatasetGenerator.' + f for f in (
    '__init__', 'generate_response_dataset', 'compute_stress_path', 'build_tensor_from_comps', 'store_tensor_comps',
    'gen_response_dataset_from_csv', 'gen_response_dataset_from_strain_dataset', 'compute_stress_invariants')] + [
    'NoisyMaterialResponseDatasetGenerator.' + f for f in (
        '__init__', 'build_response_path', 'generate_noiseless_dataset', 'generate_noisy_dataset', 'compute_stress_path',
        'compute_norm_path', 'build_tensor_from_comps', 'store_tensor_comps')]
ASSUMPTIONS = ['strain path generators (C24), material models (C10-C15), noise generator (C24), data scalers (C17), denoiser (C25) and '
               'data set classes (C23) are known by contract: arbitrary paths, arbitrary states, arbitrary noise, arbitrary invertible '
               'affine scaling, arbitrary denoised path',
               'numbers of paths and time points, component orders, requested state variables and failing trials are enumerated',
               'files: a number read back from its text is the number written; torch.save / torch.load / pickle give back a copy']
R = 'user_scripts.synthetic_data.gen_response_dataset'
N = 'user_scripts.synthetic_data.gen_noisy_response_dataset'
MM = 'simulators.fetorch.material.models.standard.'
MODELS = {'elastic': ('elastic', 'Elastic'), 'von_mises': ('von_mises', 'VonMises'),
          'drucker_prager': ('drucker_prager', 'DruckerPrager'), 'lou_zhang_yoon': ('lou', 'LouZhangYoon')}
PERM = {2: ('12', '11', '22'), 3: ('13', '22', '11', '23', '33', '12')}
PT = {2: 1, 3: 4}


def gen(B, mod, n):
    cls = {R: 'MaterialResponseDatasetGenerator', N: 'NoisyMaterialResponseDatasetGenerator'}[mod]
    return getattr(B.mod(mod), cls)('infinitesimal', PT[n])


def nparr(B, x):
    a = np.array(x, dtype=object)
    return a if B.sym else a.astype(float)


def mf(B, n, S):
    """Matricial form (Kelvin) of a symmetric tensor."""
    return [S[ix(c)[0]][ix(c)[1]] * (B.num(1) if c[0] == c[1] else B.sqrt(2)) for c in SYM[n]]


class Material:
    """Any material: an arbitrary new state for every update; records what it is asked."""

    def __init__(self, B, n, fails=lambda path, step: False, tag=''):
        self.B, self.n, self.fails, self.tag = B, n, fails, tag
        self.paths = []          # one list of updates per computed path
        self.made = []

    def init(self):
        self.paths.append([])
        B = self.B
        self.count = 0
        return {'q': B.tensor([B.num(0)]), 'stress_mf': B.tensor([B.num(0)] * len(SYM[self.n])), 'is_su_fail': False}

    def update(self, inc, old):
        B, n = self.B, self.n
        p, k = len(self.paths) - 1, len(self.paths[-1]) + 1
        S = B.symmat('%ss%d_%d_' % (self.tag, p, k), n)
        E = B.symmat('%se%d_%d_' % (self.tag, p, k), n)
        q, a = B.var('%sq%d_%d' % (self.tag, p, k)), B.var('%sa%d_%d' % (self.tag, p, k))
        fail = self.fails(p, k)
        self.paths[-1].append(dict(inc=B.arr(inc).copy(), old=B.arr(old['q']).copy(), S=S, E=E, q=q, a=a, fail=fail))
        return {'q': B.tensor([q]), 'stress_mf': B.tensor(mf(B, n, S)), 'e_strain_mf': B.tensor(mf(B, n, E)),
                'acc_p_strain': B.tensor(a), 'is_su_fail': fail}, None

    # a stand-alone model
    get_strain_type = lambda self: 'infinitesimal'
    state_init = init
    state_update = lambda self, inc, old: self.update(inc, old)

    def install(self, B, name):
        """Gives a model class of the library this response."""
        cls = getattr(B.mod(MM + MODELS[name][0]), MODELS[name][1])
        me = self
        B.patch(cls, '__init__', lambda s, *a, **k: me.made.append((name, a, k)))
        B.patch(cls, 'state_init', lambda s: me.init())
        B.patch(cls, 'state_update', lambda s, inc, old: me.update(inc, old))
        if 'get_strain_type' in cls.__dict__:
            B.patch(cls, 'get_strain_type', lambda s: 'infinitesimal')
        else:
            B.patch([c for c in cls.__mro__ if 'get_strain_type' in c.__dict__][0], 'get_strain_type', lambda s: 'infinitesimal')


def check_updates(B, n, order, path, calls, n_steps):
    """The material was driven along the path, each update from the state before it."""
    B.true('one update per step', len(calls) == n_steps)
    for k, c in enumerate(calls):
        want = [[B.num(0)] * n for _ in range(n)]
        for j, comp in enumerate(order):
            a, b = ix(comp)
            want[a][b] = want[b][a] = path[k + 1][j] - path[k][j]
        B.eq('strain increment %d' % (k + 1), c['inc'], want)
        B.eq('state before step %d' % (k + 1), c['old'], [calls[k - 1]['q'] if k else B.num(0)])


def check_response(B, n, order, calls, stress, state, feats, n_time):
    z = B.num(0)
    comp = lambda T: [T[ix(c)[0]][ix(c)[1]] for c in order]
    B.true('stress shape', tuple(B.arr(stress).shape) == (n_time, len(order)))
    for k in range(n_time):
        B.eq('stress at %d' % k, B.arr(stress)[k], comp(calls[k - 1]['S']) if k else [z] * len(order))
    B.true('state variables', sorted(state) == sorted(f for f in feats if f in ('e_strain_mf', 'acc_p_strain')))
    for f in feats:
        if f == 'e_strain_mf':
            for k in range(n_time):
                B.eq('state %s at %d' % (f, k), B.arr(state[f])[k], comp(calls[k - 1]['E']) if k else [z] * len(order))
        elif f == 'acc_p_strain':
            for k in range(n_time):
                B.eq('state %s at %d' % (f, k), B.arr(state[f])[k], [calls[k - 1]['a'] if k else z])


FEATS = {'none': lambda n: {}, 'some': lambda n: {'acc_p_strain': 1, 'missing': 2, 'e_strain_mf': len(SYM[n])}}


def strain(B, tag, n_time, m):
    return [[B.var('%s%d_%d' % (tag, k, j)) for j in range(m)] for k in range(n_time)]


@case('C32', params=[('%s_%dd_%s_%s_%d' % ('nr'[mod == R], n, o, f, t), dict(mod=mod, n=n, o=o, f=f, t=t))
                     for mod in (R, N) for n in (2, 3) for o in ('std', 'perm') for f in ('none', 'some') for t in (1, 2, 4)
                     if not (f == 'some' and t == 1)],
      ntrials=3)
def stress_path(B, mod, n, o, f, t):
    """The stress path is the response of the model driven along the path, until a state update fails."""
    g = gen(B, mod, n)
    order = SYM[n] if o == 'std' else PERM[n]
    path = strain(B, 'x', t, len(order))
    at = {}

    def fails(p, k):
        return bool(B.bvar('fail%d' % k))
    m = Material(B, n, fails)
    arr = nparr(B, path)
    so, stress, state, fail = g.compute_stress_path(order, nparr(B, [[B.num(k)] for k in range(t)]), arr, m,
                                                    state_features=FEATS[f](n))
    calls = m.paths[0]
    B.true('one path', len(m.paths) == 1)
    B.true('stress components order', tuple(so) == tuple(order))
    failed = [k for k, c in enumerate(calls) if c['fail']]
    B.true('failure reported', bool(fail) == bool(failed))
    B.true('stops at the failure', failed in ([], [len(calls) - 1]))
    check_updates(B, n, order, path, calls, len(calls) if failed else t - 1)
    if not failed:
        check_response(B, n, order, calls, stress, state, FEATS[f](n), t)
    B.eq('strain path unchanged', arr, path)


@case('C32', params=[('%s_%dd' % ('nr'[mod == R], n), dict(mod=mod, n=n)) for mod in (R, N) for n in (2, 3)], ntrials=3)
def components(B, mod, n):
    """Components of a tensor by label, for any set of components, and back."""
    g = type(gen(B, mod, n))
    sets = [SYM[n], PERM[n], ('11',), ('21', '12') if n == 2 else ('31', '23')]
    for s in sets:
        v = [B.var('c%s' % c) for c in s]
        for sym in (True, False):
            T = g.build_tensor_from_comps(n, s, nparr(B, v), is_symmetric=sym)
            want = [[B.num(0)] * n for _ in range(n)]
            for c, x in zip(s, v):
                a, b = ix(c)
                want[a][b] = x
                if sym:
                    want[b][a] = x
            B.eq('tensor of %s' % (s,), T, want)
            if not (sym and s[-1] == '12' and s[0] == '21'):
                B.eq('components of %s' % (s,), g.store_tensor_comps(s, T), v)
    A = nparr(B, [[B.var('t%d%d' % (i, j)) for j in range(n)] for i in range(n)])
    s = [str(i + 1) + str(j + 1) for i in range(n) for j in range(n)]
    B.eq('all components', g.store_tensor_comps(s, A), [A[ix(c)] for c in s])
    B.eq('default is not symmetric', g.build_tensor_from_comps(n, ('12',), nparr(B, [A[0, 0]]))[1, 0], B.num(0))


@case('C32', ntrials=4)
def invariants(B):
    """Principal and deviatoric invariants by their definitions."""
    g = type(gen(B, R, 3))
    S = B.symmat('s', 3)
    I, J = g.compute_stress_invariants(nparr(B, S))
    tr = S[0][0] + S[1][1] + S[2][2]
    mm = sum(S[i][j] * S[j][i] for i in range(3) for j in range(3))

    def det(M):
        return (M[0][0] * (M[1][1] * M[2][2] - M[1][2] * M[2][1]) - M[0][1] * (M[1][0] * M[2][2] - M[1][2] * M[2][0])
                + M[0][2] * (M[1][0] * M[2][1] - M[1][1] * M[2][0]))
    D = [[S[i][j] - (tr * B.rat(1, 3) if i == j else B.num(0)) for j in range(3)] for i in range(3)]
    B.eq('invariants', I, [tr, (tr * tr - mm) * B.rat(1, 2), det(S)])
    B.eq('deviatoric invariants', J, [B.num(0), sum(D[i][j] * D[i][j] for i in range(3) for j in range(3)) * B.rat(1, 2), det(D)],
         rtol=1e-7, atol=1e-8)


class Paths:
    """Stands for the strain path generators: an arbitrary path for every call."""

    def __init__(self, B, n, n_time, order):
        self.B, self.n, self.n_time, self.order = B, n, n_time, order
        self.calls = []

    def install(self, B, kind):
        mod, cls = {'random': ('random_path', 'RandomStrainPathGenerator'),
                    'proportional': ('proportional_path', 'ProportionalStrainPathGenerator')}[kind]
        c = getattr(B.mod('data_generation.strain_paths.' + mod), cls)
        me = self

        def generate(s, **kw):
            k = len(me.calls)
            x = strain(me.B, 'g%d_' % k, me.n_time, len(me.order))
            t = [me.B.var('t%d_%d' % (k, i)) for i in range(me.n_time)]
            me.calls.append((kind, kw, x, t, getattr(s, '_strain_formulation', None), getattr(s, '_n_dim', None)))
            return me.order, nparr(me.B, t), nparr(me.B, x)
        B.patch(c, 'generate_strain_path', generate)


def check_sample(B, n, order, s, x, t, calls, feats, n_time, extra=()):
    check_updates(B, n, order, x, calls, n_time - 1)
    B.true('orders', tuple(s['strain_comps_order']) == tuple(order) and tuple(s['stress_comps_order']) == tuple(order))
    B.eq('strain path', s['strain_path'], x)
    B.eq('time history', s['time_hist'], [[v] for v in t])
    B.true('shapes', tuple(s['time_hist'].shape) == (n_time, 1) and tuple(s['strain_path'].shape) == (n_time, len(order)))
    known = ('strain_comps_order', 'strain_path', 'stress_comps_order', 'stress_path', 'time_hist') + tuple(extra)
    B.true('known entries', all(k in s for k in known))
    state = {k: s[k] for k in s if k not in known}
    check_response(B, n, order, calls, s['stress_path'], state, feats, n_time)


# failing trials of each path
PLANS = {'none': (0, 0, 0), 'some': (0, 2, 1), 'nine': (9,), 'ten': (1, 10), 'eleven': (11,)}


def schedule(plan):
    """Trial index -> fails."""
    seq = []
    for k in PLANS[plan]:
        seq += [True] * k + [False]
    return seq


GEN = [(mod, n, kind, model, plan, f, mem)
       for mod, n, kind, model, plan, f, mem in (
           (R, 2, 'random', 'elastic', 'none', 'none', True), (R, 3, 'proportional', 'von_mises', 'some', 'some', True),
           (R, 2, 'proportional', 'drucker_prager', 'nine', 'some', True), (R, 3, 'random', 'lou_zhang_yoon', 'ten', 'none', True),
           (R, 2, 'random', 'von_mises', 'eleven', 'none', True), (R, 2, 'random', 'elastic', 'some', 'some', False),
           (R, 3, 'proportional', 'drucker_prager', 'none', 'none', False), (N, 2, 'random', None, 'none', 'some', True),
           (N, 3, 'proportional', None, 'some', 'none', True), (N, 2, 'proportional', None, 'nine', 'some', True),
           (N, 2, 'random', None, 'ten', 'some', True), (N, 3, 'random', None, 'none', 'some', True))]


@case('C32', params=[('%s_%dd_%s_%s_%s_%s_%s' % ('nr'[a[0] == R], a[1], a[2], a[3], a[4], a[5], 'mem' if a[6] else 'dir'), dict(a=a))
                     for a in GEN], ntrials=2)
@scratch
def generated(B, d, a):
    """One sample per path: the first successful trial, the response of the model to its own strain path."""
    mod, n, kind, model, plan, f, mem = a
    g = gen(B, mod, n)
    T_ = 3 if len(PLANS[plan]) == 3 else 2
    order = SYM[n]
    P = Paths(B, n, T_, order)
    for k in ('random', 'proportional'):
        P.install(B, k)
    seq = schedule(plan)
    m = Material(B, n, lambda p, k: seq[p] and k == 1 + p % (T_ - 1))
    feats = FEATS[f](n)
    kw = {'some': 'option', 'n_time': T_}
    n_path = len(PLANS[plan])
    par = {'E': B.var('E')}
    if mod == R:
        for k in MODELS:
            m.install(B, k)

        def run():
            if mem:
                return g.generate_response_dataset(n_path, kind, kw, model, par, state_features=feats)
            return g.generate_response_dataset(n_path, kind, kw, model, par, state_features=feats, is_in_memory_dataset=False,
                                               dataset_directory=d, dataset_basename='base')
    else:
        def run():
            return g.generate_noiseless_dataset(n_path, kind, kw, m, state_features=feats)
    if max(PLANS[plan]) >= 10:
        B.raises('no success in ten trials', run, RuntimeError)
        B.true('ten trials', len(m.paths) == sum(PLANS[plan][:-1]) + len(PLANS[plan]) - 1 + 10)
        return
    ds = run()
    if mod == R:
        B.true('model', len(m.made) == 1 and m.made[0][0] == model)
        args = list(m.made[0][1]) + list(m.made[0][2].values())
        B.true('model arguments', any(x is par for x in args) and 'infinitesimal' in args and PT[n] in args)
    B.true('number of samples', len(ds) == n_path)
    B.true('one material path per trial', len(m.paths) == len(seq) == len(P.calls))
    good = [i for i, x in enumerate(seq) if not x]
    for i, p in enumerate(good):
        kd, k_, x, t, form, dim = P.calls[p]
        B.true('generator', kd == kind and k_ == kw and form in (None, 'infinitesimal') and dim in (None, n))
        check_sample(B, n, order, ds[i], x, t, m.paths[p], feats, T_)
    if not mem:
        B.true('files', sorted(os.listdir(d)) == sorted('ss_response_path_%d.pt' % i for i in range(n_path)))
        B.true('base name', ds.get_dataset_basename() == 'base')


@case('C32', ntrials=1)
def generated_rejected(B):
    g = gen(B, R, 2)
    m = Material(B, 2)
    for k in MODELS:
        m.install(B, k)
    P = Paths(B, 2, 2, SYM[2])
    P.install(B, 'random')
    run = lambda **k: g.generate_response_dataset(1, k.pop('kind', 'random'), {}, k.pop('model', 'elastic'), {}, **k)
    B.raises('unknown path', lambda: run(kind='spiral'), RuntimeError)
    B.raises('unknown model', lambda: run(model='rubber'), RuntimeError)
    B.raises('directory required', lambda: run(is_in_memory_dataset=False, dataset_basename='b'), RuntimeError)
    B.raises('base name required', lambda: run(is_in_memory_dataset=False, dataset_directory='/tmp'), RuntimeError)
    B.raises('unknown noiseless path', lambda: gen(B, N, 2).generate_noiseless_dataset(1, 'spiral', {}, m), RuntimeError)


@case('C32', params=[('%dd_%s_%s' % (n, 'mem' if mem else 'dir', '_'.join(map(str, t))), dict(n=n, mem=mem, t=t))
                     for n in (2, 3) for mem in (True, False) for t in itertools.permutations((2, 10, 100))], ntrials=3, max_paths=100)
@scratch
def from_csv(B, d, n, mem, t):
    """Every file with a response is one sample (files in numeric order), columns by their headers."""
    g = gen(B, R, n)
    head = 'TIME,E11,E22,E33,E12,E23,E13,S11,S22,S33,S12,S23,S13'
    names = head.split(',')
    data, paths = {}, []
    for i, k in enumerate(t):
        rows = []
        for r in range(2):
            v = [B.var('v%d_%d_%d' % (i, r, c), **(dict(dist=(1.5, 3.0)) if c == 7 else {})) for c in range(13)]
            if i == 1:
                v[7:] = [B.num(0)] * 6
            elif r == 0:
                B.assume(v[7] > 1)
            rows.append(v)
        p = os.path.join(d, 'path_%d.csv' % k)
        plain(p, [head] + [','.join(txt(B, x) for x in v) for v in rows])
        paths.append(p)
        data[i] = rows
    out = os.path.join(d, 'out')
    os.makedirs(out)
    if mem:
        ds = g.gen_response_dataset_from_csv(tuple(paths))
    else:
        ds = g.gen_response_dataset_from_csv(tuple(paths), is_in_memory_dataset=False, dataset_directory=out, dataset_basename='b')
        B.true('files', len(os.listdir(out)) == 2)
    B.true('samples with a response', len(ds) == 2)
    first = t[0] < t[2]
    for i, k in enumerate((0, 2) if first else (2, 0)):
        s = ds[i]
        col = lambda pre: [[row[names.index(pre + c)] for c in SYM[n]] for row in data[k]]
        B.eq('strain path %d' % i, s['strain_path'], col('E'))
        B.eq('stress path %d' % i, s['stress_path'], col('S'))
        B.eq('time %d' % i, s['time_hist'], [[row[0]] for row in data[k]])
        B.true('orders', tuple(s['strain_comps_order']) == tuple(SYM[n]) and tuple(s['stress_comps_order']) == tuple(SYM[n]))
    q = os.path.join(d, 'short_1.csv')
    plain(q, [head.rsplit(',', 1)[0]] + [','.join(['1'] * 12)])
    B.raises('number of columns', lambda: g.gen_response_dataset_from_csv((q,)), RuntimeError)


def sample(B, n, i, n_time, order, with_stress=True):
    x = strain(B, 'p%d_' % i, n_time, len(order))
    t = [B.var('h%d_%d' % (i, k)) for k in range(n_time)]
    y = strain(B, 'y%d_' % i, n_time, len(order))
    s = {'strain_comps_order': order, 'strain_path': B.tensor(x), 'stress_comps_order': order, 'stress_path': B.tensor(y),
         'time_hist': B.tensor([[v] for v in t])}
    return s, x, t, y


@case('C32', params=[('%dd_%s_%s' % (n, model, f), dict(n=n, model=model, f=f)) for n, model, f in (
    (2, 'elastic', 'none'), (3, 'von_mises', 'some'), (2, 'drucker_prager', 'some'), (3, 'lou_zhang_yoon', 'none'))], ntrials=2)
@scratch
def from_strain_dataset(B, d, n, model, f):
    """The response to the strain paths of a stored data set; a failed update raises."""
    g = gen(B, R, n)
    order = SYM[n]
    feats = FEATS[f](n)
    T_ = 3
    S = [sample(B, n, i, T_, order) for i in range(2)]
    TD = B.mod('time_series_data.time_dataset')
    p = TD.save_dataset(TD.TimeSeriesDatasetInMemory([s[0] for s in S]), 'strain', d)
    path = p if isinstance(p, str) else os.path.join(d, sorted(os.listdir(d))[0])
    fail = [False]
    m = Material(B, n, lambda q, k: fail[0] and q == 3 and k == 2)
    for k in MODELS:
        m.install(B, k)
    par = {'E': B.var('E')}
    ds = g.gen_response_dataset_from_strain_dataset(path, model, par, state_features=feats)
    B.true('model', len(m.made) == 1 and m.made[0][0] == model and any(x is par for x in list(m.made[0][1]) + list(m.made[0][2].values())))
    B.true('number of samples', len(ds) == 2 and len(m.paths) == 2)
    for i in range(2):
        check_sample(B, n, order, ds[i], S[i][1], S[i][2], m.paths[i], feats, T_)
    fail[0] = True
    B.raises('failed update', lambda: g.gen_response_dataset_from_strain_dataset(path, model, par), RuntimeError)
    B.raises('missing file', lambda: g.gen_response_dataset_from_strain_dataset(os.path.join(d, 'x'), model, par), RuntimeError)
    B.raises('unknown model', lambda: g.gen_response_dataset_from_strain_dataset(path, 'rubber', par), RuntimeError)


class Noise:
    def __init__(self, B):
        self.B, self.calls = B, []

    def generate_noise_path(self, noiseless_path, noise_variability='homoscedastic', heteroscedastic_weights=None):
        B = self.B
        sh = tuple(noiseless_path.shape)
        v = strain(B, 'n%d_' % len(self.calls), *sh)
        self.calls.append((B.arr(noiseless_path).copy(), noise_variability, heteroscedastic_weights, v))
        return nparr(B, v)


class Scaler:
    """Any invertible affine scaling of each component."""

    def __init__(self, B, m):
        self.a = [B.var('sa%d' % j, pos=True) for j in range(m)]
        self.b = [B.var('sb%d' % j) for j in range(m)]
        self.B = B

    def transform(self, x):
        return (x - self.B.tensor(self.b)) / self.B.tensor(self.a)

    def inverse_transform(self, x):
        return x * self.B.tensor(self.a) + self.B.tensor(self.b)


NOISY = [(n, var, sc, dn, plan, f) for n, var, sc, dn, plan, f in (
    (2, 'homoscedastic', False, False, (0, 0), 'some'), (3, 'homoscedastic', False, False, (1, 0), 'none'),
    (2, 'homoscedastic', True, False, (0, 1), 'none'), (2, 'homoscedastic', False, True, (0, 0), 'none'),
    (2, 'homoscedastic', True, True, (0, 0), 'some'), (3, 'homoscedastic', True, True, (1,), 'none'),
    (2, 'heteroscedastic', False, False, (0, 0), 'none'), (3, 'heteroscedastic', False, False, (0,), 'none'),
    (2, 'heteroscedastic', True, False, (1, 0), 'none'), (2, 'given', False, False, (0, 0), 'none'),
    (2, 'given', True, True, (0, 0), 'none'), (2, 'homoscedastic', False, False, (9,), 'none'))]


@case('C32', params=[('%dd_%s_%s%s_%s_%s' % (a[0], a[1], 'scaled_' * a[2], 'denoised_' * a[3], ''.join(map(str, a[4])), a[5]), dict(a=a))
                     for a in NOISY], ntrials=3)
def noisy(B, a):
    """Noise is added in the declared space, never at the first point; the stress is the response to the noisy path."""
    n, var, sc, dn, plan, f = a
    g = gen(B, N, n)
    order = SYM[n]
    T_ = 3
    feats = FEATS[f](n)
    S = [sample(B, n, i, T_, order) for i in range(len(plan))]
    if var == 'heteroscedastic':
        for s in S:
            B.assume(s[1][1][0] > 1)
    TD = B.mod('time_series_data.time_dataset')
    src = TD.TimeSeriesDatasetInMemory([s[0] for s in S])
    seq = []
    for k in plan:
        seq += [True] * k + [False]
    m = Material(B, n, lambda p, k: seq[p] and k == 2)
    nz = Noise(B)
    scaler = Scaler(B, len(order)) if sc else None
    dcalls = []
    if dn:
        def denoise(s, x, *aa, **kk):
            v = strain(B, 'dn%d_' % len(dcalls), *tuple(x.shape))
            dcalls.append((B.arr(x).copy(), v))
            return B.tensor(v)
        B.patch(B.mod('utilities.data_denoisers').Denoiser, 'denoise', denoise)
    kw = {}
    w0 = B.var('w0', pos=True)
    if var != 'homoscedastic':
        kw['noise_variability'] = 'heteroscedastic'
    if var == 'given':
        kw['heteroscedastic_normalizer'] = w0
    ds = g.generate_noisy_dataset(src, nz, m, state_features=feats, strain_data_scaler=scaler, is_denoise_strain_path=dn, **kw)
    B.true('number of samples', len(ds) == len(plan))
    B.true('trials', len(m.paths) == len(seq) == len(nz.calls) and (not dn or len(dcalls) == len(seq)))
    i = 0
    for p, failed in enumerate(seq):
        s, x, t, y = S[i]
        arg, v, w, noise = nz.calls[p]
        noise = [[B.num(0)] * len(order)] + noise[1:]
        B.true('noise variability', v == ('homoscedastic' if var == 'homoscedastic' else 'heteroscedastic'))
        if var == 'homoscedastic':
            B.true('no weights', w is None)
        else:
            nrm = [B.sqrt(sum(c * c * (1 if order[j][0] == order[j][1] else 2) for j, c in enumerate(r))) for r in x]
            if var == 'given':
                top = w0
            else:
                top = nrm[0]
                for q in nrm[1:]:
                    top = B.fmax(top, q)
            B.true('one weight per time', tuple(np.shape(w)) == (T_,))
            for k in range(T_):
                B.eq('weight %d of trial %d' % (k, p), w[k], nrm[k] / top)
        noisy_ = [[(x[k][j] + noise[k][j] * (scaler.a[j] if sc else 1)) for j in range(len(order))] for k in range(T_)]
        if dn:
            B.eq('denoised path of trial %d' % p, dcalls[p][0], noisy_)
            noisy_ = [x[0]] + dcalls[p][1][1:]
        check_updates(B, n, order, noisy_, m.paths[p], 2 if not failed else len(m.paths[p]))
        if failed:
            continue
        r = ds[i]
        check_sample(B, n, order, r, noisy_, t, m.paths[p], feats, T_, extra=('strain_noise_path', 'stress_noise_path'))
        B.eq('strain noise', r['strain_noise_path'], noise)
        st = [[B.num(0)] * len(order)] + [[c['S'][ix(q)[0]][ix(q)[1]] for q in order] for c in m.paths[p]]
        B.eq('stress noise', r['stress_noise_path'], [[st[k][j] - y[k][j] for j in range(len(order))] for k in range(T_)])
        i += 1
    for i, (s, x, t, y) in enumerate(S):
        o = src[i]
        B.eq('source strain %d' % i, o['strain_path'], x)
        B.eq('source stress %d' % i, o['stress_path'], y)
        B.eq('source time %d' % i, o['time_hist'], [[v] for v in t])


@case('C32', ntrials=2)
def noisy_gives_up(B):
    g = gen(B, N, 2)
    TD = B.mod('time_series_data.time_dataset')
    s = sample(B, 2, 0, 2, SYM[2])
    m = Material(B, 2, lambda p, k: p < 10)
    B.raises('no success in ten trials', lambda: g.generate_noisy_dataset(TD.TimeSeriesDatasetInMemory([s[0]]), Noise(B), m), RuntimeError)
    B.true('ten trials', len(m.paths) == 10)


@case('C32', params=[('%dd' % n, dict(n=n)) for n in (2, 3)], ntrials=3)
def norm_path(B, n):
    g = type(gen(B, N, n))
    for o in (SYM[n], PERM[n]):
        x = strain(B, 'x', 3, len(o))
        B.eq('symmetric norm', g.compute_norm_path(nparr(B, x), n, o, is_symmetric=True),
             [B.sqrt(sum(c * c * (1 if o[j][0] == o[j][1] else 2) for j, c in enumerate(r))) for r in x])
        B.eq('norm', g.compute_norm_path(nparr(B, x), n, o), [B.sqrt(sum(c * c for c in r)) for r in x])
