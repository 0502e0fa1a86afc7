"""C17: feature-wise data normalisation."""
import numpy as np
from vf.engine import case
FUNCTIONS = ['TorchMinMaxScaler.fit', 'TorchMinMaxScaler.transform', 'TorchMinMaxScaler.inverse_transform',
             'TorchMinMaxScaler.set_minimum', 'TorchMinMaxScaler.set_maximum', 'TorchMinMaxScaler.set_minimum_and_maximum',
             'TorchMinMaxScaler.get_minimum_and_maximum', 'TorchStandardScaler.fit', 'TorchStandardScaler.transform',
             'TorchStandardScaler.inverse_transform', 'TorchStandardScaler.set_mean', 'TorchStandardScaler.set_std',
             'TorchStandardScaler.set_mean_and_std', 'TorchStandardScaler.get_mean_and_std', 'init_data_scalers',
             'set_data_scalers', 'set_fitted_data_scalers', 'fit_data_scalers', 'get_fitted_data_scaler', 'data_scaler_transform',
             'check_normalized_return', 'fit_data_scaler_from_dataset', 'mean_std_batch_fit', 'min_max_batch_fit']
ASSUMPTIONS = ['tensor shapes are enumerated: (samples, features) and (length, samples, features) with up to 3 entries per axis',
               'sklearn partial_fit: assumed contract (running mean, population variance, minimum and maximum of all rows seen); '
               'the data loader yields every sample once with a batch axis of one (compared with the real ones on sampled data)']
SC = 'utilities.data_scalers'
MD = 'model_architectures.procedures.model_data_scaling'
FD = 'utilities.fit_data_scalers'
SHAPES = [(1, 1), (2, 2), (3, 2), (1, 1, 1), (2, 3, 2), (3, 1, 3), (1, 2, 2)]
SH = [('x'.join(map(str, s)), dict(shape=s)) for s in SHAPES]


def rows(a):
    a = np.asarray(a)
    return a.reshape(-1, a.shape[-1])


def check(B, name, sc, x, fwd, shape):
    """transform is fwd per feature, inverse_transform inverts it, both leave their argument alone."""
    t = B.tensor(x)
    keep = B.frozen('data', [t])
    y = sc.transform(t)
    keep()
    B.true(name + ': shape', tuple(y.shape) == shape)
    want = np.empty(shape, object)
    for p in np.ndindex(*shape):
        want[p] = fwd(p[-1], x[p])
    B.eq(name + ': normalised', y, want)
    keepy = B.frozen('normalised data', [y])
    z = sc.inverse_transform(y)
    keepy()
    B.true(name + ': inverse shape', tuple(z.shape) == shape)
    B.eq(name + ': denormalise after normalise', z, x)
    keep()
    w = sc.inverse_transform(t)
    keep()
    B.true(name + ': fresh result', w is not t)
    B.eq(name + ': normalise after denormalise', sc.transform(w), x)
    chk = sc.transform(t, is_check_data=True)
    B.eq(name + ': checked', chk, want)
    B.eq(name + ': checked inverse', sc.inverse_transform(t, is_check_data=True), w)


@case('C17', params=SH, ntrials=6)
def min_max(B, shape):
    n = shape[-1]
    lo = B.vec('lo', n, dist=(-3, -1))
    hi = [lo[i] + B.var('r%d' % i, pos=True, dist=(0.5, 4)) for i in range(n)]
    # (the target range is stored with float(), so it is sampled, not symbolic)
    for a, b in ((-1.0, 1.0), (0.0, 1.0), (-3.0, 0.5)):
        kw = {} if a == -1.0 else dict(norm_minimum=a, norm_maximum=b)
        C = B.mod(SC).TorchMinMaxScaler
        s1 = C(n, minimum=B.tensor(lo), maximum=B.tensor(hi), **kw)
        s2, s3 = C(n, **kw), C(n, **kw)
        s2.set_minimum_and_maximum(B.tensor(lo), B.tensor(hi))
        s3.set_maximum(B.tensor(hi))
        s3.set_minimum(B.tensor(lo))
        x = B.array('x', shape, dist=(-3, 3))
        for k, s in enumerate((s1, s2, s3)):
            g = s.get_minimum_and_maximum()
            B.eq('stored minimum', g[0], lo)
            B.eq('stored maximum', g[1], hi)
            if k == 0 or a == -1.0:
                check(B, 'min-max', s, x, lambda f, v: B.num(a) + B.num(b - a) * (v - lo[f]) / (hi[f] - lo[f]), shape)


@case('C17', params=SH, ntrials=6)
def mean_std(B, shape):
    n = shape[-1]
    mu = B.vec('mu', n, dist=(-2, 2))
    sd = [B.var('sd%d' % i, pos=True, dist=(0.3, 3)) for i in range(n)]
    C = B.mod(SC).TorchStandardScaler
    s1 = C(n, mean=B.tensor(mu), std=B.tensor(sd))
    s2, s3 = C(n), C(n)
    s2.set_mean_and_std(B.tensor(mu), B.tensor(sd))
    s3.set_std(B.tensor(sd))
    s3.set_mean(B.tensor(mu))
    x = B.array('x', shape, dist=(-3, 3))
    for s in (s1, s2, s3):
        g = s.get_mean_and_std()
        B.eq('stored mean', g[0], mu)
        B.eq('stored deviation', g[1], sd)
        check(B, 'mean-std', s, x, lambda f, v: (v - mu[f]) / sd[f], shape)


def fold(B, xs, f):
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r


@case('C17', params=[s for s in SH if np.prod(s[1]['shape'][:-1]) > 1 and s[1]['shape'] != (3, 1, 3)] +
      [('2x1x2', dict(shape=(2, 1, 2)))], ntrials=6)
def fit(B, shape):
    n = shape[-1]
    x = B.array('x', shape, dist=(-3, 3))
    r = rows(x)
    t = B.tensor(x)
    keep = B.frozen('data', [t])
    m = B.mod(SC).TorchMinMaxScaler(n)
    m.fit(t)
    keep()
    lo, hi = m.get_minimum_and_maximum()
    wl = [fold(B, [q[f] for q in r], B.fmin) for f in range(n)]
    wh = [fold(B, [q[f] for q in r], B.fmax) for f in range(n)]
    B.eq('fitted minimum', lo, wl)
    B.eq('fitted maximum', hi, wh)
    for bessel in (False, True):
        s = B.mod(SC).TorchStandardScaler(n)
        s.fit(t, is_bessel=bessel) if bessel else s.fit(t)
        keep()
        mu, sd = s.get_mean_and_std()
        N = len(r)
        for f in range(n):
            wm = sum(q[f] for q in r) / N
            wv = sum((q[f] - wm) ** 2 for q in r) / (N - int(bessel))
            B.eq('fitted mean', B.arr(mu)[f], wm)
            B.eq('fitted variance', B.arr(sd)[f] ** 2, wv)
            B.le('fitted deviation', B.num(0), B.arr(sd)[f])


@case('C17', params=[('2x2', dict(shape=(2, 2))), ('2x2x2', dict(shape=(2, 2, 2)))], ntrials=4)
def degenerate(B, shape):
    """A constant feature: no division by zero, the fitted value comes back."""
    n = shape[-1]
    c = B.var('c', dist=(-2, 2))
    x = B.array('x', shape, dist=(-3, 3))
    for p in np.ndindex(*shape):
        if p[-1] == 0:
            x[p] = c
    t = B.tensor(x)
    lo, r, mu, sd = B.var('lo', dist=(-3, -1)), B.var('r', pos=True, dist=(0.5, 4)), B.var('mu', dist=(-1, 1)), B.var('sd', pos=True, dist=(0.5, 2))
    a = B.mod(SC).TorchMinMaxScaler(n, minimum=B.tensor([c, lo]), maximum=B.tensor([c, lo + r]))
    b = B.mod(SC).TorchStandardScaler(n, mean=B.tensor([c, mu]), std=B.tensor([B.num(0), sd]))
    for name, s in (('min-max', a), ('mean-std', b)):
        y = s.transform(t, is_check_data=True)
        B.true(name + ': no division by zero', not any(B.isnan(v) for v in B.arr(y).reshape(-1)))
        ya = B.arr(y)
        B.eq(name + ': constant feature', [ya[p] for p in np.ndindex(*shape) if p[-1] == 0],
             [B.num(-1 if name == 'min-max' else 0)] * (int(np.prod(shape)) // n))
        B.eq(name + ': comes back', s.inverse_transform(y), x)


@case('C17', ntrials=2)
def rejects(B):
    for C in (B.mod(SC).TorchMinMaxScaler, B.mod(SC).TorchStandardScaler):
        for bad in (0, -1, 1.5, None):
            B.raises('number of features %s' % bad, lambda: C(bad), RuntimeError)
        s = C(2)
        s2 = C(2, B.tensor([0.0, 0.0]), B.tensor([1.0, 1.0]))
        for f in (s2.transform, s2.inverse_transform, s.fit):
            B.raises('not a tensor', lambda: f([[1.0, 2.0]]), RuntimeError)
            B.raises('one axis', lambda: f(B.tensor([1.0, 2.0])), RuntimeError)
            B.raises('four axes', lambda: f(B.torch.zeros((1, 1, 1, 2))), RuntimeError)
            B.raises('features', lambda: f(B.tensor([[1.0, 2.0, 3.0]])), RuntimeError)
        for nm in ('set_minimum_and_maximum', 'set_mean_and_std'):
            if hasattr(s, nm):
                B.raises('parameter length', lambda: getattr(s, nm)(B.tensor([1.0]), B.tensor([1.0, 2.0])), RuntimeError)
                B.raises('parameter length 2', lambda: getattr(s, nm)(B.tensor([1.0, 2.0]), B.tensor([1.0])), RuntimeError)


class Model:
    """The attributes of a model that the scaling procedures use."""

    def __init__(self, n_in, n_out, save=True):
        self._n_features_in, self._n_features_out, self._device_type = n_in, n_out, 'cpu'
        self._is_save_model_init_file = save
        self._data_scalers = None
        self.saved = 0

    def save_model_init_file(self):
        self.saved += 1


@case('C17', params=[('min-max', dict(kind='min-max')), ('mean-std', dict(kind='mean-std'))], ntrials=5)
def procedures(B, kind):
    md = B.mod(MD)
    m = Model(2, 1)
    md.init_data_scalers(m)
    B.true('no scalers yet', set(m._data_scalers) == {'features_in', 'features_out'} and all(v is None for v in m._data_scalers.values()))
    t = B.tensor([[0.5, 0.25]])
    B.raises('unfitted', lambda: md.data_scaler_transform(m, t, 'features_in'), RuntimeError)
    B.raises('unfitted check', lambda: md.check_normalized_return(m), RuntimeError)
    a = {f: B.vec('a' + f, k, dist=(-2, -1)) for f, k in (('in', 2), ('out', 1))}
    b = {f: [B.var('b%s%d' % (f, i), pos=True, dist=(0.5, 2)) for i in range(k)] for f, k in (('in', 2), ('out', 1))}
    par = {}
    for f in ('in', 'out'):
        if kind == 'min-max':
            b[f] = [x + y for x, y in zip(a[f], b[f])]
            par['features_' + f] = {'minimum': B.tensor(a[f]), 'maximum': B.tensor(b[f])}
            if f == 'in':
                par['features_' + f].update(norm_minimum=0.0, norm_maximum=2.0)
        else:
            par['features_' + f] = {'mean': B.tensor(a[f]), 'std': B.tensor(b[f])}
    md.set_fitted_data_scalers(m, kind, par)
    B.true('saved', m.saved == 1)
    fwd = {'in': (lambda i, v: 2 * (v - a['in'][i]) / (b['in'][i] - a['in'][i])) if kind == 'min-max' else
           (lambda i, v: (v - a['in'][i]) / b['in'][i]),
           'out': (lambda i, v: -1 + 2 * (v - a['out'][i]) / (b['out'][i] - a['out'][i])) if kind == 'min-max' else
           (lambda i, v: (v - a['out'][i]) / b['out'][i])}
    for f, n in (('in', 2), ('out', 1)):
        for shape in ((3, n), (2, 2, n)):
            x = B.array('x%s%d' % (f, len(shape)), shape, dist=(-2, 2))
            t = B.tensor(x)
            keep = B.frozen('data', [t])
            y = md.data_scaler_transform(m, t, 'features_' + f)
            want = np.empty(shape, object)
            for p in np.ndindex(*shape):
                want[p] = fwd[f](p[-1], x[p])
            B.eq('normalised ' + f, y, want)
            B.eq('normalised (named mode) ' + f, md.data_scaler_transform(m, t, 'features_' + f, mode='normalize'), want)
            B.eq('denormalised ' + f, md.data_scaler_transform(m, y, 'features_' + f, mode='denormalize'), x)
            t32 = B.tensor(x, dtype=B.torch.float32)
            B.true('type kept', md.data_scaler_transform(m, t32, 'features_' + f).dtype == B.torch.float32 and y.dtype == t.dtype)
            keep()
        B.true('fitted scaler', md.get_fitted_data_scaler(m, 'features_' + f) is m._data_scalers['features_' + f])
    B.raises('unknown mode', lambda: md.data_scaler_transform(m, t, 'features_out', mode='other'), RuntimeError)
    B.raises('unknown features', lambda: md.data_scaler_transform(m, t, 'features_x'), RuntimeError)
    B.raises('not a tensor', lambda: md.data_scaler_transform(m, 1.0, 'features_out'), RuntimeError)
    B.raises('unknown kind', lambda: md.set_fitted_data_scalers(m, 'other', par), RuntimeError)
    u, w = object(), object()
    m2 = Model(2, 1, save=False)
    md.set_data_scalers(m2, u, w)
    B.true('given scalers', m2._data_scalers == {'features_in': u, 'features_out': w} and m2.saved == 0)
    m2._data_scalers['features_in'] = None
    B.raises('one scaler missing', lambda: md.get_fitted_data_scaler(m2, 'features_in'), RuntimeError)


class Sk:
    """Assumed contract of the sklearn scalers: statistics of all rows passed to partial_fit."""

    def __init__(self, B):
        sk = self
        sk.B, sk.preprocessing = B, sk

        class Any:
            def __init__(s):
                s.rows = []

            def partial_fit(s, t):
                a = B.arr(t)
                B.true('rows of features', a.ndim == 2)
                s.rows += [list(q) for q in a]

            def col(s, f):
                return [[q[i] for q in s.rows] for i in range(len(s.rows[0]))]

            @property
            def mean_(s):
                return B.tensor([sum(c) / len(c) for c in s.col(0)])

            @property
            def var_(s):
                return B.tensor([sum((x - sum(c) / len(c)) ** 2 for x in c) / len(c) for c in s.col(0)])

            @property
            def data_min_(s):
                return B.tensor([fold(B, c, B.fmin) for c in s.col(0)])

            @property
            def data_max_(s):
                return B.tensor([fold(B, c, B.fmax) for c in s.col(0)])
        self.StandardScaler = self.MinMaxScaler = Any


@case('C17', params=[('min-max', dict(kind='min-max')), ('mean-std', dict(kind='mean-std'))], ntrials=5)
def fit_dataset(B, kind):
    """Scalers fitted from a dataset: the statistics of all time steps of all samples, features in and out apart."""
    md = B.mod(MD)
    m = Model(2, 1)
    L = (2, 1, 2)
    data = {f: [B.array('%s%d' % (f, i), (L[i], n), dist=(-2, 2)) for i in range(3)] for f, n in (('features_in', 2), ('features_out', 1))}
    ds = [{f: B.tensor(data[f][i]) for f in data} for i in range(3)]
    if B.sym:
        B.override(FD + ':sklearn', Sk(B))
        B.override(FD + ':get_time_series_data_loader',
                   lambda dataset, *a, **k: [{f: s[f].reshape(s[f].shape[0], 1, s[f].shape[1]) for f in s} for s in dataset])
    else:
        ds = B.mod('time_series_data.time_dataset').TimeSeriesDatasetInMemory(ds)
    md.fit_data_scalers(m, ds, scaling_type=kind)
    B.true('saved', m.saved == 1)
    for f in data:
        r = np.concatenate([np.asarray(x, object) for x in data[f]])
        s = m._data_scalers[f]
        if kind == 'min-max':
            lo, hi = s.get_minimum_and_maximum()
            B.eq('minimum', lo, [fold(B, list(c), B.fmin) for c in r.T])
            B.eq('maximum', hi, [fold(B, list(c), B.fmax) for c in r.T])
        else:
            mu, sd = s.get_mean_and_std()
            for i, c in enumerate(r.T):
                w = sum(c) / len(c)
                B.eq('mean', B.arr(mu)[i], w)
                B.eq('variance', B.arr(sd)[i] ** 2, sum((x - w) ** 2 for x in c) / len(c))
    B.raises('feature count', lambda: B.mod(FD).fit_data_scaler_from_dataset(ds, 'features_in', 3, kind), RuntimeError)
    B.raises('feature name', lambda: B.mod(FD).fit_data_scaler_from_dataset(ds, 'other', 2, kind), RuntimeError)
    B.raises('kind', lambda: B.mod(FD).fit_data_scaler_from_dataset(ds, 'features_in', 2, 'other'), RuntimeError)
    if kind == 'min-max':
        s = B.mod(FD).fit_data_scaler_from_dataset(ds, 'features_out', 1, kind, {'features_out': {'norm_minimum': 0.0, 'norm_maximum': 1.0}})
        r = np.concatenate([np.asarray(x, object) for x in data['features_out']]).reshape(-1)
        lo, hi = fold(B, list(r), B.fmin), fold(B, list(r), B.fmax)
        B.assume(lo < hi)
        B.eq('range parameters reach the scaler', s.transform(B.tensor([[lo], [hi]])), [[B.num(0)], [B.num(1)]])
