"""C25: error measures and denoisers."""
import os
import pickle
import shutil
import tempfile
from fractions import Fraction
import numpy as np
from vf.engine import case
FUNCTIONS = ['get_pytorch_loss', 'MeanRelativeErrorLoss.forward', 'compute_prediction_metrics', 'get_sample_n_features', 'get_feature_data',
             'compute_mean_prediction_metrics', 'compute_directory_prediction_metrics', 'compute_processes_prediction_metrics',
             'get_samples_prediction_files', 'format_mean_metrics_results', 'write_mean_metrics_results_file',
             'read_mean_metrics_results_file', 'Denoiser.denoise', 'Denoiser._dn_moving_average', 'Denoiser._dn_savitzky_golay',
             'Denoiser._dn_frequency_low_pass', 'Denoiser._check_tensor']
ASSUMPTIONS = ['sequence lengths, feature numbers and window sizes are enumerated, values are arbitrary',
               'discrete Fourier transforms are exact (lengths 1, 2, 3, 4, 6, 8, 12)',
               'scipy.signal.savgol_coeffs returns the weights of the exact local least squares fit',
               'unpickling returns the object that was stored']
LF = 'utilities.loss_functions'
PM = 'utilities.prediction_metrics'
OM = 'utilities.output_prediction_metrics'
DN = 'utilities.data_denoisers'


# ------------------------------------------------------------------------------------------------- losses
@case('C25', params=[('%s:%r' % (h, s), dict(h=h, shape=s)) for h in ('absolute', 'clip', 'regularizer') for s in ((2,), (1, 2), (3, 1))])
def relative_error(B, h, shape):
    x, y = B.array('x', shape), B.array('y', shape)
    small = B.var('small', pos=True, dist=(0.01, 0.5))
    f = B.mod(LF).get_pytorch_loss('mre', zero_handling=h, small=small)
    r = f(B.tensor(x.tolist()), B.tensor(y.tolist()))
    n = int(np.prod(shape))
    want = B.num(0)
    for p in np.ndindex(*shape):
        e, t = B.absv(x[p] - y[p]), B.absv(y[p])
        den = B.ite(t < small, B.num(1), t) if h == 'absolute' else B.fmax(t, small) if h == 'clip' else t + small
        want = want + e / den
    B.eq('value', B.val(r), want / n)
    B.le('non-negative', 0, B.val(r))
    z = f(B.tensor(y.tolist()), B.tensor(y.tolist()))
    B.eq('perfect prediction', B.val(z), B.num(0))


@case('C25', params=[('%s:%s' % (h, z), dict(h=h, z=z)) for h in ('absolute', 'clip', 'regularizer') for z in ('zero', 'any')])
def relative_error_gradient(B, h, z):
    """The gradient is finite for every target, zero targets included (a stress history starts at zero)."""
    x = B.vec('x', 3)
    y = B.vec('y', 3)
    if z == 'zero':
        y[0] = B.num(0)
        y[1] = B.rat(1, 10 ** 7)
    f = B.mod(LF).get_pytorch_loss('mre', zero_handling=h)
    for i in range(3):
        B.assume(B.absv(x[i] - y[i]) > B.rat(1, 1000))
    g = B.agrad(lambda v: f(v, B.tensor(y)), x)
    small = B.rat(1, 10 ** 5)
    for i in range(3):
        t = B.absv(y[i])
        den = B.ite(t < small, B.num(1), t) if h == 'absolute' else B.fmax(t, small) if h == 'clip' else t + small
        B.eq('gradient %d' % i, g[i] * den * 3 * B.absv(x[i] - y[i]), x[i] - y[i])


@case('C25', params=[('%r' % (s,), dict(shape=s)) for s in ((2,), (2, 2))], ntrials=4)
def mean_square(B, shape):
    x, y = B.array('x', shape), B.array('y', shape)
    f = B.mod(LF).get_pytorch_loss('mse')
    r = f(B.tensor(x.tolist()), B.tensor(y.tolist()))
    want = sum((x[p] - y[p]) * (x[p] - y[p]) for p in np.ndindex(*shape))
    B.eq('value', B.val(r), want / int(np.prod(shape)))
    B.raises('unknown loss', lambda: B.mod(LF).get_pytorch_loss('mae'), RuntimeError)
    B.raises('unknown zero handling', lambda: B.mod(LF).get_pytorch_loss('mre', zero_handling='ignore'), RuntimeError)


# ------------------------------------------------------------------------------------------------ metrics
class Files:
    """Prediction files: real files at run time, a store behind open and pickle on the symbolic side."""

    def __init__(self, B):
        self.d = tempfile.mkdtemp(prefix='vf_c25_')
        self.B, self.store = B, {}
        B.mod(PM)
        if B.sym:
            files = self

            class Handle:
                def __init__(self, path, mode='r'):
                    self.path = os.path.normpath(path)

                def __enter__(self):
                    return self

                def __exit__(self, *a):
                    return False

                def close(self):
                    pass

            class Pickle:
                @staticmethod
                def load(f):
                    return files.store[f.path]
            B.override(PM + ':open', Handle)
            B.override(PM + ':pickle', Pickle)

    def put(self, name, results):
        p = os.path.normpath(os.path.join(self.d, name))
        with open(p, 'wb') as f:
            if not self.B.sym:
                pickle.dump(results, f)
        self.store[p] = results
        return p

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d)


def sample(B, tag, n, m):
    return B.array('o' + tag, (n, m)), B.array('t' + tag, (n, m))


def mean(l):
    return sum(l[1:], l[0]) / len(l)


@case('C25', params=[('%dx%d' % s, dict(n=s[0], m=s[1])) for s in ((1, 1), (2, 1), (2, 3), (3, 2))], ntrials=6)
def metrics(B, n, m):
    with Files(B) as F:
        o, t = sample(B, '', n, m)
        res = {'features_out': B.tensor(o.tolist()), 'targets': B.tensor(t.tolist())}
        p = F.put('prediction_sample_0.pkl', res)
        f = B.mod(PM).compute_prediction_metrics
        r = f(p, ['mse', 'rmse', 'mav', 'mav_gt'])
        B.true('metrics', set(r) == {'mse', 'rmse', 'mav', 'mav_gt'})
        for k in range(m):
            mse = mean([(o[i, k] - t[i, k]) * (o[i, k] - t[i, k]) for i in range(n)])
            B.eq('mse %d' % k, B.arr(r['mse'])[k], mse)
            v = B.arr(r['rmse'])[k]
            B.eq('rmse %d' % k, v * v, mse)
            B.le('rmse sign %d' % k, 0, v)
            B.eq('mav %d' % k, B.arr(r['mav'])[k], mean([B.absv(o[i, k]) for i in range(n)]))
            B.eq('mav_gt %d' % k, B.arr(r['mav_gt'])[k], mean([B.absv(t[i, k]) for i in range(n)]))
        B.true('one value per feature', all(tuple(B.arr(v).shape) == (m,) for v in r.values()))
        B.true('only the requested', list(f(p, ['mav'])) == ['mav'] and f(p, []) == {})
        B.raises('unknown metric', lambda: f(p, ['r2']), RuntimeError)
        B.raises('missing file', lambda: f(os.path.join(F.d, 'none.pkl'), ['mse']), RuntimeError)
        q = F.put('b.pkl', {'features_out': res['features_out'], 'targets': None})
        B.raises('no ground truth', lambda: f(q, ['mse']), RuntimeError)
        q = F.put('c.pkl', {'targets': res['targets']})
        B.raises('no features', lambda: f(q, ['mse']), RuntimeError)
        q = F.put('d.pkl', [1, 2])
        B.raises('no dictionary', lambda: f(q, ['mse']), RuntimeError)


@case('C25', params=[('%d:%dx%d' % s, dict(ns=s[0], n=s[1], m=s[2])) for s in ((1, 2, 2), (2, 2, 1), (3, 1, 2))], ntrials=6)
def mean_metrics(B, ns, n, m):
    """Mean over the samples of the metric of each sample."""
    with Files(B) as F:
        data, paths = [], []
        for s in range(ns):
            o, t = sample(B, '%d_' % s, n, m)
            for k in range(m):
                B.assume(B.absv(t[0, k]) > B.rat(1, 100))
            data.append((o, t))
            paths.append(F.put('prediction_sample_%d.pkl' % (10 * s), {'features_out': B.tensor(o.tolist()), 'targets': B.tensor(t.tolist())}))
        F.put('prediction_sample_x.pkl', {})
        F.put('other_prediction_sample_1.pkl', {})
        om = B.mod(OM)
        per = [B.mod(PM).compute_prediction_metrics(p, ['rmse', 'mav_gt']) for p in paths]
        for how in ('paths', 'directory', 'processes'):
            if how == 'paths':
                r = om.compute_mean_prediction_metrics(paths, ['rmse', 'nrmse'])
            elif how == 'directory':
                c, r = om.compute_directory_prediction_metrics(F.d, ['rmse', 'nrmse'])
                B.true('number of samples', c == ns)
            else:
                q = om.compute_processes_prediction_metrics({'a': F.d, 'b': F.d}, ['nrmse', 'rmse'])
                B.true('processes', set(q) == {'a', 'b'} and all(v['n_sample'] == ns for v in q.values()))
                r = q['b']['mean_metrics_results']
            B.true('metrics ' + how, set(r) == {'rmse', 'nrmse'})
            for k in range(m):
                rm = [B.arr(v['rmse'])[k] for v in per]
                nr = [B.arr(v['rmse'])[k] / B.arr(v['mav_gt'])[k] for v in per]
                B.eq('rmse %s %d' % (how, k), B.arr(r['rmse'])[k], mean(rm))
                B.eq('nrmse %s %d' % (how, k), B.arr(r['nrmse'])[k], mean(nr))
        f, ids = om.get_samples_prediction_files(F.d)
        B.true('files', sorted(zip(ids, map(os.path.normpath, f))) == sorted((10 * s, p) for s, p in enumerate(paths)))
        B.raises('unknown', lambda: om.compute_mean_prediction_metrics(paths, ['mse']), RuntimeError)


@case('C25', params=[('%d' % n, dict(n=n)) for n in (1, 2, 5)], sym=False, why='text files and number formatting', ntrials=12, rtol=1e-7)
def results_file(B, n):
    """What is written is read back, for the process with the requested number of samples."""
    import torch
    om = B.mod(OM)
    d = tempfile.mkdtemp(prefix='vf_c25_')
    try:
        want = {}
        for k, (label, ns) in enumerate((('n10', 10), ('n20', 3), ('', 100))):
            r = {m: B.tensor([B.var('%s%d_%d' % (m, k, i)) * 10 ** (3 * i - 6) for i in range(n)]) for m in ('rmse', 'nrmse')}
            om.write_mean_metrics_results_file(d, ns, r, process_label=label)
            want[ns] = r
        path = os.path.join(d, 'mean_prediction_metrics.dat')
        for ns in (None, 10, 3, 100):
            got = om.read_mean_metrics_results_file(path, n_sample=ns)
            B.true('metrics', set(got) == {'rmse', 'nrmse'})
            for m in ('rmse', 'nrmse'):
                w = want[10 if ns is None else ns][m]
                for i in range(n):
                    B.eq('%s %s %d' % (m, ns, i), got[m][i], w[i], atol=0)
        B.raises('absent', lambda: om.read_mean_metrics_results_file(path, n_sample=77), RuntimeError)
        om.write_mean_metrics_results_file(d, 4, want[3], is_overwrite=True)
        B.raises('overwritten', lambda: om.read_mean_metrics_results_file(path, n_sample=10), RuntimeError)
    finally:
        shutil.rmtree(d)


# ---------------------------------------------------------------------------------------------- denoisers
def lsq_weights(w, order, rev=True):
    """Weights of the value at the window centre of the least squares polynomial."""
    c = Fraction(w - 1, 2)
    V = [[(Fraction(i) - c) ** j for j in range(order + 1)] for i in range(w)]
    n = order + 1
    A = [[sum(r[i] * r[j] for r in V) for j in range(n)] + [Fraction(int(i == 0))] for i in range(n)]
    for k in range(n):
        p = next(r for r in range(k, n) if A[r][k] != 0)
        A[k], A[p] = A[p], A[k]
        A[k] = [v / A[k][k] for v in A[k]]
        for r in range(n):
            if r != k:
                A[r] = [a - A[r][k] * b for a, b in zip(A[r], A[k])]
    s = [A[i][n] for i in range(n)]
    return [sum(s[j] * V[i][j] for j in range(n)) for i in range(w)]


def scipy_stub(B):
    class S:
        pass

    def savgol_coeffs(window_length, polyorder, deriv=0, delta=1.0, pos=None, use='conv'):
        if deriv or pos is not None:
            from vf.terms import Unsupported
            raise Unsupported('savgol_coeffs options')
        if polyorder >= window_length:
            raise ValueError('polyorder must be less than window_length.')
        o = np.empty((window_length,), object)
        for i, v in enumerate(lsq_weights(window_length, polyorder)):
            o[i] = B.rat(v.numerator, v.denominator)
        return o
    s, g = S(), S()
    s.signal = g
    g.savgol_coeffs = savgol_coeffs
    return s


def denoiser(B):
    m = B.mod(DN)
    if B.sym:
        B.override(DN + ':scipy', scipy_stub(B))
    return m.Denoiser()


def window_spec(B, x, w, weights):
    """Weighted mean over the window around each point, the ends repeated."""
    n, m = x.shape
    o = np.empty((n, m), object)
    for i in range(n):
        for k in range(m):
            acc = B.num(0)
            for j in range(w):
                q = min(max(i + j - w // 2, 0), n - 1)
                acc = acc + weights[j] * x[q, k]
            o[i, k] = acc
    return o


WIN = [(1, 1, 1), (1, 2, 3), (3, 2, 1), (3, 1, 2), (4, 2, 3), (2, 2, 5), (5, 1, 4)]


@case('C25', params=[('%d:%d:%d:%s' % (n, m, w, t), dict(n=n, m=m, w=w, t=t)) for n, m, w in WIN for t in ('float64', 'float32')], ntrials=6,
      rtol=1e-5, atol=1e-5)
def moving_average(B, n, m, w, t):
    x = B.array('x', (n, m), dist=(-2, 2))
    d = denoiser(B)
    dt = getattr(B.torch, t)
    for cyc in (1, 2):
        r = d.denoise(B.tensor(x.tolist(), dtype=dt), 'moving_average', {'window_size': w}, n_denoise_cycle=cyc)
        B.true('shape', tuple(r.shape) == (n, m))
        y = x
        for _ in range(cyc):
            y = window_spec(B, y, w, [B.rat(1, w)] * w)
        a = B.arr(r)
        for p in np.ndindex(n, m):
            B.eq('%d cycles %r' % (cyc, p), a[p], y[p])
    c = B.vec('c', m)
    a = B.arr(d.denoise(B.tensor([c] * n, dtype=dt), 'moving_average', {'window_size': w}))
    for p in np.ndindex(n, m):
        B.eq('constant %r' % (p,), a[p], c[p[1]])


@case('C25', params=[('%d:%d:%d:%d:%s' % (n, m, w, o, t), dict(n=n, m=m, w=w, o=o, t=t)) for n, m, w in WIN for o in (0, 1, 2, 3)
                     if o < w for t in ('float64', 'float32')], ntrials=6, rtol=1e-5, atol=1e-5)
def savitzky_golay(B, n, m, w, o, t):
    x = B.array('x', (n, m), dist=(-2, 2))
    d = denoiser(B)
    dt = getattr(B.torch, t)
    W = [B.rat(v.numerator, v.denominator) for v in lsq_weights(w, o)]
    r = d.denoise(B.tensor(x.tolist(), dtype=dt), 'savitzky_golay', {'window_size': w, 'poly_order': o})
    B.true('shape', tuple(r.shape) == (n, m))
    a, y = B.arr(r), window_spec(B, x, w, W)
    for p in np.ndindex(n, m):
        B.eq('value %r' % (p,), a[p], y[p])
    c = B.vec('c', m)
    a = B.arr(d.denoise(B.tensor([c] * n, dtype=dt), 'savitzky_golay', {'window_size': w, 'poly_order': o}))
    for p in np.ndindex(n, m):
        B.eq('constant %r' % (p,), a[p], c[p[1]])
    # away from the ends a polynomial of the fitted order is reproduced
    q = B.vec('q', o + 1)
    pol = [sum((q[j] * B.num(i) ** j for j in range(o + 1)), B.num(0)) for i in range(n)]
    a = B.arr(d.denoise(B.tensor([[v] for v in pol], dtype=dt), 'savitzky_golay', {'window_size': w, 'poly_order': o}))
    if w % 2:
        for i in range(w // 2, n - w // 2):
            B.eq('polynomial %d' % i, a[i, 0], pol[i])


def unity(B, n, k):
    """cos(2 pi k / n)."""
    k %= n
    v = {0: B.num(1), 1: B.sqrt(B.num(3)) / 2, 2: B.rat(1, 2), 3: B.num(0), 4: -B.rat(1, 2), 5: -B.sqrt(B.num(3)) / 2, 6: B.num(-1)}
    if 12 % n == 0:
        j = k * (12 // n)
        return v[j if j <= 6 else 12 - j]
    h = B.sqrt(B.num(2)) / 2
    return [B.num(1), h, B.num(0), -h, B.num(-1), -h, B.num(0), h][k * (8 // n)]


@case('C25', params=[('%d:%d:%s' % (n, m, t), dict(n=n, m=m, t=t)) for n, m in ((1, 1), (2, 2), (3, 2), (4, 1), (6, 1), (8, 1), (12, 1))
                     for t in ('float64', 'float32') if n < 8 or t == 'float64']
      + [('%d:at %d' % (n, k), dict(n=n, m=1, t='float64', at=k)) for n in (1, 2, 4, 8) for k in range(n // 2 + 1)], ntrials=8, rtol=1e-5, atol=1e-5)
def low_pass(B, n, m, t, at=None):
    """The components of frequency up to the cutoff are kept, the others are removed."""
    x = B.array('x', (n, m), dist=(-2, 2))
    if at is None:
        c = B.var('c', nonneg=True, dist=(0, 0.6))
        for k in range(n // 2 + 1):
            B.assume(B.absv(c - B.rat(k, n)) > B.rat(1, 10 ** 5))
    else:
        # Exactly one of the discrete frequencies (a dyadic fraction: exact in floating point)
        c = at / n
    dt = getattr(B.torch, t)
    d = denoiser(B)
    r = d.denoise(B.tensor(x.tolist(), dtype=dt), 'frequency_low_pass', {'cutoff_frequency': c})
    B.true('shape', tuple(r.shape) == (n, m))
    a = B.arr(r)
    keep = [min(k, n - k) <= at if at is not None else B.decide(B.rat(min(k, n - k), n) <= c) for k in range(n)]
    for i in range(n):
        for q in range(m):
            acc = B.num(0)
            for k in range(n):
                if keep[k]:
                    for s in range(n):
                        acc = acc + x[s, q] * unity(B, n, k * (i - s))
            B.eq('value %d,%d' % (i, q), a[i, q], acc / n)
    cst = B.vec('k', m)
    a = B.arr(d.denoise(B.tensor([cst] * n, dtype=dt), 'frequency_low_pass', {'cutoff_frequency': c}))
    for p in np.ndindex(n, m):
        B.eq('constant %r' % (p,), a[p], cst[p[1]])


@case('C25', ntrials=2)
def denoise_rejected(B):
    d = denoiser(B)
    x = B.tensor(B.mat('x', 3, 2))
    B.raises('unknown method', lambda: d.denoise(x, 'median', {}), RuntimeError)
    B.raises('no tensor', lambda: d.denoise([1.0], 'moving_average', {'window_size': 3}), RuntimeError)
    B.raises('vector', lambda: d.denoise(B.tensor(B.vec('v', 3)), 'moving_average', {'window_size': 3}), RuntimeError)
    r = d.denoise(x, 'moving_average', {'window_size': 3}, n_denoise_cycle=0)
    B.eq('no cycle', r, x)
