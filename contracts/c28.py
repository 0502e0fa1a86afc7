"""C28: the prediction process: every sample is predicted by the model, stored and scored once, in order."""
import os
import pickle
import shutil
import tempfile
import numpy as np
from vf.engine import case
FUNCTIONS = ['rc_base_model.predict.prediction.predict', 'rnn_base_model.predict.prediction.predict',
             'hybrid_base_model.predict.prediction.predict', 'compute_sample_prediction_loss', 'make_predictions_subdir',
             'save_sample_predictions', 'load_sample_predictions', 'seed_worker', 'get_time_series_data_loader']
ASSUMPTIONS = ['the model is an arbitrary function applied per sample (uninterpreted), the data scalers are the affine maps of C17 with arbitrary '
               'coefficients (contract of data_scaler_transform, proved in C17), the loss is an arbitrary function of output and target',
               'pickle and the data loader: as in C23 and C27; reading, collation and scoring are the real code',
               'numbers of samples, time steps and batch sizes are enumerated']
PD = {k: 'model_architectures.%s_base_model.predict.prediction' % k for k in ('rc', 'rnn', 'hybrid')}
CLS = {'rc': 'RecurrentConstitutiveModel', 'rnn': 'GRURNNModel', 'hybrid': 'HybridModel'}
MP = 'model_architectures.procedures.model_prediction'
TD = 'time_series_data.time_dataset'
DS = 'model_architectures.procedures.model_data_scaling'
NI, NO = 2, 2


class World:
    """Arbitrary model, scalers, loss and data set; the real prediction procedure runs in a scratch directory."""

    def __init__(self, B, kind, n_samples, T=2, norm_in=False, norm_out=False, hidden=False):
        self.B, self.kind, self.n, self.T = B, kind, n_samples, T
        self.d = tempfile.mkdtemp(prefix='vf_c28_')
        self.M = B.mod(PD[kind])
        self.torch = B.torch
        self.x = B.array('x', (n_samples, T, NI))
        self.y = B.array('y', (n_samples, T, NO))
        self.h = B.array('h', (n_samples, 1, 2)) if hidden else None
        self.sc = {'features_in': [(B.var('mi%d' % i), B.var('si%d' % i, pos=True)) for i in range(NI)],
                   'features_out': [(B.var('mo%d' % i), B.var('so%d' % i, pos=True)) for i in range(NO)]}
        self.calls = []
        self.hidden = hidden
        import math
        self.f = [B.func('net%d' % o, lambda *a, o=o: math.sin(sum((i + 1 + o) * v for i, v in enumerate(a)))) for o in range(NO)]
        self.g = B.func('scored', lambda *a: math.cos(sum((i + 1) * v for i, v in enumerate(a))))
        nn, w = B.nn, self

        class Model(nn.Module):
            is_model_in_normalized = norm_in
            is_model_out_normalized = norm_out
            model_directory, model_name = self.d, 'model'

            def set_device(s, d):
                s.dev = d

            def set_eval(s):
                s.training = False

            def forward(s, features, *hid):
                w.calls.append(s.training)
                out = w.apply(features, *hid)
                return (out, None) if kind == 'rnn' else out
        self.Model = Model
        self.norm_in, self.norm_out = norm_in, norm_out
        self.model = Model()

        def transform(model, tensor, features_type, mode='normalize'):
            if model is not self.model:
                raise AssertionError('scalers of another model')
            a = B.arr(tensor)
            if a.shape[-1] != len(self.sc[features_type]):
                raise AssertionError('features')
            o = np.empty(a.shape, object)
            for p in np.ndindex(*a.shape):
                o[p] = (self.norm if mode == 'normalize' else self.denorm)(features_type, p[-1], a[p])
            return B.tensor(o)
        B.override(PD[kind] + ':data_scaler_transform', transform)

        def loss(loss_type, **kw):
            if (loss_type, kw) != ('mse', {'reduction': 'mean'}):
                raise AssertionError('loss arguments')

            def ev(out, target):
                return B.tensor(self.g(*[v for v in list(B.arr(out).reshape(-1)) + list(B.arr(target).reshape(-1))]))
            return ev
        B.override(PD[kind] + ':get_pytorch_loss', loss)
        B.override(PD[kind] + ':write_prediction_summary_file', lambda *a, **k: self.summary.append((a, k)))
        self.summary = []
        B.override(MP + ':make_directory', self._mkdir)

        class Data:
            def __init__(s):
                s.reads = []

            def __len__(s):
                return n_samples

            def __getitem__(s, i):
                d = {'features_in': B.tensor(self.x[i]), 'features_out': B.tensor(self.y[i])}
                if hidden:
                    d['hidden_features_in'] = B.tensor(self.h[i])
                return d
        self.data = Data()

    @staticmethod
    def _mkdir(d, is_overwrite=False):
        os.mkdir(d)
        return d

    def norm(self, ft, i, v):
        m, s = self.sc[ft][i]
        return (v - m) / s

    def denorm(self, ft, i, v):
        m, s = self.sc[ft][i]
        return v * s + m

    def apply(self, features, *hid):
        """forward: features (T, batch, NI) -> (T, batch, NO), each sample and time from that sample's own history"""
        B = self.B
        a = B.arr(features)
        h = None
        if hid and hid[0] is not None:
            h = B.arr(hid[0])
        out = np.empty(a.shape[:2] + (NO,), object)
        for b in range(a.shape[1]):
            for t in range(a.shape[0]):
                r = self.net([a[s, b, i] for s in range(t + 1) for i in range(NI)], None if h is None else list(h[0, b]))
                for o in range(NO):
                    out[t, b, o] = r[o]
        return B.tensor(out)

    def net(self, flat, h):
        flat = flat + [0.0] * (self.T * NI - len(flat)) + ([0.0, 0.0] if h is None else list(h))
        return [f(*flat) for f in self.f]

    # ---- specification
    def expected(self, s, t):
        x = [(self.norm('features_in', i, self.x[s, u, i]) if self.norm_in else self.x[s, u, i]) for u in range(t + 1) for i in range(NI)]
        r = self.net(x, list(self.h[s, 0]) if self.hidden else None)
        return [self.denorm('features_out', o, r[o]) if self.norm_out else r[o] for o in range(NO)]

    def expected_loss(self, s, normalized):
        q = (lambda o, v: self.norm('features_out', o, v)) if normalized else (lambda o, v: v)
        out = [q(o, v) for t in range(self.T) for o, v in enumerate(self.expected(s, t))]
        return self.g(*(out + [q(o, self.y[s, t, o]) for t in range(self.T) for o in range(NO)]))

    def clean(self):
        shutil.rmtree(self.d, ignore_errors=True)


def run_in(f):
    import functools

    @functools.wraps(f)
    def g(B, kind, **kw):
        wkw = {k: kw.pop(k) for k in ('n_samples', 'T', 'norm_in', 'norm_out', 'hidden') if k in kw}
        w = World(B, kind, **wkw)
        try:
            f(B, w, **kw)
        finally:
            w.clean()
    return g


def load(B, w, path):
    return B.mod(MP).load_sample_predictions(path)


CONF = [('plain', {}), ('in', {'norm_in': True}), ('out', {'norm_out': True}), ('both', {'norm_in': True, 'norm_out': True})]


@case('C28', params=[('%s:%s:%s:n%d_b%d' % (k, c, 'nloss' if nl else 'loss', n, b), dict(kind=k, n_samples=n, batch=b, nloss=nl, **kw))
                     for k in PD for c, kw in CONF for nl in (False, True) for n, b in ((1, 1), (3, 2), (3, 4))
                     if (n, b) == (3, 2) or (k == 'rnn' and c == 'both')], ntrials=4, max_paths=20)
@run_in
def prediction(B, w, batch, nloss):
    """ensures: a new prediction set directory holds one file per sample, named by its position in the data set, with the output of the model for
    that sample (inputs normalized / outputs denormalized when the model is), the target of that sample and its loss (of normalized data
    if asked); the average loss is returned; the model predicts in evaluation mode"""
    p = os.path.join(w.d, 'predictions')
    os.mkdir(p)
    sub, avg = w.M.predict(w.data, w.d, model=w.model, predict_directory=p, loss_nature='features_out', loss_type='mse',
                           loss_kwargs={'reduction': 'mean'}, is_normalized_loss=nloss, batch_size=batch)
    check(B, w, p, sub, avg, nloss)
    B.true('evaluation mode', len(w.calls) > 0 and not any(w.calls))
    B.true('one summary', len(w.summary) == 1 and w.summary[0][0][0] == sub)


def check(B, w, p, sub, avg, nloss, index=0):
    B.true('prediction set directory', os.path.normpath(sub) == os.path.join(p, 'prediction_set_%d' % index))
    B.true('one file per sample', sorted(os.listdir(sub)) == sorted('prediction_sample_%d.pkl' % s for s in range(w.n)))
    losses = []
    for s in range(w.n):
        r = load(B, w, os.path.join(sub, 'prediction_sample_%d.pkl' % s))
        B.true('results', {'features_out', 'targets', 'prediction_loss_data'} <= set(r))
        o, t = B.arr(r['features_out']), B.arr(r['targets'])
        B.true('shapes', tuple(o.shape) == (w.T, NO) and tuple(t.shape) == (w.T, NO))
        for u in range(w.T):
            e = w.expected(s, u)
            for k in range(NO):
                B.eq('output of the sample', o[u, k], e[k])
                B.eq('target of the sample', t[u, k], w.y[s, u, k])
        ln, lt, lv, norm = r['prediction_loss_data']
        B.true('loss description', (ln, lt, norm) == ('features_out', 'mse', nloss))
        e = w.expected_loss(s, nloss)
        losses.append(e)
        B.eq('loss of the sample', B.val(lv), e)
    B.eq('average loss', B.val(avg), sum(losses[1:], losses[0]) / len(losses))


@case('C28', params=[(k, dict(kind=k, n_samples=2)) for k in PD], ntrials=4)
@run_in
def repeated(B, w):
    """ensures: a further prediction never touches the results of an earlier one"""
    p = os.path.join(w.d, 'predictions')
    os.mkdir(p)
    kw = dict(model=w.model, loss_kwargs={'reduction': 'mean'}, predict_directory=p)
    s0, a0 = w.M.predict(w.data, w.d, **kw)
    keep = {f: open(os.path.join(s0, f), 'rb').read() for f in os.listdir(s0)}
    s1, a1 = w.M.predict(w.data, w.d, **kw)
    check(B, w, p, s0, a0, False)
    check(B, w, p, s1, a1, False, index=1)
    B.true('earlier results unchanged', keep == {f: open(os.path.join(s0, f), 'rb').read() for f in os.listdir(s0)})


@case('C28', params=[(k, dict(kind=k, n_samples=2)) for k in PD], ntrials=4)
@run_in
def no_directory(B, w):
    """without a prediction directory nothing is written and the average loss is the same; a missing directory is refused"""
    sub, avg = w.M.predict(w.data, w.d, model=w.model, loss_kwargs={'reduction': 'mean'})
    B.true('nothing written', sub is None and os.listdir(w.d) == [] and not w.summary)
    e = [w.expected_loss(s, False) for s in range(w.n)]
    B.eq('average loss', B.val(avg), (e[0] + e[1]) / 2)
    B.raises('missing model directory', lambda: w.M.predict(w.data, os.path.join(w.d, 'no'), model=w.model), RuntimeError)
    B.raises('missing prediction directory',
             lambda: w.M.predict(w.data, w.d, model=w.model, predict_directory=os.path.join(w.d, 'no')), RuntimeError)
    B.raises('unknown loss nature', lambda: w.M.predict(w.data, w.d, model=w.model, loss_nature='other', loss_kwargs={'reduction': 'mean'}),
             RuntimeError)


@case('C28', params=[('%s:seed' % k, dict(kind=k, n_samples=3)) for k in PD], ntrials=4, num=True)
@run_in
def seeded(B, w):
    """ensures: with a seed the same predictions are made"""
    p = os.path.join(w.d, 'predictions')
    os.mkdir(p)
    sub, avg = w.M.predict(w.data, w.d, model=w.model, predict_directory=p, loss_kwargs={'reduction': 'mean'}, batch_size=2, seed=3)
    check(B, w, p, sub, avg, False)


@case('C28', params=[('hidden_b%d' % b, dict(kind='rnn', n_samples=3, hidden=True, batch=b)) for b in (1, 2)], ntrials=4)
@run_in
def hidden_state(B, w, batch):
    """ensures: hidden features of the data set reach the recurrent network with their own sample"""
    p = os.path.join(w.d, 'predictions')
    os.mkdir(p)
    sub, avg = w.M.predict(w.data, w.d, model=w.model, predict_directory=p, loss_kwargs={'reduction': 'mean'}, batch_size=batch)
    check(B, w, p, sub, avg, False)


@case('C28', params=[('%s:%s' % (k, st), dict(kind=k, n_samples=2, state=st)) for k in PD for st in ('best', 'last', 3)], ntrials=3)
@run_in
def from_file(B, w, state):
    """ensures: without a given model the model is initialised from the directory, put in the requested state without removing any state file, and
    placed on the requested device before it predicts"""
    log = []

    class Factory:
        @staticmethod
        def init_model_from_file(model_directory):
            log.append(('init', model_directory))
            return w.model
    B.override(PD[w.kind] + ':' + CLS[w.kind], Factory)

    def load_state(model, model_load_state=None, is_remove_posterior=True):
        log.append(('load', model is w.model, model_load_state, is_remove_posterior))
    B.override(PD[w.kind] + ':load_model_state', load_state)
    _, avg = w.M.predict(w.data, w.d, model_load_state=state, loss_kwargs={'reduction': 'mean'}, device_type='cpu')
    B.true('initialised from the directory, then put in the requested state', log == [('init', w.d), ('load', True, state, False)])
    B.true('device', w.model.dev == 'cpu')
    e = [w.expected_loss(s, False) for s in range(w.n)]
    B.eq('average loss', B.val(avg), (e[0] + e[1]) / 2)


@case('C28', ntrials=3)
def subdirectories(B):
    """ensures: the first free prediction set directory is created, whatever sets exist"""
    M = B.mod(MP)
    d = tempfile.mkdtemp(prefix='vf_c28_')
    B.override(MP + ':make_directory', World._mkdir)
    try:
        have = [i for i in range(12) if B.choice('set%d' % i, [True, False])] if not B.sym else [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11]
        for i in have:
            os.mkdir(os.path.join(d, 'prediction_set_%d' % i))
        want = next(i for i in range(13) if i not in have)
        got = M.make_predictions_subdir(d)
        B.true('first free set', os.path.normpath(got) == os.path.join(d, 'prediction_set_%d' % want) and os.path.isdir(got))
        B.true('nothing else', len(os.listdir(d)) == len(have) + 1)
        B.raises('missing directory', lambda: M.make_predictions_subdir(os.path.join(d, 'no')), RuntimeError)
        B.raises('missing results directory', lambda: M.save_sample_predictions(os.path.join(d, 'no'), 0, {}), RuntimeError)
        B.raises('missing results file', lambda: M.load_sample_predictions(os.path.join(d, 'no')), RuntimeError)
    finally:
        shutil.rmtree(d, ignore_errors=True)
