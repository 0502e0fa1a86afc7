"""C37: training, prediction and ensemble workflows: what models are trained and tested on, and what is reported for them."""
import os
import itertools
import numpy as np
from contracts.c31 import scratch, plain, txt
from contracts.c35 import dump, read
from vf import terms as tm
from vf.engine import case
FUNCTIONS = ['perform_model_standard_training (rnn, rc, hybrid)', 'set_hybridized_gru_model', 'set_hybridized_rcm_model', 'generate_standard_training_plots',
             'generate_model_parameters_plots', 'perform_model_prediction (rnn, rc, hybrid)', 'generate_prediction_plots', 'build_prediction_data_arrays',
             'build_time_series_predictions_data', 'perform_model_uq (rnn, rc, hybrid)', 'gen_model_uq_plots', 'plot_prediction_loss_uq', 'plot_time_series_uq',
             'plot_best_parameters_uq', 'material_finder perform_model_standard_training', 'plot_prediction_loss_convergence',
             'plot_best_parameters_convergence', 'plot_time_series_convergence']
ASSUMPTIONS = ['train_model, predict and compute_directory_prediction_metrics are known by their contracts only (C27, C28, C29): they use what they are given',
               'data scalers are fitted as contracted in C30; stress features are those of C23',
               'plots are known by the data they are given; drawing is not checked',
               'numbers of samples, time steps and models are enumerated; sample contents, predictions and losses are arbitrary',
               'the script bodies under __main__ (fixed paths of the authors) are not run',
               'the file system is the real one, in a scratch directory']
U = 'user_scripts.local_model_update.%s_material_model.%s'
TD = 'time_series_data.time_dataset'
FAMILIES = ('rnn', 'rc', 'hybrid')
ORDER = ('11', '22', '33', '12', '23', '13')


class Data:
    """A stored data set of arbitrary samples."""

    def __init__(self, B, d, name, n, T=2, state=False):
        self.n = n
        self.e = [B.array('%s_e%d_' % (name, i), (T, 6)) for i in range(n)]
        self.s = [B.array('%s_s%d_' % (name, i), (T, 6)) for i in range(n)]
        self.t = [B.array('%s_t%d_' % (name, i), (T, 1)) for i in range(n)]
        self.p = [B.array('%s_p%d_' % (name, i), (T, 6)) for i in range(n)] if state else None
        M = B.mod(TD)
        samples = []
        for i in range(n):
            s = {'strain_comps_order': ORDER, 'strain_path': B.tensor(self.e[i]), 'stress_comps_order': ORDER, 'stress_path': B.tensor(self.s[i]),
                 'time_hist': B.tensor(self.t[i])}
            if state:
                s['e_strain_mf'] = B.tensor(self.p[i])
            samples.append(s)
        self.dataset = M.TimeSeriesDatasetInMemory(samples)
        self.path = M.save_dataset(self.dataset, name, d)

    def check(self, B, name, ds):
        """The data set given to a model: these samples, in their order, strain in and stress out."""
        B.true(name + ': number of samples', len(ds) == self.n)
        for i in range(self.n):
            B.eq(name + ': input features', ds[i]['features_in'], self.e[i])
            B.eq(name + ': output features', ds[i]['features_out'], self.s[i])


class Draws:
    """Arbitrary draws from an interval."""

    def __init__(self, B):
        self.B, self.k = B, 0

    def __getattr__(self, name):
        # other ways to draw: the library's
        if self.__dict__['B'].sym:
            raise tm.Unsupported('random.%s' % name)
        import random
        return getattr(random, name)

    def uniform(self, a, b):
        self.k += 1
        x = self.B.var('draw%d' % self.k, nonneg=True, dist=(0, 1))
        self.B.assume(x <= 1)
        return a + (b - a) * x


class Submodels:
    """Stands for set_hybridized_model (C30)."""

    def __init__(self):
        self.made = []

    def __call__(self, model_class, hyb_indices, model_init_args=None, model_init_file_path=None, model_state_file_path=None, is_input_residual=False, data_scalers=None):
        self.made.append({'hyb_indices': hyb_indices, 'class': model_class.__name__, 'args': model_init_args, 'scalers': data_scalers, 'res': is_input_residual,
                          'state': model_state_file_path})
        return self.made[-1]


class Plt:
    def __getattr__(self, name):
        return lambda *a, **kw: None


def value(x):
    return float(x.item() if hasattr(x, 'item') else x)


def arg(a, kw, pos, name, default=None):
    return a[pos] if len(a) > pos else kw.get(name, default)


@case('C37', params=[('%s_%d_%d' % (f, n, v), dict(f=f, n=n, v=v)) for f, n, v in (('rnn', 3, 2), ('rnn', 1, 3), ('rc', 3, 2), ('rc', 2, 0), ('hybrid', 2, 3), ('hybrid', 3, 1))],
      ntrials=3)
@scratch
def training(B, d, f, n, v):
    """A model is trained on the samples of the training file, validated on those of the validation file, in its directory."""
    mod = U % (f, 'train_model')
    M = B.mod(mod)
    tr = Data(B, d, 'train', n)
    va = Data(B, d, 'val', v) if v else None
    md = os.path.join(d, '3_model')
    os.mkdir(md)
    log = []
    hist = {'training_loss_history': [B.var('loss%d' % i) for i in range(3)], 'validation_loss_history': [B.var('vloss%d' % i) for i in range(3)] if f != 'rc' else None,
            'lr_history_epochs': [B.var('lr%d' % i) for i in range(3)]}
    fit, sub = [], Submodels()

    def train_model(*a, **kw):
        log.append('train')
        B.true('one training', log.count('train') == 1)
        tr.check(B, 'training data set', arg(a, kw, 1, 'dataset'))
        args = arg(a, kw, 2, 'model_init_args')
        B.true('model directory', os.path.samefile(args['model_directory'], md))
        B.true('numbers of features', (args['n_features_in'], args['n_features_out']) == (6, 6))
        B.true('device', args['device_type'] == 'cpu' and kw.get('device_type', 'cpu') == 'cpu')
        B.true('data set file', kw.get('dataset_file_path') == tr.path)
        B.true('new training', kw.get('model_load_state') is None)
        es = kw.get('is_early_stopping', False)
        if f != 'rc':
            B.true('early stopping', bool(es))
        if es:
            vd = kw['early_stopping_kwargs']['validation_dataset']
            va.check(B, 'validation data set', vd)
        if f == 'rnn':
            shape = (args['n_recurrent_layers'], args['hidden_layer_size'])
            for ds in (arg(a, kw, 1, 'dataset'), kw['early_stopping_kwargs']['validation_dataset']):
                for i in range(len(ds)):
                    h = ds[i]['hidden_features_in']
                    B.true('initial hidden features', tuple(h.shape) == shape and not bool((h != 0).any()))
        if f == 'rc':
            for p in args['learnable_parameters'].values():
                B.le('initial values within bounds', p['bounds'][0], p['initial_value'])
                B.le('initial values within bounds', p['initial_value'], p['bounds'][1])
        if f == 'hybrid':
            hs = list(args['hyb_models_dict'].values())
            B.true('hybridised models', len(hs) > 0 and all(any(h is x for x in sub.made) for h in hs))
            ids = [tuple(h['hyb_indices']) for h in hs]
            B.true('places', len(set(ids)) == len(ids))
            gru = [h for h in hs if h['class'] == 'GRURNNModel']
            B.true('scalers of the hybridised model', all(h['scalers'] == {k: 'scaler ' + k for k in ('features_in', 'features_out')} for h in gru))
        dump(B, os.path.join(md, 'loss_history_record.pkl'), dict(hist, loss_nature='features_out', loss_type='mse', lr_scheduler_type='explr'))
        dump(B, os.path.join(md, 'parameters_history_record.pkl'), {'model_parameters_history': {'E': hist['training_loss_history']}, 'model_parameters_bounds': {'E': (1, 2)}})
        return 'the model', None, None

    def scaler(dataset, features_type, n_features, scaling_type='mean-std', *a, **kw):
        B.true('number of scaled features', n_features == 6)
        B.true('scaled samples', len(dataset) == n)
        want = {'features_in': tr.e, 'features_out': tr.s}[features_type]
        for i in range(n):
            B.eq('scaler fitted to the training data set', dataset[i][features_type], want[i])
        fit.append(('scaler %s' % features_type, features_type))
        return 'scaler %s' % features_type

    def plot_loss(loss_history, *a, **kw):
        loss = loss_history
        log.append('loss')
        B.true('plotted losses', sorted(loss) == (['Training', 'Validation'] if f != 'rc' else ['Training']))
        B.eq('plotted training loss', loss['Training'], hist['training_loss_history'])
        if f != 'rc':
            B.eq('plotted validation loss', loss['Validation'], hist['validation_loss_history'])

    def plot_lr(loss_history, lr_history, *a, **kw):
        log.append('lr')
        B.eq('plotted training loss and rate', [loss_history, lr_history], [hist['training_loss_history'], hist['lr_history_epochs']])

    def plot_par(model_parameters_history, model_parameters_bounds, *a, **kw):
        h, b = model_parameters_history, model_parameters_bounds
        log.append('par')
        B.eq('plotted parameters', h['E'], hist['training_loss_history'])
        B.true('plotted bounds', b == {'E': (1, 2)})

    def summary(model, *a, **kw):
        log.append('summary')
        B.true('summary of the trained model', model == 'the model')
    B.override(mod + ':train_model', train_model)
    B.override(mod + ':plot_training_loss_history', plot_loss)
    B.override(mod + ':plot_training_loss_and_lr_history', plot_lr)
    B.override(mod + ':get_model_summary', summary)
    if f == 'rc':
        B.override(mod + ':plot_model_parameters_history', plot_par)
        B.override(mod + ':random', Draws(B))
    if f == 'hybrid':
        B.override(mod + ':fit_data_scaler_from_dataset', scaler)
        B.override(mod + ':set_hybridized_model', sub)
    M.perform_model_standard_training(tr.path, md, val_dataset_file_path=va.path if va else None)
    B.true('all done', sorted(log) == sorted(['train', 'loss', 'lr', 'summary'] + (['par'] if f == 'rc' else [])))
    if f == 'hybrid':
        B.true('scalers fitted', {x[1] for x in fit} == {'features_in', 'features_out'})
    # the stored data sets are left alone
    M2 = B.mod(TD)
    for x in (tr, va):
        if x:
            ds = M2.load_dataset(x.path)
            for i in range(x.n):
                B.true('stored entries', sorted(ds[i]) == ['strain_comps_order', 'strain_path', 'stress_comps_order', 'stress_path', 'time_hist'])
                B.eq('stored samples', [ds[i]['strain_path'], ds[i]['stress_path']], [x.e[i], x.s[i]])


@case('C37', params=[(f, dict(f=f)) for f in ('rnn', 'hybrid')], ntrials=1)
@scratch
def validation_needed(B, d, f):
    """Training with early stopping and no validation data set is refused."""
    mod = U % (f, 'train_model')
    M = B.mod(mod)
    tr = Data(B, d, 'train', 2)
    md = os.path.join(d, '3_model')
    os.mkdir(md)
    B.override(mod + ':train_model', lambda *a, **kw: B.true('no training', False))
    if f == 'hybrid':
        B.override(mod + ':fit_data_scaler_from_dataset', lambda *a, **kw: None)
        B.override(mod + ':set_hybridized_model', Submodels())
    B.raises('validation data set missing', lambda: M.perform_model_standard_training(tr.path, md), RuntimeError)


class Predictions:
    """Stored predictions of the samples of a data set, with decoys, in a directory."""

    def __init__(self, B, where, data, ids, tag='', width=6, target=None):
        self.B, self.data, self.ids = B, data, ids
        self.T = 2
        os.makedirs(where, exist_ok=True)
        # the first target of a sample identifies it
        self.pred = {i: B.array('%spred%d_' % (tag, i), (self.T, width)) for i in ids}
        self.target = target or {i: [[B.num(100 + i)] * width] + [list(r) for r in B.array('%starg%d_' % (tag, i), (self.T - 1, width))] for i in ids}
        for i in sorted(ids, key=lambda k: (7 * k + 3) % 13):
            dump(B, os.path.join(where, 'prediction_sample_%d.pkl' % i),
                 {'features_out': B.tensor(self.pred[i]), 'targets': B.tensor(self.target[i]), 'stress_comps_order': ORDER[:width - 1 if width == 7 else width]})
        for k in ('prediction_sample_1.pkl.bak', 'old_prediction_sample_0.pkl', 'prediction_sample_x.pkl', 'summary.dat'):
            plain(os.path.join(where, k), ['Avg. prediction loss per sample: 1'])

    def check_array(self, name, a, comp):
        """(truth, prediction) pairs of a component, all samples in any order."""
        B, n = self.B, len(self.ids)
        B.true(name + ': shape', tuple(a.shape) == (n * self.T, 2))
        got = [int(value(a[k * self.T, 0])) - 100 for k in range(n)]
        B.true(name + ': every sample once', sorted(got) == sorted(self.ids))
        for k, i in enumerate(got):
            rows = slice(k * self.T, (k + 1) * self.T)
            B.eq(name + ': truth', a[rows, 0], [r[comp] for r in self.target[i]])
            B.eq(name + ': prediction', a[rows, 1], [r[comp] for r in self.pred[i]])

    def series(self, i, comp):
        return [[self.data.t[i][k][0], self.target[i][k][comp], self.pred[i][k][comp]] for k in range(self.T)]


@case('C37', params=[('%s_%s' % (k, s), dict(k=k, s=s)) for k in ('stress_comps', 'p_strain_comps', 'acc_p_strain') for s in ('all', 'some', 'one')] + [('eleven', dict(k='stress_comps', s='many'))],
      ntrials=3)
@scratch
def arrays(B, d, k, s):
    """Data arrays pair every prediction with its own truth (and time)."""
    M = B.mod('model_architectures.materials.process_predictions')
    n = 12 if s == 'many' else 4
    data = Data(B, d, 'test', n)
    w = {'stress_comps': 3, 'p_strain_comps': 2, 'acc_p_strain': 7}[k]
    labels = {'stress_comps': ('stress_11', 'stress_22', 'stress_12'), 'p_strain_comps': ('p_11', 'p_22'), 'acc_p_strain': ('acc_p_strain',)}[k]
    where = os.path.join(d, 'pred')
    P = Predictions(B, where, data, list(range(n)), width=w)
    comps = [6] if k == 'acc_p_strain' else list(range(w))
    ids = {'all': 'all', 'many': 'all', 'some': [3, 0], 'one': [1]}[s]
    got = M.build_prediction_data_arrays(where, k, labels, samples_ids=ids)
    if s in ('some', 'one'):
        P.ids = ids
    B.true('one array per component', len(got) == len(comps))
    for c, a in zip(comps, got):
        P.check_array('pairs', a, c)
    got = M.build_time_series_predictions_data(data.path, where, k, labels, samples_ids=ids)
    B.true('one dictionary per component', len(got) == len(comps))
    for c, a in zip(comps, got):
        B.true('samples of the time series', sorted(a) == sorted(str(i) for i in P.ids))
        for i in P.ids:
            B.eq('time series', a[str(i)], P.series(i, c))


@case('C37', params=[('%s_%d' % (k, m), dict(k=k, m=m)) for k, m in (('stress_comps', 2), ('stress_comps', 11), ('p_strain_comps', 3), ('acc_p_strain', 2))], ntrials=3)
@scratch
def realisations(B, d, k, m):
    """Time series of an ensemble: time, truth and the predictions of its models in order, all of the same sample and component."""
    M = B.mod('model_architectures.materials.process_predictions')
    os.mkdir(os.path.join(d, '5_testing_id_dataset'))
    data = Data(B, os.path.join(d, '5_testing_id_dataset'), 'test', 3)
    w = {'stress_comps': 2, 'p_strain_comps': 2, 'acc_p_strain': 7}[k]
    labels = ('acc_p_strain',) if w == 7 else ('a_11', 'a_22')
    P = {}
    target = {i: B.array('targ%d_' % i, (2, w)) for i in range(3)}
    os.makedirs(os.path.join(d, 'uncertainty_quantification', 'plots'))
    for j in sorted(range(m), key=lambda q: (7 * q + 3) % 13):
        where = os.path.join(d, 'uncertainty_quantification', 'model_%d' % j, '7_prediction')
        P[j] = Predictions(B, os.path.join(where, 'in_distribution'), data, [0, 1, 2], tag='m%d_' % j, width=w, target=target)
        Predictions(B, os.path.join(where, 'out_distribution'), data, [0, 1, 2], tag='o%d_' % j, width=w)
    pd = os.path.join(d, '7_prediction', 'in_distribution', 'prediction_set_0')
    for ids in ('all', [2, 1]):
        got = M.build_time_series_predictions_data(data.path, pd, k, labels, samples_ids=ids, is_uncertainty_quantification=True)
        comps = [6] if w == 7 else [0, 1]
        B.true('one dictionary per component', len(got) == len(comps))
        for c, a in zip(comps, got):
            want = [0, 1, 2] if ids == 'all' else ids
            B.true('samples', sorted(a) == sorted(str(i) for i in want))
            for i in want:
                B.eq('realisations', a[str(i)], [[data.t[i][q][0], target[i][q][c]] + [P[j].pred[i][q][c] for j in range(m)] for q in range(2)])


@case('C37', params=[(x, dict(x=x)) for x in ('missing_dir', 'missing_sample', 'no_samples', 'empty', 'bad_ids', 'outside', 'unknown')], ntrials=1)
@scratch
def refused(B, d, x):
    """Data arrays of predictions that do not exist are refused."""
    M = B.mod('model_architectures.materials.process_predictions')
    data = Data(B, d, 'test', 3)
    where = os.path.join(d, 'pred')
    if x not in ('missing_dir', 'no_samples', 'empty'):
        Predictions(B, where, data, [0, 2], width=2)
    elif x != 'missing_dir':
        os.mkdir(where)
        if x == 'no_samples':
            plain(os.path.join(where, 'summary.dat'), ['x'])
    ids = {'missing_sample': [0, 1], 'bad_ids': (0,), 'outside': [0, 3]}.get(x, 'all')
    kind = 'stress' if x == 'unknown' else 'stress_comps'
    B.raises('arrays', lambda: M.build_prediction_data_arrays(where, kind, ('a', 'b'), samples_ids=ids), RuntimeError)
    B.raises('time series', lambda: M.build_time_series_predictions_data(data.path, where, kind, ('a', 'b'), samples_ids=ids), RuntimeError)


@case('C37', params=[('%s_%d%s' % (f, n, '_rm' if rm else ''), dict(f=f, n=n, rm=rm)) for f, n, rm in
                     (('rnn', 6, False), ('rnn', 2, True), ('rc', 6, True), ('rc', 3, False), ('hybrid', 5, True), ('hybrid', 1, False))], ntrials=2)
@scratch
def prediction(B, d, f, n, rm):
    """Predictions of the best state of the model in the given directory for the samples of the given file."""
    mod = U % (f, 'predict')
    M = B.mod(mod)
    data = Data(B, d, 'test', n)
    md, pd = os.path.join(d, '3_model'), os.path.join(d, '7_prediction')
    os.mkdir(md), os.mkdir(pd)
    sub = os.path.join(pd, 'prediction_set_4')
    other = os.path.join(pd, 'prediction_set_3')
    Predictions(B, other, data, [0], tag='other')
    dump(B, os.path.join(md, 'model_init_file.pkl'), {'model_init_args': {'n_recurrent_layers': 2, 'hidden_layer_size': 3, 'n_features_in': 6, 'n_features_out': 6}})
    log, P = [], []
    loss = B.var('loss')

    def predict(*a, **kw):
        log.append('predict')
        ds = arg(a, kw, 0, 'dataset')
        data.check(B, 'tested data set', ds)
        B.true('model directory', os.path.samefile(arg(a, kw, 1, 'model_directory'), md))
        B.true('prediction directory', os.path.samefile(arg(a, kw, 3, 'predict_directory'), pd))
        B.true('best state', arg(a, kw, 4, 'model_load_state') == 'best')
        B.true('data set file', kw.get('dataset_file_path') == data.path)
        B.true('batch size', 1 <= kw.get('batch_size', 1) <= n)
        B.true('loss', kw.get('loss_nature', 'features_out') == 'features_out' and not kw.get('is_normalized_loss', False))
        if f == 'rnn':
            for i in range(n):
                h = ds[i]['hidden_features_in']
                B.true('initial hidden features', tuple(h.shape) == (2, 3) and not bool((h != 0).any()))
        P.append(Predictions(B, sub, data, list(range(n))))
        return sub, loss

    def metrics(predictions_dir, mean_prediction_metrics, *a, **kw):
        where, names = predictions_dir, mean_prediction_metrics
        log.append('metrics')
        B.true('metrics of these predictions', os.path.samefile(where, sub) and len(names) > 0
               and all(os.path.isfile(os.path.join(sub, 'prediction_sample_%d.pkl' % i)) for i in range(n)))
        return None, None
    seen, ts = {}, {}

    def truth(prediction_sets, *a, filename=None, save_dir=None, **kw):
        sets = prediction_sets
        log.append('truth')
        B.true('plots of these predictions', os.path.realpath(save_dir).startswith(os.path.realpath(sub) + os.sep))
        B.true('one set', len(sets) == 1)
        name, x = list(sets.items())[0]
        c = ORDER.index(filename.split('_')[-1])
        B.true('label', name.split()[-1] == ORDER[c] and c not in seen)
        seen[c] = True
        P[0].check_array('plotted pairs', x, c)

    def series(prediction_sets, *a, filename=None, save_dir=None, **kw):
        sets = prediction_sets
        B.true('plots of these predictions', os.path.realpath(save_dir).startswith(os.path.realpath(sub) + os.sep))
        q = filename.split('_')
        c, i = ORDER.index(q[1]), int(q[-1])
        B.true('one plot', (c, i) not in ts)
        ts[c, i] = True
        want = P[0].series(i, c)
        B.eq('plotted truth', sets['Ground-truth'], [r[:2] for r in want])
        B.eq('plotted prediction', sets['Prediction'], [[r[0], r[2]] for r in want])
    B.override(mod + ':predict', predict)
    B.override(mod + ':compute_directory_prediction_metrics', metrics)
    B.override(mod + ':plot_truth_vs_prediction', truth)
    B.override(mod + ':plot_time_series_prediction', series)
    kw = dict(is_remove_sample_prediction=True) if rm else {}
    out = M.perform_model_prediction(pd, data.path, md, **kw)
    if f == 'rc':
        B.true('returned directory', os.path.samefile(out[0] if isinstance(out, tuple) else out, sub))
    else:
        B.true('returned directory', os.path.samefile(out[0], sub))
        B.eq('returned loss', out[1], loss)
    B.true('predicted once, metrics once', log.count('predict') == 1 == log.count('metrics'))
    B.true('all components plotted', sorted(seen) == list(range(6)))
    B.true('time series of every component', {c for c, i in ts} == set(range(6)) and {i for c, i in ts} <= set(range(n)))
    left = sorted(k for k in os.listdir(sub) if os.path.isfile(os.path.join(sub, k)))
    keep = ['old_prediction_sample_0.pkl', 'prediction_sample_1.pkl.bak', 'prediction_sample_x.pkl', 'summary.dat']
    B.true('files left', left == sorted(keep + ([] if rm else ['prediction_sample_%d.pkl' % i for i in range(n)])))
    B.true('other predictions left', sorted(os.listdir(other)) == sorted(keep + ['prediction_sample_0.pkl']))
    B.true('model directory left', os.listdir(md) == ['model_init_file.pkl'])


@case('C37', params=[(f, dict(f=f)) for f in ('rnn', 'hybrid')], ntrials=1)
@scratch
def model_needed(B, d, f):
    """A prediction without a model is refused."""
    mod = U % (f, 'predict')
    M = B.mod(mod)
    data = Data(B, d, 'test', 2)
    os.mkdir(os.path.join(d, '3_model'))
    B.override(mod + ':predict', lambda *a, **kw: B.true('no prediction', False))
    B.raises('model missing', lambda: M.perform_model_prediction(d, data.path, os.path.join(d, '3_model')), RuntimeError)


OPTIONS = {'strain_to_stress': (6, 6), 'strain_to_pstrain': (6, 6), 'strain_to_stressvd': (6, 7), 'strain_i1_i2_to_stressvd': (8, 7)}


@case('C37', params=[(o, dict(o=o)) for o in OPTIONS], ntrials=3)
@scratch
def hybridised(B, d, o):
    """A hybridised recurrent model is scaled with the features it gets and gives, of the data set it is given."""
    mod = U % ('hybrid', 'train_model')
    M = B.mod(mod)
    n = 3
    data = Data(B, d, 'train', n, state=True)
    ni, no = OPTIONS[o]
    seen = {}

    def scaler(dataset, features_type, n_features, scaling_type='mean-std', *a, **kw):
        B.true('number of features', n_features == {'features_in': ni, 'features_out': no}[features_type] and features_type not in seen)
        B.true('number of samples', len(dataset) == n)
        B.true('scaling', scaling_type == 'mean-std')
        for i in range(n):
            if features_type == 'features_in':
                want = data.e[i]
                if ni == 8:
                    want = [list(r) + [r[0] + r[1] + r[2], r[0] * r[1] + r[1] * r[2] + r[0] * r[2] - r[3] * r[3] - r[4] * r[4] - r[5] * r[5]] for r in data.e[i]]
            elif o == 'strain_to_stress':
                want = data.s[i]
            elif o == 'strain_to_pstrain':
                want = [[a_ - b for a_, b in zip(r, q)] for r, q in zip(data.e[i], data.p[i])]
            else:
                want = []
                for r in data.s[i]:
                    m = (r[0] + r[1] + r[2]) * B.rat(1, 3)
                    want.append([m] + [r[k] - m for k in range(3)] + list(r[3:]))
            B.eq(features_type, dataset[i][features_type], want)
        seen[features_type] = 'scaler of ' + features_type
        return seen[features_type]
    B.override(mod + ':fit_data_scaler_from_dataset', scaler)
    B.override(mod + ':set_hybridized_model', Submodels())
    h = M.set_hybridized_gru_model((1, 2), o, data.dataset)
    B.true('both scalers', sorted(seen) == ['features_in', 'features_out'] and dict(h['scalers']) == seen)
    a = h['args']
    B.true('numbers of features', (a['n_features_in'], a['n_features_out']) == (ni, no))
    B.true('normalised', a['is_model_in_normalized'] and a['is_model_out_normalized'])
    B.true('place', tuple(h['hyb_indices']) == (1, 2) and not h['res'] and h['state'] is None)
    B.true('class', h['class'] == 'GRURNNModel')


def state(p):
    return open(p).read().split() if os.path.isfile(p) else None


@case('C37', params=[('%s_%d_%s' % (f, n, w), dict(f=f, n=n, w=w)) for f in FAMILIES for n, w in ((3, 'train'), (3, 'predict'), (1, 'train'))], ntrials=1)
@scratch
def ensemble(B, d, f, n, w):
    """Every model of an ensemble is kept, tested and reported on its own."""
    mod = U % (f, 'uncertainty_quantification')
    M = B.mod(mod)
    uq, md, pd = os.path.join(d, 'uq'), os.path.join(d, '3_model'), os.path.join(d, '7_prediction', 'in_distribution')
    os.mkdir(md), os.makedirs(pd)
    files = [os.path.join(d, k) for k in ('train.pkl', 'val.pkl', 'test.pkl')]
    for k in files:
        plain(k, ['x'])
    log = []

    def train(train_dataset_file_path, model_directory, val_dataset_file_path=None, **kw):
        B.true('training', (train_dataset_file_path, val_dataset_file_path) == tuple(files[:2]) and os.path.samefile(model_directory, md))
        plain(os.path.join(model_directory, 'state'), ['new %d' % log.count('train')])
        log.append('train')

    def predict(predict_directory, dataset_file_path, model_directory, **kw):
        B.true('prediction', dataset_file_path == files[2] and os.path.samefile(predict_directory, pd) and not kw.get('is_remove_sample_prediction', False))
        # a prediction makes a new subdirectory
        B.true('prediction directory', os.path.isdir(predict_directory))
        k = len([x for x in os.listdir(predict_directory) if x.startswith('prediction_set_')])
        sub = os.path.join(predict_directory, 'prediction_set_%d' % k)
        os.mkdir(sub)
        plain(os.path.join(sub, 'of'), [' '.join(state(os.path.join(model_directory, 'state')) or ['none'])])
        log.append('predict')
        return sub if f == 'rc' else (sub, 1.0)
    B.override(mod + ':perform_model_standard_training', train)
    B.override(mod + ':perform_model_prediction', predict)
    if w == 'predict' or n == 1:
        for i in range(n):
            if (w, i) != ('predict', 1):
                os.makedirs(os.path.join(uq, 'model_%d' % i, '3_model'))
                plain(os.path.join(uq, 'model_%d' % i, '3_model', 'state'), ['old %d' % i])
        os.makedirs(os.path.join(uq, 'model_0', '7_prediction', 'in_distribution'))
        plain(os.path.join(uq, 'model_0', '7_prediction', 'in_distribution', 'stale'), ['x'])
        os.makedirs(os.path.join(uq, 'model_0', '7_prediction', 'out_distribution'))
        plain(os.path.join(uq, 'model_0', '7_prediction', 'out_distribution', 'of'), ['kept'])
    M.perform_model_uq(uq, n, files[0], md, pd, files[2], is_model_training=w == 'train', val_dataset_file_path=files[1])
    B.true('trainings', log.count('train') == (n if w == 'train' else 0))
    for i in range(n):
        m = os.path.join(uq, 'model_%d' % i)
        if (w, i) == ('predict', 1):
            B.true('missing model not tested', not os.path.isdir(os.path.join(m, '7_prediction')))
            continue
        want = [('new' if w == 'train' else 'old'), str(i)]
        B.true('own model', state(os.path.join(m, '3_model', 'state')) == want)
        B.true('own predictions', os.listdir(os.path.join(m, '7_prediction', 'in_distribution')) == ['of']
               and state(os.path.join(m, '7_prediction', 'in_distribution', 'of')) == want)
        if (w, i) == ('predict', 0):
            B.true('other predictions kept', state(os.path.join(m, '7_prediction', 'out_distribution', 'of')) == ['kept'])
        if w == 'train':
            B.true('no other predictions', os.listdir(os.path.join(m, '7_prediction')) == ['in_distribution'])


@case('C37', params=[('%s_%d' % (f, n), dict(f=f, n=n)) for f, n in (('rnn', 3), ('rc', 11), ('hybrid', 2))], ntrials=2)
@scratch
def reported(B, d, f, n):
    """The spread of an ensemble is shown for the losses, parameters and predictions of its models, each as its own."""
    mod = U % (f, 'uncertainty_quantification')
    M = B.mod(mod)
    td = os.path.join(d, '5_testing_id_dataset')
    os.mkdir(td)
    data = Data(B, td, 'ss_paths_dataset', 6)
    uq = os.path.join(d, 'uncertainty_quantification')
    os.mkdir(uq)
    os.mkdir(os.path.join(uq, 'old'))
    loss = [B.var('loss%d' % i, nonneg=True) for i in range(n)]
    par = [{'E': B.var('E%d' % i), 'v': B.var('v%d' % i)} for i in range(n)]
    target = {i: B.array('targ%d_' % i, (2, 6)) for i in range(6)}
    P = []
    for i in sorted(range(n), key=lambda k: (7 * k + 3) % 13):
        where = os.path.join(uq, 'model_%d' % i, '7_prediction', 'in_distribution')
        P.append((i, Predictions(B, where, data, list(range(6)), tag='m%d_' % i, target=target)))
        plain(os.path.join(where, 'summary.dat'), ['Summary', 'Total prediction loss: 3', 'Avg. prediction loss per sample: ' + txt(B, loss[i]), 'Avg. time: 2.0'])
        os.mkdir(os.path.join(uq, 'model_%d' % i, '3_model'))
        dump(B, os.path.join(uq, 'model_%d' % i, '3_model', 'parameters_best.pkl'), {'best_model_parameters': par[i], 'model_parameters_bounds': {}})
    P = dict(P)
    boxes, ts = [], {}

    def box(data_boxplots, *a, **kw):
        boxes.append(data_boxplots)
        return None, None

    def series(prediction_sets, *a, filename=None, **kw):
        sets = prediction_sets
        q = filename.split('_')
        i = int(q[-1])
        c = [k for k in range(6) if ('stress_' + ORDER[k]) in filename]
        B.true('one plot', len(c) == 1 and (c[0], i) not in ts)
        c = c[0]
        ts[c, i] = True
        B.eq('plotted truth', sets['Ground-Truth'], [r[:2] for r in P[0].series(i, c)])
        B.eq('plotted realisations', sets['Realizations'], [[data.t[i][k][0]] + [P[j].pred[i][k][c] for j in range(n)] for k in range(2)])
    B.override(mod + ':plot_boxplots', box)
    B.override(mod + ':save_figure', lambda *a, **kw: None)
    B.override(mod + ':plt', Plt())
    B.override(mod + ':plot_time_series_prediction', series)
    M.gen_model_uq_plots(uq, n, td, 'in_distribution', is_save_fig=False, is_latex=False)
    B.true('number of box plots', len(boxes) == (2 if f == 'rc' else 1))
    for x in boxes:
        if tuple(x.shape) == (n, 1):
            B.eq('losses', x, [[v] for v in loss], rtol=1e-6)
        else:
            B.eq('parameters', x, [[p['E'], p['v']] for p in par])
    if f == 'rc':
        k = [p for p, _, q in os.walk(uq) if any('best_parameters' in z for z in q)]
        q = [z for z in os.listdir(k[0]) if 'best_parameters' in z and z.endswith('.pkl')]
        r = read(B, os.path.join(k[0], q[0]))
        B.true('stored names', tuple(r['model_parameters_names']) == ('E', 'v'))
        B.eq('stored parameters', r['samples_parameters_data'], [[p['E'], p['v']] for p in par])
    B.true('time series of every component', {c for c, i in ts} == set(range(6)))


CP = 'model_architectures.procedures.convergence_plots'
SIZES = (4, 1, 2)


def studies(B, d, uq=0):
    """Models trained on data sets of different sizes and tested on the same data set, each with its own predictions (of uq realisations)."""
    S = []
    data = None
    target = {i: [[B.num(100 + i)] * 2] + [list(r) for r in B.array('targ%d_' % i, (1, 2))] for i in range(3)}
    for k, n in enumerate(SIZES):
        b = os.path.join(d, 'case_%d' % k)
        tr, te = os.path.join(b, '1_training_dataset'), os.path.join(b, '5_testing_id_dataset')
        pd = os.path.join(b, '7_prediction', 'in_distribution', 'prediction_set_0')
        for q in (tr, te, os.path.join(b, '3_model')):
            os.makedirs(q)
        Data(B, tr, 'ss_paths_dataset', n, T=1)
        data = Data(B, te, 'ss_paths_dataset', 3)
        par = {'E': B.var('E%d' % k), 'v': B.var('v%d' % k)}
        dump(B, os.path.join(b, '3_model', 'parameters_best.pkl'), {'best_model_parameters': par, 'model_parameters_bounds': {}})
        P, loss = {}, {}
        for j in sorted(range(uq or 1), key=lambda q: (7 * q + 3) % 13):
            where = os.path.join(b, 'uncertainty_quantification', 'model_%d' % j, '7_prediction', 'in_distribution') if uq else pd
            P[j] = Predictions(B, where, data, [0, 1, 2], tag='p%d_%d_' % (k, j), width=2, target=target)
            loss[j] = B.var('loss%d_%d' % (k, j), nonneg=True)
            plain(os.path.join(where, 'summary.dat'), ['Avg. prediction time per sample: 2.0', 'Avg. prediction loss per sample | ' + txt(B, loss[j]), 'Other: 3.0'])
        S.append(dict(base=b, train=tr, test=te, pred=pd, n=n, par=par, P=P, loss=loss, data=data, target=target))
    return S


def plotting(B, **kw):
    for k in ('scatter_xy_data', 'plot_boxplots', 'save_figure', 'plot_time_series_prediction', 'plot_truth_vs_prediction'):
        B.override(CP + ':' + k, kw.get(k) or (lambda *a, **k_: B.true('unexpected plot', False)))
    B.override(CP + ':plt', Plt())


@case('C37', params=[('uq%d' % q, dict(q=q)) for q in (0, 2, 11)], ntrials=3)
@scratch
def loss_convergence(B, d, q):
    """The loss of every model is shown against the size of its own training data set."""
    M = B.mod(CP)
    S = studies(B, d, q)
    got = []
    plotting(B, scatter_xy_data=lambda data_xy, *a, **kw: (got.append(data_xy), (None, None))[1])
    f = M.plot_prediction_loss_convergence_uq if q else M.plot_prediction_loss_convergence
    out = os.path.join(d, 'plots')
    os.mkdir(out)
    f([s['base'] for s in S], [s['train'] for s in S], [s['pred'] for s in S], filename='name', save_dir=out, is_save_fig=False, is_save_plot_data=True, is_latex=False)
    want = [[v for j in range(q or 1) for v in (B.num(s['n']), s['loss'][j])] for s in S]
    B.true('one plot', len(got) == 1)
    for x in got + [read(B, os.path.join(out, 'plot_data', 'name_data.pkl'))['data_xy']]:
        B.true('shape', tuple(x.shape) == (3, 2 * (q or 1)))
        B.eq('sizes and losses', x, want, rtol=1e-6)


@case('C37', params=[('one', dict(q=0)), ('ensemble', dict(q=3))], ntrials=3)
@scratch
def parameters_convergence(B, d, q):
    """The best parameters of every model are shown against the size of its own training data set."""
    M = B.mod(CP)
    S = studies(B, d)
    got = []
    if not q:
        plotting(B, scatter_xy_data=lambda data_xy, *a, **kw: (got.append((kw.get('y_label'), data_xy)), (None, None))[1])
        M.plot_best_parameters_convergence([s['base'] for s in S], [s['train'] for s in S], is_latex=False)
        B.true('one plot per parameter', [g[0] for g in got] == ['E', 'v'])
        for name, x in got:
            B.eq('sizes and parameters', x, [[B.num(s['n']), s['par'][name]] for s in S])
        return
    val = {}
    for k, s in enumerate(S):
        p = os.path.join(s['base'], 'uncertainty_quantification', 'plots', 'data')
        os.makedirs(p)
        val[k] = B.array('val%d_' % k, (q, 2))
        dump(B, os.path.join(p, 'model_uq_best_parameters_data.pkl'), {'model_parameters_names': ('E', 'v'), 'samples_parameters_data': B.arr(B.tensor(val[k]))})
    plotting(B, plot_boxplots=lambda data_boxplots, data_labels, *a, **kw: (got.append((kw.get('y_label'), data_labels, data_boxplots)), (None, None))[1])
    M.plot_best_parameters_convergence_uq([s['base'] for s in S], [s['train'] for s in S], is_latex=False)
    B.true('one plot per parameter', [g[0] for g in got] == ['E', 'v'])
    for name, labels, x in got:
        B.true('sizes', [int(v) for v in labels] == list(SIZES))
        c = ('E', 'v').index(name)
        B.eq('parameters of the realisations', x, [[val[k][i][c] for k in range(3)] for i in range(q)])


@case('C37', params=[('%s_uq%d_%s' % (k, q, s), dict(k=k, q=q, s=s)) for k, q, s in (('scatter', 0, 'all'), ('path', 0, 'some'), ('path', 0, 'all'), ('path', 2, 'some'), ('path', 11, 'all'))],
      ntrials=3)
@scratch
def series_convergence(B, d, k, q, s):
    """Predictions are shown under the training data set size of the model that made them."""
    M = B.mod(CP)
    S = studies(B, d, q)
    ids = 'all' if s == 'all' else [2, 0]
    seen = []

    def truth(prediction_sets, *a, filename=None, **kw):
        sets = prediction_sets
        c = ('_stress_11' in filename, '_stress_22' in filename).index(True)
        seen.append(c)
        B.true('models', sorted(sets) == sorted('N = %d' % x['n'] for x in S))
        for x in S:
            if s == 'some':
                x['P'][0].ids = ids
            x['P'][0].check_array('pairs', sets['N = %d' % x['n']], c)

    def series(prediction_sets, *a, filename=None, **kw):
        sets = prediction_sets
        c, i = ('_stress_11' in filename, '_stress_22' in filename).index(True), int(filename.split('_')[-1])
        seen.append((c, i))
        B.true('models', sorted(sets) == sorted(['Ground-Truth'] + ['N = %d' % x['n'] for x in S]))
        B.eq('truth', sets['Ground-Truth'], [r[:2] for r in S[0]['P'][0].series(i, c)])
        for x in S:
            B.eq('predictions', sets['N = %d' % x['n']], [[x['data'].t[i][t][0]] + [x['P'][j].pred[i][t][c] for j in range(q or 1)] for t in range(2)])
    plotting(B, **({'plot_truth_vs_prediction': truth} if k == 'scatter' else {'plot_time_series_prediction': series}))
    f = M.plot_time_series_convergence_uq if q else M.plot_time_series_convergence
    f([x['base'] for x in S], [x['train'] for x in S], [x['test'] for x in S], [x['pred'] for x in S], {'stress_comps': ('stress_11', 'stress_22')},
      plot_type='time_series_' + k, samples_ids=ids, is_latex=False)
    want = [0, 1] if k == 'scatter' else [(c, i) for c in (0, 1) for i in ((0, 1, 2) if s == 'all' else (0, 2))]
    B.true('all plotted', sorted(seen) == want)


@case('C37', name='finder_training', ntrials=2)
@scratch
def finder_training(B, d):
    """The material model finder is trained with the specimen data and material state of the given files."""
    mod = 'user_scripts.global_model_update.material_finder.train_model'
    M = B.mod(mod)
    md = os.path.join(d, '3_model')
    os.mkdir(md)
    log = []
    hist = [B.var('loss%d' % i) for i in range(3)]
    lr = [B.var('lr%d' % i) for i in range(3)]

    class Item:
        def __init__(self, k):
            self.k, self.device = k, None

        def update_material_models_device(self, device):
            self.device = device
    items = {os.path.join(d, k): Item(k) for k in ('specimen_data.pkl', 'specimen_material_state.pkl')}
    for k in items:
        plain(k, ['x'])

    class Torch:
        def __getattr__(self, name):
            return getattr(B.torch, name)

        def load(self, path, *a, **kw):
            return items[path]

    def train_model(n_max_epochs, specimen_data, specimen_material_state, model_init_args, *a, **kw):
        log.append('train')
        B.true('specimen', specimen_data.k == 'specimen_data.pkl' and specimen_material_state.k == 'specimen_material_state.pkl')
        B.true('device', specimen_material_state.device == 'cpu' == kw.get('device_type', 'cpu') == model_init_args['device_type'])
        B.true('directory', os.path.samefile(model_init_args['model_directory'], md))
        B.true('new training', kw.get('model_load_state') is None)
        dump(B, os.path.join(md, 'loss_history_record.pkl'), dict(loss_nature='x', loss_type='y', training_loss_history=hist, validation_loss_history=None,
                                                                  lr_scheduler_type='explr', lr_history_epochs=lr))
        dump(B, os.path.join(md, 'parameters_history_record.pkl'), {'model_parameters_history': {'m': {'E': hist}}, 'model_parameters_bounds': {'m': {'E': (1, 2)}}})
        return 'the model', None, None

    def plot_loss(loss_history, *a, **kw):
        loss = loss_history
        log.append('loss')
        B.true('plotted losses', sorted(loss) == ['Training'])
        B.eq('plotted training loss', loss['Training'], hist)

    def plot_lr(loss_history, lr_history, *a, **kw):
        log.append('lr')
        B.eq('plotted training loss and rate', [loss_history, lr_history], [hist, lr])

    def summary(model, *a, **kw):
        log.append('summary')
        B.true('summary of the trained model', model == 'the model')
    B.override(mod + ':torch', Torch())
    B.override(mod + ':train_model', train_model)
    B.override(mod + ':plot_training_loss_history', plot_loss)
    B.override(mod + ':plot_training_loss_and_lr_history', plot_lr)
    B.override(mod + ':plot_model_parameters_history', lambda *a, **kw: log.append('par'))
    B.override(mod + ':get_model_summary', summary)
    M.perform_model_standard_training(os.path.join(d, 'specimen_data.pkl'), os.path.join(d, 'specimen_material_state.pkl'), md)
    B.true('all done', sorted(log) == ['loss', 'lr', 'par', 'summary', 'train'])
