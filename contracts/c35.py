"""C35: data set pruning: which samples are left, and what every model is trained and tested on."""
import os
import pickle
import re
import numpy as np
from contracts.c31 import scratch, plain
from vf.engine import case
FUNCTIONS = ['prune_time_series_dataset', 'setup_pruning_dirs', 'set_pruning_iter_dir', 'get_n_prun_sample', 'perform_pruning_step', 'set_pruning_step_dir',
             'write_summary_file', 'load_full_dataset', 'read_samples_loss_from_dir']
ASSUMPTIONS = ['training and prediction are known by their contracts only (C28, C29, C37): they use the files they are given, and every sample may have any loss',
               'split_dataset is known by its contract (C23): any partition with the requested sizes (several enumerated)',
               'data set sizes and pruning parameters are enumerated; sample contents and losses are arbitrary',
               'the file system is the real one, in a scratch directory']
PR = 'miscellaneous.pruning.pruning_dataset'
TD = 'time_series_data.time_dataset'


def parts(n, sizes):
    """Sizes of the subsets of a data set of n samples split by fractions."""
    k = [int(np.floor(f * n)) for f in sizes]
    for i in range(n - sum(k)):
        k[i % len(k)] += 1
    return k


class World:
    """Stand-ins for splitting, training and prediction; records what each is given."""

    def __init__(self, B, d, n, seed=0, metrics=()):
        self.metrics = metrics
        self.B, self.d, self.seed = B, d, seed
        self.M, self.T = B.mod(PR), B.mod(TD)
        self.log = []
        self.nsplit = 0
        self.x = [B.array('x%d_' % i, (2, 1)) for i in range(n)]
        self.full = self.T.TimeSeriesDatasetInMemory([self.sample(i) for i in range(n)])
        B.override(PR + ':split_dataset', self.split)
        B.override(PR + ':perform_model_standard_training', self.train)
        B.override(PR + ':perform_model_prediction', self.predict)
        B.override(PR + ':read_mean_metrics_results_file', self.read_metrics)

    def sample(self, i):
        return {'id': i, 'x': self.B.tensor(self.x[i])}

    def split(self, dataset, split_sizes, is_copy_dataset=False, is_save_subsets=False, subsets_directory=None, subsets_basename=None, seed=None):
        n, self.nsplit = len(dataset), self.nsplit + 1
        rng = np.random.RandomState(self.seed * 100 + self.nsplit)
        perm = [int(i) for i in rng.permutation(n)]
        out, at = {}, 0
        for name, k in zip(split_sizes, parts(n, split_sizes.values())):
            if k < 1:
                raise RuntimeError('empty subset')
            out[name] = self.B.torch.utils.data.Subset(dataset, perm[at:at + k])
            at += k
        self.last = {k: self.ids(v) for k, v in out.items()}
        return out

    @staticmethod
    def ids(ds):
        return [ds[i]['id'] for i in range(len(ds))]

    def train(self, train_dataset_file_path, model_directory, val_dataset_file_path=None, **kw):
        # both files are read when training starts
        t = self.T.load_dataset(train_dataset_file_path)
        v = self.T.load_dataset(val_dataset_file_path)
        self.content(t), self.content(v)
        self.log.append(('train', self.ids(t), self.ids(v), model_directory, os.path.isdir(model_directory)))

    def content(self, ds):
        for i in range(len(ds)):
            self.B.eq('samples are handed on unchanged', ds[i]['x'], self.x[ds[i]['id']])

    def loss(self, k, i):
        return self.B.var('loss%d_%d' % (k, i), nonneg=True, dist=(0, 9))

    def predict(self, predict_directory, dataset_file_path, model_directory, **kw):
        k = sum(e[0] == 'predict' for e in self.log)
        t = self.T.load_dataset(dataset_file_path)
        self.content(t)
        sub = os.path.join(predict_directory, 'prediction_set_0')
        os.mkdir(sub)
        ids = self.ids(t)
        if not kw.get('is_remove_sample_prediction'):
            for j in [(7 * q + 3) % 13 for q in range(13)]:
                if j < len(ids):
                    dump(self.B, os.path.join(sub, 'prediction_sample_%d.pkl' % j), {'prediction_loss_data': ('features_out', 'mse', self.loss(k, ids[j]), False)})
        if k in self.metrics:
            os.mkdir(os.path.join(sub, 'prediction_metrics'))
            plain(os.path.join(sub, 'prediction_metrics', 'mean_prediction_metrics.dat'), [str(k)])
        self.log.append(('predict', ids, model_directory, sub, os.path.isdir(model_directory)))
        return sub, self.B.var('avg%d' % k, nonneg=True, dist=(0, 9))


    def read_metrics(self, path):
        k = int(open(path).read())
        return {'rmse': self.B.tensor(self.B.array('rmse%d_' % k, (3,))), 'nrmse': self.B.tensor(self.B.array('nrmse%d_' % k, (3,)))}


def dump(B, path, obj):
    from vf import symtorch
    with open(path, 'wb') as f:
        (symtorch.pickle_dump if B.sym else pickle.dump)(obj, f)


def read(B, path):
    from vf import symtorch
    with open(path, 'rb') as f:
        return (symtorch.pickle_load if B.sym else pickle.load)(f)


STEP = {'training': 0.6, 'validation': 0.2, 'testing': 0.2}
EVEN = {'training': 0.4, 'validation': 0.3, 'testing': 0.3}
TEST = {'training': 0.3, 'validation': 0.2, 'testing': 0.5}


def params(n_full, sched=('constant', 1), n_dev_min=2, ratio=0.01, test_min=1, test_ratio=1.0, step=STEP, n_iter=5, it=None):
    return {'n_iter_max': n_iter, 'prun_scheduler_type': sched[0],
            'prun_scheduler_params': {'n_prun_sample': sched[1]} if sched[0] == 'constant' else {'prun_ratio': sched[1]},
            'n_dev_min': n_dev_min, 'ratio_dev_min': ratio, 'n_prun_test_min': test_min, 'prun_test_ratio_max': test_ratio,
            'pruning_step_sizes': dict(step), 'pruning_iter_sizes': dict(it or {'training': 0.75, 'validation': 0.25}), 'n_full': n_full}


# data set size, samples already unused, samples to prune, further parameters, admissible
STEPS = [('one', 5, 0, 1, {}, True), ('two_of_three', 10, 3, 2, dict(step=EVEN), True), ('equal_sizes', 10, 0, 1, {}, True),
         ('all_tested', 10, 1, 2, {}, True), ('half', 8, 2, 2, dict(step=TEST, test_ratio=0.5), True), ('none', 6, 2, 0, dict(step=EVEN), True),
         ('proportional', 12, 2, 0.1, dict(step=EVEN), True), ('three', 6, 1, 2, dict(step=TEST), True),
         ('smallest', 5, 3, 1, dict(n_dev_min=5), False), ('above_smallest', 6, 3, 1, dict(n_dev_min=5, step=EVEN), True),
         ('ratio', 5, 5, 1, dict(ratio=0.6), False), ('above_ratio', 7, 3, 1, dict(ratio=0.6, step=EVEN), True),
         ('few_tests', 10, 0, 1, dict(test_min=3), False), ('enough_tests', 10, 0, 1, dict(test_min=2), True),
         ('many_pruned', 10, 2, 2, dict(test_ratio=0.6), False), ('more_pruned_than_tested', 10, 2, 3, {}, False),
         ('many_pruned_of_three', 10, 2, 2, dict(test_ratio=0.6, step=EVEN), False)]


@case('C35', params=[(s[0], dict(n=s[1], un=s[2], pr=s[3], kw=s[4], ok=s[5])) for s in STEPS], ntrials=6)
@scratch
def step(B, d, n, un, pr, kw, ok):
    """An admissible step moves exactly the best predicted test samples to the unused ones; another one changes nothing."""
    for seed in (0, 1):
        w = World(B, d, n + un, seed)
        dev = w.T.TimeSeriesDatasetInMemory([w.sample(i) for i in range(n)])
        unused = w.T.TimeSeriesDatasetInMemory([w.sample(i) for i in range(n, n + un)])
        root = os.path.join(d, 'p%d' % seed)
        os.mkdir(root)
        plain(os.path.join(root, 'other.txt'), ['kept'])
        p = params(n + un, ('proportional', pr) if isinstance(pr, float) else ('constant', pr), **kw)
        keep = repr(p)
        valid, status, dev2, unused2 = w.M.perform_pruning_step(root, p, dev, unused)
        B.true('admissible or not', bool(valid) == ok)
        B.true('status', isinstance(status, str) and bool(status))
        B.true('parameters unchanged', repr(p) == keep)
        B.true('intermediate files removed', sorted(os.listdir(root)) == ['other.txt'])
        k = int(pr * n) if isinstance(pr, float) else pr
        a, b = w.ids(dev2), w.ids(unused2)
        if not ok:
            B.true('nothing changed', a == list(range(n)) and b == list(range(n, n + un)) and not [e for e in w.log])
            continue
        B.true('one training and one prediction', [e[0] for e in w.log] == ['train', 'predict'])
        tr, te = w.log
        B.true('training and validation sets', tr[1] == w.last['training'] and tr[2] == w.last['validation'])
        B.true('test set', te[1] == w.last['testing'])
        B.true('prediction with the trained model', te[2] == tr[3] and tr[4] and te[4])
        gone = [i for i in range(n) if i not in a]
        B.true('number of pruned samples', len(gone) == k and len(a) == n - k)
        B.true('pruned samples were tested', set(gone) <= set(te[1]))
        B.true('no sample is lost or repeated', sorted(a + b) == list(range(n + un)))
        B.true('order kept', a == sorted(a) and b[:un] == list(range(n, n + un)))
        for i in gone:
            for j in te[1]:
                if j not in gone:
                    B.le('better predicted than those left', w.loss(0, i), w.loss(0, j))
        w.content(dev2), w.content(unused2)
        if seed == 0 and k > 1:
            break


@case('C35', params=[('few', dict(ids=(0, 1, 2))), ('many', dict(ids=tuple(range(12)))), ('gaps', dict(ids=(3, 10, 100, 20)))], ntrials=3)
@scratch
def losses(B, d, ids):
    """Every sample gets the loss of its own file; other files are left out."""
    M = B.mod(PR)
    v = {i: B.var('loss%d' % i) for i in ids}
    for i in sorted(ids, key=str, reverse=True):
        dump(B, os.path.join(d, 'prediction_sample_%d.pkl' % i), {'prediction_loss_data': ('features_out', 'mse', v[i], True), 'features_out': i})
    for o in ('prediction_sample_1.pkl.bak', 'prediction_sample_.pkl', 'my_prediction_sample_2.pkl', 'sample_5.pkl'):
        plain(os.path.join(d, o), ['x'])
    a, b = M.read_samples_loss_from_dir(d)
    B.true('samples in order', [int(i) for i in a] == sorted(ids))
    B.true('one loss each', len(b) == len(ids))
    for i, x in zip(sorted(ids), b):
        B.eq('loss of sample %d' % i, x, v[i])


@case('C35', ntrials=1)
@scratch
def losses_missing(B, d):
    M = B.mod(PR)
    B.raises('no such directory', lambda: M.read_samples_loss_from_dir(os.path.join(d, 'none')), RuntimeError)
    B.raises('empty directory', lambda: M.read_samples_loss_from_dir(d), RuntimeError)
    plain(os.path.join(d, 'other.txt'), ['x'])
    B.raises('no sample', lambda: M.read_samples_loss_from_dir(d), RuntimeError)
    dump(B, os.path.join(d, 'prediction_sample_0.pkl'), {'features_out': 1})
    B.raises('no loss', lambda: M.read_samples_loss_from_dir(d), RuntimeError)
    B.raises('no full data set', lambda: M.load_full_dataset(d), RuntimeError)


def base(B, w, d, types, n_test=2, extra=True):
    """Base directories of a pruning process; the test data sets hold their own samples."""
    root = os.path.join(d, 'pruning')
    os.makedirs(os.path.join(root, 'base_datasets'))
    dirs = {'full': '1_training_dataset', 'in_distribution': '5_testing_id_dataset', 'out_distribution': '6_testing_od_dataset'}
    tests = {}
    n = len(w.full)
    for q, (k, name) in enumerate(dirs.items()):
        if k != 'full' and k not in types:
            continue
        p = os.path.join(root, 'base_datasets', name)
        os.mkdir(p)
        if k == 'full':
            ds = w.full
        else:
            tests[k] = list(range(n + 10 * q, n + 10 * q + n_test))
            w.x += [None] * (tests[k][-1] + 1 - len(w.x))
            for i in tests[k]:
                w.x[i] = B.array('x%d_' % i, (2, 1))
            ds = w.T.TimeSeriesDatasetInMemory([w.sample(i) for i in tests[k]])
        dump(B, os.path.join(p, 'ss_paths_dataset_n%d.pkl' % len(ds)), ds)
        if extra:
            plain(os.path.join(p, 'summary.dat'), ['s'])
            os.mkdir(os.path.join(p, 'plots'))
            plain(os.path.join(p, 'plots', 'a.pdf'), ['p'])
    return root, tests


def tree(root):
    return sorted(os.path.relpath(os.path.join(a, f), root) for a, _, fs in os.walk(root) for f in fs)


ALL = ('in_distribution', 'out_distribution', 'unused_data')
RUNS = [('two_steps', dict(n=10, types=ALL, kw=dict(n_iter=2), left=[10, 9, 8])), ('limit', dict(n=6, types=('in_distribution',), kw=dict(n_dev_min=5, n_iter=9), left=[6, 5])),
        ('proportional', dict(n=12, types=('unused_data', 'in_distribution'), kw=dict(sched=('proportional', 0.17), n_iter=2, step=STEP), left=[12, 10, 9])),
        ('no_step', dict(n=5, types=('unused_data',), kw=dict(n_iter=0), left=[5])), ('too_small', dict(n=5, types=ALL, kw=dict(test_min=3), left=[5])),
        ('models_removed', dict(n=5, types=('out_distribution',), kw=dict(n_iter=1), left=[5, 4]))]


@case('C35', params=RUNS, ntrials=3)
@scratch
def run(B, d, n, types, kw, left):
    """The whole process: every iteration trains on what is left, tests on the requested sets, and no sample is ever lost."""
    w = World(B, d, n, metrics=(0, 2, 3, 4))
    root, tests = base(B, w, d, types)
    src = tree(os.path.join(root, 'base_datasets'))
    p = params(n, **kw)
    del p['n_full']
    rm = kw.get('n_iter') == 1
    pp, data = w.M.prune_time_series_dataset(root, types, pruning_params=p, is_remove_pruning_models=rm)
    B.true('iterations', sorted(data) == sorted(str(i) for i in range(len(left))))
    B.true('base data sets left as they are', tree(os.path.join(root, 'base_datasets')) == src)
    full = read(B, os.path.join(root, 'base_datasets', '1_training_dataset', 'ss_paths_dataset_n%d.pkl' % n))
    B.true('full data set left as it is', w.ids(full) == list(range(n)))
    log, unused, dev = list(w.log), [], list(range(n))
    nt = -1
    for k, m in enumerate(left):
        it = data[str(k)]
        if k:
            tr, te = log.pop(0), log.pop(0)
            nt += 1
            B.true('pruning step', tr[0] == 'train' and te[0] == 'predict' and sorted(tr[1] + tr[2] + te[1]) == dev)
        tr = log.pop(0)
        B.true('iteration model', tr[0] == 'train' and tr[4])
        now = sorted(tr[1] + tr[2])
        B.true('trained on the samples left', len(now) == m and set(now) <= set(dev))
        if k:
            gone = [i for i in dev if i not in now]
            B.true('pruned among the tested', set(gone) <= set(te[1]))
            for i in gone:
                for j in te[1]:
                    if j not in gone:
                        B.le('best predicted pruned', w.loss(nt, i), w.loss(nt, j))
            unused += gone
        dev = now
        sz = parts(m, (0.75, 0.25))
        B.true('sizes', (it['n_full'], it['iter'], it['n_dev'], it['n_train'], it['n_valid'], it['n_unused']) == (n, k, m, sz[0], sz[1], n - m))
        B.true('split', (len(tr[1]), len(tr[2])) == tuple(sz))
        B.true('tested sets', list(it['testing_types_loss']) == list(types) and list(it['testing_types_avg_nrmse']) == list(types))
        for t in types:
            if t == 'unused_data' and not unused:
                B.true('nothing to test yet', it['testing_types_loss'][t] is None and it['testing_types_avg_nrmse'][t] is None)
                continue
            te2 = log.pop(0)
            nt += 1
            B.true('test set %s' % t, te2[0] == 'predict' and sorted(te2[1]) == (sorted(unused) if t == 'unused_data' else tests[t]))
            B.true('tested with the model of the iteration', te2[2] == tr[3] and te2[4])
            B.eq('test loss %s' % t, it['testing_types_loss'][t], B.var('avg%d' % nt, nonneg=True, dist=(0, 9)))
            e = it['testing_types_avg_nrmse'][t]
            if nt in w.metrics:
                v = B.array('nrmse%d_' % nt, (3,))
                B.eq('mean error %s' % t, e, (v[0] + v[1] + v[2]) / 3)
            else:
                B.true('no metrics', e is None)
        B.true('model directory', os.path.isdir(tr[3]) == (not rm))
    B.true('nothing else was trained or predicted', not log)
    B.true('no sample is lost', sorted(dev + unused) == list(range(n)))
    B.true('parameters returned', pp['n_full'] == n and all(pp[k] == v for k, v in p.items()))
    stored = read(B, os.path.join(root, 'pruning_data.pkl'))
    B.true('stored results', sorted(stored['pruning_iterative_data']) == sorted(data) and
           all(stored['pruning_iterative_data'][k]['n_dev'] == data[k]['n_dev'] for k in data) and stored['pruning_params']['n_full'] == n)
    lines = [l.split() for l in open(os.path.join(root, 'summary.dat')).read().splitlines()]
    rows = [l for l in lines if len(l) >= 9 and l[0].isdigit()]
    B.true('summary', [(int(l[0]), int(l[1]), int(l[3]), int(l[5]), int(l[7])) for l in rows] ==
           [(k, m, parts(m, (0.75, 0.25))[0], parts(m, (0.75, 0.25))[1], n - m) for k, m in enumerate(left)])
    B.true('summary ratios', all(abs(float(l[q]) - 100 * int(l[q - 1]) / n) < 0.051 for l in rows for q in (2, 4, 6, 8)))


@case('C35', params=[('id', dict(types=('in_distribution',))), ('all', dict(types=ALL)), ('none', dict(types=()))], ntrials=2)
@scratch
def iteration_files(B, d, types):
    """Directory of an iteration: the given sets, the test data files alone, empty directories for model and predictions."""
    w = World(B, d, 7)
    root, tests = base(B, w, d, types)
    _, pd, fd, td = w.M.setup_pruning_dirs(root, types)
    B.true('directories', os.path.isdir(pd) and list(td) == list(types) and (('unused_data' not in types) or td['unused_data'] is None))
    B.true('full data set', w.ids(w.M.load_full_dataset(fd)) == list(range(7)))
    S = B.torch.utils.data.Subset
    tr, va, un = S(w.full, [4, 0, 2]), S(w.full, [1, 6]), w.T.TimeSeriesDatasetInMemory([w.sample(3), w.sample(5)])
    src = tree(os.path.join(root, 'base_datasets'))
    it, md, tp, vp, tt, pr = w.M.set_pruning_iter_dir(pd, tr, va, un, test_dataset_dirs=td)
    for nm, path, want in [('training', tp, [4, 0, 2]), ('validation', vp, [1, 6])] + [(t, tt[t], tests.get(t, [3, 5])) for t in types]:
        ds = w.T.load_dataset(path)
        B.true('%s file' % nm, w.ids(ds) == want and os.path.dirname(os.path.dirname(path)) == it)
        w.content(ds)
    B.true('a directory of its own each', len({os.path.dirname(x) for x in [tp, vp] + list(tt.values())}) == 2 + len(types))
    for t in types:
        B.true('only the data set is copied', os.listdir(os.path.dirname(tt[t])) == [os.path.basename(tt[t])])
        B.true('empty prediction directory', os.path.isdir(pr[t]) and not os.listdir(pr[t]))
    B.true('no other test sets', set(tt) == set(types) and set(pr) == set(types))
    B.true('model directory', os.path.isdir(md) and not os.listdir(md))
    B.true('base data sets left as they are', tree(os.path.join(root, 'base_datasets')) == src)


@case('C35', params=[('equal', dict(a=[4, 0, 2], v=[1, 6], t=[3, 5])), ('other', dict(a=[0, 1, 2, 3], v=[6], t=[5, 4]))], ntrials=2)
@scratch
def step_files(B, d, a, v, t):
    """The three sets of a pruning step are stored as given, whatever their sizes."""
    w = World(B, d, 7)
    S = B.torch.utils.data.Subset
    out = w.M.set_pruning_step_dir(d, S(w.full, a), S(w.full, v), S(w.full, t))
    for nm, path, want in (('training', out[2], a), ('validation', out[3], v), ('test', out[4], t)):
        ds = w.T.load_dataset(path)
        B.true('%s set' % nm, w.ids(ds) == want)
        w.content(ds)
    B.true('one file each', len(set(out[2:5])) == 3)


@case('C35', ntrials=1)
@scratch
def refused(B, d):
    w = World(B, d, 3)
    M = w.M
    B.raises('no directory', lambda: M.setup_pruning_dirs(os.path.join(d, 'none'), ()), RuntimeError)
    B.raises('no base data sets', lambda: M.setup_pruning_dirs(d, ()), RuntimeError)
    root, _ = base(B, w, d, ())
    B.raises('unknown test', lambda: M.setup_pruning_dirs(root, ('other',)), RuntimeError)
    B.raises('test set not there', lambda: M.setup_pruning_dirs(root, ('in_distribution',)), RuntimeError)
    B.raises('unknown scheduler', lambda: M.get_n_prun_sample('other', {}, w.full), RuntimeError)
    B.raises('unknown summary', lambda: M.write_summary_file(d, {}, mode='other'), RuntimeError)
    B.raises('unknown test set', lambda: M.set_pruning_iter_dir(d, w.full, w.full, w.full, test_dataset_dirs={'other': d}), RuntimeError)
    B.raises('unused samples not given', lambda: M.set_pruning_iter_dir(d, w.full, w.full, None, test_dataset_dirs={'unused_data': None}), RuntimeError)


@case('C35', ntrials=1)
def schedule(B):
    """Constant or proportional number of samples."""
    M = B.mod(PR)
    for n in (1, 5, 10, 20, 39, 40, 100):
        for k in (0, 1, 4):
            B.true('constant', M.get_n_prun_sample('constant', {'n_prun_sample': k}, list(range(n))) == k)
        for r in (0.05, 0.25, 0.5, 1.0):
            B.true('proportional', M.get_n_prun_sample('proportional', {'prun_ratio': r}, list(range(n))) == int(r * n))
    p = M.set_default_pruning_parameters()
    B.true('default parameters', abs(sum(p['pruning_step_sizes'].values()) - 1) < 1e-12 and abs(sum(p['pruning_iter_sizes'].values()) - 1) < 1e-12 and
           M.get_n_prun_sample(p['prun_scheduler_type'], p['prun_scheduler_params'], list(range(100))) >= 1)
