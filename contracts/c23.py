"""C23: time series data sets."""
import itertools
import os
import shutil
import tempfile
import numpy as np
from vf.engine import case
FUNCTIONS = ['time_collator', 'get_time_series_data_loader', 'change_dataset_features_labels', 'add_dataset_feature_init',
             'concatenate_dataset_features', 'sum_dataset_features', 'split_dataset', 'get_parent_dataset_indices',
             'TimeSeriesDatasetInMemory', 'TimeSeriesDataset', 'add_strain_features', 'compute_strain_feature', 'build_strain_from_comps',
             'add_stress_features', 'compute_stress_feature', 'build_stress_from_comps', 'store_stress_comps', 'save_dataset', 'load_dataset']
ASSUMPTIONS = ['sample values are arbitrary; the number of samples (up to 4), sequence lengths and feature widths (up to 3) are enumerated',
               'torch.save / torch.load return a copy of what was last saved; DataLoader hands consecutive batches to the collator; '
               'random_split partitions (library contracts, the last one sampled on the real library in case split)',
               'renaming maps whose new labels collide with other existing labels are outside the contract']
TD = 'time_series_data.time_dataset'
SF = 'model_architectures.materials.strain_features'
TF = 'model_architectures.materials.stress_features'
W = {'a': 2, 'b': 2, 'c': 1, 'd': 3}


def samples(B, n, feats='abcd'):
    return [{f: B.array('%s%d_' % (f, i), (1 + (i + 1) % 3, W[f])) for f in feats} for i in range(n)]


def build(B, kind, smp, extra=None):
    """The same samples in memory or in files."""
    M = B.mod(TD)
    ts = [dict({k: B.tensor(v) for k, v in s.items()}, **(extra or {})) for s in smp]
    if kind == 'memory':
        return M.TimeSeriesDatasetInMemory(ts), None
    d = tempfile.mkdtemp(prefix='vf_c23_')
    files = []
    for i, s in enumerate(ts):
        p = os.path.join(d, 'sample_%d.pt' % i)
        open(p, 'wb').close()
        B.torch.save(s, p)
        files.append(p)
    return M.TimeSeriesDataset(d, files), d


def times(w, a):
    o = np.empty(a.shape, object)
    for p in np.ndindex(*a.shape):
        o[p] = w * a[p]
    return o


class Store:
    def __init__(self, B, kind, smp, extra=None):
        self.a = (B, kind, smp, extra)

    def __enter__(self):
        self.ds, self.d = build(*self.a)
        return self.ds

    def __exit__(self, *e):
        if self.d:
            shutil.rmtree(self.d)


def content(B, name, ds, want, extra=None):
    B.true(name + ': number of samples', len(ds) == len(want))
    if len(ds) != len(want):
        return
    for i in range(len(want)):
        s = ds[i]
        B.true('%s: features of sample %d' % (name, i), set(s) == set(want[i]) | set(extra or {}))
        for k in want[i]:
            if k in s:
                B.true('%s: shape of %s in sample %d' % (name, k, i), tuple(s[k].shape) == tuple(want[i][k].shape))
                B.eq('%s: %s in sample %d' % (name, k, i), s[k], want[i][k])
        for k, v in (extra or {}).items():
            B.true('%s: %s in sample %d' % (name, k, i), s.get(k) == v)


KINDS = ['memory', 'files']
GRID = [('%s,%d' % (k, n), dict(kind=k, n=n)) for k in KINDS for n in (1, 2, 4)]
ORDER = {'note': ('11', '22')}


@case('C23', params=GRID, ntrials=2)
def rename(B, kind, n):
    M = B.mod(TD)
    for mp in ({'a': 'x'}, {'a': 'x', 'd': 'y'}, {'zz': 'x'}, {'zz': 'x', 'b': 'y'}, {'c': 'c'}, {}, {'a': 'x', 'x': 'y'}):
        smp = samples(B, n)
        with Store(B, kind, smp, ORDER) as ds:
            r = M.change_dataset_features_labels(ds, dict(mp))
            B.true('same data set', r is ds)
            want = [dict(s) for s in smp]
            for o, w in mp.items():
                if o in want[0]:
                    for s in want:
                        s[w] = s.pop(o)
            content(B, 'renamed %r' % mp, ds, want, ORDER)


@case('C23', params=GRID, ntrials=2)
def initialise(B, kind, n):
    M = B.mod(TD)
    for lab, sh in (('h', (1, 3)), ('a', (2, 1)), (7, (1, 1))):
        smp = samples(B, n)
        v = B.array('init', sh)
        with Store(B, kind, smp, ORDER) as ds:
            t = B.tensor(v)
            keep = B.frozen('initial value', [t])
            r = M.add_dataset_feature_init(ds, lab, t)
            keep()
            B.true('same data set', r is ds)
            content(B, 'initialised %r' % lab, ds, [dict(s, **{str(lab): v}) for s in smp], ORDER)
            for bad in ([[1.0]], B.tensor(B.vec('v', 2)), B.tensor(B.array('v3', (1, 1, 1)))):
                B.raises('two-dimensional tensor only', lambda: M.add_dataset_feature_init(ds, 'q', bad), RuntimeError)


@case('C23', params=GRID, ntrials=2)
def concatenate(B, kind, n):
    M = B.mod(TD)
    for labels, new, rm in ((('a', 'b'), 'x', False), (('d', 'c', 'a'), 'x', True), (('b', 'a'), 'x', True), (('c',), 'x', False),
                            (('c',), 'x', True), (('a', 'd'), 'a', False), (('a', 'b', 'c', 'd'), 5, False), (['d', 'a'], 'b', False)):
        smp = samples(B, n)
        with Store(B, kind, smp, ORDER) as ds:
            r = M.concatenate_dataset_features(ds, new, labels, is_remove_features=rm)
            B.true('same data set', r is ds)
            want = [dict(s, **{str(new): np.concatenate([s[l] for l in labels], axis=1)}) for s in smp]
            if rm and kind == 'memory':
                for s in want:
                    for l in labels:
                        s.pop(l)
            content(B, 'concatenated %r into %r' % (labels, new), ds, want, ORDER)
    smp = samples(B, n)
    with Store(B, kind, smp) as ds:
        B.raises('unknown feature', lambda: M.concatenate_dataset_features(ds, 'x', ('a', 'zz')), RuntimeError)
        content(B, 'refused concatenation', ds, smp)


@case('C23', params=GRID, ntrials=2)
def add_up(B, kind, n):
    M = B.mod(TD)
    wa, wb = B.var('wa'), B.var('wb')
    for labels, new, wt, rm in ((('a', 'b'), 'x', {'a': wa, 'b': wb}, False), (('a', 'b'), 'x', {'b': wb}, True), (('b', 'a'), 'x', {}, False),
                                (('a', 'b'), 'x', None, True), (('d',), 'x', {'d': wa, 'a': wb}, False), (('c',), 'x', None, True),
                                (('a', 'b'), 'a', {'a': wa}, False), (('a', 'a', 'b'), 3, {'a': wa}, False)):
        smp = samples(B, n)
        with Store(B, kind, smp, ORDER) as ds:
            kw = {} if wt is None else {'features_weights': dict(wt)}
            r = M.sum_dataset_features(ds, new, labels, is_remove_features=rm, **kw)
            B.true('same data set', r is ds)
            g = wt or {}
            want = [dict(s, **{str(new): sum(times(g.get(l, B.num(1)), s[l]) for l in labels)}) for s in smp]
            if rm and kind == 'memory':
                for s in want:
                    for l in set(labels):
                        s.pop(l)
            content(B, 'summed %r into %r' % (labels, new), ds, want, ORDER)
    smp = samples(B, n)
    with Store(B, kind, smp) as ds:
        B.raises('unknown feature', lambda: M.sum_dataset_features(ds, 'x', ('a', 'zz'), {}), RuntimeError)
        content(B, 'refused sum', ds, smp)


@case('C23', params=GRID, ntrials=2)
def history(B, kind, n):
    """A sequence of operations composes."""
    M = B.mod(TD)
    smp = samples(B, n)
    w = B.var('w')
    v = B.array('init', (1, 2))
    with Store(B, kind, smp, ORDER) as ds:
        M.change_dataset_features_labels(ds, {'a': 'p'})
        M.sum_dataset_features(ds, 'q', ('p', 'b'), {'p': w})
        M.add_dataset_feature_init(ds, 'h', B.tensor(v))
        M.concatenate_dataset_features(ds, 'r', ('q', 'c', 'p'))
        want = []
        for s in smp:
            q = times(w, s['a']) + s['b']
            want.append({'p': s['a'], 'b': s['b'], 'c': s['c'], 'd': s['d'], 'q': q, 'h': v,
                         'r': np.concatenate([q, s['c'], s['a']], axis=1)})
        content(B, 'sequence', ds, want, ORDER)


@case('C23', ntrials=2)
def in_memory(B):
    M = B.mod(TD)
    smp = samples(B, 4, 'ac')
    ts = [{k: B.tensor(v) for k, v in s.items()} for s in smp]
    given = list(ts[:2])
    ds = M.TimeSeriesDatasetInMemory(given)
    B.true('constructor input kept', len(given) == 2)
    ds.add_dataset_samples(ts[2:])
    content(B, 'added', ds, smp)
    B.true('the given list is not extended', len(given) == 2)
    B.true('tuple accepted', len(M.TimeSeriesDatasetInMemory(tuple(ts))) == 4)
    cp = ds.get_dataset_samples()
    B.true('copies', len(cp) == 4 and all(c is not t for c, t in zip(cp, ts)))
    for i in range(4):
        for k in smp[i]:
            B.eq('copy of sample %d' % i, cp[i][k], smp[i][k])
            cp[i][k][0, 0] = 7
    content(B, 'after writing into the copies', ds, smp)
    again = M.TimeSeriesDatasetInMemory.from_dataset(ds) if not B.sym else M.TimeSeriesDatasetInMemory.from_dataset([ds[i] for i in range(4)])
    content(B, 'converted', again, smp)
    for r in range(5):
        for idx in itertools.combinations(range(4), r):
            d2 = M.TimeSeriesDatasetInMemory([dict(t) for t in ts])
            d2.remove_dataset_samples(list(idx))
            content(B, 'removed %r' % (idx,), d2, [s for i, s in enumerate(smp) if i not in idx])
    content(B, 'original untouched', ds, smp)


@case('C23', ntrials=2)
def in_files(B):
    M = B.mod(TD)
    smp = samples(B, 3, 'ab')
    with Store(B, 'files', smp) as ds:
        d = ds.get_dataset_directory()
        B.true('files', [os.path.basename(f) for f in ds.get_dataset_sample_files()] == ['sample_%d.pt' % i for i in range(3)])
        new = B.array('new', (2, 2))
        ds.update_dataset_sample(1, {'a': B.tensor(new)})
        content(B, 'one sample updated', ds, [smp[0], {'a': new}, smp[2]])
        s = ds[0]
        s['a'][0, 0] = 5
        content(B, 'a loaded sample is a copy', ds, [smp[0], {'a': new}, smp[2]])
        B.raises('missing file', lambda: M.TimeSeriesDataset(d, [os.path.join(d, 'none.pt')]), RuntimeError)
        B.raises('missing directory', lambda: M.TimeSeriesDataset(d + '_none', []), RuntimeError)
        B.raises('file elsewhere', lambda: M.TimeSeriesDataset(os.path.dirname(d), ds.get_dataset_sample_files()), RuntimeError)
        d2 = tempfile.mkdtemp(prefix='vf_c23_')
        try:
            B.raises('moved without files', lambda: M.TimeSeriesDataset(d, list(ds.get_dataset_sample_files()))._update_dataset_directory(d2), RuntimeError)
            for i in range(3):
                p = os.path.join(d2, 'sample_%d.pt' % i)
                open(p, 'wb').close()
                B.torch.save({'a': B.tensor(smp[2 - i]['a'])}, p)
            ds._update_dataset_directory(d2)
            B.true('directory', os.path.normpath(ds.get_dataset_directory()) == d2)
            content(B, 'moved', ds, [{'a': smp[2 - i]['a']} for i in range(3)])
        finally:
            shutil.rmtree(d2)


@case('C23', params=[(k, dict(kind=k)) for k in ('dataset', 'subset')], ntrials=2, sym=False,
      why='pickled files: real file operations, sampled')
def stored(B, kind):
    """Saved data sets come back with their samples; the directory of a stored data set can be updated."""
    M = B.mod(TD)
    smp = samples(B, 3, 'ab')
    with Store(B, 'files', smp) as ds:
        idx = [2, 0] if kind == 'subset' else [0, 1, 2]
        obj = B.torch.utils.data.Subset(ds, idx) if kind == 'subset' else ds
        want = [smp[i] for i in idx]
        d2 = tempfile.mkdtemp(prefix='vf_c23_')
        try:
            for app in (True, False):
                p = M.save_dataset(obj, 'set', d2, is_append_n_sample=app)
                B.true('name', os.path.basename(p) == ('set_n%d.pkl' % len(idx) if app else 'set.pkl'))
                content(B, 'loaded', M.load_dataset(p), want)
            for i in range(3):
                B.torch.save({k: B.tensor(v) for k, v in smp[i].items()}, os.path.join(d2, 'sample_%d.pt' % i))
            shutil.rmtree(ds.get_dataset_directory())
            M.TimeSeriesDataset.update_dataset_file_internal_directory(p, d2)
            content(B, 'after moving', M.load_dataset(p), want)
            os.mkdir(ds.get_dataset_directory())
        finally:
            shutil.rmtree(d2)


@case('C23', params=[('%d,%d' % (n, b), dict(n=n, b=b)) for n in (1, 2, 4) for b in (1, 2, 3)], ntrials=2)
def batching(B, n, b):
    M = B.mod(TD)
    smp = [{f: B.array('%s%d_' % (f, i), (2, W[f])) for f in 'abc'} for i in range(n)]
    extra = {'note': ('11',), 'one': 3}
    ts = [dict({k: B.tensor(v) for k, v in s.items()}, flat=B.tensor(B.vec('f%d' % i, 2)), **extra) for i, s in enumerate(smp)]
    out = M.time_collator(ts)
    B.true('batched features', set(out) == {'a', 'b', 'c'})
    for f in out:
        B.true('shape of ' + f, tuple(out[f].shape) == (2, n, W[f]))
        B.eq('stack of ' + f, out[f], np.stack([s[f] for s in smp], axis=1))
    ds = M.TimeSeriesDatasetInMemory(ts)
    dl = M.get_time_series_data_loader(ds, batch_size=b)
    got = list(dl)
    B.true('number of batches', len(got) == -(-n // b))
    for k, g in enumerate(got):
        part = smp[k * b:(k + 1) * b]
        for f in 'abc':
            B.eq('batch %d of %s' % (k, f), g[f], np.stack([s[f] for s in part], axis=1))
    if B.sym:
        B.true('no shuffling by default', dl.shuffle is False)
        B.true('shuffling on request', M.get_time_series_data_loader(ds, is_shuffle=True).shuffle is True)
    B.true('one sample per batch by default', len(list(M.get_time_series_data_loader(ds))) == n)


@case('C23', ntrials=1, num=False)
def split_names(B):
    """Every subset is the one random_split returns for its own size."""
    M = B.mod(TD)
    data = B.torch.utils.data
    smp = samples(B, 4, 'a')
    ds = M.TimeSeriesDatasetInMemory([{k: B.tensor(v) for k, v in s.items()} for s in smp])
    seen = []

    def rs(dataset, lengths, generator=None):
        seen.append((dataset, list(lengths), generator))
        cut = np.cumsum([0] + [int(round(float(x) * 4)) for x in lengths])
        order = [2, 0, 3, 1]
        return [data.Subset(dataset, order[a:b]) for a, b in zip(cut, cut[1:])]
    B.torch.utils.data.random_split = rs
    for sizes in ({'training': 0.5, 'validation': 0.25, 'testing': 0.25}, {'x': 0.25, 'y': 0.75}, {'all': 1.0}, {1: 0.75, 2: 0.25}):
        for cp in (False, True):
            del seen[:]
            r = M.split_dataset(ds, dict(sizes), is_copy_dataset=cp, seed=None)
            B.true('one split', len(seen) == 1)
            B.true('sizes in order', [float(x) for x in seen[0][1]] == list(sizes.values()))
            B.true('names', list(r) == [str(k) for k in sizes])
            B.true('copy on request', (seen[0][0] is ds) == (not cp))
            idx = [list(s.indices) for s in r.values()]
            B.true('subset of its own size', [len(i) for i in idx] == [int(4 * v) for v in sizes.values()])
            B.true('partition', sum(idx, []) == [2, 0, 3, 1])
            for s in r.values():
                content(B, 'subset', s, [smp[i] for i in s.indices])
                B.true('parent indices', M.get_parent_dataset_indices(s, list(range(len(s)))[::-1]) == list(s.indices)[::-1])
    B.raises('not a subset', lambda: M.get_parent_dataset_indices(ds, [0]), RuntimeError)
    B.raises('sizes sum to one', lambda: M.split_dataset(ds, {'a': 0.5, 'b': 0.4}), RuntimeError)
    B.raises('negative size', lambda: M.split_dataset(ds, {'a': -0.5, 'b': 1.5}), RuntimeError)
    B.raises('empty subset', lambda: M.split_dataset(ds, {'a': 1.0, 'b': 0.0}), RuntimeError)


@case('C23', ntrials=12, sym=False, why='the library random_split is an external function; partition property sampled on it')
def split(B):
    M = B.mod(TD)
    n = 5 + int(B.choice('n', list(range(8))))
    smp = [{'a': B.array('a%d_' % i, (1, 1))} for i in range(n)]
    ds = M.TimeSeriesDatasetInMemory([{k: B.tensor(v) for k, v in s.items()} for s in smp])
    sizes = B.choice('sizes', [{'t': 0.6, 'v': 0.2, 's': 0.2}, {'t': 0.5, 'v': 0.5}, {'t': 1.0}, {'t': 0.3, 'v': 0.7}])
    seed = B.choice('seed', [None, 0, 3])
    r = M.split_dataset(ds, dict(sizes), seed=seed)
    idx = [list(s.indices) for s in r.values()]
    B.true('partition', sorted(sum(idx, [])) == list(range(n)))
    B.true('requested sizes', all(abs(len(i) - n * v) < len(sizes) for i, v in zip(idx, sizes.values())))
    for s in r.values():
        content(B, 'subset', s, [smp[i] for i in s.indices])
    if seed is not None:
        r2 = M.split_dataset(ds, dict(sizes), seed=seed)
        B.true('reproducible', idx == [list(s.indices) for s in r2.values()])


ORD = {'sym': ('11', '22', '33', '12', '23', '13'), 'perm': ('13', '22', '11', '23', '33', '12'),
       'lower': ('11', '21', '31', '22', '32', '33'), 'full': ('11', '21', '31', '12', '22', '32', '13', '23', '33')}


def full3(o, c):
    g = {}
    for k, x in enumerate(o):
        g[(int(x[0]) - 1, int(x[1]) - 1)] = c[k]
    return [[g[(i, j)] if (i, j) in g else g[(j, i)] for j in range(3)] for i in range(3)]


@case('C23', params=[('%s,%s,%d' % (o, k, n), dict(o=o, kind=k, n=n)) for o in ORD for k in KINDS for n in (1, 3)], ntrials=2)
def derived(B, o, kind, n):
    """Strain invariants and volumetric / deviatoric stresses."""
    co = ORD[o]
    for mod, what, feats in ((SF, 'strain', ('i1_strain', 'i2_strain')), (TF, 'stress', ('vol_stress', 'dev_stress'))):
        smp = [{what + '_path': B.array('%s%d_' % (what, i), (1 + i, len(co))), 'b': B.array('b%d_' % i, (1, 2))} for i in range(n)]
        add = getattr(B.mod(mod), 'add_%s_features' % what)
        extra = {what + '_comps_order': co}
        with Store(B, kind, smp, extra) as ds:
            want = [dict(s) for s in smp]
            for f in feats:
                r = add(ds, f)
                B.true('same data set', r is ds)
                for s in want:
                    rows = []
                    for c in s[what + '_path']:
                        m = full3(co, c)
                        tr = m[0][0] + m[1][1] + m[2][2]
                        if f == 'i1_strain':
                            rows.append([tr])
                        elif f == 'i2_strain':
                            rows.append([(tr * tr - sum(m[i][j] * m[j][i] for i in range(3) for j in range(3))) / 2])
                        elif f == 'vol_stress':
                            rows.append([tr / 3])
                        else:
                            rows.append([m[int(x[0]) - 1][int(x[1]) - 1] - (tr / 3 if x[0] == x[1] else 0) for x in co])
                    s[f] = np.array(rows, object)
            content(B, 'with derived features', ds, want, extra)
            B.raises('unknown feature', lambda: add(ds, 'other'), RuntimeError)
        with Store(B, kind, [{'b': B.array('b0_', (1, 2))}], extra) as ds:
            B.raises('no path', lambda: add(ds, feats[0]), RuntimeError)
        with Store(B, kind, [{what + '_path': B.array('q', (1, 6))}]) as ds:
            B.raises('no order', lambda: add(ds, feats[0]), RuntimeError)
        with Store(B, kind, [{what + '_path': B.array('q', (1, 3))}], {what + '_comps_order': ('11', '22', '12')}) as ds:
            B.raises('three dimensions only', lambda: add(ds, feats[0]), RuntimeError)
