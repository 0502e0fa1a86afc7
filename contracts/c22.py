"""C22: hybrid models and hybridized layers."""
import itertools
import numpy as np
from vf.engine import case
from contracts.c10 import ENTRIES
FUNCTIONS = ['HybridModel.__init__', 'HybridModel.get_hybridization_channels', 'HybridModel.forward', 'HybridModel.get_hybridized_model',
             'HybridModel.check_model_in_normalized', 'HybridModel.check_model_out_normalized', 'HybridModel.features_out_extractor',
             'HybridModel.check_hyb_models_data_scalers', 'HybridModel.get_detached_model_parameters',
             'HybridModel.get_model_parameters_bounds', 'HybridModel.sync_material_model_parameters',
             'HybridizationModel.forward', 'HMIdentity.forward', 'HMAdditive.forward', 'set_hybridized_model',
             'hybridized_layers.BatchedElasticModel', 'hybridized_layers.VolDevCompositionModel',
             'transfer_learning.BatchedElasticModel', 'transfer_learning.PolynomialLinearRegressor']
ASSUMPTIONS = ['submodels are arbitrary (opaque outputs); the order depends only on the order of the positions, so every assignment of up to '
               'three submodels to a 3 x 3 grid of positions is enumerated, and all insertion orders of selected sets of four',
               'sequence length, batch size and feature numbers are enumerated up to 3, feature values are arbitrary',
               'the elastic layer is contracted for plane strain and three-dimensional problems']
HM = 'model_architectures.hybrid_base_model.model.hybrid_model'
HY = 'model_architectures.hybrid_base_model.model.hybridization'
HS = 'model_architectures.hybrid_base_model.model.hybridized_model'
HL = 'model_architectures.hybrid_base_model.model.hybridized_layers'
TL = 'model_architectures.hybrid_base_model.model.transfer_learning'
SC = 'utilities.data_scalers'


def data(ms, pos, res=None):
    return {n: {'hyb_model': m, 'hyb_indices': p, 'is_input_residual': bool(res and res.get(n))} for (n, m), p in zip(ms, pos)}


def check_channels(B, cls, nn, pos):
    ms = [('m%d' % i, nn.Module()) for i in range(len(pos))]
    byname = dict(ms)
    names, models, ch, res = cls.get_hybridization_channels(data(ms, pos, {'m0': True}))
    want = sorted(range(len(pos)), key=lambda i: pos[i])
    ok = list(names) == ['m%d' % i for i in want] and all(a is byname[n] for a, n in zip(models, names)) and len(models) == len(pos)
    rows = sorted({p[0] for p in pos})
    exp = {str(c): [k for k, i in enumerate(want) if pos[i][0] == r] for c, r in enumerate(rows)}
    ok = ok and {k: [int(x) for x in v] for k, v in ch.items()} == exp
    ok = ok and dict(res) == {n: n == 'm0' for n in names}
    B.true('order of %r' % (pos,), ok)


@case('C22', params=[('%d' % n, dict(n=n)) for n in (1, 2, 3, 4)], ntrials=1)
def channels(B, n):
    cls, nn = B.mod(HM).HybridModel, B.nn
    if n < 4:
        grid = list(itertools.product(range(3), repeat=2))
        sets = list(itertools.permutations(grid, n))
    else:
        sets = []
        for s in ([(0, 0), (0, 1), (1, 0), (1, 1)], [(0, 2), (0, 5), (3, 1), (1, 9)], [(2, 0), (2, 1), (2, 2), (2, 3)],
                  [(0, 4), (1, 3), (2, 2), (3, 1)], [(0, 0), (10, 2), (2, 11), (10, 1)]):
            sets += list(itertools.permutations(s))
    for s in sets:
        check_channels(B, cls, nn, s)
    if n > 1:
        for s in itertools.product([(0, 0), (0, 1), (1, 0)], repeat=n):
            if len(set(s)) < n:
                ms = [('m%d' % i, nn.Module()) for i in range(n)]
                B.raises('duplicate positions %r' % (s,), lambda: cls.get_hybridization_channels(data(ms, s)), RuntimeError)


class Log:
    pass


def scaler(B, name, n):
    if n is None:
        return None
    s = B.mod(SC).TorchStandardScaler(n)
    m, d = B.vec(name + 'm', n), [B.var('%ss%d' % (name, i), pos=True, dist=(0.2, 3)) for i in range(n)]
    s.set_mean_and_std(B.tensor(m), B.tensor(d))
    s.vf = (m, d)
    return s


def norm(a, sc):
    m, d = sc.vf
    o = np.empty(a.shape, object)
    for p in np.ndindex(*a.shape):
        o[p] = (a[p] - m[p[-1]]) / d[p[-1]]
    return o


def denorm(a, sc):
    m, d = sc.vf
    o = np.empty(a.shape, object)
    for p in np.ndindex(*a.shape):
        o[p] = a[p] * d[p[-1]] + m[p[-1]]
    return o


def submodel(B, log, name, win, wout, tup, flags):
    """An arbitrary submodel: its output is a fresh opaque tensor, its input is recorded."""
    from vf import terms as tm

    class Sub(B.nn.Module):
        def forward(self, x):
            xa = B.arr(x)
            o = np.empty(tuple(xa.shape[:-1]) + (wout,), object)
            for p in np.ndindex(*o.shape):
                o[p] = tm.var('%s!%s' % (name, '_'.join(map(str, p)))) if B.sym else 0.1 * sum(p) + 0.3 * len(log)
            log.append((name, xa.copy(), o))
            t = B.tensor(o)
            return (t, None) if tup else t
    m = Sub()
    if flags is not None:
        m.is_model_in_normalized, m.is_model_out_normalized = flags
        m._data_scalers = {'features_in': scaler(B, name + 'i', win), 'features_out': scaler(B, name + 'o', wout)}
    return m


# (positions, widths in/out, residual, flags, tuple output, combination)
F = False
CONF = {
    'one': dict(pos=[(0, 0)], w=[(2, 3)], flags=[None], tup=[F], res=[F], kind='identity'),
    'one normalised': dict(pos=[(0, 0)], w=[(2, 3)], flags=[(True, True)], tup=[True], res=[F], kind='identity'),
    'chain': dict(pos=[(0, 1), (0, 0)], w=[(3, 2), (2, 3)], flags=[None, None], tup=[F, True], res=[F, F], kind='identity'),
    'chain residual': dict(pos=[(0, 1), (0, 0)], w=[(5, 2), (2, 3)], flags=[(True, F), (F, True)], tup=[F, F], res=[True, F], kind='identity'),
    'chain normalised': dict(pos=[(0, 2), (0, 0), (0, 1)], w=[(3, 2), (2, 1), (3, 3)], flags=[(True, True), (F, F), (True, F)],
                             tup=[True, F, F], res=[F, F, True], kind='additive'),
    'parallel': dict(pos=[(1, 0), (0, 0)], w=[(2, 3), (2, 3)], flags=[(True, True), None], tup=[True, F], res=[F, F], kind='additive'),
    'parallel chains': dict(pos=[(1, 1), (0, 1), (1, 0), (0, 0)], w=[(3, 2), (4, 2), (2, 3), (2, 2)],
                            flags=[(F, True), None, (True, True), (F, F)], tup=[F] * 4, res=[F, True, F, F], kind='additive'),
    'three channels': dict(pos=[(5, 0), (0, 0), (2, 0)], w=[(2, 2)] * 3, flags=[None, None, (True, F)], tup=[F] * 3, res=[F] * 3,
                           kind='additive'),
    'first channel only': dict(pos=[(5, 0), (0, 0), (2, 0)], w=[(2, 2)] * 3, flags=[None] * 3, tup=[F] * 3, res=[F] * 3, kind='identity'),
    'residual first': dict(pos=[(0, 0)], w=[(4, 2)], flags=[(True, F)], tup=[F], res=[True], kind='identity'),
}


@case('C22', params=[(k, dict(conf=k)) for k in CONF], ntrials=2)
def forward(B, conf):
    c = CONF[conf]
    n = len(c['pos'])
    log = []
    names = ['m%d' % i for i in range(n)]
    ms = [submodel(B, log, names[i], c['w'][i][0], c['w'][i][1], c['tup'][i], c['flags'][i]) for i in range(n)]
    d = data(list(zip(names, ms)), c['pos'], {names[i]: c['res'][i] for i in range(n)})
    wout = c['w'][max(range(n), key=lambda i: (c['pos'][i][0], c['pos'][i][1]))][1]
    for own in (False, True):
        h = B.mod(HM).HybridModel(2, wout, d, None, hybridization_type=c['kind'], is_model_out_normalized=own, is_save_model_init_file=False)
        if own:
            h._data_scalers['features_out'] = scaler(B, 'own', wout)
        for i in range(n):
            B.true('submodel by name', h.get_hybridized_model(names[i]) is ms[i])
        B.raises('unknown submodel', lambda: h.get_hybridized_model('nobody'), RuntimeError)
        for shape in ((1, 2), (2, 2), (2, 3, 2)):
            del log[:]
            x = B.array('x%d' % len(shape), shape)
            tx = B.tensor(x)
            keep = B.frozen('input', [tx])
            y = h(tx)
            keep()
            order = sorted(range(n), key=lambda i: c['pos'][i])
            B.true('every submodel once in order', [l[0] for l in log] == [names[i] for i in order])
            if len(log) != n:
                return
            outs = []
            row = cur = None
            for (nm, xin, out), i in zip(log, order):
                if c['pos'][i][0] != row:
                    if cur is not None:
                        outs.append(cur)
                    row, cur = c['pos'][i][0], x
                if c['res'][i]:
                    cur = np.concatenate([cur, x], axis=-1)
                fl = c['flags'][i] or (False, False)
                B.eq('input of ' + nm, xin, norm(cur, ms[i]._data_scalers['features_in']) if fl[0] else cur)
                cur = denorm(out, ms[i]._data_scalers['features_out']) if fl[1] else out
            outs.append(cur)
            want = outs[0] if c['kind'] == 'identity' else sum(outs[1:], outs[0])
            if own:
                want = norm(want, h._data_scalers['features_out'])
            B.eq('combined output', y, want)
            B.true('output shape', tuple(y.shape) == tuple(want.shape))
    B.raises('input must be a tensor', lambda: h([[1.0, 2.0]]), RuntimeError)


@case('C22', ntrials=2)
def combination(B):
    M = B.mod(HY)
    a = [B.array('a%d' % i, (2, 3)) for i in range(3)]
    ts = [B.tensor(v) for v in a]
    keep = B.frozen('input', ts)
    for k in (1, 2, 3):
        B.eq('identity', M.HybridizationModel('identity')(ts[:k]), a[0])
        B.eq('additive', M.HybridizationModel('additive')(ts[:k]), sum(a[1:k], a[0]))
    keep()
    B.eq('default is identity', M.HybridizationModel()(ts), a[0])
    B.raises('unknown rule', lambda: M.HybridizationModel('product'), RuntimeError)


@case('C22', ntrials=2)
def scalers_required(B):
    """A submodel with normalised features and no scaler is refused when the model is built."""
    M = B.mod(HM).HybridModel

    def build(m):
        return M(2, 2, data([('a', m)], [(0, 0)]), None, is_save_model_init_file=False)
    for fi, fo, si, so in itertools.product((False, True), repeat=4):
        m = B.nn.Module()
        m.is_model_in_normalized, m.is_model_out_normalized = fi, fo
        m._data_scalers = {'features_in': scaler(B, 'i', 2 if si else None), 'features_out': scaler(B, 'o', 2 if so else None)}
        if (fi and not si) or (fo and not so):
            B.raises('refused', lambda: build(m), RuntimeError)
        else:
            build(m)
            B.true('accepted', True)
    m = B.nn.Module()
    m.is_model_in_normalized = True
    B.raises('no scalers at all', lambda: build(m), RuntimeError)


@case('C22', ntrials=2)
def parameters(B):
    """Explicit parameters and bounds of all submodels are reported once under their own names and synchronised."""
    calls = []
    vals = {'b': {'E': B.var('bE'), 'v': B.var('bv')}, 'a': {'E': B.var('aE')}, 'c': {'s': B.var('cs')}}

    def mk(n, explicit):
        class Sub(B.nn.Module):
            def __init__(self):
                super().__init__()
                self.is_explicit_parameters = explicit

            def get_detached_model_parameters(self, is_normalized_out=False):
                return {k: v + (1 if is_normalized_out else 0) for k, v in vals[n].items()}

            def get_model_parameters_bounds(self):
                return {k: (v - 1, v + 1) for k, v in vals[n].items()}

            def sync_material_model_parameters(self):
                calls.append(n)
        return Sub()
    ms = [('b', mk('b', True)), ('c', mk('c', False)), ('a', mk('a', True)), ('d', B.nn.Module())]
    h = B.mod(HM).HybridModel(1, 1, data(ms, [(0, 1), (1, 0), (0, 0), (2, 0)]), None, is_save_model_init_file=False)
    for nz in (False, True):
        got = h.get_detached_model_parameters(is_normalized_out=nz)
        B.true('parameter names', set(got) == {'b_E', 'b_v', 'a_E'})
        for k in got:
            B.eq('parameter ' + k, got[k], vals[k[0]][k[2:]] + (1 if nz else 0))
    got = h.get_model_parameters_bounds()
    B.true('bound names', set(got) == {'b_E', 'b_v', 'a_E'})
    for k in got:
        v = vals[k[0]][k[2:]]
        B.eq('bounds ' + k, list(got[k]), [v - 1, v + 1])
    h.sync_material_model_parameters()
    B.true('every submodel synchronised', sorted(calls) == ['a', 'b', 'c'])


@case('C22', ntrials=2)
def setup(B):
    """set_hybridized_model builds the submodel with its arguments and scalers and records position and residual flag."""
    f = B.mod(HS).set_hybridized_model
    si, so = scaler(B, 'i', 2), scaler(B, 'o', 2)
    P = B.mod(TL).PolynomialLinearRegressor
    for ds in (None, {'features_in': si, 'features_out': so}, {'features_in': si}, {'features_out': so}):
        for res in (False, True):
            d = f(P, (1, 2), model_init_args=dict(n_features_in=2, poly_degree=2), is_input_residual=res, data_scalers=ds)
            B.true('data', set(d) == {'hyb_model', 'hyb_indices', 'is_input_residual'} and d['hyb_indices'] == (1, 2)
                   and d['is_input_residual'] is res and type(d['hyb_model']) is P)
            B.true('scalers', {k: v for k, v in d['hyb_model']._data_scalers.items()} ==
                   {'features_in': (ds or {}).get('features_in'), 'features_out': (ds or {}).get('features_out')})
    G = B.mod('model_architectures.rnn_base_model.model.gru_model').GRURNNModel
    args = dict(n_features_in=2, n_features_out=2, hidden_layer_size=2, n_recurrent_layers=1, dropout=0, model_directory=None,
                model_name=None, is_model_in_normalized=True, is_model_out_normalized=True, gru_model_source='custom')
    d = f(G, (0, 0), model_init_args=args, data_scalers={'features_in': si, 'features_out': so})
    B.true('recurrent model scalers', d['hyb_model']._data_scalers['features_in'] is si and d['hyb_model']._data_scalers['features_out'] is so)
    h = B.mod(HM).HybridModel(2, 2, {'g': d}, None, is_save_model_init_file=False)
    x = B.array('x', (2, 2))
    y = h(B.tensor(x))
    g = d['hyb_model'](B.tensor(norm(x, si)))
    g = g[0] if isinstance(g, tuple) else g
    B.eq('normalised recurrent submodel', y, denorm(B.arr(g), so))
    for bad in ([0, 0], (0,), (0, 1, 2), (0, 0.5), '00'):
        B.raises('position %r' % (bad,), lambda: f(P, bad, model_init_args=dict(n_features_in=2)), RuntimeError)
    B.raises('residual flag', lambda: f(P, (0, 0), model_init_args=dict(n_features_in=2), is_input_residual=1), RuntimeError)
    B.raises('nothing to build from', lambda: f(P, (0, 0)), RuntimeError)
    B.raises('scalers as dictionary', lambda: f(P, (0, 0), model_init_args=dict(n_features_in=2), data_scalers=[si, so]), RuntimeError)
    B.raises('no scalers supported', lambda: f(B.mod(HL).VolDevCompositionModel, (0, 0), model_init_args={}, data_scalers={}), RuntimeError)


def elastic_matrix(B, sym):
    """Moduli by component pair."""
    if sym == 'technical':
        E, v = B.var('E', pos=True), B.var('v', dist=(0.05, 0.45))
        B.assume(v < B.rat(1, 2))
        B.assume(v > -B.num(1))
        lam, mu = E * v / ((1 + v) * (1 - 2 * v)), E / (2 * (1 + v))
        ten = {}
        for a in ('11', '22', '33'):
            for b in ('11', '22', '33'):
                ten[(a, b)] = lam + (2 * mu if a == b else 0)
        for a in ('12', '23', '13'):
            ten[(a, a)] = mu
        return {'E': E, 'v': v}, 'isotropic', ten
    vals = {k: B.var(k) for k in ENTRIES[sym]}
    ten = {}
    for k, es in ENTRIES[sym].items():
        for a, b in es:
            ten[(a, b)] = ten[(b, a)] = vals[k]
    if sym in ('isotropic', 'transverse_isotropic'):
        sh = (vals['E1111'] - vals['E1122']) / 2
        ten[('12', '12')] = sh
        if sym == 'isotropic':
            ten[('23', '23')] = ten[('13', '13')] = sh
    return vals, sym, ten


SYMS = ['technical'] + list(ENTRIES)


@case('C22', params=[('%s,%s,%d' % (m, s, pt), dict(m=m, s=s, pt=pt)) for m in ('layers', 'transfer') for s in SYMS for pt in (1, 4)], ntrials=3)
def elastic(B, m, s, pt):
    props, sym, ten = elastic_matrix(B, s)
    co = ('11', '22', '12') if pt == 1 else ('11', '22', '33', '12', '23', '13')
    k = len(co)
    mod = B.mod(HL if m == 'layers' else TL)
    el = mod.BatchedElasticModel(pt, dict(props), sym)

    def law(e):
        return [sum(ten.get((a, b), B.num(0)) * e[j] * (1 if b[0] == b[1] else 2) for j, b in enumerate(co)) for a in co]
    for shape in ((1,), (2,), (2, 2), (1, 3)):
        for width in (k, 2 * k):
            x = B.array('x%d_%d_' % (len(shape), width), shape + (width,))
            t = B.tensor(x)
            keep = B.frozen('input', [t])
            y = el(t)
            keep()
            want = np.empty(shape + (k,), object)
            for p in np.ndindex(*shape):
                e = x[p]
                if width == 2 * k:
                    tot, pl = (e[k:], e[:k]) if m == 'layers' else (e[:k], e[k:])
                    e = [tot[i] - pl[i] for i in range(k)]
                want[p] = law(list(e))
            B.true('shape', tuple(y.shape) == want.shape)
            B.eq('elastic law of every sample', y, want)
    B.raises('wrong width', lambda: el(B.tensor(B.array('w', (2, k + 1)))), RuntimeError)
    B.raises('not a tensor', lambda: el([[1.0] * k]), RuntimeError)


@case('C22', ntrials=3)
def voldev(B):
    m = B.mod(HL).VolDevCompositionModel()
    for shape in ((1,), (3,), (2, 2), (1, 3)):
        x = B.array('x%d_%d' % (len(shape), shape[-1]), shape + (7,))
        t = B.tensor(x)
        keep = B.frozen('input', [t])
        y = m(t)
        keep()
        want = np.empty(shape + (6,), object)
        for p in np.ndindex(*shape):
            want[p] = [x[p][1 + i] + (x[p][0] if i < 3 else 0) for i in range(6)]
        B.true('shape', tuple(y.shape) == want.shape)
        B.eq('recomposition of every sample', y, want)
        B.eq('second evaluation', m(t), want)
    B.raises('wrong width', lambda: m(B.tensor(B.array('w', (2, 6)))), RuntimeError)
    B.raises('not a tensor', lambda: m([[1.0] * 7]), RuntimeError)


@case('C22', params=[('%d,%d,%s' % (n, d, b), dict(n=n, d=d, b=b)) for n in (1, 2, 3) for d in (1, 2, 3) for b in (True, False)], ntrials=2)
def polynomial(B, n, d, b):
    m = B.mod(TL).PolynomialLinearRegressor(n, poly_degree=d, is_bias=b)
    degs = list(range(0 if b else 1, d + 1))
    w = [B.vec('w%d' % i, len(degs)) for i in range(n)]
    B.true('one layer per feature', len(m._polynomial_layers) == n)
    B.true('coefficients', all(tuple(l.weight.shape) == (1, len(degs)) for l in m._polynomial_layers))
    with B.torch.no_grad():
        for i in range(n):
            m._polynomial_layers[i].weight.copy_(B.tensor([w[i]]))
    for shape in ((1,), (2,), (2, 2), (1, 3)):
        x = B.array('x%d_%d' % (len(shape), shape[-1]), shape + (n,), dist=(-1, 1))
        t = B.tensor(x)
        keep = B.frozen('input', [t])
        y = m(t)
        keep()
        want = np.empty(shape + (n,), object)
        for p in np.ndindex(*shape):
            for i in range(n):
                acc = B.num(0)
                for q, g in enumerate(degs):
                    v = B.num(1)
                    for _ in range(g):
                        v = v * x[p][i]
                    acc = acc + w[i][q] * v
                want[p][i] = acc
        B.true('shape', tuple(y.shape) == want.shape)
        B.eq('polynomial of every feature', y, want)
    s = scaler(B, 's', n)
    m.set_data_scalers(s, s)
    x = B.array('z', (2, n))
    for f in ('features_in', 'features_out'):
        B.eq('normalise ' + f, m.data_scaler_transform(B.tensor(x), f, mode='normalize'), norm(x, s))
        B.eq('denormalise ' + f, m.data_scaler_transform(B.tensor(x), f, mode='denormalize'), denorm(x, s))
    B.raises('mode', lambda: m.data_scaler_transform(B.tensor(x), 'features_in', mode='other'), RuntimeError)
