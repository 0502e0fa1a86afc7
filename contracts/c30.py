"""C30: a model directory gives the model back: initialisation file, data scalers, state."""
import copy
import inspect
import os
import shutil
import tempfile
import numpy as np
from vf.engine import case
from contracts.c19 import material, bounds, LEARN, NAMES as MATERIALS, base
FUNCTIONS = ['GRURNNModel.__init__', 'GRURNNModel.save_model_init_file', 'GRURNNModel.init_model_from_file',
             'RecurrentConstitutiveModel.__init__', 'RecurrentConstitutiveModel.save_model_init_file',
             'RecurrentConstitutiveModel.init_model_from_file', 'HybridModel.__init__', 'HybridModel.save_model_init_file',
             'HybridModel.init_model_from_file', 'set_data_scalers', 'set_fitted_data_scalers', 'fit_data_scalers',
             'load_model_data_scalers_from_file', 'set_hybridized_model']
ASSUMPTIONS = ['torch.save / torch.load and pickle.dump / pickle.load: a file gives back a copy of what was last written to it',
               'constructor options are enumerated (every option away from its default at least once); weights, parameters, bounds, '
               'scaler statistics and inputs are arbitrary; sizes are fixed small numbers',
               'the library network (torch.nn.GRU) is opaque in the symbolic run: its construction arguments are compared',
               'the file system is the real one, in a scratch directory; one device (cpu)']
GM = 'model_architectures.rnn_base_model.model.gru_model'
RM = 'model_architectures.rc_base_model.model.recurrent_model'
HM = 'model_architectures.hybrid_base_model.model.hybrid_model'
HS = 'model_architectures.hybrid_base_model.model.hybridized_model'
MD = 'model_architectures.procedures.model_data_scaling'
FD = 'utilities.fit_data_scalers'
SF = 'model_architectures.procedures.model_state_files'
SC = 'utilities.data_scalers'
INIT = 'model_init_file.pkl'


def scratch(f):
    import functools

    @functools.wraps(f)
    def g(B, **kw):
        d = tempfile.mkdtemp(prefix='vf_c30_')
        try:
            f(B, d, **kw)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return g


def sub(d, name):
    p = os.path.join(d, name)
    os.makedirs(p)
    return p


def raw(path):
    with open(path, 'rb') as f:
        return f.read()


def same(B, name, got, want):
    """Deep equality of constructor arguments."""
    if isinstance(want, dict):
        B.true(name + ': keys', isinstance(got, dict) and sorted(map(str, got)) == sorted(map(str, want)))
        for k in want:
            same(B, '%s %s' % (name, k), got[k], want[k])
    elif isinstance(want, (tuple, list)) and not isinstance(want, str):
        B.true(name + ': length', isinstance(got, (tuple, list)) and len(got) == len(want))
        for i, (g, w) in enumerate(zip(got, want)):
            same(B, '%s[%d]' % (name, i), g, w)
    elif want is None or isinstance(want, (bool, str)) or callable(want):
        B.true(name, got == want and type(got) is type(want))
    else:
        B.eq(name, got, want)


class Recorder:
    """Records the arguments (defaults included) every instance of a class is constructed with, for as long as it is active."""

    def __init__(self, cls):
        self.cls, self.calls = cls, []

    def __enter__(self):
        cls, calls, self.old = self.cls, self.calls, self.cls.__init__
        sig, old = inspect.signature(self.old), self.old

        def init(s, *a, **k):
            b = sig.bind(s, *a, **k)
            b.apply_defaults()
            calls.append({n: v for n, v in b.arguments.items() if n != 'self'})
            old(s, *a, **k)
        cls.__init__ = init
        return self

    def __exit__(self, *a):
        self.cls.__init__ = self.old


def scaler(B, name, kind, n):
    a = B.vec(name + 'a', n, dist=(-2, 2))
    b = [B.var('%sb%d' % (name, i), pos=True, dist=(0.3, 3)) for i in range(n)]
    if kind == 'min-max':
        return B.mod(SC).TorchMinMaxScaler(n, minimum=B.tensor(a), maximum=B.tensor([x + y for x, y in zip(a, b)]),
                                           norm_minimum=0.0, norm_maximum=2.0)
    return B.mod(SC).TorchStandardScaler(n, mean=B.tensor(a), std=B.tensor(b))


def same_scalers(B, name, got, model, want, n_in, n_out):
    """The scalers of the model act as the wanted ones (None: not fitted)."""
    md = B.mod(MD)
    for f, n in (('features_in', n_in), ('features_out', n_out)):
        w = want.get(f)
        if w is None:
            B.raises('%s: %s not fitted' % (name, f), lambda: md.get_fitted_data_scaler(got, f), RuntimeError)
            continue
        s = md.get_fitted_data_scaler(got, f)
        B.true('%s: kind of %s' % (name, f), type(s).__name__ == type(w).__name__)
        x = B.tensor(B.array('%s_x' % f, (2, n), dist=(-2, 2)))
        B.eq('%s: %s transform' % (name, f), s.transform(x), B.arr(w.transform(x)))
        B.eq('%s: %s inverse' % (name, f), s.inverse_transform(x), B.arr(w.inverse_transform(x)))


IGNORED = ('model_directory', 'is_save_model_init_file')


def round_trip(B, cls, m, args, d, name, scalers, n_in, n_out, effective=None):
    """m (constructed with args) comes back from its directory d, from the file path, and from a copy of the directory."""
    path = os.path.join(d, INIT)
    B.true(name + ': file', os.path.isfile(path))
    moved = d + '_moved_' + name.replace(' ', '_').replace(':', '')
    shutil.copytree(d, moved)
    out = None
    for how, kw, where in (('directory', {'model_directory': d}, d), ('file', {'model_init_file_path': path}, d),
                           ('moved', {'model_directory': moved}, moved),
                           ('moved file', {'model_init_file_path': os.path.join(moved, INIT)}, moved)):
        label = '%s (%s)' % (name, how)
        before, ls = raw(os.path.join(where, INIT)), sorted(os.listdir(where))
        with Recorder(cls) as r:
            g = cls.init_model_from_file(**kw)
        B.true(label + ': constructed once', len(r.calls) == 1)
        B.true(label + ': class', type(g) is cls)
        got = r.calls[0]
        B.true(label + ': arguments', set(got) == set(args))
        for k, v in args.items():
            if k in IGNORED:
                continue
            (effective or same)(B, '%s: %s' % (label, k), got[k], v) if k != 'hyb_models_dict' else None
        B.true(label + ': directory', g.model_directory == where)
        B.true(label + ': name', g.model_name == args['model_name'])
        B.true(label + ': normalisation flags', (g.is_model_in_normalized, g.is_model_out_normalized) ==
               (args['is_model_in_normalized'], args['is_model_out_normalized']))
        same_scalers(B, label, g, m, scalers, n_in, n_out)
        B.true(label + ': file untouched', raw(os.path.join(where, INIT)) == before and sorted(os.listdir(where)) == ls)
        B.true(label + ': another model', g is not m)
        out = out or g
    return out


def construct(B, cls, *a, **k):
    with Recorder(cls) as r:
        m = cls(*a, **k)
    return m, r.calls[0]


def errors(B, cls, d):
    B.raises('neither directory nor file', lambda: cls.init_model_from_file(), RuntimeError)
    B.raises('missing directory', lambda: cls.init_model_from_file(model_directory=os.path.join(d, 'none')), RuntimeError)
    B.raises('missing file', lambda: cls.init_model_from_file(model_init_file_path=os.path.join(d, 'none', INIT)), RuntimeError)
    e = sub(d, 'empty')
    B.raises('no file in directory', lambda: cls.init_model_from_file(model_directory=e), RuntimeError)


def weights(B, m, tag):
    """Arbitrary values of all parameters."""
    with B.torch.no_grad():
        for i, (n, p) in enumerate(m.named_parameters()):
            p.copy_(B.tensor(B.array('%s%d' % (tag, i), tuple(p.shape), dist=(-1, 1))))


class FakeGRU:
    """The library network in the symbolic run: construction arguments only."""


def fake_library(B):
    if B.sym:
        class GRU(B.nn.Module):
            def __init__(self, **k):
                super().__init__()
                self.kw = k
        B.override(GM + ':torch', Torch(B.torch, GRU))


class Torch:
    def __init__(self, torch, gru):
        class NN:
            def __getattr__(s, k):
                return gru if k == 'GRU' else getattr(torch.nn, k)
        self.nn, self._t = NN(), torch

    def __getattr__(self, k):
        return getattr(self.__dict__['_t'], k)


OPT = {'defaults': {},
       'name': dict(model_name='other.model-2'),
       'noname': dict(model_name=None),
       'in': dict(is_model_in_normalized=True),
       'out': dict(is_model_out_normalized=True),
       'both': dict(is_model_in_normalized=True, is_model_out_normalized=True)}
GOPT = dict(OPT, **{'layers': dict(n_recurrent_layers=3), 'dropout': dict(n_recurrent_layers=2, dropout=0.25),
                    'custom': dict(gru_model_source='custom'), 'custom layers': dict(gru_model_source='custom', n_recurrent_layers=2)})
SCALE = [None, 'min-max', 'mean-std']


@case('C30', params=[(k.replace(' ', '_'), dict(opt=k)) for k in GOPT], ntrials=2)
@scratch
def gru(B, d, opt):
    cls = B.mod(GM).GRURNNModel
    o = GOPT[opt]
    I, O, H = 2, 1, 3
    if o.get('gru_model_source') != 'custom':
        fake_library(B)
    for kind in SCALE:
        w = sub(d, 'm_%s' % kind)
        m, args = construct(B, cls, I, O, H, w, **o)
        sc = {}
        if kind:
            sc = {'features_in': scaler(B, 'in', kind, I), 'features_out': scaler(B, 'out', kind, O)}
            B.mod(MD).set_data_scalers(m, sc['features_in'], sc['features_out'])
        g = round_trip(B, cls, m, args, w, 'scaling %s' % kind, sc, I, O)
        if args['gru_model_source'] == 'custom' and kind is None:
            weights(B, m, 'w')
            B.mod(SF).save_model_state(m)
            B.mod(SF).load_model_state(g)
            x = B.tensor(B.array('x', (1, 1, I), dist=(-1, 1)))
            a, b = m(x), g(x)
            B.eq('response after reloading the state', b[0], B.arr(a[0]))
            B.eq('hidden state after reloading the state', b[1], B.arr(a[1]))
        elif B.sym and args['gru_model_source'] != 'custom':
            B.true('library network', {k: v for k, v in g._gru_rnn_model.kw.items() if k != 'device'} ==
                   {k: v for k, v in m._gru_rnn_model.kw.items() if k != 'device'})
    if opt == 'defaults':
        errors(B, cls, d)
    w = sub(d, 'nofile')
    cls(I, O, H, w, is_save_model_init_file=False, **o)
    B.true('no file unless asked for', os.listdir(w) == [])
    B.raises('unknown directory', lambda: cls(I, O, H, os.path.join(d, 'none'), **o), RuntimeError)


ROPT = dict(OPT, **{'sync': dict(is_auto_sync_parameters=False), 'fail': dict(is_check_su_fail=False),
                    'features': dict(state_features_out={'acc_p_strain': 1}), 'normalised': dict(is_normalized_parameters=True)})


def effective(name):
    def f(B, label, got, want):
        if label.endswith(': is_check_su_fail') and name.endswith('_vmap'):
            return                                      # never checked for these materials
        same(B, label, got, want)
    return f


@case('C30', params=[(k, dict(opt=k)) for k in ROPT], ntrials=2)
@scratch
def constitutive(B, d, opt):
    cls = B.mod(RM).RecurrentConstitutiveModel
    o = ROPT[opt]
    for i, name in enumerate(MATERIALS if opt in ('defaults', 'normalised') else ['elastic', 'von_mises', 'von_mises_vmap']):
        kind = SCALE[i % 3]
        w = sub(d, 'm_%s' % name)
        lo, hi, ini, learn = bounds(B, LEARN[base(name)][:3])
        mat = material(name)
        m, args = construct(B, cls, 6, 6, learn, 'infinitesimal', 4, name, mat, w, **o)
        args = dict(args, material_model_parameters=copy.deepcopy(mat))
        sc = {}
        if kind:
            sc = {'features_in': scaler(B, 'in', kind, 6), 'features_out': scaler(B, 'out', kind, 6)}
            B.mod(MD).set_data_scalers(m, sc['features_in'], sc['features_out'])
        g = round_trip(B, cls, m, args, w, name, sc, 6, 6, effective(name))
        B.true(name + ': material', type(g._constitutive_model) is type(m._constitutive_model))
        weights(B, m, 'w' + name)
        if m.model_name is None:
            continue                                    # (state files carry the model name)
        B.mod(SF).save_model_state(m)
        B.mod(SF).load_model_state(g)
        a, b = m.get_detached_model_parameters(), g.get_detached_model_parameters()
        B.true(name + ': parameters', list(a) == list(b))
        for k in a:
            B.eq('%s: parameter %s' % (name, k), b[k], a[k])
        ba, bb = m.get_model_parameters_bounds(), g.get_model_parameters_bounds()
        for k in a:
            B.eq('%s: bounds %s' % (name, k), list(bb[k]), list(ba[k]))
    w = sub(d, 'nofile')
    lo, hi, ini, learn = bounds(B, ['E'])
    cls(6, 6, learn, 'infinitesimal', 4, 'elastic', material('elastic'), w, is_save_model_init_file=False, **o)
    B.true('no file unless asked for', os.listdir(w) == [])
    if opt == 'defaults':
        errors(B, cls, d)


@case('C30', ntrials=2)
@scratch
def constitutive_response(B, d):
    """The re-initialised constitutive model gives the stresses of the saved one."""
    cls = B.mod(RM).RecurrentConstitutiveModel
    for norm in (False, True):
        w = sub(d, 'm%d' % norm)
        lo, hi, ini, learn = bounds(B, ['E', 'v'])
        m = cls(6, 6, learn, 'infinitesimal', 4, 'elastic', material('elastic'), w, is_normalized_parameters=norm)
        weights(B, m, 'w')
        B.mod(SF).save_model_state(m)
        g = cls.init_model_from_file(w)
        B.mod(SF).load_model_state(g)
        x = B.array('x', (2, 6), dist=(-0.1, 0.1))
        s, t = B.arr(m(B.tensor(x))), B.arr(g(B.tensor(x)))
        B.eq('stresses', t, s)


def hybrid_parts(B, d, sc=True):
    """Two submodels saved nowhere, with scalers of their own."""
    G = B.mod(GM).GRURNNModel
    a = G(2, 2, 2, None, model_name='a', gru_model_source='custom', is_save_model_init_file=False, is_model_in_normalized=sc)
    b = G(2, 2, 1, None, model_name='b', gru_model_source='custom', is_save_model_init_file=False, is_model_out_normalized=sc)
    if sc:
        B.mod(MD).set_data_scalers(a, scaler(B, 'a_in', 'mean-std', 2), scaler(B, 'a_out', 'mean-std', 2))
        B.mod(MD).set_data_scalers(b, scaler(B, 'b_in', 'min-max', 2), scaler(B, 'b_out', 'min-max', 2))
    weights(B, a, 'wa')
    weights(B, b, 'wb')
    return a, b


HOPT = dict(OPT, **{'additive': dict(hybridization_type='additive')})


@case('C30', params=[(k, dict(opt=k)) for k in HOPT], ntrials=2)
@scratch
def hybrid(B, d, opt):
    cls = B.mod(HM).HybridModel
    o = HOPT[opt]
    for kind in SCALE:
        if kind is None and o.get('is_model_out_normalized'):
            continue
        w = sub(d, 'm_%s' % kind)
        a, b = hybrid_parts(B, d, kind is not None)
        pos = ((1, 0), (0, 0)) if o.get('hybridization_type') else ((0, 1), (0, 0))
        parts = {'A': {'hyb_model': a, 'hyb_indices': pos[0], 'is_input_residual': False},
                 'B': {'hyb_model': b, 'hyb_indices': pos[1], 'is_input_residual': False}}
        m, args = construct(B, cls, 2, 2, parts, w, **o)
        sc = {}
        if kind:
            sc = {'features_in': scaler(B, 'in', kind, 2), 'features_out': scaler(B, 'out', kind, 2)}
            B.mod(MD).set_data_scalers(m, sc['features_in'], sc['features_out'])
        g = round_trip(B, cls, m, args, w, 'scaling %s' % kind, sc, 2, 2)
        B.true('submodels', list(g.get_hybridized_models_names()) == list(m.get_hybridized_models_names()))
        for n in ('A', 'B'):
            p, q = m.get_hybridized_model(n), g.get_hybridized_model(n)
            B.true('submodel %s' % n, type(p) is type(q) and p is not q and
                   (p.is_model_in_normalized, p.is_model_out_normalized) == (q.is_model_in_normalized, q.is_model_out_normalized))
            if kind:
                same_scalers(B, 'submodel ' + n, q, p, p._data_scalers, 2, 2)
        if opt in ('defaults', 'additive', 'both') and kind != 'min-max':
            weights(B, m, 'wn')
            B.mod(SF).save_model_state(m)
            B.mod(SF).load_model_state(g)
            x = B.tensor(B.array('x', (1, 1, 2), dist=(-1, 1)))
            B.eq('response after reloading the state', g(x), B.arr(m(x)))
    if opt == 'defaults':
        errors(B, cls, d)
        w = sub(d, 'nofile')
        a, b = hybrid_parts(B, d, False)
        cls(2, 2, {'A': {'hyb_model': a, 'hyb_indices': (0, 0), 'is_input_residual': False}}, w, is_save_model_init_file=False)
        B.true('no file unless asked for', os.listdir(w) == [])


def models(B, d, save):
    """One model of each kind in a directory of its own: (label, class, model, directory, features in, features out)."""
    out = []
    w = sub(d, 'gru%d' % save)
    G = B.mod(GM).GRURNNModel
    out.append(('gru', G, G(2, 1, 2, w, gru_model_source='custom', is_save_model_init_file=save), w))
    w = sub(d, 'rc%d' % save)
    R = B.mod(RM).RecurrentConstitutiveModel
    lo, hi, ini, learn = bounds(B, ['E'])
    out.append(('constitutive', R, R(2, 1, learn, 'infinitesimal', 4, 'elastic', material('elastic'), w,
                                     is_save_model_init_file=save), w))
    w = sub(d, 'hy%d' % save)
    H = B.mod(HM).HybridModel
    a = G(2, 1, 1, None, gru_model_source='custom', is_save_model_init_file=False)
    out.append(('hybrid', H, H(2, 1, {'A': {'hyb_model': a, 'hyb_indices': (0, 0), 'is_input_residual': False}}, w,
                               is_save_model_init_file=save), w))
    return out


def parameters(B, kind):
    par = {}
    for f, n in (('features_in', 2), ('features_out', 1)):
        a = B.vec('p' + f, n, dist=(-2, 2))
        b = [B.var('q%s%d' % (f, i), pos=True, dist=(0.3, 3)) for i in range(n)]
        if kind == 'min-max':
            par[f] = {'minimum': B.tensor(a), 'maximum': B.tensor([x + y for x, y in zip(a, b)])}
            if f == 'features_in':
                par[f].update(norm_minimum=0.0, norm_maximum=4.0)
        else:
            par[f] = {'mean': B.tensor(a), 'std': B.tensor(b)}
    return par


@case('C30', params=[('%s_%s' % (how, kind), dict(how=how, kind=kind)) for how in ('set', 'fitted', 'fit') for kind in SCALE[1:]],
      ntrials=2)
@scratch
def scalers_follow(B, d, how, kind):
    """Every way of setting the data scalers also updates the file; without a file the procedures write none."""
    md = B.mod(MD)
    for save in (True, False):
        for label, cls, m, w in models(B, d, save):
            keep = {}
            if save:
                keep['before'] = sorted(os.listdir(w))
            # first set other scalers: the last ones count
            md.set_data_scalers(m, scaler(B, 'old_in', 'mean-std', 2), scaler(B, 'old_out', 'mean-std', 1))
            if how == 'set':
                sc = {'features_in': scaler(B, 'in', kind, 2), 'features_out': scaler(B, 'out', kind, 1)}
                md.set_data_scalers(m, sc['features_in'], sc['features_out'])
            elif how == 'fitted':
                par = parameters(B, kind)
                C = B.mod(SC).TorchMinMaxScaler if kind == 'min-max' else B.mod(SC).TorchStandardScaler
                sc = {f: C(n, **par[f]) for f, n in (('features_in', 2), ('features_out', 1))}
                md.set_fitted_data_scalers(m, kind, par)
            else:
                sc = {'features_in': scaler(B, 'in', kind, 2), 'features_out': scaler(B, 'out', kind, 1)}
                ds, sp, asked = object(), {'features_in': {}, 'features_out': {}}, []

                def fit(dataset, features_type, n_features, scaling_type='min-max', scaling_parameters={}, **k):
                    asked.append((dataset, features_type, n_features, scaling_type, scaling_parameters))
                    return sc[features_type]
                B.override(MD + ':fit_data_scaler_from_dataset', fit)
                md.fit_data_scalers(m, ds, scaling_type=kind, scaling_parameters=sp)
                B.true(label + ': fitted on the data, as asked', sorted(a[1:3] for a in asked) == [('features_in', 2), ('features_out', 1)]
                       and all(a[0] is ds and a[3] == kind and a[4] is sp for a in asked))
            same_scalers(B, label + ' model', m, m, sc, 2, 1)
            if save:
                g = cls.init_model_from_file(w)
                same_scalers(B, label + ' re-initialised', g, m, sc, 2, 1)
                B.true(label + ': one file', sorted(os.listdir(w)) == keep['before'])
                # scalers of another model of the same directory are replaced by those in the file, nothing else is
                other = models(B, sub(d, 'o_' + label), False)[['gru', 'constitutive', 'hybrid'].index(label)][2]
                other.model_directory = w
                md.set_data_scalers(other, scaler(B, 'x_in', 'min-max', 2), scaler(B, 'x_out', 'min-max', 1))
                n = other.model_name
                content = raw(os.path.join(w, INIT))
                md.load_model_data_scalers_from_file(other)
                same_scalers(B, label + ' loaded', other, m, sc, 2, 1)
                B.true(label + ': the rest stays', other.model_name == n and other.model_directory == w and
                       raw(os.path.join(w, INIT)) == content)
            else:
                B.true(label + ': no file', os.listdir(w) == [])
                B.raises(label + ': no file to load', lambda: md.load_model_data_scalers_from_file(m), RuntimeError)
                m.model_directory = os.path.join(w, 'none')
                B.raises(label + ': no directory', lambda: md.load_model_data_scalers_from_file(m), RuntimeError)


@case('C30', ntrials=2)
@scratch
def submodel_from_directory(B, d):
    """A submodel taken from a model directory: initialisation, then the state asked for."""
    cls, sf = B.mod(GM).GRURNNModel, B.mod(SF)
    w = sub(d, 'm')
    m = cls(2, 1, 2, w, gru_model_source='custom', n_recurrent_layers=2, is_model_in_normalized=True)
    sc = {'features_in': scaler(B, 'in', 'mean-std', 2), 'features_out': scaler(B, 'out', 'mean-std', 1)}
    B.mod(MD).set_data_scalers(m, sc['features_in'], sc['features_out'])
    weights(B, m, 'w')
    sf.save_model_state(m)
    state = [f for f in os.listdir(w) if f.endswith('.pt')]
    B.true('state file', len(state) == 1)
    x = B.tensor(B.array('x', (1, 1, 2), dist=(-1, 1)))
    want = m(x)
    g = B.mod(HS).set_hybridized_model(model_class=cls, hyb_indices=(0, 1), model_init_file_path=os.path.join(w, INIT),
                                       model_state_file_path=os.path.join(w, state[0]))
    B.true('position', g['hyb_indices'] == (0, 1))
    g = g['hyb_model']
    B.eq('response', g(x)[0], B.arr(want[0]))
    same_scalers(B, 'scalers', g, m, sc, 2, 1)
    B.true('flags', g.is_model_in_normalized and not g.is_model_out_normalized and g.model_name == m.model_name)
