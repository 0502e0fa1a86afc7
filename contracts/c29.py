"""C29: training: the saved states, histories and returned results are those of the steps that were made; stopping follows its criterion."""
import os
import shutil
import tempfile
import numpy as np
from vf.engine import case
FUNCTIONS = ['rc_base_model.train.training.train_model', 'rnn_base_model.train.training.train_model', 'hybrid_base_model.train.training.train_model',
             'material_model_finder.train.training.train_model', 'check_model_parameters_convergence', 'EarlyStopper (three classes)',
             'kfold_cross_validation', 'save_training_state', 'save_loss_history', 'save_parameters_history', 'save_best_parameters']
ASSUMPTIONS = ['the optimizer is arbitrary: a step sets the parameters of the model to arbitrary values (torch.optim is a dependency)',
               'model output, loss values and validation losses are arbitrary numbers; what model, loss, scalers, bounds and prediction are called '
               'with is checked (their own contracts: C17, C19 to C22, C25, C28)',
               'numbers of epochs (at most three), batches and validation frequencies are enumerated; torch.save / pickle as in C27',
               'the summary text file, printing and elapsed times are not claimed']
TR = {k: 'model_architectures.%s_base_model.train.training' % k for k in ('rc', 'rnn', 'hybrid')}
TR['finder'] = 'material_model_finder.train.training'
CLS = {'rc': 'RecurrentConstitutiveModel', 'rnn': 'GRURNNModel', 'hybrid': 'HybridModel', 'finder': 'MaterialModelFinder'}
MT = 'model_architectures.procedures.model_training'
CV = 'model_architectures.rnn_base_model.train.cross_validation'
KINDS = ('rc', 'rnn', 'hybrid', 'finder')
NF = 2


def cp(B, x):
    return list(np.array(B.arr(x)).reshape(-1))


class World:
    def __init__(self, B, kind, n_samples=3, norm_in=False, norm_out=False, explicit=True, hidden=False, save_every=None):
        self.B, self.kind, self.n = B, kind, n_samples
        self.d = tempfile.mkdtemp(prefix='vf_c29_')
        self.mod = B.mod(TR[kind])
        self.explicit, self.hidden = explicit, hidden
        self.norm_in, self.norm_out = norm_in, norm_out
        self.save_every = save_every
        self.step = 0                 # optimizer steps made
        self.events = []
        self.losses = []
        self.params = None            # values the specification gives to the parameters
        self.fits = []
        self.extra = set()            # epochs whose (replaced) state files an earlier training left
        self.x = B.array('x', (n_samples, 1, NF))
        self.y = B.array('y', (n_samples, 1, NF))
        self.lrs = []
        w, nn = self, B.nn

        class Sub(nn.Module):
            """a material model of the finder, or a hybridized model with bounded parameters"""
            def __init__(s, name, value, explicit=True, normalized=False):
                super().__init__()
                s.model_directory, s.model_name = os.path.join(w.d, name), name
                os.mkdir(s.model_directory)
                s.q = nn.Parameter(B.tensor([value]))
                s.is_explicit_parameters, s.is_normalized_parameters = explicit, normalized

            def get_model_parameters(s):
                return {'q': s.q}

            def get_model_parameters_bounds(s):
                return {'q': (-2.0, 2.0)}

            def get_model_parameters_norm_bounds(s):
                return {'q': (-1.0, 1.0)}

        class Model(nn.Module):
            def __init__(s, model_directory=None, model_name='model', tag='start', **kw):
                super().__init__()
                w.init_kw = kw
                w.model = s
                s.model_directory, s.model_name = model_directory, model_name
                s.is_model_in_normalized, s.is_model_out_normalized = norm_in, norm_out
                s._data_scalers = {'features_in': None, 'features_out': None}
                s.w = nn.Parameter(B.tensor([B.var('%s_w%d' % (tag, i)) for i in range(2)]))
                if kind == 'hybrid':
                    s.subs = nn.ModuleList([Sub('m0', B.var(tag + '_q0')), Sub('m1', B.var(tag + '_q1'), normalized=True),
                                            Sub('m2', B.var(tag + '_q2'), explicit=False), Plain(B.var(tag + '_q3'))])
                if kind == 'finder':
                    s.subs = nn.ModuleList([Sub('m0', B.var(tag + '_q0')), Sub('m1', B.var(tag + '_q1'))])

            @classmethod
            def init_model_from_file(c, model_directory=None):
                w.from_file = model_directory
                return c(model_directory=model_directory, tag='file')

            def set_device(s, t):
                s.dev = t

            def get_hybridized_models(s):
                return s.subs

            def get_material_models(s):
                return {str(i + 1): m for i, m in enumerate(s.subs)}

            def set_specimen_data(s, *a, **k):
                w.specimen = (a, k)

            def enforce_parameters_bounds(s):
                # arbitrary admissible value of the first parameter, which depends on its value
                s.w.data[0:1].copy_(B.tensor([w.bnd(w.read(s.w)[0])]))

            def enforce_parameters_constraints(s):
                s.w.data[1:2].copy_(B.tensor([w.con(w.read(s.w)[1])]))

            def get_detached_model_parameters(s, is_normalized_out=False):
                if is_normalized_out:
                    raise AssertionError('normalized parameters')
                return dict(zip(('p0', 'p1'), w.read(s.w)))

            def get_model_parameters_bounds(s):
                return {'p0': (1.0, 2.0), 'p1': (3.0, 4.0)}

            def forward(s, *a, **k):
                return w.forward(s, *a, **k)

        class Plain(nn.Module):
            def __init__(s, value):
                super().__init__()
                s.q = nn.Parameter(B.tensor([value]))

        self.Model = Model
        self.bnd = B.func('bnd', lambda v: min(max(v, -0.5), 0.5))
        self.con = B.func('con', lambda v: 0.3 * v + 0.1)
        o = TR[kind] + ':'
        B.override(o + CLS[kind], Model)

        class Opt:
            def __init__(s, params, lr):
                s.params = list(params)
                s.lr = lr
                s.grads = 0
                w.opt = s

            def zero_grad(s):
                s.grads = 0

            def step(s):
                B.true('step with the gradient of one loss', s.grads == 1)
                for j, p in enumerate(s.params):
                    p.data.copy_(B.tensor([B.var('s%d_%d_%d' % (w.step, j, i)) for i in range(len(cp(B, p)))]))
                w.step += 1

            def state_dict(s):
                return {'k': w.step}

            def load_state_dict(s, state):
                w.events.append(('optimizer state', state['k']))
        self.Opt = Opt

        def get_opt(algorithm, params, **kw):
            B.true('optimizer', algorithm == 'adam')
            op = Opt(params, kw['lr'])
            B.true('initial learning rate', kw['lr'] is w.lr and set(kw) == {'lr'})
            return op
        B.override(o + 'get_pytorch_optimizer', get_opt)

        class Sched:
            def __init__(s):
                s.k = 0
                w.sched = s

            def step(s):
                s.k += 1

            def get_last_lr(s):
                return [w.rate(s.k)]

        def get_sched(optimizer, scheduler_type, **kw):
            B.true('scheduler', optimizer is w.opt and scheduler_type == 'steplr' and kw == {'step_size': 2})
            return Sched()
        B.override(o + 'get_learning_rate_scheduler', get_sched)
        B.override(o + 'get_model_summary', lambda *a, **k: 'summary')
        B.override(o + 'write_training_summary_file', lambda *a, **k: None)
        if kind != 'finder':
            B.override(o + 'get_pytorch_loss', self.get_loss)
            B.override(o + 'data_scaler_transform', self.transform)
            B.override(o + 'fit_data_scalers', lambda model, dataset, **k: self.fits.append((model, dataset, k)))
        self.lr = 0.125

        class Data:
            def __len__(s):
                return n_samples

            def __getitem__(s, i):
                d = {'features_in': B.tensor(w.x[i]), 'features_out': B.tensor(w.y[i])}
                if hidden:
                    d['hidden_features_in'] = B.tensor([[w.x[i][0][0]]])
                return d
        self.data = Data()

    def rate(self, k):
        return 0.125 / (k + 1)

    def read(self, p):
        return cp(self.B, p)

    # ---- stand-ins of model, loss and scalers: what they are given is checked, what they give is arbitrary
    def sc(self, ft, i, v):
        return (v - (1 if ft == 'features_in' else 2) - i) / 4

    def transform(self, model, tensor, features_type, mode='normalize'):
        B = self.B
        B.true('scalers of the model', model is self.model and mode == 'normalize')
        a = B.arr(tensor)
        o = np.empty(a.shape, object)
        for p in np.ndindex(*a.shape):
            o[p] = self.sc(features_type, p[-1], a[p])
        return B.tensor(o)

    def forward(self, model, *a, **k):
        B = self.B
        B.true('trained model', model is self.model)
        B.true('training mode', model.training)
        B.eq('parameters of the model at a training step', cp(B, model.w), self.now['w'])
        if self.kind == 'finder':
            B.true('forward mode', k == {'sequential_mode': 'sequential_element_vmap'} and not a)
            return self.loss_value()
        f = B.arr(a[0])
        ids = self.batch_ids()
        B.true('batch', tuple(f.shape) == (1, len(ids), NF))
        for j, s in enumerate(ids):
            for i in range(NF):
                v = self.x[s, 0, i]
                B.eq('features of the batch', f[0, j, i], self.sc('features_in', i, v) if self.norm_in else v)
        if self.kind == 'rnn':
            h = a[1]
            if self.hidden:
                h = B.arr(h)
                for j, s in enumerate(ids):
                    B.eq('hidden features of the batch', h[0, j, 0], self.x[s, 0, 0])
            else:
                B.true('no hidden features', h is None)
        self.out = [[B.var('o%d_%d_%d' % (self.step, j, i)) for i in range(NF)] for j in range(len(ids))]
        o = B.tensor([self.out])
        return (o, None) if self.kind == 'rnn' else o

    def batch_ids(self):
        nb = -(-self.n // self.batch)
        b = self.step % nb
        return list(range(b * self.batch, min(self.n, (b + 1) * self.batch)))

    def get_loss(self, loss_type, **kw):
        B = self.B
        B.true('loss arguments', loss_type == 'mse' and kw == {'reduction': 'mean'})

        def ev(out, target):
            o, t = B.arr(out), B.arr(target)
            ids = self.batch_ids()
            B.true('shapes', tuple(o.shape) == tuple(t.shape) == (1, len(ids), NF))
            for j, s in enumerate(ids):
                for i in range(NF):
                    q, v = self.out[j][i], self.y[s, 0, i]
                    B.eq('scored output', o[0, j, i], self.sc('features_out', i, q) if self.nloss and not self.norm_out else q)
                    B.eq('scored target', t[0, j, i], self.sc('features_out', i, v) if self.nloss or self.norm_out else v)
            return self.loss_value()
        return ev

    def loss_value(self):
        B = self.B
        v = B.var('loss%d' % self.step, pos=True)
        self.losses.append(v)
        t = B.tensor(v)

        def back(*a):
            self.opt.grads += 1
        if B.sym:
            t.backward = back
        else:
            t.requires_grad_()
            t.register_hook(back)
        return t

    # ---- specification: the training process
    def enforce(self, p):
        p = dict(p)
        if self.kind == 'rc' or (self.kind == 'finder' and self.explicit):
            p['w'] = [self.bnd(p['w'][0]), self.con(p['w'][1])]
        return p

    def clamp(self, p):
        B = self.B
        p = dict(p)
        if self.kind == 'hybrid':
            p['q0'] = [B.fmax(B.fmin(p['q0'][0], B.rat(2, 1)), B.rat(-2, 1))]
            p['q1'] = [B.fmax(B.fmin(p['q1'][0], B.rat(1, 1)), B.rat(-1, 1))]
        return p

    def names(self):
        return ['w'] + {'hybrid': ['q%d' % i for i in range(4)], 'finder': ['q0', 'q1']}.get(self.kind, [])

    def initial(self, tag='start'):
        B = self.B
        p = {'w': [B.var('%s_w%d' % (tag, i)) for i in range(2)]}
        for q in self.names()[1:]:
            p[q] = [B.var('%s_%s' % (tag, q))]
        return p

    def after_step(self, k):
        B = self.B
        p = {}
        for j, n in enumerate(self.names()):
            p[n] = [B.var('s%d_%d_%d' % (k, j, i)) for i in range(2 if n == 'w' else 1)]
        return self.clamp(self.enforce(p))

    @property
    def now(self):
        return self.after_step(self.step - 1) if self.step else self.enforce(self.first)

    def train(self, n_max, batch=2, tag='start', model_load_state=None, lr_scheduler=False, seed=None, nloss=False, **kw):
        B = self.B
        self.batch = batch if self.kind != 'finder' else self.n
        self.nloss = nloss
        self.first = self.initial(tag)
        a = dict(lr_scheduler_type='steplr' if lr_scheduler else None, lr_scheduler_kwargs={'step_size': 2} if lr_scheduler else {},
                 save_every=self.save_every, seed=seed, is_verbose=B.choice('verbose', [False, True]) if not B.sym else False)
        if self.kind == 'finder':
            a.update(is_explicit_model_parameters=self.explicit, loss_scaling_factor='scale', loss_time_weights='weights', **kw)
            r = self.mod.train_model(n_max, 'specimen', 'state', {'model_directory': self.d, 'extra': 5}, self.lr, **a)
        else:
            a.update(loss_kwargs={'reduction': 'mean'}, batch_size=batch, model_load_state=model_load_state, **kw)
            if self.kind == 'rc':
                a['is_normalized_loss'] = nloss
            r = self.mod.train_model(n_max, self.data, {'model_directory': self.d, 'extra': 5}, self.lr, **a)
        self.result = r
        return r

    def load(self, name, sub=''):
        return self.B.torch.load(os.path.join(self.d, sub, name))

    def same_state(self, what, sd, p):
        B = self.B
        for n in self.names():
            k = 'w' if n == 'w' else 'subs.%s.q' % n[1:]
            B.true(what + ': holds ' + n, k in sd)
            B.eq(what, cp(B, sd[k]), p[n])

    def history(self):
        return self.B.mod(MT).read_loss_history_from_file(os.path.join(self.d, 'loss_history_record.pkl'))

    def clean(self):
        shutil.rmtree(self.d, ignore_errors=True)


def run_in(f):
    import functools

    @functools.wraps(f)
    def g(B, kind, **kw):
        wkw = {k: kw.pop(k) for k in ('n_samples', 'norm_in', 'norm_out', 'explicit', 'hidden', 'save_every') if k in kw}
        w = World(B, kind, **wkw)
        try:
            f(B, w, **kw)
        finally:
            w.clean()
    return g


def steps_per_epoch(w):
    return 1 if w.kind == 'finder' else -(-w.n // w.batch)


def averages(w, n):
    s = steps_per_epoch(w)
    return [sum(w.losses[e * s + 1:(e + 1) * s], w.losses[e * s]) / s for e in range(n)]


def minimum(B, v):
    """(value, index of the last occurrence, index of the first occurrence) of the minimum"""
    last = first = 0
    for i in range(1, len(v)):
        if B.decide(v[i] <= v[last]):
            if not B.decide(v[i] == v[last]):
                first = i
            last = i
    return v[last], last, first


def check_training(B, w, n, best=None, final=None, valid=None):
    """n epochs were made; best = (epoch, state) when early stopping chose it"""
    s = steps_per_epoch(w)
    B.true('every batch of every epoch is one step', w.step == n * s and len(w.losses) == n * s)
    avg = averages(w, n)
    v, last, first = minimum(B, avg)
    model, loss, epoch = w.result
    B.true('trained model returned', model is w.model)
    B.eq('minimum loss returned', B.val(loss), v)
    B.true('epoch of the minimum loss returned', epoch == first)
    state = w.after_step(w.step - 1) if final is None else final
    w.same_state('state of the returned model', model.state_dict(), state)
    be = last if best is None else best[0]
    bs = w.after_step((last + 1) * s - 1) if best is None else best[1]
    files = {'model-%d-best.pt' % be, 'model_optim-%d-best.pt' % be} | (set() if w.kind == 'finder' else {'model-init.pt'})
    keep = {n - 1} | w.extra
    if w.save_every:
        keep |= {e for e in range(n) if e % w.save_every == 0 and (best is None or e <= be)}
    files |= {'model-%d.pt' % e for e in keep} | {'model_optim-%d.pt' % e for e in keep}
    B.true('state files', {f for f in os.listdir(w.d) if f.endswith('.pt')} == files)
    if w.kind != 'finder':
        w.same_state('initial state file', w.load('model-init.pt'), w.first)
    w.same_state('best state file', w.load('model-%d-best.pt' % be), bs)
    B.true('epoch of the best optimizer state', w.load('model_optim-%d-best.pt' % be)['epoch'] == be)
    if best is None:
        B.true('best optimizer state', w.load('model_optim-%d-best.pt' % be)['state'] == {'k': (last + 1) * s})
    for e in sorted(keep):
        w.same_state('epoch state file', w.load('model-%d.pt' % e), state if e == n - 1 else w.after_step((e + 1) * s - 1))
        o = w.load('model_optim-%d.pt' % e)
        B.true('epoch optimizer state', o['epoch'] == e and (best is not None and e == n - 1 or o['state'] == {'k': (e + 1) * s}))
    # histories
    h = w.history()
    B.true('loss history', len(h[2]) == n)
    for e in range(n):
        B.eq('average loss of the epoch', B.val(h[2][e]), avg[e])
    if valid is None:
        B.true('no validation history', h[3] is None)
    else:
        B.true('validation history', h[3] is not None and len(h[3]) == len(valid))
        for a, b in zip(h[3], valid):
            B.eq('validation loss', B.val(a), b)
    if w.kind in ('rc', 'hybrid') or (w.kind == 'finder' and w.explicit):
        ph, pb = w.mod.read_parameters_history_from_file(os.path.join(w.d, 'parameters_history_record.pkl'))
        bp, bb = w.mod.read_best_parameters_from_file(os.path.join(w.d, 'parameters_best.pkl'))
        B.true('bounds stored', pb == bb == {'p0': (1.0, 2.0), 'p1': (3.0, 4.0)})
        off = 0 if w.kind == 'finder' else 1
        for i, k in enumerate(('p0', 'p1')):
            B.true('parameters history', len(ph[k]) == n + off)
            if off:
                B.eq('initial parameter', B.val(ph[k][0]), w.enforce(w.first)['w'][i])
            for e in range(n):
                vs = [w.after_step(e * s + j)['w'][i] for j in range(s)]
                B.eq('average parameter of the epoch', B.val(ph[k][e + off]), sum(vs[1:], vs[0]) / s)
            B.eq('parameters of the best state', B.val(bp[k]), bs['w'][i])
    if w.kind == 'finder':
        for i in range(2):
            d = 'm%d' % i
            mf = {'%s-init.pt' % d, '%s-%d-best.pt' % (d, be)} | {'%s-%d.pt' % (d, e) for e in keep}
            B.true('state files of the material models', set(os.listdir(os.path.join(w.d, d))) == mf)
            B.eq('material model: initial state', cp(B, w.load('%s-init.pt' % d, d)['q']), w.first['q%d' % i])
            B.eq('material model: best state', cp(B, w.load('%s-%d-best.pt' % (d, be), d)['q']), bs['q%d' % i])
            for e in sorted(keep):
                B.eq('material model: epoch state', cp(B, w.load('%s-%d.pt' % (d, e), d)['q']), w.after_step((e + 1) * s - 1)['q%d' % i])


OFF = {'rc': {'is_params_stopping': False}, 'finder': {'is_params_stopping': False}}


@case('C29', params=[('%s:e%d_b%d%s' % (k, n, b, '_s%d' % sv if sv else ''), dict(kind=k, n=n, batch=b, save_every=sv))
                     for k in KINDS for n, b, sv in ((0, 3, None), (1, 2, None), (2, 3, 1), (2, 3, 2)) if n or k in KINDS], ntrials=4, max_paths=60)
@run_in
def training(B, w, n, batch):
    """ensures: one step per batch and epoch, with the gradient of that batch's loss; the initial, periodic, best and last states are those the model
    had after the corresponding epoch; histories are epoch averages; minimum loss and its epoch are returned"""
    w.train(n, batch=batch, **OFF.get(w.kind, {}))
    check_training(B, w, n + 1)
    B.true('optimizer of the parameters of the model', [id(p) for p in w.opt.params] == [id(p) for p in w.model.parameters()])
    B.true('model options', w.init_kw == {'extra': 5})
    B.true('device', w.model.dev == 'cpu')
    if w.kind == 'finder':
        a, k = w.specimen
        B.true('specimen', a == ('specimen', 'state') and k == {'loss_scaling_factor': 'scale', 'loss_time_weights': 'weights'})
    _, lr = B.mod(MT).read_lr_history_from_file(os.path.join(w.d, 'loss_history_record.pkl'))
    B.true('learning rate history', lr == [w.lr] * (n + 1))
    if w.kind != 'finder':
        B.true('no scalers fitted', w.fits == [])


@case('C29', params=[('not_explicit', dict(kind='finder', explicit=False))], ntrials=4, max_paths=60)
@run_in
def implicit_parameters(B, w):
    """models without explicit parameters: no bounds are enforced, no parameters history is stored, training does not stop early"""
    w.train(1)
    check_training(B, w, 2)
    B.true('no parameters files', not any('parameters' in f for f in os.listdir(w.d)))


@case('C29', params=[('%s:%s' % (k, c), dict(kind=k, nloss=nl, **kw)) for k in ('rc', 'rnn', 'hybrid')
                     for c, nl, kw in (('in', False, {'norm_in': True}), ('out', False, {'norm_out': True}),
                                       ('both', False, {'norm_in': True, 'norm_out': True}), ('nloss', True, {}),
                                       ('nloss_out', True, {'norm_out': True})) if k == 'rc' or not nl]
      + [('rnn:hidden', dict(kind='rnn', nloss=False, hidden=True))], ntrials=4, max_paths=60)
@run_in
def normalization(B, w, nloss):
    """ensures: the model sees normalized features, and outputs are scored against normalized targets, exactly when the model (or the loss) is
    normalized; the scalers are fitted to the training data set before the first step"""
    w.train(0, nloss=nloss, **OFF.get(w.kind, {}))
    check_training(B, w, 1)
    need = w.norm_in or w.norm_out or nloss
    B.true('scalers fitted to the training data', (len(w.fits) > 0) == bool(need) and all(m is w.model and d is w.data for m, d, _ in w.fits))


@case('C29', params=[('%s:%s' % (k, 'seed' if s else 'lr'), dict(kind=k, seed=s)) for k in KINDS for s in (None, 3)], ntrials=3, max_paths=60)
@run_in
def schedule_and_seed(B, w, seed):
    """ensures: the scheduler makes one step per epoch and its rate is recorded; a seed changes nothing in what is stored"""
    w.train(1, lr_scheduler=True, seed=seed, **OFF.get(w.kind, {}))
    check_training(B, w, 2)
    t, lr = B.mod(MT).read_lr_history_from_file(os.path.join(w.d, 'loss_history_record.pkl'))
    B.true('learning rate history', t == 'steplr' and w.sched.k == 2 and lr == [[w.rate(1)], [w.rate(2)]])


@case('C29', params=[('%s:%s' % (k, s), dict(kind=k, state=s)) for k in ('rc', 'rnn', 'hybrid') for s in ('best', 7, 'last')], ntrials=3, max_paths=60)
@run_in
def resumed(B, w, state):
    """ensures: training from a saved state starts from the parameters of that state"""
    m = w.Model(model_directory=w.d, tag='saved')
    for q in ('m0', 'm1', 'm2'):
        shutil.rmtree(os.path.join(w.d, q), ignore_errors=True)
    B.torch.save(m.state_dict(), os.path.join(w.d, 'model-7-best.pt' if state == 'best' else 'model-7.pt'))
    real = w.initial('saved')
    first = w.initial
    w.initial = lambda tag: first('saved')
    w.train(0, model_load_state=state, **OFF.get(w.kind, {}))
    B.true('initialised from the directory', w.from_file == w.d)
    check_training(B, w, 1)
    B.true('scalers kept', w.fits == [])
    del real


@case('C29', params=[('%s:e%d' % (k, n), dict(kind=k, n=n)) for k in ('rc', 'finder') for n in (0, 2)], ntrials=6, max_paths=80)
@run_in
def parameters_stopping(B, w, n):
    """ensures: training ends after the first epoch for which the parameters have converged, or after the last epoch"""
    calls = []

    def conv(history, is_verbose=False, **kw):
        e = len(calls)
        calls.append(kw)
        return B.bvar('converged%d' % e), {}
    B.override(TR[w.kind] + ':check_model_parameters_convergence', conv)
    w.train(n, batch=3, is_params_stopping=True, params_stopping_kwargs={'trigger_tolerance': 2})
    e = 0
    while e < n and not B.decide(B.bvar('converged%d' % e)):
        e += 1
    check_training(B, w, e + 1)
    B.true('criterion options', all(k == {'trigger_tolerance': 2} for k in calls))


@case('C29', params=[('%s:f%d_t%d%s%s' % (k, f, t, '_s' if sv else '', '_p' if ps else ''), dict(kind=k, freq=f, trig=t, save_every=sv, pstop=ps, n=n))
                     for k in ('rc', 'rnn', 'hybrid') for f, t, sv, ps, n in ((1, 1, None, False, 2), (1, 2, 1, False, 2), (2, 1, None, False, 2),
                                                                            (1, 1, None, True, 1))
                     if k == 'rc' or not ps], ntrials=10, max_paths=400)
@run_in
def early_stopping(B, w, n, freq, trig, pstop):
    """ensures: the current state is validated every few epochs on the validation data; training ends when the validation loss has failed to improve
    (relatively, by the tolerance) the given number of times, and the state with the lowest validation loss becomes the trained model and the
    best state; temporary state files are gone; validation losses are recorded for every epoch"""
    tol = B.var('tol', pos=True)
    valid, states = {}, {}

    def predict(dataset, model_directory, model=None, predict_directory=None, model_load_state=None, loss_nature='features_out', loss_type='mse',
                loss_kwargs={}, is_normalized_loss=False, batch_size=1, device_type='cpu', seed=None, is_verbose=False):
        e = model_load_state
        B.true('validation data and options', dataset == 'validation' and model_directory == w.d and model is w.model and predict_directory is None
               and (loss_nature, loss_type, loss_kwargs) == ('features_out', 'mse', {'reduction': 'mean'}) and batch_size == w.batch
               and not is_normalized_loss)
        B.true('validated epoch', e == w.step // steps_per_epoch(w) - 1 and e % freq == 0 and e not in valid)
        sd = B.torch.load(os.path.join(w.d, 'model-%d.pt' % e))
        w.same_state('validated state', sd, w.now)
        model.load_state_dict(sd)
        model.eval()
        valid[e] = B.var('valid%d' % e, pos=True)
        return None, valid[e]
    B.override(TR[w.kind] + ':predict', predict)
    kw = {}
    if w.kind == 'rc':
        kw['is_params_stopping'] = pstop
        B.override(TR['rc'] + ':check_model_parameters_convergence', lambda *a, **k: (False, {}))
    # a state file of an earlier training in the same directory
    if w.save_every is None and trig == 1 and freq == 1:
        m = w.Model(model_directory=w.d, tag='left')
        for q in ('m0', 'm1', 'm2'):
            shutil.rmtree(os.path.join(w.d, q), ignore_errors=True)
        B.torch.save(m.state_dict(), os.path.join(w.d, 'model-0.pt'))
        w.extra = {0}
        B.torch.save({'state': {'k': 99}, 'epoch': 0}, os.path.join(w.d, 'model_optim-0.pt'))
    w.train(n, batch=3, is_early_stopping=True,
            early_stopping_kwargs={'validation_dataset': 'validation', 'validation_frequency': freq, 'trigger_tolerance': trig,
                                   'improvement_tolerance': tol}, **kw)
    # specification of the criterion
    count, best, stop, e = 0, None, False, 0
    while True:
        if e % freq == 0:
            v = B.var('valid%d' % e, pos=True)
            if best is None:
                best = e
            else:
                b = B.var('valid%d' % best, pos=True)
                if B.decide(v < b):
                    count = 0 if B.decide((b - v) / b > tol) else count + 1
                    best = e
                else:
                    count += 1
            stop = count >= trig
        if stop or e >= n:
            break
        e += 1
    B.true('validated epochs', sorted(valid) == [i for i in range(e + 1) if i % freq == 0])
    hist = [valid[i - i % freq] for i in range(max(valid) + 1)]
    s = steps_per_epoch(w)
    if stop:
        st = w.after_step((best + 1) * s - 1)
        check_training(B, w, e + 1, best=(best, st), final=st, valid=hist)
        B.true('optimizer of the best state', w.events == [('optimizer state', (best + 1) * s)])
    else:
        check_training(B, w, e + 1, valid=hist)


@case('C29', params=[('n%d_t%d_m%d' % (n, t, m), dict(n=n, trig=t, mh=m)) for n in (1, 2, 3, 4) for t in (1, 2, 3) for m in (0, 3)
                     if not (n == 4 and m == 3 and t == 1)]
      + [('n4_t%d_%s' % (t, z), dict(n=4, trig=t, mh=0, zone=z)) for t in (1, 2) for z in ('near', 'zero')], ntrials=12, max_paths=600)
def convergence_criterion(B, n, trig, mh, zone=None):
    """ensures: converged iff the history is long enough and, for every parameter, each of the last changes is below the tolerance: relative to the
    previous value, or absolute where that is (nearly) zero"""
    M = B.mod(TR['rc'])
    two = n <= 2
    names = ('a', 'b') if two else ('a',)
    dist = {'near': (0.97, 1.03), 'zero': (-3e-8, 3e-8)}.get(zone)
    hist = {k: [B.var('%s%d' % (k, i), dist=dist) for i in range(n)] for k in names}
    tol = B.var('tol', pos=True, dist={'near': (0.005, 0.05), 'zero': (1e-8, 6e-8)}.get(zone))
    got, status = M.check_model_parameters_convergence({k: list(v) for k, v in hist.items()}, convergence_tolerance=tol, trigger_tolerance=trig,
                                                       min_hist_length=mh)
    small = B.rat(1, 10 ** 8)
    conv = {}
    for k in names:
        h = hist[k]
        if n <= trig:
            conv[k] = False
            continue
        ok = True
        for i in range(n - trig, n):
            d = B.absv(h[i] - h[i - 1])
            p = B.absv(h[i - 1])
            if B.decide(p > small):
                ok = ok and B.decide(d / p < tol)
            else:
                ok = ok and B.decide(d < tol)
        conv[k] = ok
    B.true('converged', bool(got) == (all(conv.values()) and n > mh))
    for k in names:
        B.true('status', bool(status[k]['is_converged']) == conv[k])
        if n > 1:
            d = B.absv(hist[k][-1] - hist[k][-2])
            B.eq('absolute change', B.val(status[k]['absolute_change']), d)
            p = B.absv(hist[k][-2])
            if B.decide(p > small):
                B.eq('relative change', B.val(status[k]['relative_change']), d / p)
            else:
                B.true('no relative change', status[k]['relative_change'] is None)
        else:
            B.true('unknown changes', status[k]['absolute_change'] is None and status[k]['relative_change'] is None)


@case('C29', params=[('k%d_%s' % (k, 'n' if nz else 'p'), dict(nf=k, norm=nz)) for k in (2, 3) for nz in (False, True)], ntrials=3)
def cross_validation(B, nf, norm):
    """ensures: fold i is trained on its training samples in its own directory and its best state is validated on its validation samples; row i of the
    result holds its training and validation losses"""
    M = B.mod(CV)
    d = tempfile.mkdtemp(prefix='vf_c29_')
    try:
        n = 5
        perm = [3, 0, 4, 1, 2]
        cut = [perm[i::nf] for i in range(nf)]
        log = []

        class KFold:
            def __init__(s, n_splits=5, shuffle=False, random_state=None):
                s.k = n_splits

            def split(s, a):
                B.true('folds of the data set', s.k == nf and len(a) == n)
                for i in range(nf):
                    yield np.array([j for j in range(n) if j not in cut[i]]), np.array(sorted(cut[i]))

        class NS:
            pass
        sk = NS()
        sk.model_selection = NS()
        sk.model_selection.KFold = KFold
        B.override(CV + ':sklearn', sk)
        B.override(CV + ':make_directory', lambda p, is_overwrite=False: os.mkdir(p))
        B.override(CV + ':write_cross_validation_summary_file', lambda *a, **k: log.append(('summary', a)))

        class Data:
            def __len__(s):
                return n

            def __getitem__(s, i):
                return {'id': int(i)}

        class Model:
            is_model_in_normalized, is_model_out_normalized = norm, norm

            def __init__(s, directory):
                s.model_directory = directory

        def ids(ds):
            return [ds[i]['id'] for i in range(len(ds))]
        tl = [B.var('tl%d' % i) for i in range(nf)]
        vl = [B.var('vl%d' % i) for i in range(nf)]
        fold = lambda i: os.path.join(d, 'fold_%d' % (i + 1))

        def train(n_max_epochs, dataset, model_init_args, lr_init, **kw):
            i = len(log) // 2
            B.true('training of the fold', len(log) % 2 == 0 and ids(dataset) == [j for j in range(n) if j not in cut[i]] and n_max_epochs == 7
                   and lr_init == 0.5 and os.path.normpath(model_init_args['model_directory']) == os.path.join(fold(i), 'model')
                   and model_init_args['size'] == 3)
            want = dict(opt_algorithm='adam', lr_scheduler_type=None, lr_scheduler_kwargs={}, loss_nature='features_out', loss_type='mse',
                        loss_kwargs={'reduction': 'mean'}, batch_size=2, is_sampler_shuffle=True, is_early_stopping=True,
                        early_stopping_kwargs={'validation_frequency': 2})
            B.true('training options', all(kw.get(k) == v for k, v in want.items()))
            log.append('train')
            return Model(model_init_args['model_directory']), tl[i], 0

        def predict(dataset, model_directory, **kw):
            i = len(log) // 2
            B.true('validation of the fold', len(log) % 2 == 1 and ids(dataset) == sorted(cut[i])
                   and os.path.normpath(model_directory) == os.path.join(fold(i), 'model')
                   and os.path.normpath(kw['predict_directory']) == os.path.join(fold(i), 'validation') and kw['model_load_state'] == 'best'
                   and kw['is_normalized_loss'] == norm and kw['loss_nature'] == 'features_out' and kw['loss_type'] == 'mse'
                   and kw['loss_kwargs'] == {'reduction': 'mean'})
            log.append('predict')
            return None, vl[i]
        B.override(CV + ':train_model', train)
        B.override(CV + ':predict', predict)
        r = M.kfold_cross_validation(d, nf, 7, Data(), {'size': 3}, 0.5, lr_scheduler_type=None, loss_nature='features_out',
                                     loss_kwargs={'reduction': 'mean'}, batch_size=2, is_sampler_shuffle=True, is_early_stopping=True,
                                     early_stopping_kwargs={'validation_frequency': 2},
                                     is_verbose=B.choice('verbose', [False, True]) if not B.sym else False)
        B.true('every fold once', log[:2 * nf] == ['train', 'predict'] * nf)
        B.true('result', tuple(r.shape) == (nf, 2))
        for i in range(nf):
            B.eq('training loss of the fold', r[i, 0], tl[i])
            B.eq('validation loss of the fold', r[i, 1], vl[i])
        B.true('directories', sorted(os.listdir(d)) == ['fold_%d' % (i + 1) for i in range(nf)])
    finally:
        shutil.rmtree(d, ignore_errors=True)
