"""C27: model and optimizer state files: what is saved is what is loaded back, nothing else disappears."""
import os
import shutil
import tempfile
import numpy as np
from vf.engine import case, stable_rng
FUNCTIONS = ['save_model_state', 'load_model_state', 'check_state_file', 'check_best_state_file', 'remove_posterior_state_files',
             'remove_best_state_files', 'save_training_state', 'remove_posterior_optim_state_files', 'save_loss_history',
             'read_loss_history_from_file', 'read_lr_history_from_file', 'save_material_models_state', 'save_parameters_history',
             'read_parameters_history_from_file', 'save_best_parameters', 'read_best_parameters_from_file']
ASSUMPTIONS = ['torch.save / torch.load and pickle.dump / pickle.load: a file gives back a copy of what was last written to it',
               'file names: epochs are arbitrary distinct natural numbers (decimal text read back gives the number); the directory holds '
               'an enumerated population of up to three epoch files, a best file, an initial and a default file, and files of others',
               'the file system is the real one, in a scratch directory']
SF = 'model_architectures.procedures.model_state_files'
TR = 'model_architectures.procedures.model_training'
RC = 'model_architectures.rc_base_model.train.training'
HY = 'model_architectures.hybrid_base_model.train.training'
MF = 'material_model_finder.train.training'


def cp(B, x):
    return np.array(B.arr(x))


class Fs:
    """A scratch model directory and a model; the abstract state is a map from file name to content."""

    def __init__(self, B, name='model', n_epochs=3):
        self.B, self.name = B, name
        self.d = tempfile.mkdtemp(prefix='vf_c27_')
        self.k = 0
        self.order = []
        nn, torch = B.nn, B.torch

        class Model(nn.Module):
            def __init__(s, vals):
                super().__init__()
                s.w = nn.Parameter(B.tensor(vals))
                s.v = nn.Parameter(B.tensor([vals[0] * vals[0]]))
        self.Model = Model
        self.model = self.new_model('own')
        # arbitrary distinct epochs
        if B.sym:
            from vf.loader import TokInt
            self.e = [TokInt(7000000 + i, B.var('epoch%d' % i, nonneg=True)) for i in range(n_epochs)]
            for i in range(n_epochs):
                for j in range(i):
                    B.assume(self.e[i].term != self.e[j].term)
        else:
            r = stable_rng('epochs', B.env.seed)
            pool = sorted(r.sample(r.choice([range(0, 4), range(0, 13), range(8, 13), range(95, 1200)]), n_epochs))
            v = [B.var('epoch%d' % i, nonneg=True) for i in range(n_epochs)]
            B.assume(len(set(v)) == n_epochs)
            self.e = [pool[sorted(v).index(x)] for x in v]

    def new_model(self, tag, directory=None):
        B = self.B
        m = self.Model([B.var('%s_w%d' % (tag, i)) for i in range(2)])
        m.model_directory = directory or self.d
        m.model_name = self.name
        return m

    def put(self, fn, content=None):
        """Creates a file with arbitrary content."""
        self.k += 1
        if content is None:
            content = self.new_model('file%d' % self.k).state_dict()
        self.B.torch.save(content, os.path.join(self.d, fn))
        self.order.append(fn)
        return fn

    def listing(self):
        return sorted(os.listdir(self.d))

    def read(self, fn):
        return self.B.torch.load(os.path.join(self.d, fn))

    def snapshot(self):
        return {f: self.read(f) for f in self.listing()}

    def same_state(self, name, got, want):
        B = self.B
        B.true(name + ' keys', sorted(got) == sorted(want))
        for k in want:
            B.eq('%s %s' % (name, k), cp(B, got[k]), cp(B, want[k]))

    def unchanged(self, before, but=()):
        """Frame: every file outside `but` that is still there has its content."""
        now = self.listing()
        for i, f in enumerate(self.order):
            if f in before and f in now and f not in but:
                self.same_state('file %d keeps its content' % i, before[f], self.read(f))

    def clean(self):
        shutil.rmtree(self.d, ignore_errors=True)


def with_fs(f):
    import functools

    @functools.wraps(f)
    def g(B, **kw):
        fs = Fs(B, kw.pop('model_name', 'model'))
        try:
            f(B, fs, **kw)
        finally:
            fs.clean()
    return g


def foreign(fs, posterior=True):
    """Files that are not state files of this model (other models, optimizer states, backups, records)."""
    n = fs.name
    e = str(fs.e[-1])
    names = ['%sx-%s.pt' % (n, e), 'x%s-%s.pt' % (n, e), '%s-%s.pt.bak' % (n, e), '%s-%s.pth' % (n, e), '%s-%s-best.pt~' % (n, e),
             '%s-x%s.pt' % (n, e), '%s_v2-%s-best.pt' % (n, e), '%s7-best.pt' % n, '%s7-%s-best.pt' % (n, e), 'x%s-%s-best.pt' % (n, e),
             'loss_history_record.pkl', '%s-%s' % (n, e), '%s-%s-worst.pt' % (n, e), '%s-%s-init.pt' % (n, e)]
    names = [x for x in names if x not in fs.listing()]
    if '.' in n:
        names += [n.replace('.', 'x') + '-%s.pt' % e, n.replace('.', 'x') + '-best.pt']
    for x in names:
        fs.put(x)
    return names


def own_epochs(fs, which):
    for i in which:
        fs.put('%s-%s.pt' % (fs.name, fs.e[i]))


NAMES = [('', {}), ('dotted_name', {'model_name': 'gru.v1'}), ('dashed_name', {'model_name': 'rc-model-2'})]
SAVES = [('%s_%s_%s' % (t, 'epoch' if ep else 'noepoch', 'rm' if rm else 'keep'), {'state': t, 'has_epoch': ep, 'rm': rm})
         for t in ('default', 'init', 'epoch', 'best') for ep in (True, False) for rm in (True, False)]


def expected_save(fs, state, epoch, rm, before):
    """(name of the written file, names removed) of save_model_state as documented."""
    n = fs.name
    target = n + ('-init' if state == 'init' else ('-%s' % epoch if epoch is not None else '') + ('-best' if state == 'best' else '')) + '.pt'
    gone = set()
    if epoch is not None and rm:
        for x in fs.e:
            f = '%s-%s.pt' % (n, x)
            if f in before and x > epoch:
                gone.add(f)
    if state == 'best':
        for f in before:
            if f == n + '-best.pt' or f in ['%s-%s-best.pt' % (n, x) for x in fs.e]:
                gone.add(f)
        gone.discard(target)
    return target, gone


def saving(B, fs, state, has_epoch, rm, best, call=None, extra=None):
    M = B.mod(SF)
    own_epochs(fs, (1, 2))
    fs.put(fs.name + '-init.pt')
    fs.put(fs.name + '.pt')
    if best == 'best_epoch':
        fs.put('%s-%s-best.pt' % (fs.name, fs.e[1]))
    elif best == 'best_plain':
        fs.put(fs.name + '-best.pt')
    if extra:
        extra()
    foreign(fs)
    before = fs.snapshot()
    epoch = fs.e[0] if has_epoch else None
    w0 = {k: cp(B, v) for k, v in fs.model.state_dict().items()}
    kw = {} if rm else {'is_remove_posterior': False}
    if epoch is not None:
        kw['epoch'] = epoch
    if state != 'default' or call:
        kw['state_type'] = state
    (call or M.save_model_state)(fs.model, **kw)
    target, gone = expected_save(fs, state, epoch, rm, before)
    return before, target, gone, w0


def check_saved(B, fs, before, target, gone, w0, more=()):
    want = (set(before) - gone) | {target} | set(more)
    B.true('exactly the documented files are removed and created', set(fs.listing()) == want)
    B.true('the state file is where it is documented', os.path.isfile(os.path.join(fs.d, target)))
    got = fs.read(target)
    B.true('saved entries', sorted(got) == sorted(w0))
    for k in w0:
        B.eq('the saved state is the state of the model: ' + k, cp(B, got[k]), w0[k])
    for k, v in fs.model.state_dict().items():
        B.eq('the model is not changed by saving', cp(B, v), w0[k])
    fs.unchanged(before, but=(target,) + tuple(more))


@case('C27', params=[(a + (':' + b if b else '') + ':' + nb, {**k, **k2, 'best': nb}) for a, k in SAVES for b, k2 in NAMES for nb in
                     ('best_epoch', 'best_plain', 'no_best')
                     if (k['state'] in ('best', 'epoch') or nb == 'best_epoch') and not (b and nb != 'best_epoch')],
      ntrials=6, max_paths=60)
@with_fs
def save_state(B, fs, state, has_epoch, rm, best):
    """requires: a directory with epoch files, a best file, an initial and a default state and files of others
    ensures: the state of the model is written to the documented file; of the other files exactly the epoch states posterior to a known epoch
    (if asked) and the previous best state (when a best state is saved) are gone, everything else is there unchanged"""
    check_saved(B, fs, *saving(B, fs, state, has_epoch, rm, best))


@case('C27', params=[(a + ':' + nb, {**k, 'best': nb}) for a, k in SAVES for nb in ('best_epoch', 'best_plain') if k['state'] != 'default'],
      ntrials=6, max_paths=120)
@with_fs
def save_training(B, fs, state, has_epoch, rm, best):
    """as save_state, and the state of the optimizer is written next to it with its epoch (not for an initial state); posterior optimizer states
    and previous best optimizer states are removed under the same rule"""
    M = B.mod(TR)
    n = fs.name
    val = B.tensor([B.var('opt0'), B.var('opt1')])

    class Opt:
        def state_dict(self):
            return {'state': val, 'param_groups': []}
    on = n + '_optim'

    def extra():
        for i in (1, 2):
            fs.put('%s-%s.pt' % (on, fs.e[i]))
        fs.put('%s-%s-best.pt' % (on, fs.e[1]) if best == 'best_epoch' else on + '-best.pt')
        fs.put('%s-%s.pt.bak' % (on, fs.e[2]))
    before, target, gone, w0 = saving(B, fs, state, has_epoch, rm, best, extra=extra,
                                      call=lambda m, **kw: M.save_training_state(m, Opt(), **kw))
    more = []
    if state != 'init':
        epoch = fs.e[0] if has_epoch else None
        ofile = on + ('-%s' % epoch if has_epoch else '') + ('-best' if state == 'best' else '') + '.pt'
        more = [ofile]
        if has_epoch and rm:
            gone |= {f for x in fs.e for f in ['%s-%s.pt' % (on, x)] if f in before and x > epoch}
        if state == 'best':
            gone |= ({on + '-best.pt'} | {'%s-%s-best.pt' % (on, x) for x in fs.e}) & set(before)
            gone.discard(ofile)
        got = fs.read(ofile)
        B.true('the optimizer state carries its epoch', sorted(got) == ['epoch', 'state']
               and (got['epoch'] is None if epoch is None else got['epoch'] == epoch))
        B.eq('the optimizer state is saved', cp(B, got['state']['state']), cp(B, val))
    check_saved(B, fs, before, target, gone, w0, more)


LOADS = [('%s_%s' % (t, 'rm' if rm else 'keep'), {'load': t, 'rm': rm}) for t in ('default', 'init', 'epoch', 'best', 'best_plain', 'last')
         for rm in (True, False)]


@case('C27', params=[(a + (':' + b if b else ''), {**k, **k2}) for a, k in LOADS for b, k2 in NAMES], ntrials=6, max_paths=120)
@with_fs
def load_state(B, fs, load, rm):
    """requires: the directory holds the state asked for
    ensures: the parameters of the model are the ones in the documented file ('last': of the largest epoch), the epoch of the state is returned,
    epoch states posterior to it are removed if asked and only those, every other file is untouched"""
    M = B.mod(SF)
    n = fs.name
    own_epochs(fs, (1, 2))
    fs.put(n + '-init.pt')
    fs.put(n + '.pt')
    fs.put('%s-%s-best.pt' % (n, fs.e[0]) if load != 'best_plain' else n + '-best.pt')
    if load in ('epoch',):
        fs.put('%s-%s.pt' % (n, fs.e[0]))
    foreign(fs)
    before = fs.snapshot()
    epoch = None
    if load == 'init':
        target, epoch, arg = n + '-init.pt', 0, 'init'
    elif load == 'epoch':
        target, epoch, arg = '%s-%s.pt' % (n, fs.e[0]), fs.e[0], fs.e[0]
    elif load == 'best':
        target, epoch, arg = '%s-%s-best.pt' % (n, fs.e[0]), fs.e[0], 'best'
    elif load == 'best_plain':
        target, arg = n + '-best.pt', 'best'
    elif load == 'last':
        epoch = fs.e[1] if fs.e[1] > fs.e[2] else fs.e[2]
        target, arg = '%s-%s.pt' % (n, epoch), 'last'
    else:
        target, arg = n + '.pt', 'default'
    gone = set()
    if epoch is not None and rm:
        gone = {f for x in fs.e for f in ['%s-%s.pt' % (n, x)] if f in before and x > epoch}
    got = M.load_model_state(fs.model, arg, **({} if rm else {'is_remove_posterior': False}))
    B.true('returns the epoch of the state', (got is None) if epoch is None else (got is not None and got == epoch))
    fs.same_state('the model is in the saved state', fs.model.state_dict(), before[target])
    B.true('exactly the posterior epoch files are removed', set(fs.listing()) == set(before) - gone)
    fs.unchanged(before)


@case('C27', params=[(a + (':rm' if rm else ':keep'), {'load': a, 'rm': rm}) for a in ('default', 'init', 'epoch', 'best', 'two_best', 'last')
                     for rm in (True, False)], ntrials=6, max_paths=60)
@with_fs
def load_missing(B, fs, load, rm):
    """requires: the directory does not hold the state asked for (or holds two best states)
    ensures: RuntimeError, no file is removed and the model keeps its state"""
    M = B.mod(SF)
    n = fs.name
    if load != 'last':
        own_epochs(fs, (1, 2))
    if load != 'init':
        fs.put(n + '-init.pt')
    if load == 'two_best':
        fs.put('%s-%s-best.pt' % (n, fs.e[0]))
        fs.put('%s-%s-best.pt' % (n, fs.e[1]))
    elif load != 'best':
        fs.put('%s-%s-best.pt' % (n, fs.e[0]))
    foreign(fs)
    before = fs.snapshot()
    w0 = {k: cp(B, v) for k, v in fs.model.state_dict().items()}
    arg = {'epoch': fs.e[0], 'two_best': 'best'}.get(load, load)
    B.raises('a missing state is an error', lambda: M.load_model_state(fs.model, arg, is_remove_posterior=rm), RuntimeError)
    B.true('no file is removed by a failed load', set(fs.listing()) == set(before))
    fs.unchanged(before)
    for k, v in fs.model.state_dict().items():
        B.eq('the model keeps its state', cp(B, v), w0[k])


@case('C27', ntrials=8, max_paths=200)
@with_fs
def save_then_load(B, fs):
    """requires: any history of two epoch saves and a best save
    ensures: a second model that loads the best, the last and each remaining epoch state gets the state saved at that point"""
    M = B.mod(SF)
    states = []
    for i in range(2):
        for p in range(1):
            fs.model.load_state_dict(fs.new_model('step%d' % i).state_dict())
        M.save_model_state(fs.model, state_type='epoch', epoch=fs.e[i])
        if i == 0:
            M.save_model_state(fs.model, state_type='best', epoch=fs.e[0])
        states.append({k: cp(B, v) for k, v in fs.model.state_dict().items()})
    M.save_model_state(fs.model, state_type='best', epoch=fs.e[1])
    other = fs.new_model('other')

    def at(name, i, arg):
        ep = M.load_model_state(other, arg, is_remove_posterior=False)
        B.true(name + ': epoch', ep == fs.e[i])
        for k, v in other.state_dict().items():
            B.eq(name + ': ' + k, cp(B, v), states[i][k])
    at('best', 1, 'best')
    if fs.e[1] > fs.e[0]:
        at('last', 1, 'last')
        at('first', 0, fs.e[0])
        at('second', 1, fs.e[1])
    else:
        at('last', 1, 'last')
        B.raises('a posterior epoch is gone', lambda: M.load_model_state(other, fs.e[0]), RuntimeError)


@case('C27', ntrials=4)
@with_fs
def bad_model(B, fs):
    """a model that is no module, or without an existing directory, is refused"""
    M = B.mod(SF)

    class NoModule:
        model_directory, model_name = fs.d, 'model'
    m = fs.new_model('m2', directory=os.path.join(fs.d, 'missing'))
    for f, nm in ((M.save_model_state, 'save'), (M.load_model_state, 'load')):
        B.raises(nm + ': not a module', lambda: f(NoModule()), RuntimeError)
        B.raises(nm + ': no directory', lambda: f(m), RuntimeError)
    B.true('nothing written', fs.listing() == [])


@case('C27', params=[('%s_%s' % ('lr' if a else 'nolr', 'val' if b else 'noval'), {'lr': a, 'val': b}) for a in (0, 1) for b in (0, 1)],
      ntrials=6)
@with_fs
def loss_history(B, fs, lr, val):
    """ensures: the loss, learning rate and validation histories read back are the saved ones, in order"""
    M = B.mod(TR)
    n = 3
    loss = [B.tensor(B.var('loss%d' % i)) if i % 2 else B.var('loss%d' % i) for i in range(n)]
    vl = [B.tensor(B.var('val%d' % i)) for i in range(n)]
    lrs = [B.var('lr%d' % i) for i in range(n)]
    M.save_loss_history(fs.model, 10, 'features_out', 'mse', list(loss), **({'lr_scheduler_type': 'steplr', 'lr_history_epochs': list(lrs)} if lr else {}),
                        **({'validation_loss_history': list(vl)} if val else {}))
    path = os.path.join(fs.d, 'loss_history_record.pkl')
    B.true('record file', os.path.isfile(path) and fs.listing() == ['loss_history_record.pkl'])
    nat, typ, tr, va = M.read_loss_history_from_file(path)
    B.true('nature and type', (nat, typ) == ('features_out', 'mse'))
    B.true('training length', len(tr) == n)
    for i in range(n):
        B.eq('training loss', B.val(tr[i]), B.val(loss[i]))
    if val:
        B.true('validation length', len(va) == n)
        for i in range(n):
            B.eq('validation loss', B.val(va[i]), B.val(vl[i]))
    else:
        B.true('no validation', va is None)
    if lr:
        ty, h = M.read_lr_history_from_file(path)
        B.true('scheduler', ty == 'steplr' and len(h) == n)
        for i in range(n):
            B.eq('learning rate', B.val(h[i]), B.val(lrs[i]))
    else:
        B.raises('no learning rate history', lambda: M.read_lr_history_from_file(path), RuntimeError)
    for f in (M.read_loss_history_from_file, M.read_lr_history_from_file):
        B.raises('missing record', lambda: f(os.path.join(fs.d, 'nothing.pkl')), RuntimeError)


@case('C27', params=[('rc', {'mod': RC}), ('hybrid', {'mod': HY}), ('finder', {'mod': MF})], ntrials=6)
@with_fs
def parameter_records(B, fs, mod):
    """ensures: parameters history, best parameters and bounds read back are the saved ones"""
    M = B.mod(mod)
    hist = {'E': [B.var('E%d' % i) for i in range(3)], 'v': [B.var('v%d' % i) for i in range(3)]}
    bounds = {'E': (B.var('lo'), B.var('hi')), 'v': (B.var('lo2'), B.var('hi2'))}
    best = {'E': B.var('bE'), 'v': B.var('bv')}
    M.save_parameters_history(fs.model, hist, bounds)
    M.save_best_parameters(fs.model, best, bounds)
    B.true('record files', fs.listing() == ['parameters_best.pkl', 'parameters_history_record.pkl'])
    h, b = M.read_parameters_history_from_file(os.path.join(fs.d, 'parameters_history_record.pkl'))
    q, b2 = M.read_best_parameters_from_file(os.path.join(fs.d, 'parameters_best.pkl'))
    B.true('names', list(h) == ['E', 'v'] and list(q) == ['E', 'v'])
    for p in hist:
        B.eq('history', B.arr(h[p]), B.arr(hist[p]))
        B.eq('best', B.val(q[p]), B.val(best[p]))
        for bb in (b, b2):
            B.eq('bounds', B.arr(list(bb[p])), B.arr(list(bounds[p])))
    for f in (M.read_parameters_history_from_file, M.read_best_parameters_from_file):
        B.raises('missing record', lambda: f(os.path.join(fs.d, 'nothing.pkl')), RuntimeError)


@case('C27', params=[('init', {'state': 'init'}), ('epoch', {'state': 'epoch'}), ('best', {'state': 'best'})], ntrials=6)
@with_fs
def finder_models(B, fs, state):
    """ensures: the state of every material model of the finder is saved in that model's own directory"""
    M = B.mod(MF)
    models = {}
    for k in range(2):
        d = os.path.join(fs.d, 'm%d' % k)
        os.mkdir(d)
        models[str(k)] = fs.new_model('mm%d' % k, directory=d)

    class Finder:
        def get_material_models(self):
            return models
    M.save_material_models_state(Finder(), state_type=state, **({'epoch': fs.e[0]} if state != 'init' else {}))
    fn = 'model-init.pt' if state == 'init' else 'model-%s%s.pt' % (fs.e[0], '-best' if state == 'best' else '')
    for k, m in models.items():
        B.true('one file per model', os.listdir(m.model_directory) == [fn])
        fs.same_state('state of model', fs.read(os.path.join(m.model_directory, fn)), m.state_dict())
