"""C09: structure material state bookkeeping."""
from vf.engine import case
from contracts.elems import make
S_ = 'simulators.fetorch.structure.structure_state'
FUNCTIONS = ['StructureMaterialState.' + f for f in (
    '__init__', 'init_elements_model', 'update_element_state', 'get_element_state', 'update_converged_elements_state',
    'get_element_model_recurrency', 'get_elements_material', 'get_material_models', 'get_n_element_material_type',
    'get_strain_formulation', 'get_problem_type')]
ASSUMPTIONS = ['sequences of operations: every pair (element, time level) written in two different orders, interleaved with '
               'convergence; state values are unrestricted reals', 'constitutive model classes replaced by contract stubs for the '
               'binding part, real elastic model for the initial states']


def stub_class(B, tag):
    class M(B.nn.Module):
        def __init__(self, strain_formulation=None, problem_type=None, model_parameters=None, *a, **k):
            super().__init__()
            self.tag, self.given = tag, (strain_formulation, problem_type, model_parameters)

        def state_init(self):
            return {'q': B.tensor([0.0, 0.0]), 'flag': False, 'name': tag}
    return M


def fresh(B, pt=1, n_elem=4, tags=('Elastic', 'VonMises', 'VonMisesMixed', 'DruckerPrager')):
    for t in tags:
        B.override('%s:%s' % (S_, t), stub_class(B, t))
    return B.mod(S_).StructureMaterialState('infinitesimal', pt, n_elem)


def same(B, name, a, b):
    B.true(name + ' keys', sorted(a) == sorted(b))
    for g in b:
        B.true(name + ' point keys', sorted(a[g]) == sorted(b[g]))
        B.eq('%s point %s' % (name, g), a[g]['q'], b[g]['q'])


@case('C09', ntrials=3)
def binding(B):
    """Each element is bound to the model it was assigned, with the parameters given."""
    s = fresh(B)
    B.true('all elements known, none assigned', dict(s.get_elements_material()) == {str(i): None for i in range(1, 5)})
    et = {'1': make(B, 'quad4'), '2': make(B, 'tri3'), '3': make(B, 'quad4', n_gauss=1), '4': make(B, 'tri6')}
    P = [{'p': B.var('p%d' % i)} for i in range(4)]
    plan = (('von_mises', 'VonMises', ['1', '3']), ('elastic', 'Elastic', [2]), ('drucker_prager', 'DruckerPrager', ['4']))
    for i, (nm, cls, els) in enumerate(plan):
        s.init_elements_model(nm, P[i], els, et)
    mats = s.get_elements_material()
    for i, (nm, cls, els) in enumerate(plan):
        for e in els:
            m = mats[str(e)]
            if not hasattr(m, 'tag'):
                B.skip()
            B.true('element %s model' % e, m.tag == cls)
            B.true('element %s parameters' % e, m.given[0] == 'infinitesimal' and m.given[1] == 1 and m.given[2] is P[i])
            B.true('element %s not recurrent' % e, s.get_element_model_recurrency(e) is False)
            for t in ('current', 'last'):
                st = s.get_element_state(e, time=t)
                B.true('element %s %s points' % (e, t),
                       sorted(st) == sorted(str(k + 1) for k in range(et[str(e)].get_n_gauss())))
                for g in st:
                    B.eq('element %s %s initial' % (e, t), st[g]['q'], [B.num(0), B.num(0)])
                    B.true('initial tag', st[g]['name'] == cls)
    B.true('shared model', mats['1'] is mats['3'])
    B.true('number of models', len(s.get_material_models()) == 3)
    B.true('number of types', s.get_n_element_material_type() == 3)
    B.true('formulation', s.get_strain_formulation() == 'infinitesimal' and s.get_problem_type() == 1)
    # reassigning one element leaves the others
    s.init_elements_model('von_mises_mixed', P[3], ['3'], et)
    mats = s.get_elements_material()
    B.true('reassigned', mats['3'].tag == 'VonMisesMixed' and mats['1'].tag == 'VonMises')
    B.true('parameters of the reassigned', mats['3'].given[0] == 'infinitesimal' and mats['3'].given[1] == 1 and mats['3'].given[2] is P[3])
    B.raises('unknown model', lambda: s.init_elements_model('rubber', P[0], ['1'], et), RuntimeError)


@case('C09', params=[('order%d' % k, dict(k=k)) for k in range(3)], ntrials=4)
def history(B, k):
    """Read-back, isolation and convergence over a write history."""
    s = fresh(B, n_elem=3)
    et = {str(i): make(B, 'tri6') for i in (1, 2, 3)}
    s.init_elements_model('von_mises', {}, ['1', '2', '3'], et)
    if not hasattr(s.get_elements_material()['1'], 'tag'):
        B.skip()
    z = lambda: {str(g): {'q': B.tensor([0.0, 0.0]), 'flag': False, 'name': 'VonMises'} for g in (1, 2, 3)}
    model = {(e, t): z() for e in '123' for t in ('current', 'last')}

    def check(tag):
        for (e, t), v in model.items():
            st = s.get_element_state(int(e), time=t)
            same(B, '%s: element %s %s' % (tag, e, t), st, v)
            # a copy handed out does not share storage
            st['1']['q'][0] = st['1']['q'][0] + 1.0
            st['2']['q'] = None
            st.pop('3')

    def write(e, t, tag):
        v = [B.vec('%s_%d_' % (tag, g), 2) for g in range(3)]
        mk = lambda: {str(g + 1): {'q': B.tensor(v[g]), 'flag': True, 'name': 'n'} for g in range(3)}
        st = mk()
        s.update_element_state(int(e), st, time=t)
        # a copy taken in does not share storage
        st['1']['q'][1] = st['1']['q'][1] + 1.0
        st['2'] = None
        model[(e, t)] = mk()
    check('initially')
    seq = [[('1', 'current'), ('2', 'current'), 'conv', ('2', 'current'), ('3', 'last'), 'conv', ('1', 'current')],
           [('3', 'last'), ('3', 'current'), ('1', 'last'), 'conv', ('2', 'last')],
           [('2', 'current'), ('2', 'current'), 'conv', 'conv', ('1', 'last'), ('2', 'current')]][k]
    for i, o in enumerate(seq):
        if o == 'conv':
            s.update_converged_elements_state()
            for e in '123':
                model[(e, 'last')] = {g: dict(x) for g, x in model[(e, 'current')].items()}
        else:
            write(o[0], o[1], 'w%d' % i)
        check('step %d' % i)
    B.raises('unknown time (write)', lambda: s.update_element_state(1, {}, time='x'), RuntimeError)
    B.raises('unknown time (read)', lambda: s.get_element_state(1, time='x'), RuntimeError)
    check('after rejected calls')


@case('C09', ntrials=3)
def no_copy(B):
    """Without copies the very object written is the one read, for that element and time level only."""
    s = fresh(B, n_elem=2)
    et = {str(i): make(B, 'tri3') for i in (1, 2)}
    s.init_elements_model('von_mises', {}, ['1', '2'], et)
    if not hasattr(s.get_elements_material()['1'], 'tag'):
        B.skip()
    st = {'1': {'q': B.tensor(B.vec('a', 2))}}
    s.update_element_state('1', st, time='current', is_copy=False)
    r = s.get_element_state('1', time='current', is_copy=False)
    B.true('same object', r is st)
    B.eq('last untouched', s.get_element_state('1', time='last')['1']['q'], [B.num(0), B.num(0)])
    B.eq('other element untouched', s.get_element_state('2')['1']['q'], [B.num(0), B.num(0)])
    s.update_converged_elements_state(is_copy=False)
    B.eq('converged value', s.get_element_state('1', time='last')['1']['q'], st['1']['q'])


@case('C09', params=[('pt=%d' % p, dict(pt=p)) for p in (1, 4)], ntrials=3)
def initial_state_of_the_real_model(B, pt):
    s = B.mod(S_).StructureMaterialState('infinitesimal', pt, 2)
    del s._material_models
    s._material_models = {}
    e = 'quad4' if pt == 1 else 'tetra4'
    et = {'1': make(B, e), '2': make(B, e)}
    pr = {'elastic_symmetry': 'isotropic', 'E': B.var('E', pos=True), 'v': B.var('v', dist=(0.0, 0.4))}
    try:
        s.init_elements_model('elastic', pr, ['1', '2'], et)
    except RuntimeError:
        B.skip()
    nc = 3 if pt == 1 else 6
    for i in '12':
        for t in ('current', 'last'):
            st = s.get_element_state(i, time=t)
            B.true('points', sorted(st) == ['1', '2', '3', '4'])
            for g in st.values():
                B.eq('zero stress', g['stress_mf'], [B.num(0)] * nc)
                B.eq('zero strain', g['strain_mf'], [B.num(0)] * nc)
                B.eq('zero elastic strain', g['e_strain_mf'], [B.num(0)] * nc)
    a = s.get_element_state('1', is_copy=False)
    a['1']['stress_mf'][0] = a['1']['stress_mf'][0] + 1.0
    for i, t, g in (('1', 'current', '2'), ('1', 'last', '1'), ('2', 'current', '1')):
        B.eq('no storage shared at initialisation %s %s %s' % (i, t, g), s.get_element_state(i, time=t)[g]['stress_mf'], [B.num(0)] * nc)


RC = ('n_features_in', 'n_features_out', 'learnable_parameters', 'material_model_name', 'state_features_out',
      'is_auto_sync_parameters', 'is_check_su_fail', 'model_directory', 'is_normalized_parameters', 'is_model_in_normalized',
      'is_model_out_normalized', 'device_type')
GRU = ('n_features_in', 'n_features_out', 'hidden_layer_size', 'n_recurrent_layers', 'dropout', 'model_directory',
       'is_model_in_normalized', 'is_model_out_normalized', 'gru_model_source', 'device_type')
HYB = ('n_features_in', 'n_features_out', 'hyb_models_dict', 'hybridization_type', 'model_directory', 'is_model_in_normalized',
       'is_model_out_normalized', 'device_type')


@case('C09', params=[('rc', dict(nm='rc_von_mises_vmap', cls='RecurrentConstitutiveModel', keys=RC)),
                     ('gru', dict(nm='gru_material_model', cls='GRURNNModel', keys=GRU)),
                     ('hybrid', dict(nm='hybrid_material_model', cls='HybridModel', keys=HYB))], ntrials=2)
def recurrent_models(B, nm, cls, keys):
    """Recurrent models receive exactly the given arguments and start without a state."""
    got = {}

    class R(B.nn.Module):
        def __init__(self, **k):
            super().__init__()
            got.update(k)
            self._n_features_in, self._n_features_out, self._device_type = 2, 1, 'cpu'
            self._is_save_model_init_file = False
    B.override('%s:%s' % (S_, cls), R)
    s = B.mod(S_).StructureMaterialState('infinitesimal', 4, 3)
    kw = {k: ('value', k) for k in keys}
    mi, mo = B.vec('mi', 2), B.vec('mo', 1)
    si, so = [B.var('si%d' % i, pos=True) for i in range(2)], [B.var('so', pos=True)]
    kw['scaling_type'] = 'mean-std'
    kw['scaling_parameters'] = {'features_in': {'mean': B.tensor(mi), 'std': B.tensor(si)},
                                'features_out': {'mean': B.tensor(mo), 'std': B.tensor(so)}}
    pr = {'E': B.var('E')}
    s.init_elements_model(nm, pr, ['1', '3'], {}, model_kwargs=kw)
    if not isinstance(s.get_elements_material()['1'], R):
        B.skip()
    for k in keys:
        B.true('argument ' + k, got.get(k) == ('value', k))
    B.true('name', got.get('model_name') == nm)
    if cls == 'RecurrentConstitutiveModel':
        B.true('parameters', got.get('material_model_parameters') is pr and got.get('strain_formulation') == 'infinitesimal'
               and got.get('problem_type') == 4)
    if cls == 'GRURNNModel':
        sc = getattr(s.get_elements_material()['1'], '_data_scalers', None)
        B.true('data scalers set', sc is not None)
        for f, m, d in (('features_in', mi, si), ('features_out', mo, so)):
            mean, std = sc[f].get_mean_and_std()
            B.eq('mean of ' + f, mean, m)
            B.eq('standard deviation of ' + f, std, d)
    for e in ('1', '3'):
        B.true('recurrent %s' % e, s.get_element_model_recurrency(e) is True)
        B.true('no state %s' % e, s.get_element_state(e) is None and s.get_element_state(e, time='last') is None)
        B.true('bound %s' % e, isinstance(s.get_elements_material()[e], R))
    B.true('other element unassigned', s.get_elements_material()['2'] is None)
