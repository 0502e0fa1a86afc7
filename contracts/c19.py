"""C19: learnable material parameters: bounds, normalisation, synchronisation with the material."""
import math
import numpy as np
from vf.engine import case
FUNCTIONS = ['RecurrentConstitutiveModel.__init__ (parameters, material selection)', 'RecurrentConstitutiveModel._set_model_parameters',
             'RecurrentConstitutiveModel.transform_parameter', 'RecurrentConstitutiveModel.enforce_parameters_bounds',
             'RecurrentConstitutiveModel.enforce_parameters_constraints', 'RecurrentConstitutiveModel.get_detached_model_parameters',
             'RecurrentConstitutiveModel.sync_material_model_parameters', 'RecurrentConstitutiveModel.get_material_model_parameters',
             'RecurrentConstitutiveModel.get_model_parameters_bounds', 'RecurrentConstitutiveModel.freeze_parameter',
             'RecurrentConstitutiveModel.forward', 'MaterialModelFinder.get_material_models', 'MaterialModelFinder.get_detached_model_parameters',
             'MaterialModelFinder.get_model_parameters_bounds', 'MaterialModelFinder.enforce_parameters_bounds',
             'MaterialModelFinder.enforce_parameters_constraints',
             'LouZhangYoon.convexity_return_mapping, directional_convex_boundary, compute_convex_boundary, check_yield_surface_convexity (bounded)']
ASSUMPTIONS = ['the parameter update is proved for any flag and values returned by LouZhangYoon.convexity_return_mapping, whose own contract is '
               'checked on sampled parameters (bounded), parameters too close to the convexity limit left out',
               'the material response itself is not part of this property (arbitrary state update)']
RM = 'model_architectures.rc_base_model.model.recurrent_model'
BASE = ['E', 'v', 's0', 'a', 'b']
LEARN = {'elastic': ['E', 'v'], 'von_mises': BASE, 'von_mises_mixed': BASE + ['kin_s0', 'kin_a', 'kin_b'],
         'drucker_prager': BASE + ['yield_cohesion_parameter', 'yield_pressure_parameter', 'flow_pressure_parameter'],
         'lou_zhang_yoon': BASE + ['yield_%s_%s' % (x, y) for x in 'abcd' for y in ('s0', 'a', 'b')]}
NAMES = ['elastic'] + [n + v for n in list(LEARN)[1:] for v in ('', '_vmap')]
CLS = {'elastic': 'Elastic', 'von_mises': 'VonMises', 'von_mises_mixed': 'VonMisesMixed', 'drucker_prager': 'DruckerPrager',
       'lou_zhang_yoon': 'LouZhangYoon'}


def base(name):
    return name[:-5] if name.endswith('_vmap') else name


def law(hardening_parameters, acc_p_strain, is_check_data=False):
    raise AssertionError('not evaluated')


def material(name):
    """A complete parameter collection of a material."""
    h = lambda k: {'s0': 1.0 + k, 'a': 2.0 + k, 'b': 3.0 + k, 'other': 'kept'}
    p = {'elastic_symmetry': 'isotropic', 'E': 100.0, 'v': 0.25, 'euler_angles': (0.0, 0.0, 0.0)}
    b = base(name)
    if b != 'elastic':
        p.update(hardening_law=law, hardening_parameters=h(0))
    if b == 'von_mises_mixed':
        p.update(kinematic_hardening_law=law, kinematic_hardening_parameters=h(10))
    if b == 'drucker_prager':
        p.update(yield_cohesion_parameter=1.1, yield_pressure_parameter=0.3, flow_pressure_parameter=0.2)
    if b == 'lou_zhang_yoon':
        p['is_associative_hardening'] = False
        for i, x in enumerate('abcd'):
            p.update({x + '_hardening_law': law, x + '_hardening_parameters': h(20 * (i + 1))})
    return p


def place(name, param):
    """Where the value of a learnable parameter lives in the material parameters."""
    if param in ('s0', 'a', 'b'):
        return ('hardening_parameters', param)
    if param.startswith('kin_'):
        return ('kinematic_hardening_parameters', param[4:])
    if base(name) == 'lou_zhang_yoon' and param.startswith('yield_'):
        return (param[6] + '_hardening_parameters', param[8:])
    return (param,)


def get(d, path):
    for k in path:
        d = d[k]
    return d


def leaves(d, path=()):
    for k, x in d.items():
        if isinstance(x, dict):
            yield from leaves(x, path + (k,))
        else:
            yield path + (k,), x


def make(B, name, learn, normalised=False, cls=None, **kw):
    C = cls or B.mod(RM).RecurrentConstitutiveModel
    return C(3, 3, learn, 'infinitesimal', 1, name, material(name), None, is_normalized_parameters=normalised,
             is_save_model_init_file=False, **kw)


def bounds(B, names, init=True):
    lo, hi, ini, learn = {}, {}, {}, {}
    for p in names:
        lo[p] = B.var('lo_' + p, dist=(0.1, 1.0))
        hi[p] = lo[p] + B.var('w_' + p, pos=True, dist=(0.5, 2.0))
        ini[p] = B.var('i_' + p, dist=(0.0, 3.0))
        learn[p] = {'initial_value': ini[p], 'bounds': (lo[p], hi[p])}
    return lo, hi, ini, learn


def stored(B, m):
    return {k: B.val(v) for k, v in m.get_model_parameters().items()}


def num(B, x):
    return B.val(x) if hasattr(x, 'item') else x


@case('C19', params=[('physical', dict(norm=False)), ('normalised', dict(norm=True))], ntrials=10)
def bounds_and_transform(B, norm):
    names = ['E', 's0', 'b']
    lo, hi, ini, learn = bounds(B, names)
    m = make(B, 'von_mises', learn, norm)
    B.true('parameters', list(m.get_model_parameters()) == names)
    b, nb = m.get_model_parameters_bounds(), m.get_model_parameters_norm_bounds()
    want = {}
    for p in names:
        want[p] = -1 + 2 * (ini[p] - lo[p]) / (hi[p] - lo[p]) if norm else ini[p]
        B.eq('stored initial value ' + p, stored(B, m)[p], want[p])
        B.eq('bounds ' + p, list(b[p]), [lo[p], hi[p]])
        if norm:
            B.eq('normalised bounds ' + p, list(nb[p]), [B.num(-1), B.num(1)])
    # reported values
    det, detn = m.get_detached_model_parameters(), None
    B.true('reported names', list(det) == names)
    for p in names:
        B.eq('reported value ' + p, num(B, det[p]), ini[p])
    if norm:
        detn = m.get_detached_model_parameters(is_normalized_out=True)
        B.eq('reported normalised values', [num(B, detn[p]) for p in names], [want[p] for p in names])
        for p in names:
            x = B.var('x' + p, dist=(-2, 2))
            y = m.transform_parameter(p, x, mode='normalize')
            B.eq('normalise ' + p, y, -1 + 2 * (x - lo[p]) / (hi[p] - lo[p]))
            B.eq('inverse ' + p, m.transform_parameter(p, y, mode='denormalize'), x)
            B.eq('inverse (other way) ' + p, m.transform_parameter(p, m.transform_parameter(p, x, mode='denormalize')), x)
            B.eq('ends ' + p, [m.transform_parameter(p, lo[p]), m.transform_parameter(p, hi[p])], [B.num(-1), B.num(1)])
            t = m.transform_parameter(p, B.tensor(x))
            B.eq('tensor value ' + p, t, y)
        B.raises('unknown mode', lambda: m.transform_parameter('E', 1.0, mode='other'), RuntimeError)
    # bounds are a copy
    # enforcement
    m.enforce_parameters_bounds()
    s = stored(B, m)
    for p in names:
        l, u = (B.num(-1), B.num(1)) if norm else (lo[p], hi[p])
        B.le('not below ' + p, l, s[p])
        B.le('not above ' + p, s[p], u)
        B.eq('clamped ' + p, s[p], B.fmin(B.fmax(want[p], l), u))
    now = m.get_detached_model_parameters()
    for p in names:
        B.eq('reported after enforcement ' + p, num(B, now[p]), B.fmin(B.fmax(ini[p], lo[p]), hi[p]))
    m.enforce_parameters_bounds()
    for p in names:
        B.eq('enforcement is idempotent ' + p, stored(B, m)[p], s[p])


@case('C19', ntrials=3)
def invalid(B):
    a = B.var('a', dist=(0, 1))
    w = B.var('w', pos=True, dist=(0.1, 1))
    B.raises('inverted bounds', lambda: make(B, 'von_mises', {'E': {'initial_value': a, 'bounds': (a, a - w)}}), RuntimeError)
    B.raises('unknown material', lambda: B.mod(RM).RecurrentConstitutiveModel(
        3, 3, {}, 'infinitesimal', 1, 'other', material('elastic'), None, is_save_model_init_file=False), RuntimeError)
    for n in NAMES:
        m = make(B, n, {'zeta': {'initial_value': 0.5, 'bounds': (0.0, 1.0)}})
        B.raises('unknown parameter of ' + n, lambda: m.sync_material_model_parameters(), RuntimeError)
    m = make(B, 'von_mises', {k: {'initial_value': 0.5, 'bounds': (0.0, 1.0)} for k in ('E', 'v')})
    m.freeze_parameter('E')
    g = {k: bool(v.requires_grad) for k, v in m.get_model_parameters().items()}
    B.true('freezing', g == {'E': False, 'v': True})
    B.raises('freezing an unknown parameter', lambda: m.freeze_parameter('x'), RuntimeError)


@case('C19', params=[('%s,%s' % (n, 'normalised' if z else 'physical'), dict(name=n, norm=z)) for n in NAMES for z in (False, True)],
      ntrials=3)
def sync(B, name, norm):
    """Every learnable parameter reaches its own place, with its current value, and nothing else changes."""
    mod = B.mod(RM)
    names = LEARN[base(name)]
    for sub in (names, names[::-1][:3], names[:1]):
        lo, hi, ini, learn = bounds(B, sub)
        m = make(B, name, learn, norm)
        C = getattr(mod, CLS[base(name)] + ('VMAP' if name.endswith('_vmap') else ''))
        B.true('material of that name', type(m._constitutive_model) is C)
        B.true('material name', m.get_material_model_name() == name)
        before = dict(leaves(m.get_material_model_parameters()))
        # the stored values move on (an optimiser step) before they are used
        new = {p: B.var('n_' + p, dist=(-1.0, 1.0)) for p in sub}
        with B.torch.no_grad():
            for p in sub:
                m.get_model_parameters()[p].copy_(B.tensor(new[p]))
        m.sync_material_model_parameters()
        mp = m.get_material_model_parameters()
        B.true('material parameters of the model', mp is m._constitutive_model._model_parameters)
        B.true('same entries', set(dict(leaves(mp))) == set(before))
        touched = set()
        for p in sub:
            v = lo[p] + (hi[p] - lo[p]) * (new[p] + 1) / 2 if norm else new[p]
            B.eq('value of ' + p, num(B, get(mp, place(name, p))), v)
            touched.add(place(name, p))
            B.eq('reported ' + p, num(B, m.get_detached_model_parameters()[p]), v)
        for path, x in before.items():
            if path in touched:
                continue
            y = get(mp, path)
            if isinstance(x, B.torch.Tensor):
                B.eq('kept ' + '/'.join(path), y, x)
            else:
                B.true('kept ' + '/'.join(path), y is x or y == x)
        B.eq('stored values kept', [stored(B, m)[p] for p in sub], [new[p] for p in sub])


@case('C19', params=[('drucker_prager', dict(name='drucker_prager')), ('drucker_prager_vmap', dict(name='drucker_prager_vmap'))], ntrials=4)
def friction_angle(B, name):
    phi = B.var('phi', dist=(0.1, 1.0))
    m = make(B, name, {'friction_angle': {'initial_value': phi, 'bounds': (0.0, 1.5)}})
    m.sync_material_model_parameters()
    mp = m.get_material_model_parameters()
    t = B.torch
    s3 = B.sqrt(B.num(3))
    c, s = (B.val(t.cos(B.tensor(phi))), B.val(t.sin(B.tensor(phi)))) if B.sym else (math.cos(phi), math.sin(phi))
    B.eq('angle', num(B, mp['friction_angle']), phi)
    B.eq('cohesion', num(B, mp['yield_cohesion_parameter']), 2 / s3 * c)
    B.eq('pressure', num(B, mp['yield_pressure_parameter']), 3 / s3 * s)
    B.eq('flow', num(B, mp['flow_pressure_parameter']), 3 / s3 * s)


@case('C19', params=[('%s,%s' % (k, n), dict(auto=a, name=n)) for k, a in (('automatic', True), ('manual', False))
                     for n in ('von_mises', 'von_mises_vmap')], ntrials=3)
def used_in_prediction(B, auto, name):
    """A prediction uses the parameter values stored at the time of the prediction."""
    seen = []
    C = B.mod(RM).RecurrentConstitutiveModel
    ns = {}
    for meth in ('_recurrent_constitutive_model', '_vrecurrent_constitutive_model'):
        def f(self, strain_paths, _m=meth):
            mp = self.get_material_model_parameters()
            seen.append((num(B, mp['E']), num(B, mp['hardening_parameters']['a']), strain_paths, _m))
            return strain_paths
        ns[meth] = f
        if not hasattr(C, meth):
            B.absent()
    lo, hi, ini, learn = bounds(B, ['E', 'a'])
    m = make(B, name, learn, False, cls=type('R', (C,), ns), is_auto_sync_parameters=auto)
    x = B.tensor(B.mat('x', 2, 3, dist=(-1, 1)))
    m.forward(x)
    new = {p: B.var('n_' + p, dist=(0.5, 1.5)) for p in ('E', 'a')}
    with B.torch.no_grad():
        for p in new:
            m.get_model_parameters()[p].copy_(B.tensor(new[p]))
    m.forward(x)
    if not auto:
        m.sync_material_model_parameters()
    m.forward(x)
    B.true('input passed on', all(s[2] is x for s in seen) and len(seen) == 3)
    B.true('vectorised evaluation for vectorised materials', all(('_v' in s[3]) == name.endswith('_vmap') for s in seen))
    if auto:
        B.eq('initial values used', list(seen[0][:2]), [ini['E'], ini['a']])
        B.eq('current values used', list(seen[1][:2]), [new['E'], new['a']])
    else:
        B.eq('not synchronised', list(seen[1][:2]), [B.num(100), B.num(2)])
    B.eq('synchronised', list(seen[2][:2]), [new['E'], new['a']])
    B.raises('not a tensor', lambda: m.forward([[1.0]]), RuntimeError)


@case('C19', params=[('%s,%s,%s' % ('+'.join(q), 'normalised' if z else 'physical', 'convex' if c else 'mapped'),
                      dict(learned=q, norm=z, convex=c)) for q in (('c', 'd'), ('c',), ('d',), ()) for z in (False, True)
                     for c in (True, False)], ntrials=3)
def constraints(B, learned, norm, convex):
    """The convexity mapping is applied to the physical values and stored in the representation of the parameters."""
    names = ['s0'] + ['yield_%s_s0' % q for q in learned]
    lo, hi, ini, learn = bounds(B, names)
    m = make(B, 'lou_zhang_yoon', learn, norm)
    calls = []
    r = {'c': B.var('rc', dist=(0, 1)), 'd': B.var('rd', dist=(0, 1))}
    real = B.mod(RM).LouZhangYoon

    class Fake(real):
        @classmethod
        def convexity_return_mapping(cls, c, d, *a, **k):
            calls.append((num(B, c), num(B, d)))
            return convex, (c if convex else B.tensor(r['c'])), (d if convex else B.tensor(r['d']))
    B.override(RM + ':LouZhangYoon', Fake)
    before = stored(B, m)
    m.enforce_parameters_constraints()
    after = stored(B, m)
    if not learned:
        B.true('nothing to map', not calls)
    else:
        fixed = {'c': 61.0, 'd': 81.0}
        B.true('mapped once', len(calls) == 1)
        B.eq('mapping of the physical values', list(calls[0]), [ini['yield_%s_s0' % q] if q in learned else B.num(fixed[q]) for q in 'cd'])
    for p in names:
        q = p[6] if p.startswith('yield') else None
        if q and not convex:
            B.eq('mapped value ' + p, after[p], -1 + 2 * (r[q] - lo[p]) / (hi[p] - lo[p]) if norm else r[q])
        else:
            B.eq('kept value ' + p, after[p], before[p])
    m2 = make(B, 'von_mises', {'s0': learn['s0']}, norm)
    b2 = stored(B, m2)
    m2.enforce_parameters_constraints()
    B.eq('no constraint on other materials', stored(B, m2)['s0'], b2['s0'])


FIND = [('physical', dict(norm=(False, False, True))), ('normalised', dict(norm=(True, True, False)))]


def discovery(B, d, norm):
    """A finder with a plain material, a model without explicit parameters and a hybrid of two materials and a network."""
    from contracts.c18 import MD, mkdir
    B.override(MD + ':make_directory', mkdir)
    lay = {'1': ('E', 's0'), 'x': ('E', 'v'), 'y': ('b', 'E')}
    par, mods = {}, {}
    for z, (k, names) in zip(norm, lay.items()):
        lo, hi, ini, learn = {}, {}, {}, {}
        for p in names:
            lo[p] = B.var('lo_%s%s' % (k, p), dist=(0.1, 1.0))
            hi[p] = lo[p] + B.var('w_%s%s' % (k, p), pos=True, dist=(0.5, 2.0))
            ini[p] = B.var('i_%s%s' % (k, p), dist=(0.0, 3.0))
            learn[p] = {'initial_value': ini[p], 'bounds': (lo[p], hi[p])}
        par[k] = (names, lo, hi, ini, z)
        mods[k] = make(B, 'von_mises', learn, z)

    class Net(B.nn.Module):
        def __init__(self):
            super().__init__()
            self.w = B.nn.Parameter(B.tensor([B.num(7)]))

        def get_detached_model_parameters(self, is_normalized_out=False):
            return {'w': 7.0}

        def get_model_parameters_bounds(self):
            return {'w': (0.0, 1.0)}

        def get_model_parameters(self):
            return {'w': self.w}

        def enforce_parameters_constraints(self):
            raise AssertionError('a model without explicit parameters')
    nets = [Net(), Net()]
    nets[1].is_explicit_parameters = False
    hyb = B.mod('model_architectures.hybrid_base_model.model.hybrid_model').HybridModel(
        3, 3, {n: {'hyb_model': m, 'hyb_indices': p, 'is_input_residual': False} for n, m, p in (
            ('second', mods['y'], (1, 0)), ('first', mods['x'], (0, 0)), ('net', nets[1], (2, 0)))}, None, is_save_model_init_file=False)
    models = {'1': mods['1'], '4': nets[0], '3': hyb}

    class St:
        def get_material_models(self):
            return models
    f = B.mod(MD).MaterialModelFinder(d)
    B.put(f, '_specimen_material_state', St())
    label = {'1': 'model_1_', 'x': 'model_3_first_', 'y': 'model_3_second_'}
    return f, models, mods, nets, par, label


@case('C19', params=FIND, ntrials=4)
def discovered_parameters(B, norm):
    """The finder reports, bounds and constrains the parameters of every material model, each under its own label."""
    from contracts.c18 import Scratch
    with Scratch() as d:
        f, models, mods, nets, par, label = discovery(B, d, norm)
        B.true('material models', dict(f.get_material_models()) == models)
        labels = {label[k] + p for k in par for p in par[k][0]}
        det, bnd = f.get_detached_model_parameters(), f.get_model_parameters_bounds()
        B.true('reported labels', set(det) == labels)
        B.true('bounded labels', set(bnd) == labels)
        for k, (names, lo, hi, ini, z) in par.items():
            for p in names:
                B.eq('reported value %s %s' % (k, p), num(B, det[label[k] + p]), ini[p])
                B.eq('reported bounds %s %s' % (k, p), list(bnd[label[k] + p]), [lo[p], hi[p]])
        f.enforce_parameters_bounds()
        after = f.get_detached_model_parameters()
        for k, (names, lo, hi, ini, z) in par.items():
            s = stored(B, mods[k])
            for p in names:
                want = B.fmin(B.fmax(ini[p], lo[p]), hi[p])
                B.eq('enforced %s %s' % (k, p), num(B, after[label[k] + p]), want)
                B.eq('stored %s %s' % (k, p), s[p], -1 + 2 * (want - lo[p]) / (hi[p] - lo[p]) if z else want)
        B.eq('other models untouched', [B.val(n.w) for n in nets], [B.num(7)] * 2)
        seen = []
        for k, m in mods.items():
            m.enforce_parameters_constraints = lambda k=k: seen.append(k)
        f.enforce_parameters_constraints()
        B.true('constraints of every material enforced once', sorted(seen) == ['1', 'x', 'y'])


LZ = 'simulators.fetorch.material.models.standard.lou'


def gauge(c, d, t):
    """Gauge of the deviatoric section at Lode angle t (principal deviators of unit von Mises stress); nan outside the real domain."""
    s = [2 / 3 * math.cos(t), 2 / 3 * math.cos(2 * math.pi / 3 - t), 2 / 3 * math.cos(4 * math.pi / 3 - t)]
    j2, j3 = 0.5 * sum(x * x for x in s), s[0] * s[1] * s[2]
    a = j2 ** 3 - c * j3 ** 2
    if a < 0:
        return math.nan
    b = math.sqrt(a) - d * j3
    return b ** (1 / 3) if b > 0 else math.nan


def convexity(c, d, n=720, e=2e-3):
    """True/False: the section r(t) = 1/gauge(t) is convex (gauge + gauge'' >= 0 all round), None too close to decide."""
    k = []
    for i in range(n):
        t = 2 * math.pi * i / n
        g = [gauge(c, d, t + q * e) for q in (-1, 0, 1)]
        if any(math.isnan(x) for x in g):
            return False
        k.append((g[0] - 2 * g[1] + g[2]) / e ** 2 + g[1])
    if min(k) > 0.03:
        return True
    if any(k[i] < -0.03 and k[(i + 1) % n] < -0.03 for i in range(n)):
        return False
    return None


@case('C19', params=[('c,d in %g' % r, dict(r=r)) for r in (1, 3, 9)], ntrials=15, sym=False,
      why='convexity is decided by sampling 1000 angles of the section; compared with the curvature of the section (bounded)')
def convexity_check(B, r):
    c, d = B.var('c', dist=(-r, r)), B.var('d', dist=(-r, r))
    want = convexity(c, d)
    if want is None:
        B.skip()
    L = B.mod(LZ).LouZhangYoon
    B.true('convexity of the deviatoric section', bool(L.check_yield_surface_convexity(B.tensor(c), B.tensor(d))) == want)
    flag, mc, md = L.convexity_return_mapping(B.tensor(c), B.tensor(d))
    mc, md = B.val(mc), B.val(md)
    B.true('reported convexity', bool(flag) == want)
    if want:
        B.eq('convex parameters kept', [mc, md], [c, d])
    else:
        R, m = math.hypot(c, d), math.hypot(mc, md)
        B.eq('moved along the ray', [mc / m, md / m], [c / R, d / R])
        B.true('not moved outwards', m <= R * (1 + 1e-5))
        B.true('inside of the result is convex', convexity(0.95 * mc, 0.95 * md) is not False)
        B.true('outside of the result is not', convexity(1.05 * mc, 1.05 * md) is not True)


@case('C19', ntrials=10, sym=False, why='bisection over tensors with trigonometric directions (bounded)')
def convexity_boundary(B):
    """The search returns the boundary of any domain that is star-shaped about the origin."""
    real = B.mod(LZ).LouZhangYoon
    a, b, t = B.var('a', dist=(0.3, 4.5)), B.var('b', dist=(0.0, 0.9)), B.var('t', dist=(-3.1, 3.1))
    radius = lambda th: a * (1 + b * math.sin(3 * th)) / (1 + b)

    class Fake(real):
        @classmethod
        def check_yield_surface_convexity(cls, c, d):
            c, d = B.val(c), B.val(d)
            return B.torch.tensor(bool(math.hypot(c, d) <= radius(math.atan2(d, c))))
    c, d = (B.val(x) for x in Fake.directional_convex_boundary(B.tensor(t)))
    R = radius(t)
    B.true('boundary in the direction', abs(c - R * math.cos(t)) < 3e-6 and abs(d - R * math.sin(t)) < 3e-6)
    bd = B.arr(Fake.compute_convex_boundary(n_theta=5))
    for i in range(5):
        th = 2 * math.pi * i / 4
        B.true('boundary all round', abs(bd[i, 0] - radius(th) * math.cos(th)) < 3e-6 and abs(bd[i, 1] - radius(th) * math.sin(th)) < 3e-6)
