"""C26: precision conversion and restoration of the default precision."""
import numpy as np
from vf.engine import case
from contracts import c11, c12, c13, c15
from contracts.mat import STD, VM, Law, sym, moduli, pt_dim, item, norm, madd, unmf, full
FUNCTIONS = ['convert_dict_to_tensor', 'convert_tensor_to_float32', 'convert_tensor_to_float64', 'convert_dict_to_float32',
             'convert_dict_to_float64', 'state_update of VonMises, VonMisesMixed, DruckerPrager, LouZhangYoon (standard and vmap): '
             'precision conversion part']
ASSUMPTIONS = ['collections: one entry of every kind the functions distinguish, the recursive call is checked against its own '
               'contract (induction on the nesting depth)', 'values: conversion to a type is the identity on reals (rounding of '
               'the narrower type is not modelled); dtype bookkeeping of torch is the shim model, compared with torch on every case',
               'Newton loops are cut at their heads; the Lou residuals are arbitrary']
MOD = 'utilities.type_conversion'
DT = ['float32', 'float64', 'float16', 'int64', 'int32', 'bool']


def same(B, x, y):
    return B.arr(x).shape == B.arr(y).shape


def entries(B, bits):
    """One entry of every kind."""
    t = B.torch
    d, val = {}, {}
    for n in DT:
        if n.startswith('int'):
            d[n] = t.tensor([1, -2, 7], dtype=getattr(t, n))
        elif n == 'bool':
            d[n] = t.tensor([True, False], dtype=t.bool)
        else:
            v = B.vec('x' + n, 2, dist=(-1, 1))
            if n == 'float16':
                v = [0.5, -0.25]
            d[n] = B.tensor(v, dtype=getattr(t, n))
    d['scalar'] = B.tensor(B.var('s', dist=(-1, 1)), dtype=t.float32 if bits == 64 else t.float64)
    d['already'] = B.tensor(B.var('z', dist=(-1, 1)), dtype=t.float64 if bits == 64 else t.float32)
    d['empty'] = t.zeros((0, 3))
    d['text'], d['none'], d['fun'], d['tuple'] = 'x', None, entries, (1.0, 2)
    d['list'] = [1.0]
    d['plain float'], d['plain int'], d['plain bool'] = 0.5, 3, True
    return d


@case('C26', params=[('%d,%s' % (b, n), dict(bits=b, inplace=i)) for b in (32, 64) for n, i in
                     (('in place', True), ('out of place', False), ('default', None))], ntrials=2)
def dictionary(B, bits, inplace):
    t = B.torch
    mod = B.mod(MOD)
    fname = 'convert_dict_to_float%d' % bits
    fn = getattr(mod, fname)
    want = t.float64 if bits == 64 else t.float32
    # (a few levels on the real recursion; deeper levels by the contract of the recursive call)
    d = entries(B, bits)
    d['nested'] = entries(B, bits)
    d['nested']['deep'] = {'x': B.tensor(B.var('q', dist=(-1, 1)), dtype=t.float32 if bits == 64 else t.float64), 'e': {},
                           'y': {'u': {'w': B.tensor(B.var('qq', dist=(-1, 1)), dtype=t.float32 if bits == 64 else t.float64)}}}
    d['void'] = {}
    snapshot = {}

    def walk(x, path, f):
        f(path, x)
        if isinstance(x, dict):
            for k in x:
                walk(x[k], path + (k,), f)
    walk(d, (), lambda p, x: snapshot.__setitem__(p, (x, x.dtype if isinstance(x, t.Tensor) else None,
                                                      list(x) if isinstance(x, dict) else None,
                                                      B.arr(x).copy() if isinstance(x, t.Tensor) else None)))
    out = fn(d) if inplace is None else fn(d, is_inplace=inplace)
    isin = inplace is not False
    if isin:
        B.true('in place returns the same collection', out is d)
    else:
        B.true('out of place returns another collection', out is not d)

    def at(root, path):
        for k in path:
            root = root[k]
        return root
    for path, (x, dt, keys, arr) in snapshot.items():
        name = '/'.join(path) or 'root'
        y = at(out, path)
        if keys is not None:
            B.true('keys %s' % name, isinstance(y, dict) and list(y) == keys)
            if not isin:
                B.true('new collection %s' % name, y is not x)
                B.true('original keys %s' % name, list(at(d, path)) == keys)
        elif dt is not None:
            fl = str(dt) in ('torch.float32', 'torch.float64', 'torch.float16', 'torch.bfloat16')
            B.true('type %s' % name, y.dtype == (want if fl else dt))
            B.true('shape %s' % name, same(B, y, x))
            B.eq('value %s' % name, y, arr, rtol=1e-6)
            if not isin:
                o = at(d, path)
                B.true('original entry %s' % name, o is x and o.dtype == dt)
        else:
            B.true('kept %s' % name, y is x)
            if not isin:
                B.true('original kept %s' % name, at(d, path) is x)


@case('C26', params=[('%d' % b, dict(bits=b)) for b in (32, 64)], ntrials=1)
def recursion(B, bits):
    """The recursive call is made on every nested collection, with an out-of-place request when one was made."""
    mod = B.mod(MOD)
    fname = 'convert_dict_to_float%d' % bits
    fn = getattr(mod, fname)
    for inplace in (True, False):
        calls = []
        inner = {'a': 1}, {'b': {'c': 2}}
        res = {'R1': 0}, {'R2': 0}

        def rec(tensor_dict, is_inplace=True):
            x = tensor_dict
            k = 0 if x is inner[0] else 1
            calls.append((k, is_inplace))
            return x if is_inplace else res[k]
        B.override(MOD + ':' + fname, rec)
        d = {'p': inner[0], 'q': 1.0, 'r': inner[1]}
        out = fn(d, is_inplace=inplace)
        if sorted(k for k, _ in calls) == [0, 1]:
            B.true('nested conversion is of the requested kind', all(bool(i) == inplace for _, i in calls))
            B.true('nested results are stored', (out['p'] is res[0] and out['r'] is res[1]) if not inplace
                   else (out['p'] is inner[0] and out['r'] is inner[1]))
        else:
            # (not recursive through the module function: covered by the case above to its depth)
            B.true('not recursive', not calls)


@case('C26', params=[('%d' % b, dict(bits=b)) for b in (32, 64)], ntrials=2)
def single(B, bits):
    t = B.torch
    fn = getattr(B.mod(MOD), 'convert_tensor_to_float%d' % bits)
    want = t.float64 if bits == 64 else t.float32
    for k, x in entries(B, bits).items():
        y = fn(x)
        if isinstance(x, t.Tensor) and t.is_floating_point(x):
            B.true('type ' + k, y.dtype == want)
            B.eq('value ' + k, y.to(t.float64), x.to(t.float64), rtol=1e-6)
        else:
            B.true('kept ' + k, y is x)


@case('C26', params=[('in place', dict(inplace=True)), ('out of place', dict(inplace=False))], ntrials=2)
def to_tensor(B, inplace):
    t = B.torch
    fn = B.mod(MOD).convert_dict_to_tensor
    a, b, c = [B.var(n, dist=(-2, 2)) for n in 'abc']
    x = B.tensor(B.var('x'))
    inner = {'c': c, 'n': 5, 'flag': False, 's': 'y', 'deep': {'b': b}}
    d = {'a': a, 'x': x, 'in': inner, 's': 'text', 'none': None, 'fun': entries, 'list': [1.0], 'i': 2, 't': True, 'v': {}}
    before, ib = dict(d), dict(inner)
    out = fn(d, is_inplace=inplace)
    B.true('same object iff in place', (out is d) == inplace)
    B.true('keys', list(out) == list(before) and list(out['in']) == list(ib) and list(out['in']['deep']) == ['b'])
    for n, y, v in (('a', out['a'], a), ('c', out['in']['c'], c), ('b', out['in']['deep']['b'], b)):
        if not B.sym:
            B.true('tensor ' + n, isinstance(y, t.Tensor))
        B.eq('value ' + n, y, v)
    for n, y, v in (('i', out['i'], 2), ('n', out['in']['n'], 5), ('t', out['t'], True), ('flag', out['in']['flag'], False)):
        B.true('tensor ' + n, isinstance(y, t.Tensor) and y.item() == v)
    B.true('bool stays bool', out['t'].dtype == t.bool and out['in']['flag'].dtype == t.bool)
    B.true('tensor kept', out['x'] is x)
    for n in ('s', 'none', 'fun', 'list'):
        B.true('kept ' + n, out[n] is before[n])
    B.true('nested kept', out['in']['s'] == 'y' and out['v'] == {})
    if not inplace:
        B.true('original', all(d[k] is before[k] for k in before) and all(inner[k] is ib[k] for k in ib))


MODELS = [('%s,%s,%s' % (m, i, n), dict(model=m, impl=i, pt=p)) for m in ('von_mises', 'mixed', 'drucker', 'lou')
          for i in ('standard', 'vmap') for n, p in (('plane strain', 1), ('3D', 4)) if not (m == 'mixed' and i == 'vmap' and p == 9)]


@case('C26', params=MODELS, ntrials=12, sym_s=120)
def default_precision(B, model, impl, pt):
    t = B.torch
    was = t.get_default_dtype()
    t.set_default_dtype(t.float32)
    try:
        _update(B, t, model, impl, pt)
    finally:
        t.set_default_dtype(was)


def _update(B, t, model, impl, pt):
    n = pt_dim(pt)
    K, G, E, v = moduli(B)
    kind = None if B.sym else 'linear'
    if model == 'lou':
        m, old = lou(B, impl, pt, E, v)
    else:
        law = Law(B, kind=kind)
        if model == 'von_mises':
            m = c11.build(B, impl, pt, law, K, G, E, v)
            old = c11.old_state(B, m, pt)[0]
        elif model == 'mixed':
            m = c12.build(B, impl, pt, law, Law(B, 'hk', kind=kind), K, G, E, v)
            old = c12.old_state(B, m, pt)[0]
        else:
            m = c13.build(B, impl, pt, law, E, v, B.num(1.0), B.num(0.3), B.num(0.2))
            old = c11.old_state(B, m, pt)[0]
    for k in old:
        B.true('state in single precision ' + k, old[k].dtype in (t.float32, t.bool, t.int64))
    ob = {k: (x, x.dtype) for k, x in old.items()}
    pb = {k: (x, getattr(x, 'dtype', None)) for k, x in m._model_parameters.items()}
    inc = B.tensor(sym(B, 'd', pt, dist=(-0.5, 0.5)))
    keep = B.frozen('input', [inc] + [old[k] for k in sorted(old) if t.is_floating_point(old[k])])
    if model == 'lou':
        if impl == 'vmap' and B.sym:
            # (the two cases of the normalisation of the iterations are in C15)
            B.assume(item(B, old['acc_p_strain']) >= B.num(1e-8))
            e33 = item(B, old['e_strain_33']) if pt == 1 else 0
            B.assume(norm(B, madd(unmf(B, old['e_strain_mf'], pt, e33), full(B, B.arr(inc), pt, 0))) > B.num(1e-7))
    try:
        new, tan = m.state_update(inc, old)
    except RuntimeError as e:
        # singular stress deviator or diverged iterations of the Lou model: outside the domain of the formulas
        if not B.sym and model == 'lou' and 'linalg' in str(e):
            B.skip()
        raise
    B.true('default precision restored', t.get_default_dtype() == t.float32)
    keep()
    B.true('strain increment keeps its type', inc.dtype == t.float32)
    B.true('old state is not converted', list(old) == list(ob) and all(old[k] is ob[k][0] and old[k].dtype == ob[k][1] for k in ob))
    B.true('parameters are not converted', list(m._model_parameters) == list(pb) and all(
        m._model_parameters[k] is pb[k][0] and getattr(pb[k][0], 'dtype', None) == pb[k][1] for k in pb))
    for k, x in new.items():
        B.true('new state in single precision ' + k, x.dtype == (t.bool if k.startswith('is_') else t.float32))
    if tan is not None:
        B.true('tangent in single precision', tan.dtype == t.float32)


def lou(B, impl, pt, E, v):
    ls = c15.laws(B, fixed=True)
    ns = {}
    if B.sym:
        from vf import terms as tm
        ns = c15.opaque(B, impl)
    m = c15.build(B, impl, pt, ls, E, v, cls=type('M', (c15.cls_of(B, impl),), ns))
    old = c11.old_state(B, m, pt)[0]
    a, b = ls[1].v, ls[2].v
    B.assume(27 * a * a * b * b < B.num(8))
    B.assume(a * b > B.num(1e-5))
    B.assume(b > B.num(1e-5))
    return m, old
