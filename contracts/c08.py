"""C08: structure mesh assembly, extraction and configurations."""
import numpy as np
from vf.engine import case, stable_rng
from contracts.elems import ELEMS, make
M_ = 'simulators.fetorch.structure.structure_mesh'
FUNCTIONS = ['StructureMesh.' + f for f in (
    '__init__', 'element_assembler', '_element_assembler_1d', 'element_extractor', '_element_extractor_1d',
    'build_elements_mesh_indexing', 'build_element_mesh_indexing', 'get_connectivities_tensor', 'get_element_configuration',
    'get_mesh_configuration', 'update_mesh_configuration', 'get_dirichlet_bool_mesh', 'get_n_dirichlet_dof', 'get_connectivities',
    '_check_mesh_initialization')]
ASSUMPTIONS = ['connectivities are instantiated: structured, permuted, mixed-type and pseudo-random meshes up to 12 nodes (20 for '
               'hexa20); nodal values and displacements are unrestricted']


def meshes():
    out = [('quad strip', 8, ['quad4'] * 3, [(1, 2, 3, 4), (2, 5, 6, 3), (5, 7, 8, 6)]),
           ('tri fan', 5, ['tri3'] * 4, [(5, 1, 2), (5, 2, 3), (5, 3, 4), (5, 4, 1)]),
           ('mixed', 7, ['quad4', 'tri3', 'tri3'], [(7, 2, 4, 1), (2, 3, 4), (6, 5, 2)]),
           ('tetra', 6, ['tetra4'] * 3, [(1, 2, 3, 4), (4, 3, 2, 5), (6, 5, 4, 2)]),
           ('hexa', 12, ['hexa8'] * 2, [(1, 2, 3, 4, 5, 6, 7, 8), (5, 6, 7, 8, 9, 10, 11, 12)]),
           ('quad8', 13, ['quad8'] * 2, [(1, 2, 3, 4, 5, 6, 7, 8), (2, 9, 10, 3, 11, 12, 13, 6)])]
    out.append(('tri strip 11', 13, ['tri3'] * 11, [(i, i + 1, i + 2) if i % 2 else (i + 2, i + 1, i) for i in range(1, 12)]))
    for k in range(6):
        r = stable_rng('mesh', k)
        e = ['tri3', 'quad4', 'tri6', 'tetra4', 'tetra10', 'quad4'][k]
        m = len(ELEMS[e][3])
        nn = m + 1 + int(r.random() * 4)
        nel = 2 + int(r.random() * 10) if k == 5 else 2 + int(r.random() * 3)
        con = []
        for _ in range(nel):
            l = list(range(1, nn + 1))
            r.shuffle(l)
            con.append(tuple(l[:m]))
        out.append(('random%d' % k, nn, [e] * nel, con))
    return out


MESH = {m[0]: m for m in meshes()}


def build(B, name, X=None):
    _, nn, types, con = MESH[name]
    n = ELEMS[types[0]][2]
    X = B.array('x', (nn, n)) if X is None else X
    et = {str(i + 1): make(B, t) for i, t in enumerate(types)}
    cn = {str(i + 1): c for i, c in enumerate(con)}
    if name == 'tri strip 11':          # dictionaries in no particular order
        r = [str(i) for i in (3, 11, 1, 10, 2, 7, 5, 4, 9, 8, 6)]
        et, cn = {k: et[k] for k in r}, {k: cn[k] for k in reversed(r)}
    db = np.array([[int((3 * a + i) % 4 == 0) for i in range(n)] for a in range(nn)])
    tX = B.tensor(X)
    return B.mod(M_).StructureMesh(tX, et, cn, B.itensor(db.tolist())), X, tX, db, con, n, nn


def ids(con, d):
    return [(v - 1) * d + k for v in con for k in range(d)]


@case('C08', params=[('%s,d=%d' % (m, d), dict(name=m, d=d)) for m in MESH for d in (1, 2, 3)], ntrials=4)
def assembly(B, name, d):
    S, X, tX, db, con, n, nn = build(B, name)
    el = {str(e + 1): B.array('f%d_' % e, (len(c) * d,)) for e, c in enumerate(con)}
    te = {k: B.tensor(v) for k, v in el.items()}
    keep = B.frozen('element array', list(te.values()))

    def want(keys):
        w = [B.num(0)] * (nn * d)
        for k in keys:
            for p, q in enumerate(ids(con[int(k) - 1], d)):
                w[q] = w[q] + el[k][p]
        return w
    B.eq('assembled', S.element_assembler(te), want(te))
    for sub in (list(te)[1:], list(te)[::-1], [list(te)[-1]]):
        B.eq('assembled subset %s' % ','.join(sub), S.element_assembler({k: te[k] for k in sub}), want(sub))
    keep()
    g = B.array('g', (nn * d,))
    tg = B.tensor(g)
    keep = B.frozen('mesh array', [tg])
    for e, c in enumerate(con):
        for key in (e + 1, str(e + 1)):
            r = S.element_extractor(tg, key)
            B.eq('extracted from element %d' % (e + 1), r, [g[q] for q in ids(c, d)])
        r[0] = r[0] + 1.0
    keep()
    if len({len(c) for c in con}) == 1:
        ix = np.array(S.build_elements_mesh_indexing(d).tolist())
        B.true('mesh indexing', ix.tolist() == [ids(c, d) for c in con])
        ct = S.get_connectivities_tensor().tolist()
        B.true('connectivity tensor in element order', [tuple(int(v) for v in r) for r in ct] == [tuple(c) for c in con])


@case('C08', params=[(m, dict(name=m)) for m in ('quad strip', 'mixed', 'hexa', 'random1')], ntrials=4)
def configurations(B, name):
    S, X, tX, db, con, n, nn = build(B, name)
    B.true('sizes', S.get_n_dim() == n and S.get_n_node_mesh() == nn and S.get_n_elem() == len(con))
    Z = [[B.num(0)] * n for _ in range(nn)]
    model = {'init': (X, Z), 'last': (X, Z), 'current': (X, Z)}

    def check(tag):
        for t, (x, u) in model.items():
            a, b = S.get_mesh_configuration(time=t)
            B.eq('%s: %s coordinates' % (tag, t), a, x)
            B.eq('%s: %s displacements' % (tag, t), b, u)
            a[0, 0] = a[0, 0] + 1.0
            b[0, 0] = b[0, 0] + 1.0
            for e, c in enumerate(con):
                p, q = S.get_element_configuration(e + 1, time=t)
                B.eq('%s: %s element %d coordinates' % (tag, t, e + 1), p, [list(x[v - 1]) for v in c])
                B.eq('%s: %s element %d displacements' % (tag, t, e + 1), q, [list(u[v - 1]) for v in c])
                p[0, 0] = p[0, 0] + 1.0
                q[0, 0] = q[0, 0] + 1.0
    check('initially')
    for k, (t, upd) in enumerate((('current', True), ('last', True), ('current', False), ('last', False), ('current', True))):
        u = B.array('u%d_' % k, (nn, n))
        tu = B.tensor(u)
        keep = B.frozen('displacements', [tu])
        S.update_mesh_configuration(tu, time=t, is_update_coords=upd)
        keep()
        tu[0, 0] = tu[0, 0] + 1.0
        model[t] = (X + u if upd else model[t][0], u)
        check('update %d (%s, coordinates %s)' % (k, t, upd))
    for t in ('current', 'last'):
        u = B.array('dflt_%s' % t, (nn, n))
        S.update_mesh_configuration(B.tensor(u), *(() if t == 'current' else ('last',)))
        model[t] = (X + u, u)
        check('default update (%s)' % t)
    B.raises('unknown time (update)', lambda: S.update_mesh_configuration(B.tensor(X), time='init'), RuntimeError)
    B.raises('unknown time (element)', lambda: S.get_element_configuration(1, time='x'), RuntimeError)
    B.raises('unknown time (mesh)', lambda: S.get_mesh_configuration(time='x'), RuntimeError)
    check('after rejected calls')


@case('C08', params=[(m, dict(name=m)) for m in ('quad strip', 'mixed')], ntrials=2)
def handed_out_data(B, name):
    S, X, tX, db, con, n, nn = build(B, name)
    d = S.get_dirichlet_bool_mesh()
    B.true('dirichlet flags', d.tolist() == db.tolist())
    B.true('dirichlet count', int(S.get_n_dirichlet_dof()) == int(db.sum()))
    d[0, 0] = 1 - d[0, 0]
    B.true('dirichlet flags not aliased', S.get_dirichlet_bool_mesh().tolist() == db.tolist())
    c = S.get_connectivities()
    B.true('connectivities', {k: tuple(v) for k, v in c.items()} == {str(i + 1): v for i, v in enumerate(con)})
    c['1'] = (1,)
    c2 = S.get_connectivities()
    B.true('connectivities not aliased', tuple(c2['1']) == tuple(con[0]))
    t = S.get_elements_type()
    t.pop('1')
    B.true('element types not aliased', sorted(S.get_elements_type()) == sorted(str(i + 1) for i in range(len(con))))


@case('C08', ntrials=1)
def rejected(B):
    M = B.mod(M_)
    X = B.tensor(B.array('x', (4, 2)))
    q = make(B, 'quad4')
    db = B.itensor([[0, 0]] * 4)
    B.raises('connectivity length', lambda: M.StructureMesh(X, {'1': q}, {'1': (1, 2, 3)}, db), RuntimeError)
    B.raises('labels', lambda: M.StructureMesh(X, {'2': q}, {'2': (1, 2, 3, 4)}, db), RuntimeError)
    B.raises('missing connectivity', lambda: M.StructureMesh(X, {'1': q, '2': q}, {'1': (1, 2, 3, 4)}, db), RuntimeError)
    B.raises('coordinates rank', lambda: M.StructureMesh(X.flatten(), {'1': q}, {'1': (1, 2, 3, 4)}, db), RuntimeError)
    S = M.StructureMesh(X, {'1': q}, {'1': (1, 2, 3, 4)}, db)
    B.raises('assembly of matrices', lambda: S.element_assembler({'1': B.tensor(B.array('m', (8, 8)))}), RuntimeError)
    B.raises('extraction from matrices', lambda: S.element_extractor(B.tensor(B.array('m', (8, 8))), 1), RuntimeError)
