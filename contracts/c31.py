"""C31: an imported specimen is the mesh and the history of its files."""
import os
import shutil
import tempfile
import functools
import itertools
import numpy as np
from vf.engine import case
FUNCTIONS = ['get_specimen_mesh_from_inp_file', 'elem_type_abaqus_to_fetorch', 'get_specimen_history_paths',
             'get_specimen_numerical_data', 'gen_specimen_dataset']
ASSUMPTIONS = ['the text of a number read with float() / int() / pandas.read_csv gives the number written; torch.save / torch.load '
               'give back a copy',
               'meshes, keyword styles and file layouts are enumerated (each element and each boundary condition on one line, '
               'boundary conditions by node label with first and last degree of freedom, nodal data rows in label order); '
               'coordinates, nodal data and time steps are arbitrary',
               'the file system is the real one, in a scratch directory']
G = 'user_scripts.global_model_update.material_finder.gen_specimen_data'
ET = 'simulators.fetorch.element.type.'
# ABAQUS type -> (module, class, nodes, integration points)
TYPES = {'CPE3': ('tri3', 'FETri3', 3, 1), 'CPE4': ('quad4', 'FEQuad4', 4, 4), 'C3D4': ('tetra4', 'FETetra4', 4, 4),
         'C3D8': ('hexa8', 'FEHexa8', 8, 8), 'C3D8R': ('hexa8', 'FEHexa8', 8, 1), 'C3D20R': ('hexa20', 'FEHexa20', 20, 8)}


def scratch(f):
    @functools.wraps(f)
    def g(B, **kw):
        d = tempfile.mkdtemp(prefix='vf_c31_')
        try:
            f(B, d, **kw)
        finally:
            shutil.rmtree(d, ignore_errors=True)
    return g


def txt(B, v):
    if B.sym:
        from vf.loader import ftoken
        return ftoken(v)
    return repr(float(v))


# mesh: dimension, number of nodes, element blocks (type, ((label, nodes), ...)), boundary (node, first, last)
MESHES = {
    '2d': (2, 6, (('CPE4', ((1, (1, 2, 5, 4)), (2, (2, 3, 6, 5)))),), ((1, 1, 2), (4, 1, 1), (3, 2, 2))),
    '2d_mixed': (2, 7, (('CPE4', ((2, (1, 2, 5, 4)), (1, (2, 3, 6, 5)))), ('CPE3', ((3, (5, 6, 7)),))), ((7, 1, 3), (2, 3, 3), (6, 2, 6))),
    '2d_blocks': (2, 5, (('CPE3', ((1, (1, 2, 3)),)), ('CPE4', ((2, (1, 3, 4, 5)),)), ('CPE3', ((3, (5, 4, 2)),))), ()),
    '3d': (3, 9, (('C3D8', ((1, (1, 2, 3, 4, 5, 6, 7, 8)),)), ('C3D4', ((2, (5, 6, 7, 9)),))), ((1, 1, 3), (2, 2, 3), (9, 3, 3), (4, 1, 6))),
    '3d_reduced': (3, 8, (('C3D8R', ((1, (8, 7, 6, 5, 4, 3, 2, 1)),)),), ((8, 1, 1),)),
    '3d_quadratic': (3, 20, (('C3D20R', ((1, tuple(range(1, 21))),)),), ((20, 1, 3),)),
}


def key(s, style):
    return {'upper': s.upper(), 'lower': s.lower(), 'title': s.title(), 'mixed': s.swapcase().title()}[style]


def write_inp(B, path, mesh, style='title', order=None, comments=False, blank=False, extra=False, split=False):
    """Writes the file of a mesh; returns the coordinates by label."""
    n_dim, n, blocks, bcs = MESHES[mesh]
    X = {}
    L = ['*Heading', ' Job name: %s' % mesh] if extra else [key('*heading', style)]
    if comments:
        L.append('** PARTS')
    L.append(key('*node', style))
    for k, lab in enumerate(order or range(1, n + 1)):
        X[lab] = [B.var('x%d_%d' % (lab, i)) for i in range(n_dim)]
        c = [txt(B, v) for v in X[lab]]
        if extra and n_dim == 2:
            c.append('0.')              # a third coordinate, outside the plane
        L.append('%7d, %s' % (lab, ',  '.join(c)))
        if comments and k == 1:
            L.append('** a comment between nodes')
    if blank:
        L.append('')
    for t, els in blocks:
        L.append('%s, %s=%s' % (key('*element', style), key('type', style), t))
        for i, (lab, nodes) in enumerate(els):
            if comments:
                L.append('** element follows')
            L.append('%d, %s' % (lab, ', '.join(map(str, nodes))))
        if extra:
            L += ['%s, nset=Set-1, generate' % key('*nset', style), ' 1, %d, 1' % n]
        if blank:
            L.append('')
    L += ['%s, name=%s' % (key('*material', style), 'Mat'), key('*elastic', style), '100., 0.3']
    for i, (nd, a, b) in enumerate(bcs):
        if i == 0 or (split and i == 1):
            if comments:
                L.append('** Name: BC-%d' % i)
            L.append(key('*boundary', style))
        L.append('%d, %d, %d' % (nd, a, b) + (', 0.25' if extra and i % 2 else ''))
        if comments:
            L.append('** ')
    L += [key('*step', style), '1, 1, 1', key('*end', style) + ' ' + key('step', style)]
    with open(path, 'w') as f:
        f.write('\n'.join(L) + '\n')
    return X


LAYOUTS = [('title', dict(style='title')), ('upper', dict(style='upper', split=True)), ('lower', dict(style='lower')),
           ('lower_comments', dict(style='lower', comments=True)), ('comments', dict(style='title', comments=True, split=True)),
           ('blank', dict(style='upper', blank=True)), ('extra', dict(style='title', extra=True, split=True)),
           ('reversed', dict(style='title', order='reversed')), ('shuffled', dict(style='upper', order='shuffled', comments=True))]


def layout(mesh, kw):
    kw = dict(kw)
    n = MESHES[mesh][1]
    if kw.get('order') == 'reversed':
        kw['order'] = list(range(n, 0, -1))
    elif kw.get('order') == 'shuffled':
        kw['order'] = list(range(2, n + 1, 2)) + list(range(1, n + 1, 2))
    return kw


def check_mesh(B, mesh, X, coords, types, conn, dbool):
    n_dim, n, blocks, bcs = MESHES[mesh]
    B.true('coordinates shape', tuple(coords.shape) == (n, n_dim))
    for lab in range(1, n + 1):
        B.eq('coordinates of node %d' % lab, coords[lab - 1], X[lab])
    els = {str(lab): (t, nodes) for t, b in blocks for lab, nodes in b}
    B.true('elements', sorted(conn) == sorted(els) and sorted(types) == sorted(els))
    for e, (t, nodes) in sorted(els.items()):
        B.true('nodes of element %s' % e, tuple(int(v) for v in conn[e]) == nodes)
        m, c, k, g = TYPES[t]
        B.true('type of element %s' % e, type(types[e]) is getattr(B.mod(ET + m), c) and types[e].get_n_gauss() == g
               and types[e].get_n_node() == k)
    want = np.zeros((n, n_dim))
    for nd, a, b in bcs:
        for d in range(a, b + 1):
            if d <= n_dim:
                want[nd - 1, d - 1] = 1
    B.eq('constrained degrees of freedom', dbool, [[B.num(int(v)) for v in r] for r in want])


@case('C31', params=[('%s_%s' % (m, nm), dict(mesh=m, kw=kw)) for m in MESHES for nm, kw in LAYOUTS], ntrials=2)
@scratch
def mesh_file(B, d, mesh, kw):
    """Coordinates by label, connectivities, element types and constraints of the file."""
    p = os.path.join(d, 'mesh.inp')
    X = write_inp(B, p, mesh, **layout(mesh, kw))
    out = B.mod(G).get_specimen_mesh_from_inp_file(p, MESHES[mesh][0])
    check_mesh(B, mesh, X, *out)


def plain(path, lines):
    with open(path, 'w') as f:
        f.write('\n'.join(lines) + '\n')


@case('C31', ntrials=2)
@scratch
def rejected(B, d):
    """A file that does not define a mesh is rejected."""
    g = B.mod(G)
    N = ['*Node'] + ['%d, %s, %s' % (i, txt(B, B.var('a%d' % i)), txt(B, B.var('b%d' % i))) for i in range(1, 5)]
    for nm, L in (('no nodes', ['*Element, type=CPE4', '1, 1, 2, 3, 4', '*End']),
                  ('no elements', N + ['*End']),
                  ('unused node', N + ['*Element, type=CPE3', '1, 1, 2, 3', '*End']),
                  ('unknown node', N + ['*Element, type=CPE4', '1, 1, 2, 3, 5', '*End']),
                  ('node label zero', N + ['*Element, type=CPE3', '1, 0, 2, 3', '2, 1, 2, 4', '*End']),
                  ('unknown type', N + ['*Element, type=CPS4', '1, 1, 2, 3, 4', '*End']),
                  ('missing label', N[:-1] + ['7' + N[-1][1:], '*Element, type=CPE4', '1, 1, 2, 3, 4', '*End'])):
        p = os.path.join(d, 'm.inp')
        plain(p, L)
        B.raises(nm, lambda: g.get_specimen_mesh_from_inp_file(p, 2), RuntimeError)


@case('C31', ntrials=1)
def element_types(B):
    g = B.mod(G)
    for t, (m, c, k, n) in TYPES.items():
        e = g.elem_type_abaqus_to_fetorch(t)
        B.true(t, type(e) is getattr(B.mod(ET + m), c) and e.get_n_gauss() == n)
    for t in ('CPE', 'CPE8', 'C3D20', 'S4R', 'C3D', ''):
        B.raises(t + ' is rejected', lambda: g.elem_type_abaqus_to_fetorch(t), RuntimeError)


STEPS = list(range(13)) + [20, 29, 30, 98, 99, 100, 101, 109, 110, 199, 200, 909, 999, 1000, 1001, 1099, 9999, 10000, 12345]


def steps(B, n):
    """Arbitrary distinct time step numbers."""
    if B.sym:
        from vf.loader import TokInt
        t = [TokInt(7100000 + i, B.var('step%d' % i, nonneg=True)) for i in range(n)]
        terms = [x.term for x in t]
    else:
        t = [int(B.choice('step%d' % i, STEPS)) for i in range(n)]
        terms = t
    for i in range(n):
        for j in range(i):
            B.assume(terms[i] != terms[j])
    return t, terms


@case('C31', params=[('n%d_%s' % (n, s), dict(n=n, spec=s)) for n in (1, 2, 3, 4) for s in ('specimen', 'ti_6.2(a)', 'a+b')],
      ntrials=6, max_paths=200)
@scratch
def history_paths(B, d, n, spec):
    """Exactly the time step files of the specimen, in the order of their time steps."""
    t, terms = steps(B, n)
    os.makedirs(os.path.join(d, 'h7', 'x_tstep_3.csv'))
    h = os.path.join(d, 'h7')
    want = {}
    for i, k in enumerate(t):
        nm = '%s_tstep_%s.csv' % (spec, str(int.__int__(k)))
        plain(os.path.join(h, nm), ['1'])
        want[os.path.join(h, nm)] = terms[i]
    for o in ('other_%s_tstep_1.csv' % spec, '%s2_tstep_1.csv' % spec, '%s_tstep_1.csv.bak' % spec, '%s_tstep_.csv' % spec,
              '%s_tstep_2.txt' % spec, '%s_tstep_1xcsv' % spec, '%s_tstep_a1.csv' % spec, 'ti_672(a)_tstep_1.csv', 'aab_tstep_1.csv',
              'ti_6.2a_tstep_1.csv'):
        plain(os.path.join(h, o), ['1'])
    got = B.mod(G).get_specimen_history_paths(h, spec)
    B.true('files of the specimen', sorted(got) == sorted(want))
    for a, b in zip(got, list(got)[1:]):
        B.lt('time order', want[a], want[b])


@case('C31', ntrials=1)
@scratch
def history_missing(B, d):
    g = B.mod(G)
    B.raises('missing directory', lambda: g.get_specimen_history_paths(os.path.join(d, 'none'), 's'), RuntimeError)
    plain(os.path.join(d, 't_tstep_1.csv'), ['1'])
    B.raises('no files', lambda: g.get_specimen_history_paths(d, 's'), RuntimeError)


HEAD = 'NODE,X1,X2,X3,U1,U2,U3,RF1,RF2,RF3,DBC1,DBC2,DBC3'


def write_hist(B, d, n, n_time, tag='s'):
    paths, D = [], []
    for k in range(n_time):
        rows = []
        L = [HEAD]
        for i in range(n):
            v = [B.var('d%d_%d_%d' % (k, i, c)) for c in range(9)]
            b = [(k + i * (c + 1)) % 4 for c in range(3)]
            rows.append((v, b))
            L.append(','.join([str(i + 1)] + [txt(B, x) for x in v] + [str(x) for x in b]))
        p = os.path.join(d, '%s_tstep_%d.csv' % (tag, k))
        plain(p, L)
        paths.append(p)
        D.append(rows)
    return tuple(paths), D


def check_hist(B, D, n, n_dim, disp, rf, dbc, time):
    T_ = len(D)
    B.true('shapes', all(tuple(x.shape) == (n, n_dim, T_) for x in (disp, rf, dbc)) and tuple(time.shape) == (T_,))
    for k in range(T_):
        for i in range(n):
            v, b = D[k][i]
            B.eq('displacement of node %d step %d' % (i + 1, k), disp[i, :, k], v[3:3 + n_dim])
            B.eq('reaction of node %d step %d' % (i + 1, k), rf[i, :, k], v[6:6 + n_dim])
            B.eq('constraint of node %d step %d' % (i + 1, k), dbc[i, :, k], [B.num(x) for x in b[:n_dim]])
        B.eq('time %d' % k, time[k], B.num(k))


@case('C31', params=[('%dd_%d_%d' % (dim, n, t), dict(n_dim=dim, n=n, t=t)) for dim, n, t in
                     ((2, 3, 1), (2, 4, 3), (3, 3, 2), (3, 5, 4), (2, 3, 3), (3, 1, 1), (3, 13, 2))], ntrials=2)
@scratch
def numerical_data(B, d, n_dim, n, t):
    """Displacements, reactions and constraints of every node and time step are the columns of the file of that step."""
    paths, D = write_hist(B, d, n, t)
    g = B.mod(G)
    disp, rf, dbc, time = g.get_specimen_numerical_data(paths, n_dim, n)
    check_hist(B, D, n, n_dim, disp, rf, dbc, time)
    B.true('integer constraints', 'int' in str(dbc.dtype))
    B.raises('number of nodes', lambda: g.get_specimen_numerical_data(paths, n_dim, n + 1), RuntimeError)
    q = os.path.join(d, 'short.csv')
    plain(q, [HEAD.rsplit(',', 1)[0]] + [','.join(['1'] * 12) for _ in range(n)])
    B.raises('number of columns', lambda: g.get_specimen_numerical_data(paths[:-1] + (q,), n_dim, n), RuntimeError)


@case('C31', params=[('%s_%d%d' % (m, a, b), dict(mesh=m, a=a, b=b)) for m in ('2d_mixed', '3d') for a in (1, 0) for b in (1, 0)],
      ntrials=2)
@scratch
def dataset(B, d, mesh, a, b):
    """The stored specimen and material state are the mesh, history and material model given."""
    g = B.mod(G)
    n_dim, n, blocks, bcs = MESHES[mesh]
    p = os.path.join(d, 'mesh.inp')
    X = write_inp(B, p, mesh)
    paths, D = write_hist(B, d, n, 2)
    out = os.path.join(d, 'out')
    os.makedirs(out)
    pt = 4 if n_dim == 3 else 1
    par = {'elastic_symmetry': 'isotropic', 'E': B.var('E', pos=True), 'v': B.var('v', dist=(0.1, 0.4)), 'euler_angles': (0.0, 0.0, 0.0)}
    nf = 6 if n_dim == 3 else 3
    mdir = os.path.join(d, 'model_1')
    os.makedirs(mdir)
    kwargs = {'n_features_in': nf, 'n_features_out': nf, 'learnable_parameters': {'E': {'initial_value': 70.0, 'bounds': (50, 150)}},
              'strain_formulation': 'infinitesimal', 'problem_type': pt, 'material_model_name': 'elastic', 'material_model_parameters': par,
              'state_features_out': {}, 'is_auto_sync_parameters': True, 'is_check_su_fail': False, 'model_directory': mdir,
              'model_name': 'rc_elastic', 'is_normalized_parameters': False, 'is_model_in_normalized': False,
              'is_model_out_normalized': False, 'device_type': 'cpu'}
    pa, pb = g.gen_specimen_dataset('s', d, p, paths, 'infinitesimal', pt, n_dim, 'rc_elastic', par, kwargs, out,
                                    is_save_specimen_data=bool(a), is_save_specimen_material_state=bool(b))
    B.true('files', sorted(os.listdir(out)) == sorted(['specimen_data.pt'] * a + ['specimen_material_state.pt'] * b))
    if a:
        B.true('data path', os.path.normpath(pa) == os.path.join(out, 'specimen_data.pt'))
        s = B.torch.load(pa) if B.sym else B.torch.load(pa, weights_only=False)
        m = s.specimen_mesh
        n_elem = sum(len(x) for _, x in blocks)
        B.true('sizes', m.get_n_elem() == n_elem and m.get_n_node_mesh() == n and s.get_n_dim() == n_dim)
        check_mesh(B, mesh, X, m.get_mesh_configuration(time='init')[0], m.get_elements_type(), m.get_connectivities(),
                   m.get_dirichlet_bool_mesh())
        check_hist(B, D, n, n_dim, s.nodes_disps_mesh_hist, s.reaction_forces_mesh_hist, s.dirichlet_bc_mesh_hist, s.time_hist)
    else:
        B.true('no data path', pa is None)
    if b:
        B.true('state path', os.path.normpath(pb) == os.path.join(out, 'specimen_material_state.pt'))
        z = B.torch.load(pb) if B.sym else B.torch.load(pb, weights_only=False)
        B.true('problem', z.get_strain_formulation() == 'infinitesimal' and z.get_problem_type() == pt)
        mats = z.get_elements_material()
        els = sorted(str(lab) for t, bb in blocks for lab, _ in bb)
        B.true('elements with a material', sorted(mats) == els)
        for t, bb in blocks:
            for lab, _ in bb:
                m = mats[str(lab)]
                B.true('recurrent model of element %d' % lab, z.get_element_model_recurrency(str(lab)) is True)
                q = m.get_material_model_parameters()
                B.eq('parameters of element %d' % lab, [q['E'], q['v']], [par['E'], par['v']])
                w = dict(m.get_model_parameters())
                B.true('learnable parameters of element %d' % lab, sorted(w) == ['E'])
                B.eq('initial value of element %d' % lab, w['E'], B.num(70))
    else:
        B.true('no state path', pb is None)
