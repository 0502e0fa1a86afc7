"""C34: Links simulation files: the written specimen and the results read back."""
import os
import re
import numpy as np
from contracts.c24 import Rng
from contracts.c31 import scratch, txt, plain
from contracts.c33 import CORNERS, grid, labels, on_boundary
from vf.engine import case
FUNCTIONS = ['LinksSimulator.generate_input_data_file', 'LinksSimulator._write_links_input_data_file', 'LinksSimulator._get_links_default_input_params',
             'LinksSimulator._get_links_mesh_data', 'LinksSimulator._get_links_elem_type_data', 'LinksSimulator.remove_mesh_elements',
             'LinksSimulator._get_links_loading_incrementation (bounded)', 'LinksSimulator.run_links_simulation (bounded)',
             'LinksSimulator.read_links_simulation_results', 'LinksElastic / LinksVonMises / LinksDruckerPrager / LinksLou._format_material_descriptors',
             'links_dat_to_abaqus_inp', 'abaqus_inp_to_links_dat', 'links_node_output_to_csv', 'gen_adimu_data_from_links and its parts',
             'generate_pointwise_sets', 'update_adimu_mesh_hist_data_files_dirichlet', 'build_specimen_dbc', 'get_specimen_node_dbc',
             'write_links_dirichlet_bc_file', 'read_links_nodes_coords_mesh', 'links_out_to_dataset.extract_sample_path (bounded)']
ASSUMPTIONS = ['a formatted number reads back as the number (to the digits of the format) and fills its field with a blank to spare; the texts themselves, '
               'signs included, are those of the real code in the numeric runs',
               'meshes, material phases, prescribed degrees of freedom and file layouts are enumerated; coordinates, displacements, material '
               'parameters, nodal results and thresholds are arbitrary',
               'the Links program itself is a stand-in that leaves the documented output files', 'the file system is the real one, in a scratch directory']
L = 'simulators.links.links'
PP = 'data_generation.spdg.patch'
U = 'simulators.links.utilities.'
G = 'user_scripts.global_model_update.material_finder.gen_specimen_data'
EDGE20 = ((1, 0, 0), (2, 1, 0), (1, 2, 0), (0, 1, 0), (0, 0, 1), (2, 0, 1), (2, 2, 1), (0, 2, 1), (1, 0, 2), (2, 1, 2), (1, 2, 2), (0, 1, 2))
# element type -> (name, Gauss points, nodes per edge, positions of the nodes of an element in order)
ELEMENT = {'SQUAD4': ('QUAD4', 4, 2, CORNERS[2]),
           'SQUAD8': ('QUAD8', 4, 3, ((0, 0), (1, 0), (2, 0), (2, 1), (2, 2), (1, 2), (0, 2), (0, 1))),
           'SHEXA8': ('HEXA8', 8, 2, CORNERS[3]),
           'SHEXA20': ('HEXA20', 8, 3, tuple(tuple(2 * i for i in c) for c in CORNERS[3]) + EDGE20)}
TOL = 1e-6


class Patch:
    """A patch with arbitrary coordinates and prescribed displacements; free: {boundary node number: free dimensions}."""

    def __init__(self, B, et, ne, free=(), sparse=False):
        nd = len(ne)
        self.B, self.et, self.ne, self.nd = B, et, ne, nd
        self.gr, self.lab = grid(et, ne), labels(et, ne)
        mat = np.zeros(self.gr, dtype=int)
        for idx, v in self.lab.items():
            mat[idx] = v
        self.X = {v: [B.var('x%d_%d' % (v, k), dist=(-9, 9)) for k in range(nd)] for v in self.lab.values()}
        bn = [v for idx, v in sorted(self.lab.items(), key=lambda p: p[::-1]) if on_boundary(idx, self.gr)]
        if sparse:
            bn = bn[::2]
        self.u = {}
        for v in bn:
            self.u[v] = [B.var('u%d_%d' % (v, k), dist=(-2, 2)) for k in range(nd)]
        for v, ks in dict(free).items():
            for k in ks:
                self.u[v][k] = None
        ob = lambda row: np.array(row, dtype=object if B.sym or None in row else float)
        co = {str(v): ob(r) for v, r in self.X.items()}
        # the order of the entries of a dictionary is not that of the labels
        us = {str(v): ob(self.u[v]) for v in sorted(self.u, key=lambda v: (v * 7) % 11)}
        B.mod('simulators.links.discretization.finite_element')
        self.obj = B.mod(PP).FiniteElementPatch(nd, tuple(1.0 for _ in ne), et, ne, mat, co, us)

    def cells(self):
        """Elements in label order, first dimension running fastest: (cell, nodes)."""
        _, _, m, local = ELEMENT[self.et]
        out = []
        for rev in np.ndindex(*reversed(self.ne)):
            c = tuple(reversed(rev))
            out.append((c, tuple(self.lab[tuple(c[k] * (m - 1) + l[k] for k in range(self.nd))] for l in local)))
        return out


def phases(ne, n):
    """A material phase for each cell, different along every dimension."""
    o = np.zeros(ne, dtype=int)
    for idx in np.ndindex(*ne):
        o[idx] = 1 + sum((k + 2) * i for k, i in enumerate(idx)) % n
    return o


def sections(path):
    """Keyword lines of a Links file -> (rest of the line, lines below up to the next blank line)."""
    out, cur = [], None
    for ln in open(path).read().split('\n'):
        if not ln.strip():
            cur = None
        elif cur is None:
            w = ln.split(None, 1)
            cur = (w[0].upper(), (w[1] if len(w) > 1 else '').strip(), [])
            out.append(cur)
        else:
            cur[2].append(ln)
    return out


def section(B, secs, key):
    hit = [s for s in secs if s[0] == key]
    B.true('section ' + key, len(hit) == 1)
    return (hit or [(key, '0', [])])[0]


def val(B, t):
    if B.sym:
        from vf.loader import _cell
        return _cell(t)
    return float(t)


def rows(B, name, lines, n=None):
    r = [ln.split() for ln in lines]
    if n is not None:
        B.true('fields of ' + name, all(len(w) == n for w in r))
        r = [w for w in r if len(w) == n]
    return r


def check_mesh(B, secs, coords, elems, disps):
    """coords: rows for labels 1..n; elems: (phase, nodes) for labels 1..m; disps: {label: values or None}."""
    nd = len(coords[0])
    s = section(B, secs, 'NODE_COORDINATES')
    r = rows(B, 'nodes', s[2], nd + 1)
    B.true('number of nodes', s[1].split()[0] == str(len(coords)) and len(r) == len(coords))
    B.true('node labels', [w[0] for w in r] == [str(i + 1) for i in range(len(coords))])
    for i, w in enumerate(r):
        B.eq('coordinates of node %d' % (i + 1), [val(B, t) for t in w[1:]], coords[i], rtol=TOL, atol=1e-8)
    s = section(B, secs, 'ELEMENTS')
    r = rows(B, 'elements', s[2])
    B.true('number of elements', s[1].split()[0] == str(len(elems)) and len(r) == len(elems))
    for i, (w, (ph, nodes)) in enumerate(zip(r, elems)):
        B.true('element %d' % (i + 1), [int(t) for t in w] == [i + 1, ph] + [int(v) for v in nodes])
    s = section(B, secs, 'NODES_WITH_PRESCRIBED_DISPLACEMENTS')
    r = rows(B, 'displacements', s[2], 5)
    B.true('number of prescribed nodes', s[1].split()[0] == str(len(disps)) and len(r) == len(disps))
    B.true('prescribed nodes', sorted(int(w[0]) for w in r) == sorted(disps))
    for w in sorted(r, key=lambda w: int(w[0])):
        v = int(w[0])
        if v not in disps:
            continue
        u = disps[v]
        B.true('prescribed degrees of freedom of node %d' % v, len(w[1]) == 3 and w[1][:nd] == ''.join('0' if x is None else '1' for x in u))
        for k in range(nd):
            if u[k] is not None:
                B.eq('displacement %d of node %d' % (k, v), val(B, w[2 + k]), u[k], rtol=TOL, atol=1e-8)


def simulator(B, form='infinitesimal', kind='tridimensional', flat=True):
    M = B.mod(L)
    if flat:
        r = Rng(B, 'load')
        if B.sym:
            r.uniform = lambda low=0.0, high=1.0, size=None: np.array([B.num(0)] * (size or 1), dtype=object)
            r.randint = lambda *a, **k: 2
        B.override('numpy:random', r)
    return M, M.LinksSimulator('/none', form, kind)


def elastic(B, i):
    return {'name': 'ELASTIC', 'density': B.var('rho%d' % i, nonneg=True), 'young': B.var('E%d' % i, pos=True, dist=(1.0, 2e5)),
            'poisson': B.var('nu%d' % i, pos=True, dist=(0.1, 0.45))}


def header(B, secs, et, ph, inf, kind):
    """Analysis and element type, and one group and material per phase."""
    one = lambda k: section(B, secs, k)
    B.true('analysis type', one('ANALYSIS_TYPE')[1] == {'plane_stress': '1', 'plane_strain': '2', 'axisymmetric': '3', 'tridimensional': '6'}[kind])
    B.true('strain formulation', one('LARGE_STRAIN_FORMULATION')[1] == ('OFF' if inf else 'ON'))
    s = one('ELEMENT_TYPES')
    B.true('element type', s[1] == '1' and len(s[2]) == 2 and s[2][0].split() == ['1', ELEMENT[et][0]] and s[2][1].split() == [str(ELEMENT[et][1]), 'GP'])
    s = one('ELEMENT_GROUPS')
    B.true('element groups', s[1] == str(len(ph)) and sorted(w.split() for w in s[2]) == sorted([str(p), '1', str(p)] for p in ph))
    B.true('number of materials', one('MATERIALS')[1] == str(len(ph)))


def materials(B, secs, names):
    """Lines of the materials section by phase."""
    out, cur = {}, None
    for ln in section(B, secs, 'MATERIALS')[2]:
        w = ln.split()
        if len(w) == 2 and not re.match(r'^[-+0-9.]', w[1]):
            cur = out.setdefault(w[0], [w[1]])
        elif cur is not None:
            cur.append(w)
    B.true('materials', {k: v[0] for k, v in out.items()} == {str(k): v for k, v in names.items()})
    return out


MESH = [('SQUAD4', (1, 1)), ('SQUAD4', (3, 2)), ('SQUAD8', (2, 2)), ('SHEXA8', (1, 1, 1)), ('SHEXA8', (3, 2, 2)), ('SHEXA20', (2, 1, 1))]
mid = lambda et, ne: '%s:%s' % (et, 'x'.join(map(str, ne)))
kindof = lambda nd: 'plane_strain' if nd == 2 else 'tridimensional'


@case('C34', params=[('%s_%d' % (mid(*m), n), dict(et=m[0], ne=m[1], n=n)) for m in MESH for n in (1, 3)], ntrials=2)
@scratch
def input_file(B, d, et, ne, n):
    """The file describes the patch: nodes, elements, phases, materials and prescribed displacements."""
    p = Patch(B, et, ne, sparse=n == 3)
    _, sim = simulator(B, kind=kindof(p.nd))
    ph = phases(ne, n)
    present = sorted(set(int(v) for v in ph.flatten()))
    mats = {str(i): elastic(B, i) for i in range(1, n + 2)}
    path = sim.generate_input_data_file('job', os.path.join(d, 'new'), p.obj, {'mesh_elem_material': ph, 'mat_phases_descriptors': mats})
    B.true('path', os.path.normpath(path) == os.path.join(d, 'new', 'job.dat') and os.path.isfile(path))
    secs = sections(path)
    header(B, secs, et, present, True, kindof(p.nd))
    check_mesh(B, secs, [p.X[v] for v in sorted(p.X)], [(int(ph[c]), nodes) for c, nodes in p.cells()], p.u)
    m = materials(B, secs, {i: 'ELASTIC' for i in present})
    for i in present:
        got = [val(B, t) for w in m[str(i)][1:] for t in w]
        e = mats[str(i)]
        B.eq('material %d' % i, got, [e['density'], e['young'], e['poisson']], rtol=TOL, atol=1e-8)


@case('C34', params=[(et, dict(et=et, ne=ne, free=free)) for et, ne, free in
                     (('SQUAD4', (2, 1), {1: (0,), 4: (1,), 6: (0, 1)}), ('SHEXA8', (1, 1, 2), {2: (2,), 3: (0, 1), 5: (1,), 8: (0, 1, 2)}))], ntrials=2)
@scratch
def free_degrees(B, d, et, ne, free):
    """Degrees of freedom given as None are left free, the others are prescribed."""
    p = Patch(B, et, ne, free=free)
    _, sim = simulator(B, kind=kindof(p.nd))
    path = sim.generate_input_data_file('job', d, p.obj, {'mesh_elem_material': phases(ne, 1), 'mat_phases_descriptors': {'1': elastic(B, 1)}})
    check_mesh(B, sections(path), [p.X[v] for v in sorted(p.X)], [(1, nodes) for c, nodes in p.cells()], p.u)


REMOVE = [('SQUAD4', (3, 3), (5,)), ('SQUAD8', (3, 3), (5,)), ('SQUAD4', (4, 3), (6, 7)), ('SQUAD4', (5, 4), (7, 9, 13)), ('SHEXA8', (3, 3, 3), (14,)), ('SHEXA8', (3, 3, 2), (5,)),
          ('SQUAD4', (3, 2), ())]


@case('C34', params=[('%s_%s' % (mid(et, ne), '.'.join(map(str, rm)) or 'none'), dict(et=et, ne=ne, rm=rm)) for et, ne, rm in REMOVE], ntrials=2)
@scratch
def removed_elements(B, d, et, ne, rm):
    """Removed elements are gone with the nodes only they used; everything else is the same, renumbered without gaps."""
    p = Patch(B, et, ne)
    _, sim = simulator(B, kind=kindof(p.nd))
    ph = phases(ne, 3)
    mats = {str(i): elastic(B, i) for i in range(1, 4)}
    path = sim.generate_input_data_file('job', d, p.obj, {'mesh_elem_material': ph, 'mat_phases_descriptors': mats}, remove_elements_labels=list(rm))
    keep = [(int(ph[c]), nodes) for i, (c, nodes) in enumerate(p.cells()) if i + 1 not in rm]
    used = sorted({v for _, nodes in keep for v in nodes})
    new = {v: i + 1 for i, v in enumerate(used)}
    check_mesh(B, sections(path), [p.X[v] for v in used], [(a, tuple(new[v] for v in nodes)) for a, nodes in keep],
               {new[v]: u for v, u in p.u.items()})
    B.true('patch unchanged', int(np.max(p.obj.get_mesh_nodes_matrix())) == len(p.X) and sorted(int(v) for v in p.obj.get_mesh_boundary_nodes_disps()) == sorted(p.u))


@case('C34', params=[('corner', dict(et='SQUAD4', ne=(2, 2), rm=(4,))), ('edge_pair', dict(et='SQUAD4', ne=(4, 2), rm=(6, 7))), ('mid_side', dict(et='SQUAD8', ne=(3, 3), rm=(2,))),
                     ('hexa', dict(et='SHEXA8', ne=(2, 2, 2), rm=(1,)))], ntrials=1)
@scratch
def boundary_kept(B, d, et, ne, rm):
    """Elements whose removal would take a boundary node away cannot be removed."""
    p = Patch(B, et, ne)
    _, sim = simulator(B, kind=kindof(p.nd))
    B.raises('boundary node lost', lambda: sim.generate_input_data_file('job', d, p.obj, {'mesh_elem_material': phases(ne, 1), 'mat_phases_descriptors': {'1': elastic(B, 1)}},
                                                                        remove_elements_labels=list(rm)), RuntimeError)


@case('C34', ntrials=2)
@scratch
def removal_tables(B, d):
    """The renumbering of tables with labels in any order; the given tables stay as they are."""
    M, _ = simulator(B)
    X = {str(v): np.asarray(B.arr(B.vec('x%d' % v, 2))) for v in (1, 2, 3, 4, 5, 6, 7, 8)}
    el = {'1': (1, 2, 4, 3), '2': (3, 4, 6, 5), '3': (5, 6, 8, 7)}
    mp = {'1': 2, '2': 5, '3': 1}
    u = {'8': np.asarray(B.arr(B.vec('u8', 2))), '3': np.asarray(B.arr(B.vec('u3', 2)))}
    keep = (dict(X), dict(el), dict(mp), dict(u))
    f = M.LinksSimulator.remove_mesh_elements
    x2, e2, m2, u2 = f((1,), X, el, mp, node_disps=u)
    B.true('elements', {str(k): tuple(int(i) for i in v) for k, v in e2.items()} == {'1': (1, 2, 4, 3), '2': (3, 4, 6, 5)})
    B.true('phases', {str(k): int(v) for k, v in m2.items()} == {'1': 5, '2': 1})
    B.true('nodes', list(x2) == ['1', '2', '3', '4', '5', '6'] and set(u2) == {'6', '1'})
    for v in range(1, 7):
        B.eq('node %d' % v, x2[str(v)], X[str(v + 2)])
    B.eq('displacement', u2['6'], u['8'])
    B.eq('displacement', u2['1'], u['3'])
    B.true('arguments unchanged', (X, el, mp, u) == keep and all(X[k] is keep[0][k] for k in X))
    B.true('no displacements', f((3,), X, el, mp)[3] is None)
    B.raises('boundary', lambda: f((3,), X, el, mp, boundary_nodes_labels=(7, 1)), RuntimeError)
    B.true('boundary kept', set(f((3,), X, el, mp, boundary_nodes_labels=(1, 2, 5))[1]) == {'1', '2'})


@case('C34', params=[(k + '_' + f, dict(kind=k, form=f)) for k in ('plane_stress', 'plane_strain', 'axisymmetric', 'tridimensional') for f in ('infinitesimal', 'finite')], ntrials=1)
@scratch
def options(B, d, kind, form):
    """Analysis and strain codes, given parameters in place of defaults, and files that are only overwritten on request."""
    et, ne = ('SHEXA8', (1, 1, 1)) if kind == 'tridimensional' else ('SQUAD4', (1, 1))
    p = Patch(B, et, ne)
    _, sim = simulator(B, form=form, kind=kind)
    data = {'mesh_elem_material': phases(ne, 1), 'mat_phases_descriptors': {'1': elastic(B, 1)}}
    a = sim.generate_input_data_file('job', d, p.obj, data)
    first = open(a).read()
    header(B, sections(a), et, [1], form == 'infinitesimal', kind)
    b = sim.generate_input_data_file('job', d, p.obj, data, links_input_params={'title': 'Another title', 'solver': 'OTHER', 'vtk_output': 'ASCII', 'unknown': 'x', 'parallel_solver': 7})
    B.true('a new file', os.path.normpath(a) != os.path.normpath(b) and os.path.isfile(b) and open(a).read() == first and b.endswith('.dat'))
    s = sections(b)
    header(B, s, et, [1], form == 'infinitesimal', kind)
    B.true('parameters', section(B, s, 'TITLE')[2] == ['Another title'] and section(B, s, 'SOLVER')[1] == 'OTHER' and section(B, s, 'PARALLEL_SOLVER')[1] == '7'
           and {t[1] for t in s if t[0] == 'VTK_OUTPUT'} == {'ASCII'})
    s = sections(a)
    B.true('defaults', section(B, s, 'SOLVER')[1] == 'PARDISO' and {t[1] for t in s if t[0] == 'VTK_OUTPUT'} == {'None'})
    c = sim.generate_input_data_file('job', d, p.obj, data, links_input_params={'title': 'Third'}, is_overwrite_file=True)
    B.true('overwritten', os.path.normpath(c) == os.path.normpath(a) and section(B, sections(a), 'TITLE')[2] == ['Third'])
    B.true('node and global results are requested', all(any(t[0] == k for t in sections(a)) for k in ('NODE_DATA_OUTPUT', 'GLOBAL_DATA_OUTPUT')))


@case('C34', ntrials=1)
@scratch
def refused(B, d):
    """Phases without material, unknown models, missing parameters and elements that Links does not have are refused."""
    p = Patch(B, 'SQUAD4', (2, 1))
    _, sim = simulator(B, kind='plane_strain')
    gen = lambda q, ph, m: (lambda: sim.generate_input_data_file('job', d, q.obj, {'mesh_elem_material': np.array(ph), 'mat_phases_descriptors': m}))
    e = elastic(B, 1)
    B.raises('no material', gen(p, [[1], [2]], {'1': e}), RuntimeError)
    B.raises('unknown model', gen(p, [[1], [1]], {'1': dict(e, name='OTHER')}), RuntimeError)
    for k in ('density', 'young', 'poisson'):
        B.raises('without ' + k, gen(p, [[1], [1]], {'1': {a: b for a, b in e.items() if a != k}}), RuntimeError)
    B.raises('element', gen(Patch(B, 'LQUAD9', (1, 1)), [[1]], {'1': e}), RuntimeError)


LAWS = {'VON_MISES': ('density', 'young', 'poisson'), 'DRUCKER_PRAGER': ('density', 'young', 'poisson', 'friction_angle_deg', 'dilatancy_angle_deg'),
        'LOU': ('density', 'young', 'poisson', 'yield_a_init', 'a_hard_slope', 'yield_b_init', 'b_hard_slope', 'yield_c_init', 'c_hard_slope', 'yield_d_init', 'd_hard_slope')}


@case('C34', params=[('%s_%d' % (m, n), dict(model=m, n=n)) for m in LAWS for n in (2, 5)], ntrials=3, rtol=1e-5)
@scratch
def hardening_materials(B, d, model, n):
    """Elastoplastic materials: parameters in order and the hardening curve, sampled evenly from 0 to 2."""
    p = Patch(B, 'SHEXA8', (1, 1, 1))
    _, sim = simulator(B)
    e = {k: B.var(k, pos=True, dist=(0.1, 3.0)) for k in LAWS[model]}
    s0, h = B.var('s0', pos=True, dist=(10.0, 900.0)), B.var('h', pos=True, dist=(1.0, 90.0))
    law = lambda par, x: (par['s0'] + par['h'] * x * x, 2 * par['h'] * x)
    e.update(name=model, n_hard_point=n, hardening_law=law, hardening_parameters={'s0': s0, 'h': h})
    data = {'mesh_elem_material': phases((1, 1, 1), 1), 'mat_phases_descriptors': {'1': e}}
    path = sim.generate_input_data_file('job', d, p.obj, data)
    m = materials(B, sections(path), {1: model})
    w = [t for r in m['1'][1:] for t in r]
    q = len(LAWS[model])
    B.eq('parameters', [val(B, t) for t in w[:q]], [e[k] for k in LAWS[model]], rtol=TOL)
    rest = w[q + 1:] if model == 'DRUCKER_PRAGER' else w[q:]
    B.true('number of points', rest[0] == str(n) and len(rest) == 1 + 2 * n)
    for i in range(n):
        x = 2 * B.rat(i, n - 1)
        B.eq('hardening strain %d' % i, val(B, rest[1 + 2 * i]), x, rtol=1e-5, atol=1e-6)
        B.eq('yield stress %d' % i, val(B, rest[2 + 2 * i]), s0 + h * x * x, rtol=1e-5)
    for k in LAWS[model] + ('n_hard_point', 'hardening_law', 'hardening_parameters'):
        bad = {a: b for a, b in e.items() if a != k}
        B.raises('without ' + k, lambda: sim.generate_input_data_file('job2', d, p.obj, dict(data, mat_phases_descriptors={'1': bad})), RuntimeError)


@case('C34', ntrials=12, sym=False, why='a load history of 100 values of a random polynomial')
@scratch
def loading(B, d):
    """The load factor starts from zero, follows the random polynomial and stays between -1 and 1 (scaled down only when it would not)."""
    p = Patch(B, 'SQUAD4', (1, 1))
    _, sim = simulator(B, kind='plane_strain', flat=False)
    n = B.choice('n', [2, 3, 4, 5])
    c = [B.var('c%d' % i, dist=(-1, 1)) for i in range(5)]
    r = Rng(B, 'load')
    r.randint = lambda *a, **k: n
    r.uniform = lambda low=0.0, high=1.0, size=None: low + (high - low) * (np.array(c[:size]) + 1) / 2
    B.override('numpy:random', r)
    path = sim.generate_input_data_file('job', d, p.obj, {'mesh_elem_material': phases((1, 1), 1), 'mat_phases_descriptors': {'1': elastic(B, 1)}}, is_save_increm_file=True)
    s = section(B, sections(path), 'INCREMENTS')
    k = int(s[1].split()[0])
    w = rows(B, 'increments', s[2], 4)
    B.true('number of increments', len(w) == k)
    f = np.concatenate(([0.0], np.cumsum([float(t[1]) for t in w])))
    B.le('bounds', float(np.max(np.abs(f))), 1 + 1e-6)
    cc = np.array(c[:n])
    cc[0] = 0.0
    ref = np.polyval(np.polyfit(np.linspace(0, 1, n), cc, n - 1), np.linspace(0, 1, k + 1))
    ref = ref / max(1.0, float(np.max(np.abs(ref))))
    B.eq('load factors', f, ref, rtol=1e-5, atol=1e-5)
    t = open(os.path.join(d, 'loading_incrementation.dat')).read()
    B.true('increments file', [ln.split() for ln in t.split('\n') if ln.strip()][1:] == w and t.split()[:2] == ['INCREMENTS', str(k)])


def results_dir(B, d, name, steps, n, m, kind):
    """NODE_DATA / GLOBAL_DATA of a simulation, written in an order that is neither that of the steps nor alphabetical."""
    out = os.path.join(d, name)
    sub = os.path.join(out, kind.upper() + '_DATA')
    os.makedirs(sub)
    V = {}
    for s in sorted(steps, key=lambda s: (s * 7) % 11):
        V[s] = [[B.var('v%d_%d_%d' % (s, i, j), dist=(-5, 5)) for j in range(m)] for i in range(n)]
        plain(os.path.join(sub, '%s_%d.%sdata' % (name, s, kind)), [' '.join(txt(B, v) for v in r) for r in V[s]])
    plain(os.path.join(sub, '%s_summary.txt' % name), ['x'])
    plain(os.path.join(sub, 'other_1.%sdata' % kind), ['1 2'])
    plain(os.path.join(sub, '%s_3.%sdata.bak' % (name, kind)), ['1 2'])
    return out, V


NAMES = ('job', 'ti_6.2(a)', 'a+b', 'spec_12')


@case('C34', params=[('%s_%s' % (nm, '.'.join(map(str, st))), dict(name=nm, st=st)) for nm in NAMES for st in ((1, 2, 10, 9), (0, 5, 11, 100))], ntrials=2)
@scratch
def results(B, d, name, st):
    """Results are those of this simulation, by node, feature and step in time order."""
    _, sim = simulator(B)
    out, V = results_dir(B, d, name, st, 3, 4, 'node')
    _, W = results_dir(B, os.path.join(d, 'g'), name, st, 1, 3, 'global')
    os.rename(os.path.join(d, 'g', name, 'GLOBAL_DATA'), os.path.join(out, 'GLOBAL_DATA'))
    r = sim.read_links_simulation_results(out, ('node_data', 'global_data'))
    B.true('results', set(r) == {'node_data', 'global_data'})
    B.true('shapes', tuple(r['node_data'].shape) == (3, 4, len(st)) and tuple(r['global_data'].shape) == (1, 3, len(st)))
    for k, s in enumerate(sorted(st)):
        B.eq('node data of step %d' % s, r['node_data'][:, :, k], V[s], rtol=1e-9)
        B.eq('global data of step %d' % s, r['global_data'][:, :, k], W[s], rtol=1e-9)
    B.true('only what is asked for', set(sim.read_links_simulation_results(out, ('node_data',))) == {'node_data'})
    B.raises('no results', lambda: sim.read_links_simulation_results(os.path.join(d, 'missing'), ('node_data',)), RuntimeError)


@case('C34', ntrials=2)
@scratch
def single_global(B, d):
    """A single global feature."""
    _, sim = simulator(B)
    out, W = results_dir(B, d, 'job', (2, 1, 3), 1, 1, 'global')
    r = sim.read_links_simulation_results(out, ('global_data',))['global_data']
    B.eq('global data', [r[0, 0, k] for k in range(3)], [W[s][0][0] for s in (1, 2, 3)], rtol=1e-9)


@case('C34', ntrials=1, sym=False, why='a process is started')
@scratch
def run(B, d):
    """A simulation succeeded exactly when its screen file says so."""
    M, _ = simulator(B)
    ok = 'Program L I N K S successfully completed.'
    for tag, lines, want in (('good', ['start', ' ' + ok, 'end'], True), ('bad', ['start', 'Program L I N K S aborted.'], False), ('none', [], False)):
        sh = os.path.join(d, 'links_%s.sh' % tag)
        plain(sh, ['#!/bin/sh', 'o="${1%.dat}"', 'mkdir -p "$o"', 'cat > "$o/$(basename "$o").screen" <<EOT'] + lines + ['EOT'])
        os.chmod(sh, 0o755)
        f = os.path.join(d, tag + '.dat')
        plain(f, ['x'])
        s, out = M.LinksSimulator(sh, 'infinitesimal', 'tridimensional').run_links_simulation(f)
        B.true(tag, s is want and os.path.normpath(out) == os.path.join(d, tag))
    plain(os.path.join(d, 'lost.dat'), ['x'])
    B.raises('no output', lambda: M.LinksSimulator('/bin/true', 'infinitesimal', 'tridimensional').run_links_simulation(os.path.join(d, 'lost.dat')), RuntimeError)


COLS = [0, 3, 4, 5, 6, 7, 8, 15, 16, 17]
HEAD = ['NODE', 'X1', 'X2', 'X3', 'U1', 'U2', 'U3', 'RF1', 'RF2', 'RF3']


def node_output(B, d, name, steps, n):
    out = os.path.join(d, name)
    sub = os.path.join(out, 'NODE_DATA')
    os.makedirs(sub)
    V = {}
    for s in sorted(steps, key=lambda s: (s * 7) % 11):
        V[s] = [[None] + [B.var('v%d_%d_%d' % (s, i, j), dist=(-5, 5)) for j in range(1, 18)] for i in range(n)]
        plain(os.path.join(sub, '%s_%d.nodedata' % (name, s)), [' '.join([str(i + 1)] + [txt(B, v) for v in r[1:]]) for i, r in enumerate(V[s])])
    plain(os.path.join(sub, 'other_1.nodedata'), ['1 2'])
    return out, V


def check_csv(B, path, V, extra=None):
    ln = open(path).read().split()
    B.true('columns', ln[0].split(',')[:10] == HEAD and len(ln) == len(V) + 1)
    for i, r in enumerate(ln[1:]):
        w = r.split(',')
        B.true('node %d' % (i + 1), float(w[0]) == i + 1)
        B.eq('data of node %d' % (i + 1), [val(B, t) for t in w[1:10]], [V[i][c] for c in COLS[1:]], rtol=1e-9)
        if extra is not None:
            B.true('boundary of node %d' % (i + 1), [int(float(t)) for t in w[10:]] == list(extra[i]))


@case('C34', params=[(nm, dict(name=nm)) for nm in NAMES], ntrials=2)
@scratch
def node_csv(B, d, name):
    """Nodal results become one table per step, numbered in time order, replacing those of an earlier call."""
    M = B.mod(U + 'links_nodedata_to_csv')
    st = (1, 2, 10, 9)
    out, V = node_output(B, d, name, st, 3)
    old = os.path.join(out, 'NODE_DATA', 'specimen_history_data')
    os.makedirs(old)
    plain(os.path.join(old, 'job_tstep_99.csv'), ['x'])
    c = M.links_node_output_to_csv(out)
    stem = os.path.splitext(name)[0]
    B.true('files', sorted(os.listdir(c)) == sorted('%s_tstep_%d.csv' % (stem, t) for t in range(4)))
    for t, s in enumerate(sorted(st)):
        check_csv(B, os.path.join(c, '%s_tstep_%d.csv' % (stem, t)), V[s])
    plain(os.path.join(out, 'NODE_DATA', '%s_11.nodedata' % name), ['1 2 3'])
    B.raises('columns', lambda: M.links_node_output_to_csv(out), RuntimeError)
    B.raises('no results', lambda: M.links_node_output_to_csv(os.path.join(d, 'missing')), RuntimeError)


def links_dat(B, d, et, ne, name='job', free=()):
    p = Patch(B, et, ne, sparse=True, free=free)
    _, sim = simulator(B, kind=kindof(p.nd))
    return p, sim.generate_input_data_file(name, d, p.obj, {'mesh_elem_material': phases(ne, 2), 'mat_phases_descriptors': {str(i): elastic(B, i) for i in (1, 2)}})


def check_inp(B, path, p, abq):
    """The mesh read back from an exported file is that of the patch."""
    X, types, conn, db = B.mod(G).get_specimen_mesh_from_inp_file(path, p.nd)[:4]
    for v in sorted(p.X):
        B.eq('coordinates of node %d' % v, X[v - 1], p.X[v], rtol=TOL, atol=1e-8)
    cells = p.cells()
    B.true('elements', {str(k): tuple(int(i) for i in v) for k, v in conn.items()} == {str(i + 1): tuple(n) for i, (c, n) in enumerate(cells)})
    B.true('element type', all(type(types[str(i + 1)]).__name__ == abq for i in range(len(cells))))
    want = [[1 if v in p.u and p.u[v][k] is not None else 0 for k in range(p.nd)] for v in sorted(p.X)]
    B.true('boundary', [[int(db[v, k]) for k in range(p.nd)] for v in range(len(p.X))] == want)


EXPORT = [('SQUAD4', (2, 2), 'FEQuad4', {1: (1,)}), ('SHEXA8', (2, 1, 1), 'FEHexa8', {1: (0, 2)}), ('SHEXA20', (1, 1, 1), 'FEHexa20', {})]


@case('C34', params=[(mid(et, ne), dict(et=et, ne=ne, cls=c, free=f)) for et, ne, c, f in EXPORT], ntrials=2)
@scratch
def exported_mesh(B, d, et, ne, cls, free):
    """The mesh of a simulation, exported and imported as a specimen, is the same mesh with the same prescribed degrees of freedom."""
    p, dat = links_dat(B, d, et, ne, free=free)
    text = open(dat).read()
    inp = B.mod(U + 'links_dat_to_inp').links_dat_to_abaqus_inp(dat)
    B.true('path', os.path.normpath(inp) == os.path.join(d, 'job.inp') and open(dat).read() == text)
    check_inp(B, inp, p, cls)
    bc = {}
    on = False
    for ln in open(inp):
        if ln.strip().lower().startswith('*'):
            on = ln.strip().lower().startswith('*boundary')
        elif on and ln.strip():
            w = [t.strip() for t in ln.split(',')]
            B.true('one degree of freedom', w[1] == w[2])
            bc[(int(w[0]), int(w[1]))] = w[3]
    for v in sorted(p.u):
        for k in range(p.nd):
            if p.u[v][k] is None:
                B.true('free %d %d' % (v, k), (v, k + 1) not in bc)
            else:
                B.eq('displacement %d of node %d' % (k, v), val(B, bc[(v, k + 1)]), p.u[v][k], rtol=TOL, atol=1e-8)
    B.raises('no file', lambda: B.mod(U + 'links_dat_to_inp').links_dat_to_abaqus_inp(os.path.join(d, 'no.dat')), RuntimeError)


@case('C34', params=[(mid(et, ne), dict(et=et, ne=ne, cls=c, free=f)) for et, ne, c, f in EXPORT[1:]], ntrials=2)
@scratch
def reimported_mesh(B, d, et, ne, cls, free):
    """Exported and converted back, the mesh and its prescribed displacements are the same."""
    p, dat = links_dat(B, d, et, ne, free=free)
    inp = B.mod(U + 'links_dat_to_inp').links_dat_to_abaqus_inp(dat)
    B.mod(U + 'links_dat_to_inp').abaqus_inp_to_links_dat(inp, n_dim=3)
    check_mesh(B, sections(os.path.join(d, 'job_links.dat')), [p.X[v] for v in sorted(p.X)], [(1, nodes) for c, nodes in p.cells()],
               {v: u for v, u in p.u.items() if any(x is not None for x in u)})


@case('C34', params=[('%s_%s' % (mid(et, ne), nm), dict(et=et, ne=ne, cls=c, free=f, name=nm)) for (et, ne, c, f), nm in zip(EXPORT, ('ti_6.2(a)', 'job', 'a+b'))], ntrials=2)
@scratch
def specimen_data(B, d, et, ne, cls, free, name):
    """The specimen of a simulation: its mesh, and at each step coordinates, displacements, reactions and which degrees of freedom are prescribed."""
    M = B.mod(U + 'links_data_to_adimu')
    p, dat = links_dat(B, d, et, ne, name=name, free=free)
    n, st = len(p.X), (1, 2, 10)
    out, V = node_output(B, d, name, st, n)
    save = os.path.join(d, 'save')
    os.makedirs(os.path.join(save, 'specimen_history_data'))
    plain(os.path.join(save, 'specimen_history_data', 'job_tstep_9.csv'), ['x'])
    mesh, hist = M.gen_adimu_data_from_links(dat, out, save)
    B.true('paths', os.path.normpath(mesh) == os.path.join(save, name + '.inp') and os.path.normpath(hist) == os.path.join(save, 'specimen_history_data'))
    check_inp(B, mesh, p, cls)
    B.true('files', sorted(os.listdir(hist)) == sorted('%s_tstep_%d.csv' % (name, t) for t in range(3)))
    pre = [[1 if v in p.u and (k >= p.nd or p.u[v][k] is not None) else 0 for k in range(3)] for v in sorted(p.X)]
    for t, s in enumerate(sorted(st)):
        check_csv(B, os.path.join(hist, '%s_tstep_%d.csv' % (name, t)), V[s], pre)
    for a in ((os.path.join(d, 'no.dat'), out, save), (dat, os.path.join(d, 'no'), save), (dat, out, os.path.join(d, 'no'))):
        B.raises('missing', lambda: M.gen_adimu_data_from_links(*a), RuntimeError)


@case('C34', ntrials=3)
@scratch
def updated_boundary(B, d):
    """Setting the prescribed degrees of freedom of existing tables leaves the results as they were."""
    M = B.mod(U + 'links_data_to_adimu')
    V, paths = {}, []
    for t in range(2):
        V[t] = [[None] + [B.var('v%d_%d_%d' % (t, i, j), dist=(-5, 5)) for j in range(1, 10)] for i in range(3)]
        paths.append(os.path.join(d, 'job_tstep_%d.csv' % t))
        plain(paths[-1], [','.join(HEAD)] + [','.join([str(i + 1)] + [txt(B, v) for v in r[1:]]) for i, r in enumerate(V[t])])
    code = M.generate_pointwise_sets(3, {'1': {'1': 0.0, '3': 2.0}, '3': {'2': -1.0}})
    B.true('prescribed', [[int(v) for v in r] for r in code] == [[1, 0, 1], [0, 0, 0], [0, 1, 0]])
    M.update_adimu_mesh_hist_data_files_dirichlet(paths, code)
    for t in range(2):
        ln = open(paths[t]).read().split()
        B.true('columns', ln[0].split(',') == HEAD + ['DBC1', 'DBC2', 'DBC3'] and len(ln) == 4)
        for i in range(3):
            w = ln[1 + i].split(',')
            B.true('boundary', [int(float(x)) for x in w[10:]] == [int(v) for v in code[i]])
            B.eq('data', [val(B, x) for x in w[:10]], [i + 1] + V[t][i][1:], rtol=1e-9)


@case('C34', params=[('%s_%d' % (s, i), dict(spec=s, i=i)) for s in ('3d_tensile_double_notched', '3d_tensile_dogbone') for i in range(12)], ntrials=6)
def symmetric_tension(B, spec, i):
    """A tensile specimen: the planes x=0, y=0, z=0 are planes of symmetry, the top moves by the given displacement along y, all else is free."""
    M = B.mod(U + 'links_specimen_dirichlet')
    top, u = B.var('top', pos=True, dist=(1.0, 50.0)), B.var('u', dist=(-5, 5))
    B.assume(top > B.rat(1, 1000))
    x0, y, z0 = i % 2, (i // 2) % 3, i // 6
    far = lambda n: B.var(n, pos=True, dist=(0.01, 0.9))
    c = []
    x, z, yy = far('x'), far('z'), far('y')
    for v in (x, z, yy):
        B.assume(v > B.rat(1, 1000))
        B.assume(v < 1 - B.rat(1, 1000))
    near = lambda n: B.var(n, dist=(-1e-9, 1e-9))
    e = [near('e%d' % k) for k in range(3)]
    for v in e:
        B.assume(v < B.rat(1, 10 ** 9))
        B.assume(v > -B.rat(1, 10 ** 9))
    co = [e[0] if x0 else x, (yy * top, e[1], top + e[1])[y], e[2] if z0 else z]
    if y == 0:
        B.assume(yy * top > B.rat(1, 10 ** 6))
        B.assume(top - yy * top > B.rat(1, 10 ** 6))
    code, disp = M.get_specimen_node_dbc(spec, top, u, np.array(co, dtype=object if B.sym else float))
    B.true('prescribed', [int(v) for v in code] == [x0, 1 if y else 0, z0])
    B.eq('displacements', disp, [0, u if y == 2 else 0, 0])
    B.raises('unknown specimen', lambda: M.get_specimen_node_dbc('other', top, u, np.array(co, dtype=object if B.sym else float)), RuntimeError)


@case('C34', params=[('pull', dict(sign=1)), ('push', dict(sign=-1))], ntrials=3)
@scratch
def tension_file(B, d, sign):
    """The written boundary conditions are those of the nodes; the reaction group are the nodes that are moved."""
    M = B.mod(U + 'links_specimen_dirichlet')
    u = B.var('u', pos=True, dist=(0.5, 9.0))
    B.assume(u > B.rat(1, 100))
    u = sign * u
    X = [(0, 0, 0), (1, 0, 0), (1, 2, 0), (1, 1, 1), (0, 2, 1), (1, 1, 0), (1, 2, 1), (0, 2, 0)]
    a = M.build_specimen_dbc('3d_tensile_dogbone', B.num(2), u, np.array(X, dtype=float))
    want = [(i + 1, (int(x == 0), int(y in (0, 2)), int(z == 0)), y == 2) for i, (x, y, z) in enumerate(X) if x == 0 or y in (0, 2) or z == 0]
    B.true('nodes', [int(r[0]) for r in a] == [w[0] for w in want] and [tuple(int(v) for v in r[1:4]) for r in a] == [w[1] for w in want])
    B.eq('displacements', [list(r[4:7]) for r in a], [[0, u if w[2] else 0, 0] for w in want])
    M.write_links_dirichlet_bc_file(d, a, is_reaction_group=True)
    s = sections(os.path.join(d, 'specimen_dirichlet_bc.dat'))
    t = section(B, s, 'NODES_WITH_PRESCRIBED_DISPLACEMENTS')
    r = rows(B, 'displacements', t[2], 5)
    B.true('number of nodes', t[1] == str(len(want)) and len(r) == len(want))
    for w, q in zip(r, want):
        B.true('node %d' % q[0], w[0] == str(q[0]) and w[1] == ''.join(map(str, q[1])))
        B.eq('displacement of node %d' % q[0], [val(B, x) for x in w[2:]], [0, u if q[2] else 0, 0], rtol=1e-4)
    g = section(B, s, 'NODE_GROUPS')
    moved = [str(q[0]) for q in want if q[2]]
    B.true('reaction group', g[1] == '1' and g[2] and g[2][0].split() == ['1', str(len(moved))] and [w.strip() for w in g[2][1:]] == moved)
    M.write_links_dirichlet_bc_file(d, a, is_reaction_group=False)
    B.true('no group', not [q for q in sections(os.path.join(d, 'specimen_dirichlet_bc.dat')) if q[0] == 'NODE_GROUPS'])


@case('C34', ntrials=2)
@scratch
def mesh_coordinates(B, d):
    """The coordinates of a simulation file."""
    p, dat = links_dat(B, d, 'SHEXA8', (2, 1, 1))
    X = B.mod(U + 'links_specimen_dirichlet').read_links_nodes_coords_mesh(dat)
    B.eq('coordinates', X, [p.X[v] for v in sorted(p.X)], rtol=TOL, atol=1e-8)


@case('C34', ntrials=3, sym=False, why='table conversion of pandas')
@scratch
def gauss_point(B, d):
    """The response path of an integration point: tensorial strain, stress and time, step by step."""
    M = B.mod(U + 'links_out_to_dataset')
    n, m = 4, 60
    V = [[B.var('v%d_%d' % (i, j), dist=(-5, 5)) for j in range(m)] for i in range(n)]
    paths = []
    for q in range(2):
        paths.append(os.path.join(d, 'gp%d.out' % q))
        plain(paths[-1], ['Gauss point data', ' '.join('C%d' % j for j in range(m))] + [' '.join(txt(B, v + q) for v in r) for r in V])
    r = M.extract_sample_path(paths[0], 3)
    order = ('11', '22', '33', '12', '23', '13')
    B.true('components', tuple(r['strain_comps_order']) == order and tuple(r['stress_comps_order']) == order)
    tol = 1e-5
    B.eq('time', r['time_hist'], [[w[0]] for w in V], rtol=tol, atol=tol)
    B.eq('stress', r['stress_path'], [w[11:17] for w in V], rtol=tol, atol=tol)
    B.eq('strain', r['strain_path'], [[w[53 + k] / (2 if k > 2 else 1) for k in range(6)] for w in V], rtol=tol, atol=tol)
    ds = M.build_dataset(paths, 3)
    B.true('samples', len(ds) == 2)
    for q in range(2):
        B.eq('sample %d' % q, ds[q]['stress_path'], [[v + q for v in w[11:17]] for w in V], rtol=tol, atol=tol)
    B.raises('no file', lambda: M.extract_sample_path(os.path.join(d, 'no.out'), 3), RuntimeError)
