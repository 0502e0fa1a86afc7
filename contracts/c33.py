"""C33: random material patches: mesh, deformed boundary and prescribed displacements."""
import itertools
import math
import numpy as np
from contracts.c24 import Rng
from vf.engine import case
FUNCTIONS = ['FiniteElementPatchGenerator.__init__', 'FiniteElementPatchGenerator.generate_deformed_patch',
             'FiniteElementPatchGenerator._build_corners_bc', 'FiniteElementPatchGenerator._build_corners_disp_range',
             'FiniteElementPatchGenerator._build_edges_poly_orders', 'FiniteElementPatchGenerator._build_edges_disp_range',
             'FiniteElementPatchGenerator._set_corners_attributes', 'FiniteElementPatchGenerator._set_corners_coords_ref',
             'FiniteElementPatchGenerator._set_edges_attributes', 'FiniteElementPatchGenerator._get_matching_edges_idxs',
             'FiniteElementPatchGenerator._get_n_edge_nodes_per_dim', 'FiniteElementPatchGenerator._get_corners_random_displacements',
             'FiniteElementPatchGenerator._get_deformed_boundary_edge (bounded)', 'FiniteElementPatchGenerator._polynomial_sampler',
             'FiniteElementPatchGenerator._get_random_rigid_motions', 'FiniteElementPatchGenerator._get_patch_centroid',
             'FiniteElementPatchGenerator._build_boundary_coords_array', 'FiniteElementPatchGenerator._is_admissible_simulation',
             'FiniteElementPatchGenerator._get_orthogonal_dims', 'FiniteElementPatchGenerator._rotation_tensor_deformed_edge',
             'FiniteElementPatchGenerator._transform_to_edge_local_coordinates', 'FiniteElementPatchGenerator._transform_from_edge_local_coordinates',
             'FiniteElementPatchGenerator._rotate_coords_array', 'FiniteElementPatchGenerator._generate_finite_element_mesh',
             'FiniteElementPatchGenerator._get_elem_node_index', 'FiniteElementPatchGenerator._get_mesh_boundary_nodes_disps',
             'FiniteElementPatchGenerator._get_node_label_from_coords', 'patch_generator.rotation_tensor_from_euler_angles',
             'FiniteElementPatch.__init__', 'FiniteElementPatch getters', 'FiniteElementPatch.get_mesh_connected_nodes',
             'FiniteElementPatch.get_boundary_nodes_labels', 'FiniteElementPatch.get_boundary_edges_nodes_labels',
             'FiniteElementPatch.get_elem_size_dims', 'links FiniteElement (all)', 'patch.rotation_angle_2d (bounded)', 'patch.mean_rotation_angle_2d (bounded)']
ASSUMPTIONS = ['random draws as in C24', 'polygon geometry (shapely): an arbitrary centroid, and arbitrary validity and orientation in the symbolic runs; '
               'the real library in the bounded ones',
               'the curve of a deformed edge (1000 chords) is decided by bounded checks; its contract (first and last node at the corners, anything '
               'between) stands for it where the generation as a whole is proved',
               'element types and numbers of elements are enumerated; patch sizes, ranges, draws and coordinates are arbitrary']
PG = 'data_generation.spdg.patch_generator'
PP = 'data_generation.spdg.patch'
FE = 'simulators.links.discretization.finite_element'
# independent description of the elements: number of nodes per edge and whether interior/face grid positions carry a node
ELEM = {'SQUAD4': (2, 2, False), 'SQUAD8': (2, 3, False), 'SQUAD12': (2, 4, False), 'LQUAD4': (2, 2, True), 'LQUAD9': (2, 3, True),
        'LQUAD16': (2, 4, True), 'SHEXA8': (3, 2, False), 'SHEXA20': (3, 3, False)}
CORNERS = {2: ((0, 0), (1, 0), (1, 1), (0, 1)),
           3: ((0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0), (0, 0, 1), (1, 0, 1), (1, 1, 1), (0, 1, 1))}


def has_node(et, idx):
    """Does the grid position idx of the mesh carry a node?"""
    nd, m, full = ELEM[et]
    inner = sum(1 for i in idx if i % (m - 1))
    return full or inner <= 1


def grid(et, ne):
    nd, m, _ = ELEM[et]
    return tuple(n * (m - 1) + 1 for n in ne)


def labels(et, ne):
    """Grid position -> label: consecutive numbers from 1, first dimension running fastest."""
    r, k = {}, 0
    for rev in itertools.product(*[range(n) for n in reversed(grid(et, ne))]):
        idx = tuple(reversed(rev))
        if has_node(et, idx):
            k += 1
            r[idx] = k
    return r


def on_boundary(idx, g):
    return any(i in (0, n - 1) for i, n in zip(idx, g))


def on_edge(idx, g):
    return sum(1 for i, n in zip(idx, g) if i in (0, n - 1)) >= len(g) - 1


class Shapely:
    """Stands for shapely.geometry: any centroid, any answer on validity and orientation."""

    def __init__(self, B, valid=True, ccw=True, n=2):
        me = self
        me.geometry = me
        me.polygons = []

        class Polygon:
            def __init__(s, coords):
                me.polygons.append(np.array(coords, dtype=object))
                s.exterior = s.centroid = s
                s.coords = [[B.var('centroid0'), B.var('centroid1')]]
                s.is_valid = valid() if callable(valid) else valid
                s.is_ccw = ccw() if callable(ccw) else ccw
        me.Polygon = Polygon


def generator(B, nd, dims, tag='free'):
    M = B.mod(PG)
    B.mod(PP), B.mod(FE)
    B.override('numpy:random', Rng(B, tag))
    return M, M.FiniteElementPatchGenerator(nd, dims)


def method(B, obj, name):
    """A method with its own contract; the case does not apply to code that has no such method."""
    f = getattr(obj, name, None)
    if f is None:
        B.absent()
    return f


def sizes(B, nd):
    d = tuple(B.var('L%d' % i, pos=True, dist=(0.5, 3.0)) for i in range(nd))
    for v in d:
        B.assume(v > B.rat(1, 10))
        B.assume(v < 100)
    return d


MESHES = [('SQUAD4', (1, 1)), ('SQUAD4', (3, 2)), ('SQUAD8', (2, 2)), ('SQUAD8', (1, 3)), ('SQUAD12', (2, 1)), ('LQUAD4', (2, 3)), ('LQUAD9', (2, 1)),
          ('LQUAD16', (1, 2)), ('SHEXA8', (1, 1, 1)), ('SHEXA8', (2, 1, 3)), ('SHEXA20', (1, 1, 1)), ('SHEXA20', (2, 1, 2))]
mid = lambda et, ne: '%s:%s' % (et, 'x'.join(map(str, ne)))


@case('C33', params=[(mid(*m), dict(et=m[0], ne=m[1])) for m in MESHES], ntrials=3)
def mesh(B, et, ne):
    """Nodes exist exactly where an element has them, are numbered from 1 and equally spaced."""
    nd = len(ne)
    dims = sizes(B, nd)
    _, g = generator(B, nd, dims)
    mat, coords = method(B, g, '_generate_finite_element_mesh')(et, ne)
    gr, lab = grid(et, ne), labels(et, ne)
    B.true('shape of the mesh', tuple(mat.shape) == gr)
    B.true('labels', {idx: int(mat[idx]) for idx in np.ndindex(*gr) if int(mat[idx])} == lab)
    B.true('one coordinate per node', set(coords) == {str(v) for v in lab.values()})
    for idx, v in lab.items():
        for k in range(nd):
            B.eq('coordinate%d of node%d' % (k, v), coords[str(v)][k], dims[k] * B.rat(idx[k], gr[k] - 1))


@case('C33', params=[(et, dict(et=et)) for et in ELEM], ntrials=1)
def elements(B, et):
    """The reference elements: node labels are unique, and each is found where it lies."""
    nd, m, full = ELEM[et]
    e = B.mod(FE).FiniteElement(et)
    mat = e.get_nodes_matrix()
    B.true('dimensions', e.get_n_dim() == nd and e.get_n_edge_nodes() == m and tuple(mat.shape) == (m,) * nd)
    pos = {idx: int(mat[idx]) for idx in np.ndindex(*mat.shape) if int(mat[idx])}
    B.true('positions', set(pos) == {idx for idx in np.ndindex(*mat.shape) if has_node(et, idx)})
    B.true('numbering', sorted(pos.values()) == list(range(1, e.get_n_nodes() + 1)))
    for idx, v in sorted(pos.items()):
        B.true('index of node%d' % v, tuple(e.get_node_label_index(v)) == idx)
    mat[...] = 0
    B.true('returned matrix is a copy', int(e.get_nodes_matrix().max()) == len(pos))
    B.raises('unknown node', lambda: e.get_node_label_index(len(pos) + 1), RuntimeError)
    B.raises('unknown element', lambda: B.mod(FE).FiniteElement('QUAD5'), RuntimeError)


def ranges(B, nd, spec):
    """Displacement ranges of the corners in spec: 'r' any range, 'z' a range enclosing zero, '0' null."""
    r = {}
    for l, s in spec.items():
        row = []
        for k, c in enumerate(s):
            if c == '0':
                row.append((B.num(0), B.num(0)))
                continue
            lo, w = B.var('lo%s%d' % (l, k), dist=(-0.1, 0.1)), B.var('w%s%d' % (l, k), nonneg=True, dist=(0.0, 0.1))
            if c == 'z':
                lo = -B.absv(lo)
                row.append((lo, w))
            else:
                row.append((lo, lo + w))
        r[l] = tuple(row)
    return r


def orders(nd, zero=None):
    """Polynomial orders by edge label: 2 everywhere, 0 on the given labels."""
    return {str(i + 1): 0 if zero == 'all' or str(i + 1) in (zero or ()) else 2 for i in range(4 if nd == 2 else 24)}


CORN = [('2d', dict(nd=2, spec={str(i): 'rr' for i in range(1, 5)}, bc=None)),
        ('2d:some', dict(nd=2, spec={'2': 'rr', '4': '0r'}, bc=None)),
        ('2d:none', dict(nd=2, spec=None, bc={'1': (1, 0)})),
        ('2d:fixed', dict(nd=2, spec={str(i): 'rr' for i in range(1, 5)}, bc={'1': (1, 1), '2': (0, 1), '3': (0, 0)})),
        ('3d', dict(nd=3, spec={str(i): 'rrr' for i in range(1, 9)}, bc=None)),
        ('3d:fixed', dict(nd=3, spec={str(i): 'rrr' for i in range(1, 9)}, bc={'1': (1, 1, 1), '5': (0, 1, 0), '8': (1, 0, 1)})),
        ('3d:some', dict(nd=3, spec={'7': 'rrr', '3': 'r0r'}, bc={'7': (0, 0, 1)}))]


@case('C33', params=CORN, ntrials=6)
def corners(B, nd, spec, bc):
    """Every corner moves within the range prescribed for its label; fixed and unspecified corners stay."""
    dims = sizes(B, nd)
    _, g = generator(B, nd, dims)
    rg = None if spec is None else ranges(B, nd, spec)
    dr = method(B, g, '_build_corners_disp_range')(corners_lab_disp_range=rg, corners_bc=method(B, g, '_build_corners_bc')(corners_lab_bc=bc))
    eo = method(B, g, '_build_edges_poly_orders')(edges_lab_def_order=orders(nd))
    disp, _ = method(B, g, '_get_corners_random_displacements')(dr, edges_poly_orders=eo)
    disp = np.asarray(B.arr(disp))
    B.true('shape', disp.shape == (len(CORNERS[nd]), nd))
    for i in range(len(CORNERS[nd])):
        l = str(i + 1)
        for k in range(nd):
            lo, hi = (rg or {}).get(l, ((B.num(0),) * 2,) * nd)[k]
            if bc and l in bc and bc[l][k]:
                lo = hi = B.num(0)
            B.le('corner%s lower%d' % (l, k), lo, disp[i, k])
            B.le('corner%s upper%d' % (l, k), disp[i, k], hi)
    if spec is not None and not bc and len(spec) == len(CORNERS[nd]):
        ref = B.arr(g._corners_coords_ref) if hasattr(g, '_corners_coords_ref') else None
        if ref is not None:
            for i, c in enumerate(CORNERS[nd]):
                B.eq('reference corner%d' % (i + 1), ref[i], [dims[k] * c[k] for k in range(nd)])


@case('C33', params=[('2d:all', dict(nd=2, zero='all', kind='z')), ('2d:one', dict(nd=2, zero=('2',), kind='r')), ('2d:fixed', dict(nd=2, zero='all', kind='f')),
                     ('3d:one', dict(nd=3, zero=('5',), kind='z')), ('3d:fixed', dict(nd=3, zero='all', kind='f'))], ntrials=8)
def zero_order(B, nd, zero, kind):
    """Corners of a zero order edge move together across it, within both ranges whenever these intersect; a fixed corner stays."""
    dims = sizes(B, nd)
    _, g = generator(B, nd, dims)
    nc = len(CORNERS[nd])
    spec = {str(i + 1): ('0' * nd if kind == 'f' and i == 0 else ('r' if kind == 'r' else 'z') * nd) for i in range(nc)}
    rg = ranges(B, nd, spec)
    dr = method(B, g, '_build_corners_disp_range')(corners_lab_disp_range=rg, corners_bc=method(B, g, '_build_corners_bc')(corners_lab_bc={'1': (1,) * nd} if kind == 'f' else None))
    eo = method(B, g, '_build_edges_poly_orders')(edges_lab_def_order=orders(nd, zero))
    disp, _ = method(B, g, '_get_corners_random_displacements')(dr, edges_poly_orders=eo)
    disp = np.asarray(B.arr(disp))
    z = [str(i + 1) for i in range(4 if nd == 2 else 24)] if zero == 'all' else zero
    if nd == 2 or zero != 'all':
        for l in z:
            d, j = g._edges_mapping[l]
            a, b = g._edges_per_dim[d][j]
            B.true('edge%s runs along its dimension' % l, [k for k in range(nd) if CORNERS[nd][a][k] != CORNERS[nd][b][k]] == [int(d)] and CORNERS[nd][a][int(d)] == 0)
            for k in range(nd):
                if k != int(d):
                    B.eq('edge%s stays parallel %d' % (l, k), disp[a, k], disp[b, k])
    if kind != 'r':
        for i in range(nc):
            for k in range(nd):
                lo, hi = rg[str(i + 1)][k]
                B.le('corner%d lower%d' % (i + 1, k), lo, disp[i, k])
                B.le('corner%d upper%d' % (i + 1, k), disp[i, k], hi)


EDGES = [(2, d, j) for d in range(2) for j in range(2)] + [(3, d, j) for d in range(3) for j in range(8)]


@case('C33', params=[('%dd:%d:%d' % e, dict(nd=e[0], d=e[1], j=e[2])) for e in EDGES], ntrials=3, sym=False,
      why='norms and cross products of arbitrary edges: polynomial arithmetic beyond the back ends; the two-dimensional frames are proved in plane_edge_frame')
def edge_frame(B, nd, d, j):
    """The frame of a deformed edge is orthonormal, its first axis points along the edge, its second away from the diagonal."""
    dims = sizes(B, nd)
    _, g = generator(B, nd, dims)
    disp = np.asarray(B.arr(B.array('u', (len(CORNERS[nd]), nd)))) * 0.3
    x = np.array([[dims[k] * c[k] for k in range(nd)] for c in CORNERS[nd]]) + disp
    R = np.asarray(B.arr(method(B, g, '_rotation_tensor_deformed_edge')(d, j, x)))
    check_frame(B, R, x, g, nd, d, j)


def check_frame(B, R, x, g, nd, d, j, le=None):
    a, b = g._edges_per_dim[str(d)][j]
    p, q = g._edges_diag_per_dim[str(d)][j]
    e = [x[b, k] - x[a, k] for k in range(nd)]
    f = [x[q, k] - x[p, k] for k in range(nd)]
    if le is None:
        le = B.sqrt(sum(v * v for v in e))
    for k in range(nd):
        B.eq('axis along the edge %d' % k, R[0, k] * le, e[k])
    for m, n in ((0, 0), (1, 1), (0, 1)) if nd == 2 else ((0, 0), (1, 1), (2, 2), (0, 1), (0, 2), (1, 2)):
        B.eq('orthonormal %d%d' % (m, n), sum(R[m, k] * R[n, k] for k in range(3)), B.num(1 if m == n else 0))
    B.le('second axis away from the diagonal', sum(R[1, k] * f[k] for k in range(nd)), B.num(0))


@case('C33', params=[('%d:%d' % e[1:], dict(d=e[1], j=e[2])) for e in EDGES if e[0] == 2], ntrials=4, sym_s=60)
def plane_edge_frame(B, d, j):
    """Every deformed edge of a plane patch (edge and diagonal of any length and direction, in rational parameters of their angles)."""
    _, g = generator(B, 2, (B.num(1), B.num(1)))
    a, b = g._edges_per_dim[str(d)][j]
    p, q = g._edges_diag_per_dim[str(d)][j]
    B.true('the diagonal starts at the edge', p == a and q not in (a, b))
    l, m = B.var('l', pos=True, dist=(0.5, 2)), B.var('m', pos=True, dist=(0.5, 2))
    s, t = B.var('s'), B.var('t')
    sg = B.choice('turned', [1, -1])
    unit = lambda v: ((1 - v * v) / (1 + v * v), 2 * v / (1 + v * v))
    e, f = unit(s), unit(t)
    B.assume(sg * (e[0] * f[1] - e[1] * f[0]) > 0)
    o = [B.var('o%d' % k) for k in range(2)]
    x = np.empty((4, 2), object)
    for i in range(4):
        for k in range(2):
            x[i, k] = o[k] + (l * e[k] if i == b else m * f[k] if i == q else B.num(0) if i == a else B.var('r%d' % k))
    x = x if B.sym else x.astype(float)
    R = np.asarray(B.arr(method(B, g, '_rotation_tensor_deformed_edge')(d, j, x)))
    check_frame(B, R, x, g, 2, d, j, le=l)


@case('C33', params=[('2d', dict(nd=2)), ('3d', dict(nd=3))], ntrials=2)
def outward(B, nd):
    """Reference patch: the second axis of every edge frame points out of the patch; in 3D the two edges of each corner pair bulge out of their two faces."""
    dims = tuple(B.choice('L%d' % k, [1, 2]) * B.num(1) for k in range(nd))
    _, g = generator(B, nd, dims)
    n = len(CORNERS[nd])
    x = np.array([[B.num(c[k]) * dims[k] for k in range(nd)] for c in CORNERS[nd]], dtype=object if B.sym else float)
    seen = {}
    labels_ = set()
    for l, (d, j) in g._edges_mapping.items():
        d = int(d)
        labels_.add((d, j))
        a, b = g._edges_per_dim[str(d)][j]
        B.true('edge%s joins two corners along its dimension' % l, [k for k in range(nd) if CORNERS[nd][a][k] != CORNERS[nd][b][k]] == [d] and CORNERS[nd][a][d] == 0)
        R = np.asarray(B.arr(method(B, g, '_rotation_tensor_deformed_edge')(d, j, x)))
        for k in range(nd):
            B.eq('edge%s along%d' % (l, k), R[0, k], B.num(1 if k == d else 0))
        hit = []
        for k in range(nd):
            if k != d:
                v = R[1, k]
                s = 1 if CORNERS[nd][a][k] else -1
                one = B.decide(v * s > B.rat(1, 2))
                if one:
                    hit.append(k)
                B.eq('edge%s outward%d' % (l, k), v, B.num(s if one else 0))
        B.true('edge%s has one outward direction' % l, len(hit) == 1)
        seen.setdefault((a, b), []).append(hit[0] if hit else None)
    B.true('labels cover the edges', len(labels_) == (4 if nd == 2 else 24))
    B.true('number of distinct edges', len(seen) == (4 if nd == 2 else 12))
    B.true('one edge per adjacent face', all(len(v) == len(set(v)) == nd - 1 for v in seen.values()))


@case('C33', ntrials=6)
def euler_angles(B):
    """The rotation tensor of Bunge Euler angles (degrees) is Rz Rx Rz."""
    M, _ = generator(B, 2, (B.num(1), B.num(1)))
    a = [B.var('a%d' % i, dist=(-180, 180)) for i in range(3)]
    r = np.asarray(B.arr(M.rotation_tensor_from_euler_angles(tuple(a))))
    t = [v * B.pi / 180 for v in a]
    c, s = [B.fn('cos', v) for v in t], [B.fn('sin', v) for v in t]
    rz = lambda i: [[c[i], -s[i], 0], [s[i], c[i], 0], [0, 0, 1]]
    rx = [[1, 0, 0], [0, c[1], -s[1]], [0, s[1], c[1]]]
    mul = lambda p, q: [[sum(p[i][k] * q[k][j] for k in range(3)) for j in range(3)] for i in range(3)]
    w = mul(mul(rz(0), rx), rz(2))
    for i in range(3):
        for j in range(3):
            B.eq('R%d%d' % (i, j), r[i, j], w[i][j])


@case('C33', params=[(str(o), dict(order=o)) for o in (0, 1, 2, 3)], ntrials=4)
def edge_polynomial(B, order):
    """The polynomial of an edge passes through its corners, and through interior points within the bounds."""
    M, g = generator(B, 2, (B.num(1), B.num(1)))
    x0, dx = (B.num(0) if order > 1 else B.var('x0', dist=(-1, 1))), B.var('dx', pos=True, dist=(0.5, 2))
    y0, y1 = B.var('y0', dist=(-1, 1)), B.var('y1', dist=(-1, 1))
    lo, w = B.var('lo', dist=(-1, 1)), B.var('w', nonneg=True)
    left, right = np.array([x0, y0], dtype=object if B.sym else float), np.array([x0 + dx, y1], dtype=object if B.sym else float)
    c = method(B, g, '_polynomial_sampler')(order, left, right, lower_bound=lo, upper_bound=lo + w)
    n = max(2, order + 1)
    B.true('number of coefficients', len(c) == n)
    p = lambda x: sum(c[i] * x ** i for i in range(n))
    B.eq('left corner', p(x0), y0)
    B.eq('right corner', p(x0 + dx), y1)
    for i in range(1, n - 1):
        v = p(x0 + dx * B.rat(i, n - 1))
        B.le('lower bound%d' % i, lo, v)
        B.le('upper bound%d' % i, v, lo + w)


@case('C33', params=[('%dd:%s' % (nd, k), dict(nd=nd, kind=k)) for nd in (2, 3) for k in ('none', 'all', 'some')], ntrials=4)
def rigid_motions(B, nd, kind):
    """Translations and angles are drawn within their ranges; what is not specified is zero, what is not requested is absent."""
    M, g = generator(B, nd, (B.num(1),) * nd)
    tr = ra = None
    tk = [str(k + 1) for k in range(nd)]
    ak = ['alpha', 'beta', 'gamma']
    if kind != 'none':
        def rg(n):
            lo, w = B.var('lo' + n, dist=(-2, 2)), B.var('w' + n, nonneg=True)
            return (lo, lo + w)
        tr = {k: rg('t' + k) for k in (tk if kind == 'all' else tk[1:])}
        ra = {k: (lambda v: (v, v))(B.var(k, dist=(-90, 90))) for k in (ak if kind == 'all' else ak[:1])}
    t, r = method(B, g, '_get_random_rigid_motions')(tr, ra)
    if kind == 'none':
        B.true('no motion', t is None and r is None)
        return
    t, r = np.asarray(B.arr(t)), np.asarray(B.arr(r))
    B.true('shapes', t.shape == (nd,) and r.shape == (nd, nd))
    for k in range(nd):
        lo, hi = tr.get(str(k + 1), (B.num(0), B.num(0)))
        B.le('translation lower%d' % k, lo, t[k])
        B.le('translation upper%d' % k, t[k], hi)
    ang = tuple(ra[a][0] if a in ra and (nd == 3 or a == 'alpha') else B.num(0) for a in ak)
    w = np.asarray(B.arr(M.rotation_tensor_from_euler_angles(ang)))
    for i in range(nd):
        for j in range(nd):
            B.eq('rotation%d%d' % (i, j), r[i, j], w[i, j])


BND = [('SQUAD4', (1, 1)), ('SQUAD4', (2, 3)), ('SQUAD8', (2, 1)), ('LQUAD9', (1, 2)), ('SQUAD12', (1, 1)), ('SHEXA8', (1, 1, 1)), ('SHEXA8', (2, 2, 3)), ('SHEXA20', (1, 1, 1)),
       ('SHEXA20', (2, 1, 1))]


@case('C33', params=[('%s:%s' % (mid(*m), k), dict(et=m[0], ne=m[1], kind=k)) for m in BND for k in ('any', 'affine')], ntrials=2, sym_s=60)
def boundary_displacements(B, et, ne, kind):
    """Exactly the boundary nodes are prescribed: edge nodes by (the mean of) the deformed edges, face nodes by interpolation between opposite edges."""
    nd = len(ne)
    dims = (1, 2, 3)[:nd]
    _, g = generator(B, nd, tuple(B.num(v) for v in dims))
    gr, lab = grid(et, ne), labels(et, ne)
    mat, coords = method(B, g, '_generate_finite_element_mesh')(et, ne)
    ref, dfm, want = {}, {}, {}
    if kind == 'affine':
        A, b0 = B.array('A', (nd, nd)), B.vec('b', nd)
        A, b0 = B.arr(A), B.arr(b0)
        aff = lambda X: [b0[i] + sum(A[i, k] * X[k] for k in range(nd)) for i in range(nd)]
    corner = {}
    for d in range(nd):
        ref[str(d)], dfm[str(d)] = [], []
        for j, (a, b) in enumerate(g._edges_per_dim[str(d)]):
            n = gr[d]
            X = np.empty((n, nd), object)
            Y = np.empty((n, nd), object)
            for t in range(n):
                idx = tuple((gr[k] - 1) * CORNERS[nd][a][k] if k != d else t for k in range(nd))
                for k in range(nd):
                    X[t, k] = B.num(dims[k]) * B.rat(idx[k], gr[k] - 1)
                if kind == 'affine':
                    u = aff(X[t])
                elif t in (0, n - 1):
                    if idx not in corner:
                        corner[idx] = B.arr(B.vec('c%s' % ''.join(map(str, idx)), nd))
                    u = corner[idx]
                else:
                    u = B.arr(B.vec('u%d_%d_%d' % (d, j, t), nd))
                for k in range(nd):
                    Y[t, k] = X[t, k] + u[k]
                want.setdefault(idx, []).append(u)
            ref[str(d)].append(X if B.sym else X.astype(float))
            dfm[str(d)].append(Y if B.sym else Y.astype(float))
    got = method(B, g, '_get_mesh_boundary_nodes_disps')(ref, dfm, mat, coords)
    B.true('exactly the boundary nodes', set(got) == {str(v) for idx, v in lab.items() if on_boundary(idx, gr)})
    val = {}
    for idx, us in want.items():
        val[idx] = [sum(u[k] for u in us) / len(us) for k in range(nd)]
        for k in range(nd):
            B.eq('edge node %s %d' % (idx, k), got[str(lab[idx])][k], val[idx][k])
    for idx, v in lab.items():
        if on_boundary(idx, gr) and idx not in val:
            free = [k for k in range(nd) if idx[k] not in (0, gr[k] - 1)]
            for k in range(nd):
                if kind == 'affine':
                    w = aff([B.num(dims[m]) * B.rat(idx[m], gr[m] - 1) for m in range(nd)])[k]
                else:
                    w = 0
                    for f in free:
                        p, q = list(idx), list(idx)
                        p[f], q[f] = 0, gr[f] - 1
                        r = B.rat(idx[f], gr[f] - 1)
                        w = w + ((1 - r) * val[tuple(p)][k] + r * val[tuple(q)][k]) / 2
                B.eq('face node %s %d' % (idx, k), got[str(v)][k], w)


def wrap_edge(B, M, rec, contract):
    """Records the deformed edges: of the real code, or of its contract (first and last node at the corners, anything between)."""
    G = M.FiniteElementPatchGenerator
    real = G.__dict__.get('_get_deformed_boundary_edge')
    if real is None:
        B.absent()

    def edge(self, nodes_coords_ref, left_node_def, right_node_def, poly_order, poly_bounds_range=None, noise=0.0, is_plot=False):
        if not contract:
            out = real(self, nodes_coords_ref, left_node_def, right_node_def, poly_order, poly_bounds_range=poly_bounds_range, noise=noise, is_plot=is_plot)
        else:
            n = nodes_coords_ref.shape[0]
            y = np.empty((n, 2), object)
            for t in range(1, n - 1):
                for k in range(2):
                    y[t, k] = left_node_def[k] + (right_node_def[k] - left_node_def[k]) * B.rat(t, n - 1) + B.var('edge%d_%d_%d' % (len(rec), t, k), dist=(-0.02, 0.02))
            for k in range(2):
                y[0, k], y[-1, k] = left_node_def[k], right_node_def[k]
            y = y if B.sym else y.astype(float)
            out = (y, y - nodes_coords_ref)
        rec.append((np.array(out[0], dtype=object), np.array(right_node_def, dtype=object), poly_order, poly_bounds_range, noise))
        return out
    B.patch(G, '_get_deformed_boundary_edge', edge)


GEN = [('SQUAD4', (1, 1)), ('SQUAD4', (2, 1)), ('LQUAD9', (1, 1)), ('SHEXA8', (1, 1, 1)), ('SHEXA8', (2, 1, 1)), ('SHEXA20', (1, 1, 1))]


@case('C33', params=[('%s:%s' % (mid(*m), k), dict(et=m[0], ne=m[1], kind=k)) for m in GEN for k in ('none', 'rigid')], ntrials=4, rtol=1e-6, sym=False,
      why='arbitrary corner displacements: see edge_frame; boxes are proved in generated_box')
def generated(B, et, ne, kind):
    any_patch(B, et, ne, kind, False)


@case('C33', params=[('%s:%s' % (mid(*m), k), dict(et=m[0], ne=m[1], kind=k)) for m in GEN for k in ('none', 'rigid')], ntrials=2, sym_s=60, rtol=1e-6)
def generated_box(B, et, ne, kind):
    any_patch(B, et, ne, kind, True)


def any_patch(B, et, ne, kind, box):
    """A generated patch prescribes, on every corner, the drawn displacement followed by the rigid motion, and on edge nodes the deformed edge in its frame."""
    nd = len(ne)
    M = B.mod(PG)
    rec = []
    dims = tuple(B.num(v) for v in (1, 2, 3)[:nd])
    wrap_edge(B, M, rec, box)
    _, g = generator(B, nd, dims)
    sh = Shapely(B) if B.sym else None
    if B.sym:
        B.override(PG + ':shapely', sh)
        box_frames(B, M, nd)
    nc = len(CORNERS[nd])
    if box:
        # box to box: each face plane moves by its own amount, not across the opposite one
        v = [[B.var('u%d%d' % (k, s), dist=(-0.1, 0.1)) for s in range(2)] for k in range(nd)]
        for k in range(nd):
            B.assume(dims[k] + v[k][1] - v[k][0] > B.rat(1, 10))
        u = np.array([[v[k][c[k]] for k in range(nd)] for c in CORNERS[nd]], dtype=object if B.sym else float)
    else:
        u = np.asarray(B.arr(B.array('u', (nc, nd)))) * 0.05
    rg = {str(i + 1): tuple((u[i, k], u[i, k]) for k in range(nd)) for i in range(nc)}
    kw = {}
    gr, lab = grid(et, ne), labels(et, ne)
    if kind == 'rigid':
        t = B.arr(B.vec('t', nd))
        al = B.var('alpha', dist=(-40, 40))
        be = B.var('beta', dist=(-40, 40)) if nd == 3 else B.num(0)
        ga = B.var('gamma', dist=(-40, 40)) if nd == 3 else B.num(0)
        kw = dict(translation_range={str(k + 1): (t[k], t[k]) for k in range(nd)},
                  rotation_angles_range=dict(alpha=(al, al), beta=(be, be), gamma=(ga, ga)))
    ok, patch = g.generate_deformed_patch(et, ne, corners_lab_disp_range=rg, edges_lab_def_order=2,
                                          edges_lab_disp_range={str(i + 1): (B.rat(-1, 50), B.rat(1, 50)) for i in range(4 if nd == 2 else 24)}, **kw)
    if not B.sym and not ok:
        B.skip()
    B.true('admissible patch', bool(ok) and patch is not None)
    got = patch.get_mesh_boundary_nodes_disps()
    B.true('exactly the boundary nodes', set(got) == {str(v) for idx, v in lab.items() if on_boundary(idx, gr)})
    B.true('attributes', patch.get_n_dim() == nd and patch.get_elem_type() == et and tuple(patch.get_n_elems_per_dim()) == ne and tuple(patch.get_n_edge_nodes_per_dim()) == gr)
    X = {v: [dims[k] * B.rat(idx[k], gr[k] - 1) for k in range(nd)] for idx, v in lab.items()}
    co = patch.get_mesh_nodes_coords_ref()
    for v in X:
        for k in range(nd):
            B.eq('coordinate%d of node%d' % (k, v), co[str(v)][k], X[v][k])
    C = [[dims[k] * CORNERS[nd][i][k] + u[i, k] for k in range(nd)] for i in range(nc)]
    if kind == 'rigid':
        R = np.asarray(B.arr(M.rotation_tensor_from_euler_angles((al, be, ga))))
        if nd == 3:
            ce = [sum(C[i][k] for i in range(nc)) / nc for k in range(nd)]
        elif B.sym:
            ce = [B.var('centroid0'), B.var('centroid1')]
        else:
            ce = None
    for i, c in enumerate(CORNERS[nd]):
        v = lab[tuple((gr[k] - 1) * c[k] for k in range(nd))]
        for k in range(nd):
            if kind != 'rigid':
                B.eq('corner%d %d' % (i + 1, k), got[str(v)][k], u[i, k])
            elif ce is not None:
                w = ce[k] + sum(R[k, m] * (C[i][m] - ce[m]) for m in range(nd)) + t[k]
                B.eq('corner%d %d' % (i + 1, k), got[str(v)][k], w - X[v][k])
    if kind == 'none' and len(rec) == (4 if nd == 2 else 24):
        # deformed edges, in the order of the generation (by dimension, then by edge)
        at, n = {}, 0
        for d in range(nd):
            for j, (a, b) in enumerate(g._edges_per_dim[str(d)]):
                y = rec[n][0]
                n += 1
                F = frame_of(B, g, d, j, C, nd)
                for s in range(1, gr[d] - 1):
                    idx = tuple((gr[k] - 1) * CORNERS[nd][a][k] if k != d else s for k in range(nd))
                    at.setdefault(idx, []).append([C[a][k] + F[0][k] * y[s, 0] + F[1][k] * y[s, 1] for k in range(nd)])
        for idx, ps in at.items():
            for k in range(nd):
                B.eq('edge node %s %d' % (idx, k), got[str(lab[idx])][k], sum(p[k] for p in ps) / len(ps) - X[lab[idx]][k])


def box_frames(B, M, nd):
    """Contract of the frame of an edge (edge_frame, plane_edge_frame) for a box: along the edge, away from the diagonal, normal to both."""
    G = M.FiniteElementPatchGenerator
    if '_rotation_tensor_deformed_edge' not in G.__dict__:
        B.absent()

    def f(self, d, j, x):
        p, q = self._edges_diag_per_dim[str(d)][j]
        e = [int(k == int(d)) for k in range(3)]
        o = [(CORNERS[nd][p][k] - CORNERS[nd][q][k]) * (k != int(d)) if k < nd else 0 for k in range(3)]
        R = np.empty((3, 3), object)
        for i, r in enumerate((e, o, np.cross(e, o) * -1)):
            for k in range(3):
                R[i, k] = B.num(int(r[k]))
        return R
    B.patch(G, '_rotation_tensor_deformed_edge', f)


def frame_of(B, g, d, j, C, nd):
    return np.asarray(B.arr(g._rotation_tensor_deformed_edge(d, j, np.array(C, dtype=object if B.sym else float))))


@case('C33', params=[(mid(*m), dict(et=m[0], ne=m[1])) for m in (('SQUAD4', (1, 1)), ('SQUAD4', (2, 2)), ('LQUAD9', (1, 1)))], ntrials=6)
def admissible(B, et, ne):
    """A plane patch is returned exactly when the closed boundary polygon is valid and counterclockwise, at the latest after the allowed iterations."""
    M = B.mod(PG)
    rec = []
    wrap_edge(B, M, rec, True)
    _, g = generator(B, 2, (B.num(1), B.num(2)))
    n_max = 2
    ans = [(B.choice('valid%d' % i, [True, False]), B.choice('ccw%d' % i, [True, False])) for i in range(n_max)]
    it = []
    sh = Shapely(B, valid=lambda: it.append(1) or ans[(len(it) - 1) // 2][0], ccw=lambda: ans[(len(it) - 1) // 2][1])
    B.override(PG + ':shapely', sh)
    box_frames(B, M, 2)
    ok, patch = g.generate_deformed_patch(et, ne, max_iter=n_max, edges_lab_def_order=2)
    good = [a and b for a, b in ans]
    B.true('admissible', bool(ok) == any(good) and (patch is not None) == any(good))
    if len(it) == 2 * (good.index(True) + 1 if any(good) else n_max):
        # the two polygons of an iteration (centroid, admissibility) run around the deformed boundary
        gr = grid(et, ne)
        for q in sh.polygons:
            B.true('closed ring', q.shape == (2 * (gr[0] + gr[1] - 2) + 1, 2))
        q = sh.polygons[0]
        for k in range(2):
            B.eq('ring is closed %d' % k, q[0, k], q[-1, k])
        pos = 0
        for a, c in enumerate(CORNERS[2]):
            for k in range(2):
                B.eq('corner%d %d' % (a, k), q[pos, k], B.num(c[k] * (1, 2)[k]))
            d = a % 2
            j = [i for i, e in enumerate(g._edges_per_dim[str(d)]) if set(e) == {a, (a + 1) % 4}][0]
            y = rec[2 * d + j][0]
            R = frame_of(B, g, d, j, [[B.num(cc[k] * (1, 2)[k]) for k in range(2)] for cc in CORNERS[2]], 2)
            o = CORNERS[2][g._edges_per_dim[str(d)][j][0]]
            n = gr[d]
            for s in range(1, n - 1):
                t = s if g._edges_per_dim[str(d)][j][0] == a else n - 1 - s
                for k in range(2):
                    B.eq('ring %d %d %d' % (a, s, k), q[pos + s, k], o[k] * (1, 2)[k] + R[0, k] * y[t, 0] + R[1, k] * y[t, 1])
            pos += n - 1


def fit(x, y, deg):
    return np.polyfit(x, y, deg)


@case('C33', params=[('%d:%s' % (o, k), dict(order=o, kind=k)) for o in (0, 1, 2, 3) for k in ('up', 'down', 'noise')], ntrials=4, sym=False,
      why='the curve is sampled in 999 chords')
def deformed_edge(B, order, kind):
    """Ends at the corners, nodes at the arc length fractions of the reference edge on one polynomial of the given order within its bounds; noise spares the ends."""
    _, g = generator(B, 2, (1.0, 1.0))
    f = method(B, g, '_get_deformed_boundary_edge')
    n = B.choice('n', [2, 3, 5, 8])
    L = B.var('L', pos=True, dist=(0.5, 2.0))
    x = np.sort(np.concatenate([[0.0, 1.0], np.asarray(B.arr(B.array('x', (n - 2,)))) % 1.0])) if n > 2 else np.array([0.0, 1.0])
    for i in range(n - 1):
        B.assume(x[i + 1] - x[i] > 0.02)
    ref = np.stack([x * L, 0.3 * x], axis=1)
    if kind == 'down':
        ref = ref[::-1].copy()
    y0, y1 = B.var('y0', dist=(-0.2, 0.2)), B.var('y1', dist=(-0.2, 0.2))
    x0, w = B.var('x0', dist=(-1, 1)), B.var('w', pos=True, dist=(0.5, 2))
    left, right = np.array([x0, y0]), np.array([x0 + w, y1])
    lo, hi = -B.var('lo', nonneg=True, dist=(0, 0.3)), B.var('hi', nonneg=True, dist=(0, 0.3))
    keep = ref.copy()
    out, disp = f(ref, left, right, order, poly_bounds_range=(lo, hi), noise=0.05 if kind == 'noise' else 0.0)
    B.true('shape', out.shape == (n, 2) and disp.shape == (n, 2))
    B.eq('reference unchanged', ref, keep, exact=True)
    for k in range(2):
        B.eq('first node %d' % k, out[0, k], left[k])
        B.eq('last node %d' % k, out[-1, k], right[k])
    B.eq('displacements', disp, out - keep)
    if kind == 'noise':
        return
    r = keep if kind != 'down' else keep[::-1]
    s = np.concatenate([[0.0], np.cumsum(np.linalg.norm(np.diff(r, axis=0), axis=1))])
    s = s / s[-1]
    if order <= 1:
        for i in range(n):
            for k in range(2):
                B.eq('straight edge %d %d' % (i, k), out[i, k], left[k] + (right[k] - left[k]) * s[i], atol=1e-9)
        return
    if order == 2 and n >= 3:
        c = np.polyfit(out[:3, 0] - x0, out[:3, 1], 2)
        for i in range(n):
            B.eq('on the parabola %d' % i, np.polyval(c, out[i, 0] - x0), out[i, 1], atol=1e-6)
        m = np.polyval(c, w / 2)
        B.le('lower bound', (y0 + y1) / 2 + lo, m + 1e-6)
        B.le('upper bound', m - 1e-6, (y0 + y1) / 2 + hi)
        xx = np.linspace(0, w, 20001)
        yy = np.polyval(c, xx)
        al = np.concatenate([[0.0], np.cumsum(np.hypot(np.diff(xx), np.diff(yy)))])
        for i in range(n):
            B.eq('arc length %d' % i, np.interp(out[i, 0] - x0, xx, al) / al[-1], s[i], atol=2e-4)
    B.true('nodes in order', bool(np.all(np.diff(out[:, 0]) > 0)))


@case('C33', params=[('2d:%s' % k, dict(nd=2, kind=k)) for k in ('default', 'free', 'rigid')] + [('3d:%s' % k, dict(nd=3, kind=k)) for k in ('default', 'free', 'rigid')],
      ntrials=4, sym=False, why='the real polygon library and edge curves')
def end_to_end(B, nd, kind):
    """The whole generation with real draws: null ranges give the undeformed patch, a pure rigid motion moves every boundary node rigidly about the centroid, corners stay in range."""
    M = B.mod(PG)
    dims = tuple(float(B.var('L%d' % k, pos=True, dist=(0.5, 3))) for k in range(nd))
    np.random.seed(B.env.seed if isinstance(B.env.seed, int) else abs(hash(str(B.env.seed))) % 2**31)
    g = M.FiniteElementPatchGenerator(nd, dims)
    et, ne = B.choice('mesh', [m for m in MESHES if len(m[1]) == nd])
    gr, lab = grid(et, ne), labels(et, ne)
    kw = {}
    if kind == 'rigid':
        t = [float(B.var('t%d' % k, dist=(-1, 1))) for k in range(nd)]
        a = [float(B.var('a%d' % k, dist=(-80, 80))) for k in range(3)]
        kw = dict(translation_range={str(k + 1): (t[k], t[k]) for k in range(nd)}, rotation_angles_range=dict(zip(('alpha', 'beta', 'gamma'), [(v, v) for v in a])))
    elif kind == 'free':
        kw = dict(corners_lab_bc={'1': (1,) * nd}, corners_lab_disp_range={str(i + 1): ((-0.05, 0.05),) * nd for i in range(2 ** nd)},
                  edges_lab_def_order=B.choice('order', [0, 1, 2, 3]), edges_lab_disp_range={str(i + 1): (-0.02, 0.02) for i in range(4 if nd == 2 else 24)}, max_iter=20)
    ok, patch = g.generate_deformed_patch(et, ne, **kw)
    B.true('admissible', bool(ok))
    got = patch.get_mesh_boundary_nodes_disps()
    B.true('exactly the boundary nodes', set(got) == {str(v) for idx, v in lab.items() if on_boundary(idx, gr)})
    for idx, v in lab.items():
        if not on_boundary(idx, gr):
            continue
        X = np.array([dims[k] * idx[k] / (gr[k] - 1) for k in range(nd)])
        if kind == 'default':
            B.eq('at rest %d' % v, got[str(v)], np.zeros(nd), atol=1e-7)
        elif kind == 'rigid':
            R = np.asarray(M.rotation_tensor_from_euler_angles(tuple(a) if nd == 3 else (a[0], 0.0, 0.0)))[:nd, :nd]
            c = np.array(dims) / 2
            B.eq('rigid motion %d' % v, got[str(v)], c + R @ (X - c) + np.array(t) - X, atol=1e-7)
        elif all(i in (0, n - 1) for i, n in zip(idx, gr)):
            fixed = all(i == 0 for i in idx)
            for k in range(nd):
                B.le('corner %d %d' % (v, k), abs(got[str(v)][k]), (0.0 if fixed else 0.05) + 1e-9)


@case('C33', params=[(mid(*m), dict(et=m[0], ne=m[1])) for m in (('SQUAD4', (2, 2)), ('LQUAD9', (2, 1)), ('SQUAD8', (1, 2)), ('SHEXA8', (2, 2, 2)), ('SHEXA20', (1, 2, 1)))], ntrials=2)
def patch_object(B, et, ne):
    """A patch holds exactly what it was given: boundary nodes, neighbours and sizes are those of its mesh; interior nodes cannot be prescribed."""
    nd = len(ne)
    dims = sizes(B, nd)
    P = B.mod(PP).FiniteElementPatch
    gr, lab = grid(et, ne), labels(et, ne)
    mat = np.zeros(gr, dtype=int)
    for idx, v in lab.items():
        mat[idx] = v
    co = {str(v): np.array([dims[k] * B.rat(idx[k], gr[k] - 1) for k in range(nd)], dtype=object if B.sym else float) for idx, v in lab.items()}
    bn = [v for idx, v in lab.items() if on_boundary(idx, gr)]
    u = {str(v): np.asarray(B.arr(B.vec('u%d' % v, nd))) for v in bn}
    p = P(nd, dims, et, ne, mat, co, u)
    B.true('boundary nodes', sorted(int(v) for v in p.get_boundary_nodes_labels()) == sorted(bn))
    B.true('edge nodes', sorted(int(v) for v in p.get_boundary_edges_nodes_labels() if v) == sorted(v for idx, v in lab.items() if on_boundary(idx, gr) and (nd == 2 or on_edge(idx, gr))))
    B.true('attributes', p.get_n_dim() == nd and p.get_elem_type() == et and tuple(p.get_n_elems_per_dim()) == ne and tuple(p.get_n_edge_nodes_per_dim()) == gr)
    for k in range(nd):
        B.eq('element size %d' % k, p.get_elem_size_dims()[k], dims[k] / ne[k])
    at = p.get_patch_attributes()
    B.true('attribute set', {'n_dim', 'patch_dims', 'elem_type', 'n_elems_per_dim', 'mesh_nodes_matrix', 'mesh_nodes_coords_ref', 'mesh_boundary_nodes_disps', 'n_edge_nodes_per_dim'} <= set(at))
    B.true('mesh', np.array_equal(np.array(p.get_mesh_nodes_matrix(), dtype=int), mat) and set(p.get_mesh_nodes_coords_ref()) == set(co) and set(p.get_mesh_boundary_nodes_disps()) == set(u))
    for v in bn:
        B.eq('displacement %d' % v, p.get_mesh_boundary_nodes_disps()[str(v)], u[str(v)])
        B.eq('coordinates %d' % v, p.get_mesh_nodes_coords_ref()[str(v)], co[str(v)])
    p.get_mesh_boundary_nodes_disps()[str(bn[0])][0] = 7
    p.get_mesh_nodes_matrix()[...] = 0
    B.eq('returned displacements are copies', p.get_mesh_boundary_nodes_disps()[str(bn[0])], u[str(bn[0])])
    B.true('returned mesh is a copy', int(p.get_mesh_nodes_matrix().max()) == len(lab))
    if nd == 2:
        w = set()
        for idx, v in lab.items():
            for s in ((1, 0), (0, 1)):
                o = (idx[0] + s[0], idx[1] + s[1])
                if o in lab:
                    w.add((v, lab[o]))
        got = [tuple(int(q) for q in c) for c in p.get_mesh_connected_nodes()]
        B.true('neighbours', sorted(got) == sorted(w))
    inner = [v for idx, v in lab.items() if not on_boundary(idx, gr)]
    if inner:
        B.raises('interior node prescribed', lambda: P(nd, dims, et, ne, mat, co, dict(u, **{str(inner[0]): u[str(bn[0])]})), RuntimeError)
    B.raises('unknown node prescribed', lambda: P(nd, dims, et, ne, mat, co, dict(u, **{str(len(lab) + 5): u[str(bn[0])]})), RuntimeError)


@case('C33', ntrials=8, sym=False, why='inverse tangent')
def rotation_angle(B):
    """The angle between plane vectors, signed counterclockwise, in degrees."""
    M = B.mod(PP)
    a, th = B.var('a', dist=(-3, 3)), B.var('th', dist=(-179, 179))
    l, m = B.var('l', pos=True, dist=(0.1, 5)), B.var('m', pos=True, dist=(0.1, 5))
    x = l * np.array([math.cos(a), math.sin(a)])
    y = m * np.array([math.cos(a + math.radians(th)), math.sin(a + math.radians(th))])
    B.eq('angle', M.rotation_angle_2d(x, y), th, atol=1e-6)
    B.eq('mean angle', M.mean_rotation_angle_2d(np.stack([x, x, y]), np.stack([y, x, x])), 0.0, atol=1e-6)
    B.eq('mean of two', M.mean_rotation_angle_2d(np.stack([x, x]), np.stack([y, x])), th / 2, atol=1e-6)
    B.raises('shapes', lambda: M.mean_rotation_angle_2d(np.stack([x, x]), np.stack([y])), RuntimeError)
