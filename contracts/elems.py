"""Element table shared by the element contracts (node numbering of the documentation)."""
P = 'simulators.fetorch.element.type.'
# name -> (module, class, dim, node coordinates, admissible rules {n: design degree}, domain)
T3 = [(0, 0), (1, 0), (0, 1)]
Q4 = [(-1, -1), (1, -1), (1, 1), (-1, 1)]
H8 = [(-1, -1, -1), (1, -1, -1), (1, 1, -1), (-1, 1, -1), (-1, -1, 1), (1, -1, 1), (1, 1, 1), (-1, 1, 1)]
X4 = [(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)]
h = .5
ELEMS = {
    'tri3': ('tri3', 'FETri3', 2, T3, (1,), 'triangular'),
    'tri6': ('tri6', 'FETri6', 2, T3 + [(h, 0), (h, h), (0, h)], (1, 3), 'triangular'),
    'quad4': ('quad4', 'FEQuad4', 2, Q4, (1, 4), 'quadrilateral'),
    'quad8': ('quad8', 'FEQuad8', 2, Q4 + [(0, -1), (1, 0), (0, 1), (-1, 0)], (4, 9), 'quadrilateral'),
    'tetra4': ('tetra4', 'FETetra4', 3, X4, (1, 4), 'tetrahedral'),
    'tetra10': ('tetra10', 'FETetra10', 3, X4 + [(h, 0, 0), (h, h, 0), (0, h, 0), (0, 0, h), (h, 0, h), (0, h, h)], (4,),
                'tetrahedral'),
    'hexa8': ('hexa8', 'FEHexa8', 3, H8, (1, 8), 'hexahedral'),
    'hexa20': ('hexa20', 'FEHexa20', 3, H8 + [(0, -1, -1), (1, 0, -1), (0, 1, -1), (-1, 0, -1), (-1, -1, 0), (1, -1, 0),
                                              (1, 1, 0), (-1, 1, 0), (0, -1, 1), (1, 0, 1), (0, 1, 1), (-1, 0, 1)], (8, 27),
               'hexahedral'),
}


def make(B, e, *a, **k):
    m, c = ELEMS[e][:2]
    return getattr(B.mod(P + m), c)(*a, **k)
