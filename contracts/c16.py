"""C16: hardening laws."""
from vf.engine import case
H_ = 'simulators.fetorch.material.models.standard.hardening'
FUNCTIONS = ['get_hardening_law', 'LinearIHL.hardening_law', 'NadaiLudwikIHL.hardening_law', 'PiecewiseLinearIHL.hardening_law',
             'PiecewiseLinearIHL._hardening_slope', 'torch_interp']
ASSUMPTIONS = ['piecewise law instantiated for 2 to 4 points with arbitrary ordered abscissae and arbitrary ordinates']


def flat1(B, x):
    a = B.arr(x).reshape(-1)
    B.true('one value', a.shape == (1,))
    return a[0]


def law(B, t):
    return B.mod(H_).get_hardening_law(t)


@case('C16', ntrials=20)
def linear(B):
    s0, a = B.var('s0', pos=True), B.var('a')
    x = B.var('x', nonneg=True)
    p = {'s0': B.tensor(s0), 'a': B.tensor(a)}
    t = B.tensor(x)
    keep = B.frozen('argument', [t])
    y, H = law(B, 'linear')(p, t)
    B.eq('curve', y, s0 + a * x)
    B.eq('slope', H, a)
    keep()
    y0, _ = law(B, 'linear')(p, B.tensor(-x))
    B.eq('negative strain read as zero', y0, s0)


@case('C16', ntrials=30, rtol=1e-6)
def nadai_ludwik(B):
    s0, a = B.var('s0', pos=True), B.var('a', nonneg=True)
    b = B.var('b', pos=True, dist=(0.05, 2.0))
    e0 = B.var('e0', pos=True, dist=(1e-4, 0.5))
    x = B.var('x', nonneg=True)
    p = {'s0': B.tensor(s0), 'a': B.tensor(a), 'b': B.tensor(b), 'ep0': B.tensor(e0)}
    f = law(B, 'nadai_ludwik')
    t = B.tensor(x)
    keep = B.frozen('argument', [t])
    y, H = f(p, t)
    pw = (lambda u, v: u ** v)
    B.eq('curve', y, s0 + a * pw(x + e0, b))
    B.eq('slope', H, a * b * pw(x + e0, b - 1))
    keep()
    y0, H0 = f(p, B.tensor(-x))
    B.eq('negative strain read as zero', y0, s0 + a * pw(e0, b))


@case('C16', params=[('b=%s' % b, dict(b=b)) for b in (1, 2, 3)], ntrials=10)
def nadai_ludwik_derivative(B, b):
    """Slope is the derivative, integer exponents (the general exponent is covered by the closed form above)."""
    s0, a, e0 = B.var('s0', pos=True), B.var('a', nonneg=True), B.var('e0', pos=True, dist=(1e-4, 0.5))
    x = B.var('x', pos=True, dist=(0.1, 2.0))
    p = {'s0': s0, 'a': a, 'b': float(b), 'ep0': e0}
    f = law(B, 'nadai_ludwik')
    y, H = f(p, B.tensor(x))
    d = B.jac(lambda t: f(p, t[0])[0].reshape(-1), [x])
    B.eq('slope is the derivative', H, d[0, 0])


def points(B, n):
    a0 = B.var('a0', nonneg=True, dist=(0.0, 0.3))
    A = [a0]
    for i in range(1, n):
        A.append(A[-1] + B.var('da%d' % i, pos=True, dist=(0.05, 0.5)))
    return A, B.vec('y', n, dist=(1, 5))


@case('C16', params=[('n=%d,segment %d' % (n, s), dict(n=n, s=s)) for n in (2, 3, 4) for s in range(-1, n)], ntrials=12)
def piecewise(B, n, s):
    """Strain in segment s (-1: before the first point, n-1: after the last)."""
    A, Y = points(B, n)
    u = B.var('u', nonneg=True, dist=(0.05, 0.95))
    if s < n - 1:
        B.assume(u < 1)
    x = u * A[0] if s < 0 else A[s] + u * (A[s + 1] - A[s]) if s < n - 1 else A[-1] + u
    P = B.tensor([[A[i], Y[i]] for i in range(n)])
    keep = B.frozen('points', [P])
    f = law(B, 'piecewise_linear')
    y, H = f({'hardening_points': P}, B.tensor(x))
    y = flat1(B, y)
    if s < 0:
        B.eq('constant before', y, Y[0])
    elif s == n - 1:
        B.eq('constant after', y, Y[-1])
    else:
        B.eq('interpolated', y, Y[s] + (Y[s + 1] - Y[s]) * (x - A[s]) / (A[s + 1] - A[s]))
    # slope away from the corner points
    if s >= 0:
        B.assume(0 < u)
    h = flat1(B, H)
    B.eq('slope', h, B.num(0) if s < 0 or s == n - 1 else (Y[s + 1] - Y[s]) / (A[s + 1] - A[s]))
    keep()


@case('C16', params=[('n=%d,point %d' % (n, i), dict(n=n, i=i)) for n in (2, 3, 4) for i in range(n)], ntrials=8)
def piecewise_at_points(B, n, i):
    A, Y = points(B, n)
    P = B.tensor([[A[k], Y[k]] for k in range(n)])
    y, H = law(B, 'piecewise_linear')({'hardening_points': P}, B.tensor(A[i]))
    B.eq('value at point', flat1(B, y), Y[i])


@case('C16', params=[('n=%d,%s' % (n, l), dict(n=n, l=l)) for n in (2, 3, 4) for l in ('default', 'left', 'right', 'both')], ntrials=6)
def interpolation(B, n, l):
    """Several abscissae at once, one in every segment and on both sides; end values of the data unless given."""
    A, Y = points(B, n)
    u = [B.var('u%d' % i, pos=True, dist=(0.05, 0.95)) for i in range(n + 1)]
    for i in range(1, n):
        B.assume(u[i] < 1)
    x = [A[-1] + u[n], A[0] - u[0]] + [A[i - 1] + u[i] * (A[i] - A[i - 1]) for i in range(1, n)]
    kw, left, right = {}, Y[0], Y[-1]
    if l in ('left', 'both'):
        left = B.var('left')
        kw['left'] = B.tensor(left)
    if l in ('right', 'both'):
        right = B.var('right')
        kw['right'] = B.tensor(right)
    t = [B.tensor(v) for v in (x, A, Y)]
    keep = B.frozen('arguments', t)
    y = B.mod(H_).torch_interp(*t, **kw)
    B.eq('interpolated', y, [right, left] + [Y[i - 1] + (Y[i] - Y[i - 1]) * u[i] for i in range(1, n)])
    B.eq('at the points', B.mod(H_).torch_interp(t[1], t[1], t[2]), Y)
    keep()


@case('C16', params=[('n=%d' % n, dict(n=n)) for n in (2, 3, 4)], ntrials=6)
def piecewise_negative_strain(B, n):
    A, Y = points(B, n)
    P = B.tensor([[A[k], Y[k]] for k in range(n)])
    f = law(B, 'piecewise_linear')
    x = B.var('x', pos=True)
    y, H = f({'hardening_points': P}, B.tensor(-x))
    B.eq('negative strain read as zero', flat1(B, y), Y[0])


@case('C16', ntrials=2)
def catalogue(B):
    M = B.mod(H_)
    for t in M.get_available_hardening_types():
        B.true('available ' + t, callable(M.get_hardening_law(t)))
    B.true('documented types', set(M.get_available_hardening_types()) >= {'piecewise_linear', 'linear', 'nadai_ludwik'})
    B.raises('unknown type', lambda: M.get_hardening_law('cubic'), RuntimeError)
    B.raises('negative strain rejected on request',
             lambda: M.get_hardening_law('linear')({'s0': 1.0, 'a': 1.0}, B.tensor(-1.0), is_check_data=True), RuntimeError)
