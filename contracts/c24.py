"""C24: strain path generation and noise."""
import itertools
import numpy as np
from vf.engine import case
FUNCTIONS = ['StrainPathGenerator.__init__', 'StrainPathGenerator.build_strain_tensor', 'RandomStrainPathGenerator.generate_strain_path',
             'ProportionalStrainPathGenerator.generate_strain_path', 'NoiseGenerator.set_noise_distribution',
             'NoiseGenerator.set_noise_parameters', 'NoiseGenerator.get_required_parameters', 'NoiseGenerator.generate_noise_path']
ASSUMPTIONS = ['random number generation: uniform(low, high) is low + (high - low) u with u in [0, 1), normal(loc, scale) is loc + scale z '
               'with z any real number, randint and binomial return any admissible integer, and the sequence of draws is a function of the seed',
               'a polynomial fit is the exact least squares fit (interpolation when the degree is the number of points less one)',
               'a Gaussian process regressor predicts arbitrary values',
               'numbers of time points, control points and cycles are enumerated, bounds, draws and prescribed norms are arbitrary']
RP = 'data_generation.strain_paths.random_path'
PP = 'data_generation.strain_paths.proportional_path'
IF = 'data_generation.strain_paths.interface'
NG = 'data_generation.strain_paths.noise_generator'
ORDER = {('infinitesimal', 2): ('11', '22', '12'), ('infinitesimal', 3): ('11', '22', '33', '12', '23', '13'),
         ('finite', 2): ('11', '21', '12', '22'), ('finite', 3): ('11', '21', '31', '12', '22', '32', '13', '23', '33')}


class Rng:
    """Stands for numpy.random: the k-th draw after seed(s) is an arbitrary value that depends on s and k only."""

    def __init__(self, B, tag='free'):
        self.B, self.tag, self.k = B, tag, 0
        self.real = None if B.sym else np.random

    def __getattr__(self, k):
        if k.startswith('__') or self.__dict__.get('real') is None:
            raise AttributeError(k)
        return getattr(self.real, k)

    def seed(self, s=None):
        self.tag, self.k = 'seed%s' % (s,), 0

    def _fill(self, size, f):
        if size is None:
            return f()
        o = np.empty(size, object)
        for p in np.ndindex(*o.shape):
            o[p] = f()
        return o if self.B.sym else o.astype(float)

    def name(self, kind):
        self.k += 1
        return 'draw_%s_%s_%d' % (self.tag, kind, self.k)

    def uniform(self, low=0.0, high=1.0, size=None):
        B = self.B

        def f():
            u = B.var(self.name('u'), nonneg=True, dist=(0.0, 0.999))
            B.assume(u < 1)
            return low + (high - low) * u
        return self._fill(size, f)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return self._fill(size, lambda: loc + scale * self.B.var(self.name('z')))

    def randint(self, low, high=None, size=None):
        lo, hi = (0, low) if high is None else (low, high)
        return self.B.choice(self.name('i'), list(range(lo, hi)))

    def binomial(self, n, p, size=None):
        B = self.B
        assert n == 1
        return self._fill(size, lambda: B.ite(B.bvar(self.name('b')), B.num(1), B.num(0)))


class GP:
    """Stands for sklearn: a regressor with arbitrary predictions."""

    def __init__(self, B):
        gp = self
        gp.n = 0

        class K:
            def __init__(self, *a, **k):
                pass

            def __mul__(self, o):
                return self

            def __add__(self, o):
                return self

        class R:
            def __init__(self, *a, **k):
                pass

            def fit(self, x, y):
                assert len(x) == len(y)
                return self

            def predict(self, x, return_std=False):
                o = np.empty((len(x),), object)
                for i in range(len(x)):
                    o[i] = B.var('gp%d_%d' % (gp.n, i), dist=(-2, 2))
                gp.n += 1
                o = o if B.sym else o.astype(float)
                return (o, np.zeros(len(x))) if return_std else o
        gp.gaussian_process = gp
        gp.kernels = gp
        gp.ConstantKernel = gp.RBF = gp.WhiteKernel = gp.Matern = K
        gp.GaussianProcessRegressor = R


def setup(B, tag='free'):
    for m in (RP, PP, IF, NG):
        B.mod(m)
    r = Rng(B, tag)
    B.override('numpy:random', r)
    return r


def gen(B, which, form, dim):
    if which == 'proportional':
        return B.mod(PP).ProportionalStrainPathGenerator(form, dim)
    g = B.mod(RP)
    if which == 'gp':
        B.override(RP + ':sklearn', GP(B))
    return g.RandomStrainPathGenerator(form, dim)


def call(g, which, bounds, n_time, nc=3, **kw):
    if which == 'proportional':
        return g.generate_strain_path(bounds, n_time, **kw)
    return g.generate_strain_path(nc, bounds, n_time, generative_type='polynomial' if which == 'polynomial' else 'gaussian_process', **kw)


def bounds(B, order, active=None, fixed=None):
    """Bounds enclosing zero; inactive components are held at zero."""
    r = {}
    for j, c in enumerate(order):
        if active is None or j in active:
            r[c] = (-B.var('lb%s' % c, nonneg=True, dist=(0.0, 1.0)), B.var('ub%s' % c, nonneg=True, dist=(0.0, 1.0)))
        else:
            r[c] = (B.num(0), B.num(0))
    return r


def common(B, out, order, bnd, n_time, t0, t1):
    o, th, sp = out
    B.true('component order', tuple(o) == tuple(order))
    th, sp = np.asarray(B.arr(th)), np.asarray(B.arr(sp))
    B.true('shape', th.shape == (n_time,) and sp.shape == (n_time, len(order)))
    for i in range(n_time):
        B.eq('time%d' % i, th[i], t0 + (t1 - t0) * B.rat(i, n_time - 1))
    return sp


CONF = [('infinitesimal', 2, 0), ('infinitesimal', 2, 2), ('infinitesimal', 3, 1), ('infinitesimal', 3, 4), ('finite', 2, 1), ('finite', 3, 8)]


@case('C24', params=[('%s:%s%d:%d:%s' % (w, f[:3], d, j, nt), dict(which=w, form=f, dim=d, j=j, nt=nt))
                     for w in ('polynomial', 'gp', 'proportional') for f, d, j in CONF for nt in ((2, 3, 4) if w != 'polynomial' else (2, 3))],
      ntrials=6)
def within_bounds(B, which, form, dim, j, nt):
    setup(B)
    order = ORDER[form, dim]
    bnd = bounds(B, order, active=(j,))
    t0, dt = B.var('t0'), B.var('dt', pos=True)
    g = gen(B, which, form, dim)
    out = call(g, which, bnd, nt, nc=(2, 3), time_init=t0, time_end=t0 + dt)
    sp = common(B, out, order, bnd, nt, t0, t0 + dt)
    for k, c in enumerate(order):
        for i in range(nt):
            B.le('lower bound %s%d' % (c, i), bnd[c][0], sp[i, k])
            B.le('upper bound %s%d' % (c, i), sp[i, k], bnd[c][1])


@case('C24', params=[('%s:%s%d:%d' % (w, f[:3], d, k), dict(which=w, form=f, dim=d, off=k))
                     for w in ('polynomial', 'proportional') for f, d in ORDER for k in range(3)], ntrials=4)
def starts_at_zero(B, which, form, dim, off):
    """All components at once: the path starts at zero, or at the common value of a component with equal bounds."""
    setup(B)
    order = ORDER[form, dim]
    bnd = {}
    const = {}
    for j, c in enumerate(order):
        if (j + off) % 3 == 2:
            bnd[c], const[c] = (B.num(0), B.num(0)), B.num(0)
        elif (j + off) % 3 == 1:
            v = B.var('c' + c, dist=(-1, 1))
            bnd[c], const[c] = (v, v), v
        else:
            lo, hi = B.var('lb%s' % c, nonneg=True, dist=(0.0, 1.0)), B.var('ub%s' % c, pos=True, dist=(0.1, 1.0))
            B.assume(hi > B.rat(1, 100))
            bnd[c] = (-lo, hi)
    out = call(gen(B, which, form, dim), which, bnd, 3, nc=2)
    sp = common(B, out, order, bnd, 3, B.num(0), B.num(1))
    for k, c in enumerate(order):
        B.eq('initial %s' % c, sp[0, k], const.get(c, B.num(0)))
        if c in const:
            for i in (1, 2):
                B.eq('constant %s%d' % (c, i), sp[i, k], const[c])
        elif which == 'proportional':
            B.eq('constant rate %s' % c, sp[1, k] * 2, sp[2, k])


CYC = [(3, 1), (4, 1), (5, 1), (6, 1), (5, 2), (6, 2), (8, 2), (9, 2), (12, 2), (7, 3), (12, 3), (13, 3), (10, 4)]


@case('C24', params=[('%s:%d:%d:%s' % (w, nt, nc, o), dict(which=w, nt=nt, ncyc=nc, opt=o))
                     for w in ('polynomial', 'gp', 'proportional') for nt, nc in CYC for o in ('plain', 'noise')
                     if w == 'proportional' or (nt in (4, 6, 12) and o == 'plain')], ntrials=4)
def cyclic(B, which, nt, ncyc, opt):
    """The path is the forward part, then reversed, ncyc times, and rests at the initial strain for the remaining times."""
    setup(B)
    order = ORDER['infinitesimal', 2]
    bnd = bounds(B, order, active=(1,))
    kw = {}
    if opt == 'noise':
        kw['strain_noise_std'] = B.var('std', nonneg=True)
    out = call(gen(B, which, 'infinitesimal', 2), which, bnd, nt, nc=2, n_cycle=ncyc, **kw)
    sp = common(B, out, order, bnd, nt, B.num(0), B.num(1))
    h = (nt - 1) // (2 * ncyc)
    for i in range(nt):
        for k in range(3):
            if i >= 2 * h * ncyc:
                B.eq('rest at %d,%d' % (i, k), sp[i, k], sp[0, k])
            else:
                p = i % (2 * h)
                B.eq('cycle %d,%d' % (i, k), sp[i, k], sp[p if p <= h else 2 * h - p, k])
    if opt == 'noise':
        # independent noise is added to the forward part
        setup(B)
        ref = B.arr(call(gen(B, which, 'infinitesimal', 2), which, bnd, h + 1, nc=2, **kw)[2])
        for i in range(h + 1):
            for k in range(3):
                B.eq('forward part %d,%d' % (i, k), sp[i, k], ref[i, k])


@case('C24', params=[('%s:%s%d' % (w, f[:3], d), dict(which=w, form=f, dim=d)) for w in ('polynomial', 'proportional') for f, d in ORDER])
def noise_on_path(B, which, form, dim):
    """Gaussian noise of the prescribed standard deviation is added to every component after the initial time, nothing else changes."""
    order = ORDER[form, dim]
    bnd = bounds(B, order, active=(0,))
    std = B.var('std', nonneg=True)
    setup(B)
    ref = B.arr(call(gen(B, which, form, dim), which, bnd, 3, nc=2)[2])
    r = setup(B)
    zs = []
    real = r.normal

    def normal(loc=0.0, scale=1.0, size=None):
        o = real(loc, scale, size)
        B.eq('noise mean', loc, B.num(0))
        B.eq('noise deviation', scale, std)
        zs.extend(list(np.asarray(o).reshape(-1)))
        return o
    r.normal = normal
    sp = B.arr(call(gen(B, which, form, dim), which, bnd, 3, nc=2, strain_noise_std=std)[2])
    B.true('one draw per component and time', len(zs) == 2 * len(order))
    if len(zs) != 2 * len(order):
        return
    for k in range(len(order)):
        B.eq('no initial noise %d' % k, sp[0, k], ref[0, k])
        for i in (1, 2):
            B.eq('noise %d,%d' % (i, k), sp[i, k], ref[i, k] + zs[(i - 1) * len(order) + k])


@case('C24', params=[('%s:%d:%s' % (w, d, s), dict(which=w, dim=d, sign=s)) for w in ('polynomial', 'proportional') for d in (2, 3)
                     for s in (1, -1)])
def increment_norm(B, which, dim, sign):
    """A prescribed increment norm is the Frobenius norm of every strain increment (shear components count twice), along the trial direction."""
    order = ORDER['infinitesimal', dim]
    bnd = {c: (B.num(0), B.num(0)) for c in order}
    for k in (0, len(order) - 1):
        bnd[order[k]] = (-B.var('lb%d' % k, pos=True, dist=(0.1, 1)), B.var('ub%d' % k, pos=True, dist=(0.1, 1)))
        B.assume(bnd[order[k]][1] > B.rat(1, 100))
    inc = B.var('inc', pos=True, dist=(0.01, 0.5))
    setup(B)
    ref = np.asarray(B.arr(call(gen(B, which, 'infinitesimal', dim), which, bnd, 3, nc=2)[2]))
    B.assume(ref[1, 0] * sign > B.rat(1, 100))
    setup(B)
    sp = np.asarray(B.arr(call(gen(B, which, 'infinitesimal', dim), which, bnd, 3, nc=2, inc_strain_norm=inc)[2]))
    def sq(a):
        return sum(a[k] * a[k] * (1 if c[0] == c[1] else 2) for k, c in enumerate(order))
    for k in range(len(order)):
        B.eq('same start %d' % k, sp[0, k], ref[0, k])
    d = sp[1] - sp[0]
    B.eq('first increment', sq(d), inc * inc)
    t = ref[1] - ref[0]
    for k in range(len(order)):
        B.eq('first direction %d' % k, d[k] * t[0], d[0] * t[k])
    B.le('first direction', 0, d[0] * sign)
    d, t = sp[2] - sp[1], ref[2] - sp[1]
    B.assume(B.absv(t[0]) > B.rat(1, 1000))
    B.eq('second increment', sq(d), inc * inc)
    for k in range(len(order)):
        B.eq('second direction %d' % k, d[k] * t[0], d[0] * t[k])


@case('C24', params=[('%s' % w, dict(which=w)) for w in ('polynomial', 'gp', 'proportional')], ntrials=6)
def reproducible(B, which):
    """The path is a function of the arguments and the seed, whatever was drawn before."""
    order = ORDER['infinitesimal', 2]
    bnd = bounds(B, order, active=(0, 2) if which == 'proportional' else (2,))
    std = B.var('std', nonneg=True)
    got = []
    for tag, seed in (('before1', 7), ('before2', 7), ('before3', 0), ('before4', 0)):
        r = setup(B, tag)
        r.uniform(size=len(tag))
        g = gen(B, which, 'infinitesimal', 2)
        got.append(np.asarray(B.arr(call(g, which, bnd, 3, nc=(2, 3), random_seed=seed, strain_noise_std=std)[2])))
    for i in range(3):
        for k in range(3):
            B.eq('same path %d,%d' % (i, k), got[0][i, k], got[1][i, k])
            B.eq('same path, seed zero %d,%d' % (i, k), got[2][i, k], got[3][i, k])


@case('C24', params=[('%s:%s%d' % (w, f[:3], d), dict(which=w, form=f, dim=d)) for w in ('polynomial', 'gp', 'proportional') for f, d in ORDER],
      ntrials=3)
def rejected(B, which, form, dim):
    setup(B)
    order = ORDER[form, dim]
    g = gen(B, which, form, dim)
    good = {c: (B.num(0), B.num(0)) for c in order}
    for c in order:
        B.raises('missing bounds of %s' % c, lambda: call(g, which, {k: v for k, v in good.items() if k != c}, 3), RuntimeError)
        lo, d = B.var('lo'), B.var('d', pos=True)
        B.raises('reversed bounds of %s' % c, lambda: call(g, which, dict(good, **{c: (lo + d, lo)}), 3), RuntimeError)
    B.raises('unknown component', lambda: call(g, which, dict(good, **{'44': (B.num(0), B.num(0))}), 3), RuntimeError)
    for nt, nc in ((2, 1), (4, 2), (6, 3), (3, 2)):
        B.raises('%d cycles in %d times' % (nc, nt), lambda: call(g, which, good, nt, n_cycle=nc), RuntimeError)
    B.raises('negative noise', lambda: call(g, which, good, 3, nc=2, strain_noise_std=-B.var('s', pos=True)), RuntimeError)
    B.raises('negative norm', lambda: call(g, which, good, 3, nc=2, inc_strain_norm=-B.var('s', pos=True)), RuntimeError)
    B.raises('zero norm', lambda: call(g, which, good, 3, nc=2, inc_strain_norm=B.num(0)), RuntimeError)
    if which != 'proportional':
        for bad in ('3', 2.5, (2, 3, 4), None, [2, 3]):
            B.raises('control points %r' % (bad,), lambda: call(g, which, good, 3, nc=bad), RuntimeError)


@case('C24', params=[('%d:%s' % (d, s), dict(dim=d, sy=s)) for d in (2, 3) for s in (True, False)], ntrials=3)
def strain_tensor(B, dim, sy):
    """Every component goes to its place, in any order of the components."""
    build = B.mod(IF).StrainPathGenerator.build_strain_tensor
    base = ORDER['infinitesimal' if sy else 'finite', dim]
    perms = [base[i:] + base[:i] for i in range(len(base))] + [base[::-1], base[1::2] + base[::2]]
    if len(base) <= 4:
        perms = list(itertools.permutations(base))
    if sy:
        perms += [tuple(c[::-1] for c in p) for p in perms]
    v = B.vec('e', len(base))
    for p in perms:
        a = np.array(v, dtype=object if B.sym else float)
        keep = a.copy()
        t = B.arr(build(dim, a, p, is_symmetric=sy))
        B.true('shape', tuple(t.shape) == (dim, dim))
        for k, c in enumerate(p):
            i, j = int(c[0]) - 1, int(c[1]) - 1
            B.eq('%s in %r' % (c, p), t[i, j], v[k])
            if sy:
                B.eq('%s transposed in %r' % (c, p), t[j, i], v[k])
        B.true('argument kept', all(x is y or bool(x == y) for x, y in zip(a, keep)))
    a = np.array(v, dtype=object if B.sym else float)
    B.raises('two-dimensional components', lambda: build(dim, a.reshape(1, -1), base, is_symmetric=sy), RuntimeError)
    B.raises('unknown component', lambda: build(dim, a, base[:-1] + ('1%d' % (dim + 1),), is_symmetric=sy), RuntimeError)
    B.raises('duplicate component', lambda: build(dim, a, base[:-1] + (base[0],), is_symmetric=sy), RuntimeError)
    B.raises('missing component', lambda: build(dim, a[:-1], base[:-1], is_symmetric=sy), RuntimeError)
    B.raises('long component', lambda: build(dim, a, base[:-1] + ('112',), is_symmetric=sy), RuntimeError)
    if not sy:
        B.raises('symmetric order', lambda: build(dim, a, ORDER['infinitesimal', dim], is_symmetric=False), RuntimeError)
    else:
        B.raises('full order', lambda: build(dim, a, ORDER['finite', dim], is_symmetric=True), RuntimeError)


def noise(B, dist, par):
    g = B.mod(NG).NoiseGenerator()
    g.set_noise_distribution(dist)
    g.set_noise_parameters(par)
    return g


def path_in(B, n, m):
    a = np.empty((n, m), object)
    for p in np.ndindex(n, m):
        a[p] = B.var('x%d_%d' % p)
    return a if B.sym else a.astype(float)


@case('C24', params=[('%s:%d' % (v, n), dict(var=v, n=n)) for v in ('homoscedastic', 'heteroscedastic', 'weights') for n in (1, 3)])
def uniform_noise(B, var, n):
    setup(B)
    amp = B.var('amp')
    g = noise(B, 'uniform', {'amp': amp})
    x = path_in(B, n, 2)
    w, kw = [B.num(0)] * n, {}
    if var != 'homoscedastic':
        w = [B.num(1)] * n
        kw['noise_variability'] = 'heteroscedastic'
    if var == 'weights':
        w = [B.var('w%d' % i, nonneg=True) for i in range(n)]
        kw['heteroscedastic_weights'] = np.array(w, dtype=object if B.sym else float)
    r = B.arr(g.generate_noise_path(x, **kw))
    B.true('shape', tuple(r.shape) == (n, 2))
    for p in np.ndindex(n, 2):
        B.le('within amplitude %r' % (p,), B.absv(r[p]) * 2, B.absv(amp) * (1 + w[p[0]]))


@case('C24', params=[('%s:%s:%d' % (d, v, n), dict(dist=d, var=v, n=n)) for d in ('gaussian', 'spiked_gaussian')
                     for v in ('homoscedastic', 'heteroscedastic', 'weights') for n in (1, 3)])
def gaussian_noise(B, dist, var, n):
    r = setup(B)
    std, spike = B.var('std', nonneg=True), B.var('spike')
    par = {'std': std}
    if dist == 'spiked_gaussian':
        par.update(spike=spike, p_spike=B.rat(1, 4))
    g = noise(B, dist, par)
    x = path_in(B, n, 2)
    kw = {}
    w = [B.num(1)] * n
    if var != 'homoscedastic':
        kw['noise_variability'] = 'heteroscedastic'
    if var == 'weights':
        w = [B.var('w%d' % i, nonneg=True) for i in range(n)]
        kw['heteroscedastic_weights'] = np.array(w, dtype=object if B.sym else float)
    out = B.arr(g.generate_noise_path(x, **kw))
    B.true('shape', tuple(out.shape) == (n, 2))
    # linear in the draws: with all normal draws at zero only spikes remain, and the coefficients are the deviations
    spikes = np.empty((n, 2), object)
    spikes[...] = B.num(0)
    sq = np.empty((n, 2), object)
    for p in np.ndindex(n, 2):
        sq[p] = B.num(0)
    zero = setup(B)
    zero.normal = lambda loc=0.0, scale=1.0, size=None: zero._fill(size, lambda: loc + scale * (zero.name('z') and B.num(0)))
    only = B.arr(noise(B, dist, par).generate_noise_path(x, **kw))
    used = []
    for p in np.ndindex(n, 2):
        if dist == 'gaussian':
            B.eq('no spike %r' % (p,), only[p], B.num(0))
        else:
            B.eq('spike or none %r' % (p,), only[p] * (only[p] - spike), B.num(0))
    # one normal draw at one, the others at zero
    k = 2 * n if var == 'homoscedastic' else 4 * n
    tot = np.empty((n, 2), object)
    tot[...] = B.num(0)
    for q in range(k):
        cnt = [0]
        one = setup(B)

        def normal(loc=0.0, scale=1.0, size=None):
            def f():
                one.name('z')
                cnt[0] += 1
                return loc + scale * B.num(1 if cnt[0] == q + 1 else 0)
            return one._fill(size, f)
        one.normal = normal
        o = B.arr(noise(B, dist, par).generate_noise_path(x, **kw))
        nz = 0
        for p in np.ndindex(n, 2):
            c = o[p] - only[p]
            tot[p] = tot[p] + c * c
            used.append((q, p, c))
        B.true('number of draws', cnt[0] == k)
    for p in np.ndindex(n, 2):
        want = std * std * (1 if var == 'homoscedastic' else 1 + w[p[0]] * w[p[0]])
        B.eq('variance %r' % (p,), tot[p], want)
    # a draw enters one value only
    for q in range(k):
        cs = [c for q_, p, c in used if q_ == q]
        for a, b in itertools.combinations(cs, 2):
            B.eq('independent values', a * b, B.num(0))


@case('C24', ntrials=2)
def noise_setup(B):
    cls = B.mod(NG).NoiseGenerator
    one = B.var('one')
    B.raises('unknown distribution', lambda: cls().set_noise_distribution('cauchy'), RuntimeError)
    B.raises('unknown required', lambda: cls.get_required_parameters('cauchy'), RuntimeError)
    for d, req in (('uniform', ('amp',)), ('gaussian', ('std',)), ('spiked_gaussian', ('std', 'spike', 'p_spike'))):
        B.true('required of ' + d, set(cls.get_required_parameters(d)) == set(req))
        for m in req:
            g = cls()
            g.set_noise_distribution(d)
            B.raises('missing %s of %s' % (m, d), lambda: g.set_noise_parameters({k: one for k in req if k != m}), RuntimeError)
