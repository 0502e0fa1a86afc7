"""Self test of the engine: the rational normal form (and sign decisions) of random terms against their floating point values."""
import math
import os
import random
import sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from vf import terms as tm


def ev_poly(p, env):
    s = 0.0
    for m, c in p.items():
        v = float(c)
        for g, e in m:
            v *= ev_gen(g, env) ** e
        s += v
    return s


def ev_rat(r, env):
    v = ev_poly(r.num, env)
    for k, e in r.den.items():
        v /= ev_poly(dict(k), env) ** e
    return v


def ev_gen(g, env):
    i = tm.GENS[g]
    if i[0] == 'v':
        return env[i[1]]
    if i[0] == 'root':
        x = ev_rat(i[2], env)
        if x < 0:
            if x > -1e-9:
                return 0.0
            raise ValueError
        return x ** (1.0 / i[1])
    if i[0] == 'app':
        a = [ev_rat(x, env) for x in i[2]]
        n = i[1]
        return {'abs': abs, 'max': max, 'min': min, 'pi': lambda: math.pi}.get(n, getattr(math, n, None))(*a)
    if i[0] == 'ite':
        raise ValueError
    raise ValueError(i[0])


def rnd_term(R, vs, d):
    k = R.random()
    if d == 0 or k < 0.12:
        return R.choice(vs) if R.random() < 0.7 else tm.q(tm.Fraction(R.randint(-5, 5), R.randint(1, 4)))
    a = rnd_term(R, vs, d - 1)
    if k < 0.35:
        return a + rnd_term(R, vs, d - 1)
    if k < 0.45:
        return a - rnd_term(R, vs, d - 1)
    if k < 0.65:
        return a * rnd_term(R, vs, d - 1)
    if k < 0.78:
        return a / rnd_term(R, vs, d - 1)
    if k < 0.85:
        return a ** R.randint(-2, 3)
    if k < 0.92:
        return tm.root(a * a + rnd_term(R, vs, max(0, d - 2)) ** 2 if R.random() < 0.5 else abs(a), R.choice((2, 2, 2, 3, 4)))
    if k < 0.95:
        return abs(a)
    if k < 0.97:
        return tm.t_max(a, rnd_term(R, vs, d - 1))
    return tm.app(R.choice(('sin', 'cos')), a)


def main(n, seed):
    bad = done = 0
    tm.POSITIVE.update({'p', 'r'})
    tm.NONNEG.add('s')
    vs = [tm.var(x) for x in 'pqrstu']
    for it in range(n):
        R = random.Random('%d:%d' % (seed, it))
        try:
            t = rnd_term(R, vs, R.randint(2, 5))
            f = tm.nf(t)
        except (tm.Unsupported, tm.Budget, ZeroDivisionError):
            continue
        for _ in range(3):
            env = {v: R.uniform(0.3, 2.0) * (1 if v in 'prs' else R.choice((1, -1))) for v in 'pqrstu'}
            try:
                a = tm.evaluate(t, env)
                b = ev_rat(f, env)
            except (ValueError, ZeroDivisionError, OverflowError, TypeError):
                continue
            if isinstance(a, complex) or isinstance(b, complex) or a != a or b != b or abs(a) > 1e6 or abs(a) == math.inf:
                continue
            done += 1
            if abs(a - b) > 1e-5 * (1 + abs(a)):
                bad += 1
                if bad <= 8:
                    print('MISMATCH', seed, it, t, a, b)
    print('%d comparisons, %d mismatches' % (done, bad))
    return bad


if __name__ == '__main__':
    sys.exit(1 if main(int(sys.argv[1]) if len(sys.argv) > 1 else 3000, int(sys.argv[2]) if len(sys.argv) > 2 else 1) else 0)
