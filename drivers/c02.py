"""C02: trial frequencies and periods"""
from fractions import Fraction as Fr
import math
import numpy as np
import riptide
from drv import main, outcome, BAD, LIM


def clip(v):
    return int(v) if abs(v) < LIM else BAD


def recip(prd, f):
    """round((prd * f - 1) * 2^50), clipped"""
    if not (math.isfinite(prd) and math.isfinite(f)):
        return BAD
    return clip(round((Fr(prd) * Fr(f) - 1) * 2 ** 50))


def labels_case(n, p, dt):
    def fn():
        f = riptide.ffafreq(n, p, dt=dt)
        r = riptide.ffaprd(n, p, dt=dt)
        m = n // p
        d = Fr(dt)
        if m == 1:
            k = (1 << 29) // p
            fq = [clip(round(Fr(float(v)) * d * p * k)) for v in f]
            e = {'f': fq, 'k': k}
        else:
            k = (1 << 29) // (p * (m - 1) + 1)
            e = {'f': [clip(round(Fr(float(v)) * d * p * p * (m - 1) * k)) for v in f], 'k': k}
        rr = [recip(float(a), float(b)) for a, b in zip(r, f)]
        if len(r) != len(f):
            rr = []
        ex0 = len(f) > 0 and abs(Fr(float(f[0])) * p * d - 1) < Fr(1, 2 ** 50) and f.dtype == np.float64 and r.dtype == np.float64
        return dict(e, e='labels', n=n, p=p, r=rr, exact0=bool(ex0))
    return fn


def sampled_case(n, p, dt, rng):
    def fn():
        f = riptide.ffafreq(n, p, dt=dt)
        r = riptide.ffaprd(n, p, dt=dt)
        m = n // p
        d = Fr(dt)
        q = []
        if len(f) == m and len(r) == m:
            for s in {0, 1, m - 1, m // 2, *[rng.randrange(m) for _ in range(20)]}:
                k = max(1, (1 << 29) // (p * (m - 1) + 1))
                q.append([s, clip(round(Fr(float(f[s])) * d * p * p * (m - 1) * k)), recip(float(r[s]), float(f[s])), k])
        return {'e': 'labelss', 'n': n, 'p': p, 'len': len(f), 'plen': len(r), 'q': q}
    return fn


def args_case(fun, n, p, dt):
    def fn():
        out, _ = outcome(lambda: fun(n, p, dt=dt))
        isint = lambda v: isinstance(v, int)
        return {'e': 'labelargs', 'nint': isint(n), 'pint': isint(p), 'n': math.floor(n), 'p': math.floor(p),
                'dtpos': bool(dt > 0), 'out': out}
    return fn


def cases(ctx):
    dts = [1.0, 0.5, 2.0 ** -14, 64e-6, 1e-3, 3.0]
    # exhaustive small sizes
    for p in range(2, ctx.n(9, 14)):
        for n in range(p, ctx.n(40, 90)):
            yield f'labels/{n}-{p}', labels_case(n, p, dts[(n + p) % len(dts)])
    for k in range(ctx.n(60, 400)):
        rng = ctx.rng(f'lab{k}')
        p = rng.randint(2, 300)
        n = rng.randint(p, p * 120)
        yield f'labelsr/{k}', labels_case(n, p, rng.choice(dts + [rng.uniform(1e-5, 10)]))
    for k in range(ctx.n(20, 100)):
        rng = ctx.rng(f'labs{k}')
        p = rng.randint(100, 2000)
        m = rng.randint(100, min(20000, (1 << 28) // p))
        yield f'sampled/{k}', sampled_case(p * m + rng.randrange(p), p, rng.choice(dts), rng)
    k = 0
    for fun in (riptide.ffafreq, riptide.ffaprd):
        for n in (0, -4, 1, 2, 7, 8, 9, 16, 8.0, 9.5):
            for p in (0, 1, -2, 2, 8, 9, 4.0):
                for dt in (1.0, 0.0, -1.0, float('nan')):
                    k += 1
                    yield f'args/{k}', args_case(fun, n, p, dt)


if __name__ == '__main__':
    main(cases)
