"""C06: S/N values of a periodogram"""
from fractions import Fraction as Fr
import math
import numpy as np
import riptide
from riptide import TimeSeries, ffa_search
from drv import main, big
from c05 import ratio


def base(n, tsamp, pmin, pmax, fpmin, b0, b1, widths):
    t = Fr(tsamp)
    return {'e': 'snr', 'n': n, 'pmin': ratio(Fr(pmin) / t), 'pminpos': True, 'pmax': ratio(Fr(pmax) / t),
            'fpmin': fpmin, 'b0': b0, 'b1': b1, 'widths': widths, 'out': 'ok', 'smp': [], 'data': []}


def runs_of(B):
    runs = []
    for b in B.tolist():
        if runs and runs[-1][0] == b:
            runs[-1][1] += 1
        else:
            runs.append([b, 1])
    return runs


def q12(v):
    v = float(v)
    if not math.isfinite(v) or abs(v) > 1e5:
        return -1000000
    return round(v * 4096)


def search(ts, pmin, pmax, fpmin, b0, b1, ducy, wtsp=1.5):
    return ffa_search(ts, period_min=pmin, period_max=pmax, fpmin=fpmin, bins_min=b0, bins_max=b1, ducy_max=ducy,
                      wtsp=wtsp, deredden=False, already_normalised=True)[1]


def exact_case(rng):
    """integer data, small enough for the specification to compute everything"""
    def fn():
        b0 = rng.choice([2, 3, 4, 4, 5, 6, 8])
        b1 = b0 + rng.choice([0, 1, 1, 2, 3])
        den = rng.choice([1, 1, 2, 4])
        f0 = Fr(rng.randint(den, 3 * den), den)
        n = int(f0 * b0 * rng.randint(3, 9)) + rng.randint(0, b0)
        tsamp = rng.choice([1.0, 0.25, 2.0 ** -10])
        pmin = float(f0 * b0) * tsamp
        if pmin < tsamp * b0:
            pmin = tsamp * b0
        grow = (b1 + 1) / b0
        pmax = pmin * min(rng.choice([1.2, grow, grow ** 1.5, grow ** 2]), 3.2)
        x = np.array([rng.randint(-6, 6) for _ in range(n)], np.float32)
        if rng.random() < 0.6:
            p = float(f0) * b0 * (1 + rng.random())
            i = rng.random() * p
            while i < n:
                x[int(i)] += 20
                i += p
        pg = search(TimeSeries(x, tsamp), pmin, pmax, 1, b0, b1, rng.choice([0.3, 0.5, 0.8]), rng.choice([1.5, 2.0, 1.1]))
        ev = base(n, tsamp, pmin, pmax, 1, b0, b1, [int(w) for w in pg.widths])
        ev['total'] = len(pg.periods)
        ev['runs'] = runs_of(pg.foldbins)
        ev['data'] = [int(v) for v in x]
        for i, (p, s) in enumerate(zip(pg.periods, pg.snrs)):
            ev['smp'].append({'i': i, 'x': big(round(Fr(float(p)) / Fr(tsamp) * 2**45)), 'q': [q12(v) for v in s], 'y': []})
        return ev
    return fn


def real_case(rng, n, tsamp, pmin, pmax, fpmin, b0, b1, nsmp):
    """realistic sizes: against the public building blocks"""
    def fn():
        nr = np.random.RandomState(rng.randrange(1 << 30))
        x = nr.normal(size=n).astype(np.float32)
        p = pmin / tsamp * (1 + 0.3 * rng.random())
        x += (rng.choice([0, 0.5, 2]) * ((np.arange(n) / p) % 1 < 0.05)).astype(np.float32)
        pg = search(TimeSeries(x, tsamp), pmin, pmax, fpmin, b0, b1, 0.2)
        ws = [int(w) for w in pg.widths]
        ev = base(n, tsamp, pmin, pmax, fpmin, b0, b1, ws)
        ev['runs'] = runs_of(pg.foldbins)
        ev['total'] = len(pg.periods)
        idx = sorted({0, len(pg.periods) - 1, *[rng.randrange(len(pg.periods)) for _ in range(nsmp)]})
        cache = {}
        for i in idx:
            # stage, from the trial period and its number of bins
            b = int(pg.foldbins[i])
            tau0 = Fr(pmin) / b0
            per = Fr(float(pg.periods[i]))
            k = 0
            while per >= tau0 * (b + 1) * Fr(b1 + 1, b0) ** k * (1 - Fr(1, 10**11)):
                k += 1
            f = tau0 * Fr(b1 + 1, b0) ** k / Fr(tsamp)
            key = (k, b)
            if key not in cache:
                d = x if f == 1 or float(f) <= 1 else riptide.downsample(x, float(f))
                cache[key] = riptide.ffa1(d, b)
            y = cache[key]
            m = len(y)
            # P = f b^2 (m - 1) / (b (m - 1) - s)
            s = round(b * (m - 1) - f * b * b * (m - 1) * Fr(tsamp) / per) if m > 1 else 0
            s = min(max(s, 0), m - 1)
            yy = riptide.boxcar_snr(y[s], ws)
            ev['smp'].append({'i': int(i), 'x': big(round(per / Fr(tsamp) * 2**45)),
                              'q': [q12(v) for v in pg.snrs[i]], 'y': [q12(v) for v in yy]})
        return ev
    return fn


def cases(ctx):
    for k in range(ctx.n(140, 1200)):
        yield f'exact/{k}', exact_case(ctx.rng(f'e{k}'))
    for k in range(ctx.n(48, 400)):
        rng = ctx.rng(f'r{k}')
        b0 = rng.choice([16, 20, 32, 64, 128, 240, 250])
        b1 = b0 + max(1, b0 // rng.choice([4, 8, 12]))
        tsamp = rng.choice([64e-6, 1e-3, 0.01, 1 / 1024])
        K = rng.randint(1, 6)
        f0 = rng.choice([K, K, K + rng.random(), K + 1e-6, K + 1e-4, max(1, K - 1e-5), K + 0.5])
        n = b0 * int(math.ceil(f0)) * rng.randint(9, 60) + rng.randint(0, b0)
        pmin = f0 * tsamp * b0
        if rng.random() < 0.2:
            pmin = float(np.nextafter(pmin, 0))
        pmin = max(pmin, tsamp * b0)
        pmax = pmin * rng.choice([1.05, 1.1, 1.5, 2.5])
        yield f'real/{k}', real_case(rng, n, tsamp, pmin, pmax, 4, b0, b1, 40)


if __name__ == '__main__':
    main(cases)
