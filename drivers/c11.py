"""C11: peaks of a periodogram"""
import math
import numpy as np
from riptide import TimeSeries, ffa_search, find_peaks, Periodogram
from riptide.metadata import Metadata
from drv import main, outcome, rnd, iv, fx, BAD

S = 65536


def event(pg, T, smin, segwidth, nstd, minseg, deg, clrad, exact=False, defaults=False):
    f = 1.0 / np.asarray(pg.periods, dtype=np.float64)
    n, nw = pg.snrs.shape
    x = (f - f[-1]) * T
    span = abs(f[0] - f[-1]) * T
    # a whole number of segments is ambiguous: move away from it
    q = span / segwidth
    while n > 1 and q > 0.5 and abs(q - round(q)) < 0.02:
        segwidth *= 1.01
        q = span / segwidth
    assert x.max() * S < 2**30 and np.abs(pg.snrs).max() < 8000
    keep = [np.array(a) for a in (pg.periods, pg.snrs, pg.foldbins, pg.widths)]
    md = dict(pg.metadata)
    kw = dict(smin=smin, segwidth=segwidth, nstd=nstd, minseg=minseg, polydeg=deg, clrad=clrad)
    if defaults:
        for k, v in dict(smin=6.0, segwidth=5.0, nstd=6.0, minseg=10, polydeg=2, clrad=0.1).items():
            if kw[k] == v:
                del kw[k]
    out, r = outcome(lambda: find_peaks(pg, **kw))
    ev = {'e': 'find', 'n': n, 'x': [rnd(v * S) for v in x], 'ws': [int(w) for w in pg.widths],
          's': [[rnd(float(v) * S) for v in pg.snrs[:, w]] for w in range(nw)], 'r': rnd(clrad * S), 'smin': rnd(smin * S),
          'span': max(1, rnd(span * 1000)), 'seg': rnd(segwidth * 1000), 'minseg': minseg, 'ns10': rnd(nstd * 10), 'deg': deg,
          'exact': exact, 'thr': [], 'pc': [], 'u': [], 'nco': [], 'peaks': [], 'out': out, 'pure': True}
    if out != 'ok':
        return ev
    peaks, pol = r
    ev['pure'] = bool(all(np.array_equal(a, b) for a, b in zip(keep, (pg.periods, pg.snrs, pg.foldbins, pg.widths)))
                      and dict(pg.metadata) == md)
    m = max(1, math.ceil(q))
    p = n // m
    if m >= minseg:
        lc = np.log([np.median(f[j * p:(j + 1) * p]) for j in range(m)])
        lo, hi = lc.min(), lc.max()
        ev['u'] = [round(20000 * (v - lo) / (hi - lo) - 10000) if hi > lo else 0 for v in lc]
    if set(pol) == set(range(nw)):
        for w in range(nw):
            c = np.atleast_1d(np.asarray(pol[w], dtype=float))
            ev['nco'].append(len(c))
            ev['thr'].append([rnd(min(max(v, -8000), 8000) * S) if math.isfinite(v) else BAD for v in np.polyval(c, np.log(f))])
            ev['pc'].append([rnd(v * 1024) for v in np.polyval(c, lc)] if m >= minseg else [])
    rel = lambda a, b: BAD if a is None else fx(float(a) / float(b) - 1, 10**9)
    for k in peaks:
        ok = 0 <= k.ip < n and 0 <= k.iw < nw
        ev['peaks'].append({'iw': iv(k.iw), 'ip': iv(k.ip), 'w': iv(k.width),
                            's': rnd(k.snr * S) if ok and float(k.snr) == float(pg.snrs[k.ip, k.iw]) else -BAD,
                            'per': rel(k.period, pg.periods[k.ip]) if ok else BAD, 'frq': rel(k.freq, f[k.ip]) if ok else BAD,
                            'dcy': rel(k.ducy, pg.widths[k.iw] / pg.foldbins[k.ip]) if ok else BAD,
                            'dm': (k.dm is None and md['dm'] is None) or k.dm == md['dm']})
    return ev


def synth_case(rng, n):
    def fn():
        nr = np.random.RandomState(rng.randrange(1 << 30))
        nw = rng.choice([1, 2, 3])
        T = rng.choice([10.0, 100.0, 1000.0, 345.6])
        mode = rng.choice(['static', 'static', 'dyn', 'dyn', 'edge'])
        clrad = rng.choice([0.1, 0.1, 0.5, 1.0, 0.05])
        nice = [0.25, 0.5, 0.5, 0.9, 0.99, 1.01, 1.1, 1.5, 2, 5]
        gaps = np.array([rng.choice(nice) * clrad for _ in range(n)])
        if rng.random() < 0.5:
            gaps[:] = clrad * rng.choice([0.3, 0.7, 1.3, 0.99])
        x = np.cumsum(gaps)[::-1] + rng.choice([3.0, 20.0, 100.0])
        f = x / T
        widths = np.array([1, 2, 3, 4, 6, 9, 13, 19][:nw]) if rng.random() < .7 else np.array([1, 3, 5][:nw])
        bins = np.array([240 + (i * 7) % 21 for i in range(n)])
        base = nr.normal(size=(n, nw)) * rng.choice([0.3, 1, 2]) + rng.choice([0, 1, 4])
        if rng.random() < 0.6:
            base += rng.choice([2, 5]) * np.log(f)[:, None] ** rng.choice([1, 2]) * rng.choice([-1, 1, 1])
        smin = rng.choice([6.0, 5.0, 6.5, 7.25, 0.0, 3.0])
        for _ in range(rng.randint(0, 12)):
            i, w = rng.randrange(n), rng.randrange(nw)
            k = rng.randint(1, 5)
            base[i:i + k, w] = smin + np.array([rng.choice([0, 0.5, 1, 2, 8, 20]) for _ in range(len(base[i:i + k]))])
        s = (np.round(base * 64) / 64).astype(np.float32)
        dm = rng.choice([None, 0.0, 12.5, 100.25])
        pg = Periodogram(widths, 1.0 / f, bins, s, metadata=Metadata({'tobs': T, 'dm': dm}))
        span = float(x[0] - x[-1])
        deg = rng.choice([0, 1, 2, 2, 3])
        if mode == 'static':
            segwidth, minseg = max(5.0, span / n * 2), 10**6
        else:
            segwidth = span / rng.choice([deg + 2.5, 7.4, 9.5, 12.3]) if span > 0 else 5.0
            m = max(1, math.ceil(span / segwidth))
            minseg = {'dyn': rng.choice([max(1, m - 2), m]), 'edge': rng.choice([m, m + 1])}[mode]
            if n < m * 3:
                segwidth, minseg = max(5.0, span / n * 2), 10**6
            if minseg <= m and m <= deg:
                minseg = m + 1
        return event(pg, T, smin, segwidth, rng.choice([0.0, 1.0, 3.0, 6.0, 2.5]), minseg, deg, clrad)
    return fn


def exact_case(rng):
    """frequencies that are powers of two: gaps exactly equal to the radius"""
    def fn():
        n = rng.randint(2, 7)
        per = 2.0 ** np.arange(n) / 16
        s = np.array([[rng.choice([4, 6, 6.5, 7, 9])] for _ in range(n)], np.float32)
        pg = Periodogram(np.array([1]), per, np.full(n, 100), s, metadata=Metadata({'tobs': 16.0, 'dm': 1.0}))
        return event(pg, 16.0, 6.0, 1000.0, 3.0, 100, 2, rng.choice([1.0, 2.0, 4.0, 8.0, 16.0, 32.0, 64.0]), exact=True)
    return fn


def real_case(rng):
    def fn():
        nr = np.random.RandomState(rng.randrange(1 << 30))
        b0 = rng.choice([16, 20, 32])
        tsamp = 0.01
        n = rng.choice([2000, 4000, 8000])
        x = nr.normal(size=n)
        if rng.random() < .5:
            x += np.cumsum(nr.normal(size=n)) * 0.05
        for _ in range(rng.randint(0, 2)):
            p = tsamp * b0 * rng.uniform(1.05, 2)
            x += rng.choice([0.5, 1, 3]) * ((np.arange(n) * tsamp / p) % 1 < 0.06)
        ts = TimeSeries(x.astype(np.float32), tsamp, metadata={'dm': rng.choice([0.0, 33.0])})
        pmin = tsamp * b0 * rng.choice([1, 1.0, 1.3])
        pg = ffa_search(ts, period_min=pmin, period_max=pmin * rng.choice([1.3, 2.0]), fpmin=3, bins_min=b0, bins_max=b0 + 3,
                        rmed_width=rng.choice([2.01, 5.01]), rmed_minpts=51)[1]
        return event(pg, n * tsamp, rng.choice([6.0, 5.0, 3.0]), rng.choice([5.0, 5.0, 2.0, 1.0]), rng.choice([6.0, 3.0, 1.0]),
                     rng.choice([10, 5, 3]), rng.choice([1, 2, 2]), rng.choice([0.1, 0.1, 0.3]), defaults=rng.random() < .5)
    return fn


def cases(ctx):
    for k in range(ctx.n(360, 4000)):
        rng = ctx.rng(f's{k}')
        n = rng.choice([1, 2, 5, 20, 60, 150, 300, 300])
        yield f'synth/{k}', synth_case(rng, n)
    for k in range(ctx.n(60, 400)):
        yield f'exact/{k}', exact_case(ctx.rng(f'x{k}'))
    for k in range(ctx.n(40, 300)):
        yield f'real/{k}', real_case(ctx.rng(f'r{k}'))


if __name__ == '__main__':
    main(cases)
