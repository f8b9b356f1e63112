"""C05: trial grid of a periodogram"""
from fractions import Fraction as Fr
import math
import numpy as np
import riptide
from riptide import TimeSeries, ffa_search
from drv import main, big, outcome


def ratio(x):
    f = Fr(x)
    return [big(f.numerator), big(f.denominator)]


def event(n, tsamp, pmin, pmax, fpmin, b0, b1, ducy, wtsp, rng, nsmp=400):
    """periods in seconds"""
    x = np.random.RandomState(rng.randrange(1 << 30)).normal(size=n).astype(np.float32)
    ts = TimeSeries(x, tsamp)
    out, res = outcome(lambda: ffa_search(ts, period_min=pmin, period_max=pmax, fpmin=fpmin, bins_min=b0,
                                          bins_max=b1, ducy_max=ducy, wtsp=wtsp, deredden=False,
                                          already_normalised=True))
    widths = [int(w) for w in riptide.ffautils.generate_width_trials(b0, ducy_max=ducy, wtsp=wtsp)]
    ts_ = Fr(tsamp)
    ev = {'e': 'search', 'n': n, 'pmin': ratio(abs(Fr(pmin)) / ts_), 'pminpos': pmin > 0,
          'pmax': ratio(max(Fr(0), Fr(pmax)) / ts_), 'fpmin': fpmin, 'b0': b0, 'b1': b1, 'widths': widths,
          'out': out, 'data': [], 'total': 0, 'runs': [], 'smp': [], 'lens': False, 'dec': 0, 'freqdev': 0}
    if out != 'ok':
        return ev
    pg = res[1]
    P, B, S = pg.periods, pg.foldbins, pg.snrs
    ev['total'] = len(P)
    ev['lens'] = bool(P.ndim == 1 and B.shape == P.shape and S.shape == (len(P), len(widths)))
    runs = []
    for b in B.tolist():
        if runs and runs[-1][0] == b:
            runs[-1][1] += 1
        else:
            runs.append([b, 1])
    ev['runs'] = runs
    # all periods, or samples which include the ends of the runs
    if len(P) <= nsmp:
        idx = range(len(P))
    else:
        edge = np.cumsum([c for _, c in runs]).tolist()
        idx = {0, len(P) - 1}
        for e in edge if len(edge) < nsmp // 3 else rng.sample(edge, nsmp // 3):
            idx |= {e, e - 1}
        idx |= {rng.randrange(len(P)) for _ in range(nsmp // 2)}
        idx = sorted(i for i in idx if 0 <= i < len(P))
    for i in idx:
        p = float(P[i])
        v = round(Fr(p) / ts_ * 2**45) if math.isfinite(p) and p > 0 else 0
        ev['smp'].append({'i': int(i), 'x': big(v), 'q': [], 'y': []})
    # "up to rounding": relative decrease above 1e-12
    ev['dec'] = int(np.sum(~(np.diff(P) >= -1e-12 * P[1:])))
    fd = np.abs(pg.freqs * P - 1).max() if len(P) else 0.0
    ev['freqdev'] = int(min(1e9, fd * 1e12)) if math.isfinite(fd) else 10**9
    return ev


def request_case(reqs):
    """bare periodogram() requests, with values that are not numbers; comparisons with them are false"""
    def fn():
        evs = []
        for n, t, p0, p1, b0, b1, w in reqs:
            out, res = outcome(lambda: riptide.libcpp.periodogram(np.ones(n, np.float32), t, np.array(w, dtype=np.uint64), p0, p1, b0, b1))
            evs.append({'e': 'request', 'b0': b0, 'b1': b1, 'widths': w, 'tpos': bool(t > 0), 'pminpos': bool(p0 > 0),
                        'order': bool(p1 > p0), 'fits': bool(p0 >= t * b0), 'out': out,
                        'lens': out == 'ok' and len(res[0]) == len(res[1]) == len(res[2]) and res[2].shape[1:] == (len(w),)})
        return evs
    return fn


def search_case(reqs):
    def fn():
        evs = []
        ts = TimeSeries(np.ones(400, np.float32), 1.0)
        for p0, p1, fpmin, b0, b1 in reqs:
            w = [int(v) for v in riptide.ffautils.generate_width_trials(b0, ducy_max=0.2, wtsp=1.5)]
            out, _ = outcome(lambda: ffa_search(ts, period_min=p0, period_max=p1, fpmin=fpmin, bins_min=b0, bins_max=b1,
                                                ducy_max=0.2, deredden=False, already_normalised=True))
            evs.append({'e': 'request', 'b0': b0, 'b1': b1, 'widths': w, 'tpos': True, 'pminpos': bool(p0 > 0),
                        'order': bool(p1 > p0 and 400 / fpmin > p0), 'fits': bool(p0 >= b0), 'out': out, 'lens': True})
        return evs
    return fn


def cases(ctx):
    def case(cid, *a, **kw):
        return cid, (lambda: event(*a, **kw))

    for k in range(ctx.n(260, 2500)):
        rng = ctx.rng(f's{k}')
        b0 = rng.choice([2, 3, 4, rng.randint(2, 8), rng.randint(8, 16)])
        b1 = b0 + rng.choice([0, 0, 1, 1, 2, 3, rng.randint(0, b0)])
        n = rng.choice([rng.randint(b0, 80), rng.randint(60, 600), b0 * rng.randint(2, 40), 2 ** rng.randint(4, 9)])
        tsamp = rng.choice([1.0, 1.0, 0.5, 0.001, 0.1, 1 / 3, 64e-6])
        c = rng.random()
        if c < 0.35:
            pmin = tsamp * b0                              # original resolution
        elif c < 0.6:
            pmin = tsamp * b0 * rng.randint(4, 16) / 4
        elif c < 0.8:
            pmin = tsamp * b0 * (1 + rng.randint(0, 300) / 100)
        else:
            pmin = tsamp * b0 * (1 + 5 * rng.random())
        c = rng.random()
        if c < 0.25:
            pmax = 1e9
        elif c < 0.4:
            pmax = pmin * (b1 + 1) / b0                    # exactly one stage
        elif c < 0.5:
            pmax = pmin * ((b1 + 1) / b0) ** rng.randint(1, 3)
        elif c < 0.65:
            pmax = pmin / b0 * rng.randint(b0, 4 * b0)     # a base period, exactly or nearly
        else:
            pmax = pmin * (1 + rng.random() * rng.choice([0.01, 0.3, 2, 10]))
        fpmin = rng.choice([1, 2, 3, 8, 8, 10])
        yield case(f'small/{k}', n, tsamp, pmin, pmax, fpmin, b0, b1, rng.choice([0.2, 0.3, 0.5, 0.9]), 1.5, rng, 250)
    for k in range(ctx.n(24, 200)):
        rng = ctx.rng(f'm{k}')
        b0 = rng.choice([32, 64, 100, 128, 240, 256, 480])
        b1 = b0 + max(1, b0 * rng.randint(2, 12) // 100)
        n = rng.choice([rng.randint(20 * b0, 120 * b0), 2 ** 14, 2 ** 15, 40000])
        tsamp = rng.choice([64e-6, 256e-6, 1e-3, 0.0005, 0.01, 1 / 1024])
        pmin = tsamp * b0 * rng.choice([1, 1.5, 2.0, 1 + 3 * rng.random()])
        pmax = pmin * rng.choice([1.01, 1.2, 2.0, 1 + 4 * rng.random()])
        yield case(f'real/{k}', n, tsamp, pmin, pmax, rng.choice([1, 4, 8, 10]), b0, b1, 0.2, 1.5, rng, 160)
    # arguments
    nan = float('nan')
    reqs = [(200, t, p0, p1, b0, b1, w) for t in (1.0, 0.0, -1.0, nan) for p0 in (8.0, 7.9, 0.0, -8.0, nan) for p1 in (16.0, 8.0, 4.0, nan)
            for b0, b1 in ((8, 10), (8, 8), (8, 7), (2, 3), (1, 1), (1, 4), (0, 4), (0, 0)) for w in ([1], [1, 3], [0], [8], [1, 12], [])
            if w or b0 < 2 or b1 < b0]
    for k in range(0, len(reqs), 400):
        yield f'requests/{k // 400}', request_case(reqs[k:k + 400])
    yield 'requests/search', search_case([(p0, p1, f, b0, b1) for p0 in (8.0, nan, -1.0) for p1 in (16.0, nan) for f in (8, 1)
                                          for b0, b1 in ((8, 10), (8, 7))])
    i = 0
    for n, t in ((200, 1.0), (333, 0.01)):
        for b0, b1 in ((8, 10), (8, 8), (8, 7), (1, 4), (0, 4), (2, 3)):
            for pmin, pmax in ((8, 16), (16, 8), (16, 16), (7.5, 16), (8.5, 9), (0, 16), (-8, 16), (8, -16), (30, 40), (15, 20)):
                for fpmin in (1, 10):
                    for ducy in (0.2,) if (b0, b1) != (8, 10) else (0.2, 1.0, 1.2, 0.99):
                        i += 1
                        yield case(f'args/{i}', n, t, pmin * t, pmax * t, fpmin, b0, b1, ducy, 1.5, ctx.rng(f'a{i}'), 30)


if __name__ == '__main__':
    main(cases)
