"""C10: pre-processing and width trials of ffa_search"""
from fractions import Fraction as Fr
import numpy as np
from astropy.coordinates import SkyCoord
from riptide import TimeSeries, ffa_search
from drv import main, fx, poisoned
from c09 import World


def strict(a, b):
    return bool(a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=True))


def search_case(rng):
    def fn():
        w = World(rng)
        b0 = rng.choice([5, 10, 16, 20, 32, 50])
        b1 = b0 + rng.choice([1, 2, 5])
        tsamp = rng.choice([1.0, 0.01, 1 / 256, 64e-6])
        n = rng.randint(12 * b0, 60 * b0)
        nr = np.random.RandomState(rng.randrange(1 << 30))
        kind = rng.choice(['red', 'red', 'white', 'offset', 'scaled'])
        x = nr.normal(size=n)
        if kind == 'red':
            x = x + np.cumsum(nr.normal(size=n))
        elif kind == 'offset':
            x = x + 100 + 10 * np.sin(np.arange(n) / n * 6)
        elif kind == 'scaled':
            x = x * 37 + np.cumsum(nr.normal(size=n)) * 20
        md = rng.choice([None, {'source_name': 'X', 'dm': 3.5, 'skycoord': SkyCoord(1, 2, unit='deg'), 'note': [1, 2]}])
        ts = TimeSeries(poisoned(x.astype(np.float32)), tsamp, metadata=md)
        dered, already = rng.choice([True, True, False]), rng.choice([False, False, True])
        dflt = tsamp == 0.01 and rng.random() < 0.4
        ws = rng.choice([11, 21, 51, 101, 151]) if n > 400 else rng.choice([11, 21, 51])
        rw = rng.choice([ws, ws, ws + 0.2]) * tsamp
        mp = rng.choice([3, 5, 11, 101])
        if ws > n:
            ws = 11
        dn, dd = rng.choice([(1, 5), (1, 10), (1, 2), (3, 10), (1, 4), (3, 4), (1, 3), (1, 100)])
        wn, wd = rng.choice([(3, 2), (3, 2), (2, 1), (11, 10), (5, 4), (3, 1), (21, 20), (1, 1)])
        kw = dict(period_min=b0 * tsamp * rng.choice([1.0, 1.1, 1.5]), fpmin=rng.choice([1, 4]), bins_min=b0, bins_max=b1)
        kw['period_max'] = kw['period_min'] * rng.choice([1.1, 2, 3])
        if (dn, dd) != (1, 5) or rng.random() < .5:
            kw['ducy_max'] = dn / dd
        if (wn, wd) != (3, 2) or rng.random() < .5:
            kw['wtsp'] = wn / wd
        pre = {}
        if not dered or rng.random() < .5:
            pre['deredden'] = dered
        if already or rng.random() < .5:
            pre['already_normalised'] = already
        if not dflt:
            pre.update(rmed_width=rw, rmed_minpts=mp)
        dargs = (4.0, 101) if dflt else (rw, mp)
        if dflt and n < 401:
            pre.update(rmed_width=rw, rmed_minpts=mp)
            dargs = (rw, mp)
        try:
            d = ts.deredden(dargs[0], minpts=dargs[1])
        except ValueError:               # an even window without scrunching
            ws = 11
            pre.update(rmed_width=11 * tsamp, rmed_minpts=5)
            d = ts.deredden(11 * tsamp, minpts=5)
        cand = {'raw': w.a(ts.data), 'd': w.a(d.data), 'n': w.a(ts.normalise().data), 'dn': w.a(d.normalise().data)}
        md0 = dict(ts.metadata)
        in0 = [w.x(ts.data), w.m(ts.metadata), fx(ts.tsamp, 2**20)]
        res, pg = ffa_search(ts, **kw, **pre)
        in1 = [w.x(ts.data), w.m(ts.metadata), fx(ts.tsamp, 2**20)]
        if dict(ts.metadata) != md0:
            in1 = [0, 0, 0]
        res2, pg2 = ffa_search(res, **kw, deredden=False, already_normalised=True)
        ids = lambda p: [w.a(p.periods), w.a(p.snrs), w.x(np.asarray(p.foldbins).astype(int)), w.x(np.asarray(p.widths).astype(int))]
        tob = max(abs(fx(v / (n * tsamp) - 1, 10**12)) for v in (pg.tobs, res.tobs, pg.metadata['tobs'], res.metadata['tobs']))
        return {'e': 'search', 'dered': dered, 'already': already, 'cand': cand, 'in0': in0, 'in1': in1, 'ret': w.a(res.data),
                'tsamp': 'same' if res.tsamp == tsamp and res.nsamp == n else 'other', 'pgram': ids(pg), 'again': ids(pg2),
                'meta': bool(w.m(pg.metadata) == w.m(res.metadata) == w.m(ts.metadata)), 'tob': tob,
                'ws': [int(v) for v in pg.widths], 'cols': int(pg.snrs.shape[1]), 'b0': b0, 'dn': dn, 'dd': dd, 'wn': wn, 'wd': wd}
    return fn


def widths_case(items):
    """width trials of tiny searches"""
    def fn():
        evs = []
        for b0, dn, dd, wn, wd in items:
            ts = TimeSeries(np.arange(2 * b0, dtype=np.float32) % 7, 1.0)
            pg = ffa_search(ts, period_min=b0, period_max=2 * b0, fpmin=1, bins_min=b0, bins_max=b0, ducy_max=dn / dd,
                            wtsp=wn / wd, deredden=False, already_normalised=True)[1]
            evs.append({'e': 'widths', 'ws': [int(v) for v in pg.widths], 'b0': b0, 'dn': dn, 'dd': dd, 'wn': wn, 'wd': wd})
        return evs
    return fn


DEFAULTS = dict(period_min=1.0, period_max=30.0, fpmin=8, bins_min=240, bins_max=260, ducy_max=0.2, wtsp=1.5, deredden=True,
                rmed_width=4.0, rmed_minpts=101, already_normalised=False)


def defaults_case(rng):
    """options that are left out take their documented values"""
    def fn():
        w = World(rng)
        nr = np.random.RandomState(rng.randrange(1 << 30))
        n = rng.randint(6000, 12000)
        tsamp = rng.choice([1 / 256, 1 / 250, 0.002])
        ts = TimeSeries((nr.normal(size=n) * 3 + np.cumsum(nr.normal(size=n)) * 0.1).astype(np.float32), tsamp)
        kw = dict(DEFAULTS)
        if rng.random() < 0.6:                          # other values for the options that are given
            kw.update(period_max=rng.choice([1.5, 3.0, 30.0]), bins_max=rng.choice([250, 260]), wtsp=rng.choice([1.5, 2.0]),
                      rmed_width=rng.choice([4.0, 2.0]), ducy_max=rng.choice([0.2, 0.1]))
        left = [k for k in kw if kw[k] != DEFAULTS[k] or rng.random() < rng.choice([0.0, 0.3, 0.7])]
        ids = lambda r, p: [w.x(r.data), w.x(p.periods), w.x(p.snrs), w.x(np.asarray(p.foldbins).astype(int)), w.x(np.asarray(p.widths).astype(int))]
        return {'e': 'defaults', 'full': ids(*ffa_search(ts, **kw)), 'left': ids(*ffa_search(ts, **{k: kw[k] for k in left}))}
    return fn


def cases(ctx):
    for k in range(ctx.n(16, 100)):
        yield f'defaults/{k}', defaults_case(ctx.rng(f'd{k}'))
    for k in range(ctx.n(500, 5000)):
        yield f'search/{k}', search_case(ctx.rng(f's{k}'))
    items = []
    for b0 in list(range(2, ctx.n(40, 130))) + [64, 100, 128, 240, 250, 480, 500, 960, 1000]:
        for dn, dd in ((1, 5), (1, 10), (3, 10), (1, 2), (29, 100), (1, 3), (9, 10), (1, 100), (1, 1000), (19, 20), (3, 4), (99, 100)):
            for wn, wd in ((3, 2), (2, 1), (11, 10), (1, 1), (101, 100), (12, 10), (4, 1), (5, 4), (13, 10), (8, 5)):
                if dn * b0 >= dd * (b0 - 1) or dn * b0 > 400 * dd and wn * 10 < 12 * wd:
                    continue
                items.append((b0, dn, dd, wn, wd))
    for i in range(0, len(items), 60):
        yield f'widths/{i // 60}', widths_case(items[i:i + 60])


if __name__ == '__main__':
    main(cases)
