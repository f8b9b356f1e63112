"""C18: candidate building"""
import os
import numpy as np
from riptide import TimeSeries
from riptide.pipeline.pipeline import Pipeline
from riptide.pipeline.peak_cluster import PeakCluster
from riptide.peak_detection import Peak
from drv import main, fx, outcome
import pipe

V = 10**6           # DM units
U = 2**16           # period / length units per second


class Store:
    """content of arrays up to rounding errors, as small integers"""
    def __init__(self):
        self.arrays = []

    def id(self, a):
        a = np.asarray(a)
        if a.dtype.kind not in 'f' or not np.all(np.isfinite(a)):
            return 0
        for k, b in enumerate(self.arrays):
            if a.shape == b.shape and np.allclose(a, b, rtol=1e-4, atol=1e-4):
                return k + 1
        self.arrays.append(np.array(a, dtype=float))
        return len(self.arrays)


def row(p):
    return {'per': fx(p['period'], U), 'f': fx(p['freq'], 2**20), 'dm': fx(p['dm'], V), 'w': int(p['width']),
            'du': fx(p['ducy'], 2**20), 's': fx(p['snr'], 1000)}


def same_meta(a, b):
    ka, kb = dict(a), dict(b)
    ca, cb = ka.pop('skycoord'), kb.pop('skycoord')
    return ka == kb and ca.ra.deg == cb.ra.deg and ca.dec.deg == cb.dec.deg


def case(rng, runs):
    def fn():
        with pipe.Scratch() as d:
            evs = []
            fmt = rng.choice(['presto', 'presto', 'sigproc'])
            tsamp = 1 / 32
            nr = rng.choice([1, 2, 2, 3])
            edges = [0.5]
            for _ in range(nr):
                edges.append(edges[-1] * rng.choice([1.5, 2, 4]))
            ranges = []
            for i in range(nr):
                ranges.append(pipe.range_conf(edges[i], edges[i + 1], bins_min=12, bins_max=16,
                                              cbins=rng.choice([8, 10, 12, 15, 16]) if i == 0 else rng.choice([8, 16, 20, 5]),
                                              subints=rng.choice([None, 1, 2, 4, 8, 8, 16, 40]), name=f'r{i}'))
            dered = rng.choice([(3.5, 21), (5.0, 51), (6.5, 101)])
            conf = pipe.config(ranges, fmt=fmt, dered=dered, processes=1, band=(None,) * 3 if fmt == 'presto' else (1200.0, 1456.0, 64))
            p = Pipeline(conf)
            loader = TimeSeries.from_presto_inf if fmt == 'presto' else TimeSeries.from_sigproc
            for _ in range(runs):
                store = Store()
                nf = rng.choice([1, 2, 3, 4])
                step = rng.choice([0.25, 0.25, 1.0, 0.04, 0.01, 0.001, 0.0001])
                dms = [round(k * step + rng.choice([0, 0, 5]), 4) for k in rng.sample(range(0, 300 if step >= 0.01 else 30), nf)]
                dms = list(dict.fromkeys(dms))
                nf = len(dms)
                files = []
                for i, dm in enumerate(dms):
                    n = rng.choice([512, 1000, 2048])
                    g = np.random.RandomState(rng.randrange(2**31))
                    x = g.normal(size=n) + 3 * np.sin(np.arange(n) / rng.uniform(50, 200)) + rng.choice([0, 30])
                    sub = os.path.join(d, str(rng.randrange(10**8)))
                    os.makedirs(sub)
                    if fmt == 'presto':
                        f = pipe.write_presto(sub, 'a', x, tsamp=tsamp, dm=dm, fbot=1200.0, nchan=64, cbw=4.0, source=f'S{i}')
                    else:
                        f = pipe.write_sigproc(os.path.join(sub, 'a.tim'), x, tsamp=tsamp, dm=dm, source=f'S{i}')
                    files.append((f, dm, n))
                given = [f[0] for f in files]
                rng.shuffle(given)
                p.prepare(given)
                clusters, cl = [], []
                used = set()
                for _ in range(rng.choice([0, 1, 2, 3, 5, 8])):
                    k = rng.randrange(nf)
                    per = rng.choice([rng.choice(edges), rng.choice(edges) - 2 / 64, rng.choice(edges) + 1 / 64, rng.choice(edges) - 1 / 1024,
                                      rng.randint(int(edges[0] * 64), int(edges[-1] * 64)) / 64, files[k][2] * tsamp * rng.choice([1, 0.5, 0.125]),
                                      files[k][2] * tsamp * 1.5])
                    s = rng.choice([rng.randint(7000, 30000), rng.randint(7, 12) * 1000])
                    if (per, s) in used:
                        continue
                    used.add((per, s))
                    mk = lambda q, dm, sn: Peak(period=q, freq=1 / q, width=rng.choice([1, 2, 3]), ducy=rng.choice([1, 2, 3]) / 64,
                                                iw=1, ip=2, snr=sn / 1000, dm=dm)
                    peaks = [mk(per, files[k][1], s)]
                    for _ in range(rng.choice([0, 0, 1, 2, 5])):
                        peaks.append(mk(per + rng.choice([0, 1, -1]) / 4096, rng.choice(files)[1], s - rng.randint(1, 3000)))
                    rng.shuffle(peaks)
                    clusters.append(PeakCluster(peaks, rank=0))
                    best = max(peaks, key=lambda q: q.snr)
                    cl.append({'best': row(best._asdict()), 'peaks': [row(q._asdict()) for q in peaks]})
                e = {'e': 'cands', 'ranges': [{'lo': fx(r['ffa_search']['period_min'], U), 'hi': fx(r['ffa_search']['period_max'], U),
                                              'bins': r['candidates']['bins'], 'k': r['candidates']['subints'] or 0} for r in ranges],
                     'dms': [fx(f[1], V) for f in files], 'len': [fx(f[2] * tsamp, U) for f in files], 'cl': cl, 'fold': [], 'cands': [],
                     'out': 'ok'}
                series = [loader(f[0]).deredden(dered[0], minpts=dered[1]).normalise() for f in files]
                for c in clusters:
                    per = c.centre.period
                    tab = []
                    for ts in series:
                        line = []
                        for r in ranges:
                            x = {}
                            for key, k in (('k', r['candidates']['subints']), ('all', None)):
                                out, a = outcome(lambda: ts.fold(per, r['candidates']['bins'], subints=k))
                                x[key] = store.id(a) if out == 'ok' else 0
                            line.append(x)
                        tab.append(line)
                    e['fold'].append(tab)
                p.clusters = list(clusters)
                p.clusters_filtered = list(clusters)
                rng.shuffle(p.clusters_filtered)
                try:
                    p.build_candidates()
                except Exception as ex:
                    e['out'] = type(ex).__name__
                    evs.append(e)
                    continue
                for c in p.candidates:
                    meta = [i + 1 for i, ts in enumerate(series) if same_meta(ts.metadata, c.tsmeta)]
                    sub = np.atleast_2d(c.subints)
                    prof = np.asarray(c.profile)
                    dmc = c.dm_curve
                    e['cands'].append({'par': row(c.params), 'id': store.id(c.subints), 'meta': meta[0] if len(meta) == 1 else 0,
                                       'peaks': [row(q) for _, q in c.peaks.iterrows()], 'one': c.subints.ndim == 1,
                                       'sub': [[fx(v, 1000) for v in q] for q in sub], 'prof': [fx(v, 1000) for v in prof],
                                       'curve': [{'dm': fx(a, V), 's': fx(b, 1000)} for a, b in zip(*dmc)]})
                    if prof.shape != (sub.shape[1],):
                        e['cands'][-1]['id'] = 0
                evs.append(e)
            return evs
    return fn


def cases(ctx):
    for k in range(ctx.n(150, 2000)):
        yield f'cands/{k}', case(ctx.rng(f'c{k}'), 2)


if __name__ == '__main__':
    main(cases)
