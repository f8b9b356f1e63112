"""C16: the search stage of the pipeline against the public search functions"""
import os
import numpy as np
from riptide import TimeSeries, ffa_search, find_peaks
from riptide.pipeline.pipeline import Pipeline
from drv import main, fx, outcome
import pipe


def pulses(nr, n, tsamp, period, amp, duty, t0=0.0):
    t = (np.arange(n) * tsamp - t0) / period
    ph = t - np.floor(t)
    return amp * (np.minimum(ph, 1 - ph) < duty / 2)


def make_data(rng, n, tsamp, common=(), edges=()):
    nr = np.random.RandomState(rng.randrange(2**31))
    x = nr.normal(size=n)
    for _ in range(rng.choice([0, 1, 1, 2, 3])):
        x += pulses(nr, n, tsamp, rng.uniform(0.6, 7.5), rng.choice([1.5, 3.0]), rng.choice([0.05, 0.1, 0.2]), rng.random())
    for per in common:                                      # the same signal in several trials
        x += pulses(nr, n, tsamp, per, rng.choice([1.0, 2.0]), 0.1)
    if edges and rng.random() < 0.6:                        # just around the end of a range
        x += pulses(nr, n, tsamp, rng.choice(edges) * (1 + rng.uniform(-0.01, 0.03)), 3.0, 0.1)
    if rng.random() < 0.5:                                  # slow baseline: dereddening matters
        t = np.arange(n) * tsamp
        x += rng.choice([2, 10]) * np.sin(2 * np.pi * t / rng.uniform(10, 40))
    return (x * rng.choice([1, 1, 7]) + rng.choice([0, 100])).astype(np.float32)


def rand_ranges(rng):
    edges = [0.75]
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        edges.append(edges[-1] * rng.choice([1.5, 2.0, 3.0]))
    out = []
    for i, (a, b) in enumerate(zip(edges[:-1], edges[1:])):
        bmin = rng.choice([16, 20, 24]) if i == 0 else rng.choice([16, 24, 32])
        find = {'smin': rng.choice([4.0, 5.0, 6.0, 8.0])}
        if rng.random() < 0.3:
            find['clrad'] = rng.choice([0.2, 1.0])
        if rng.random() < 0.3:
            find['nstd'] = rng.choice([3.0, 5.0])
        if rng.random() < 0.2:
            find['segwidth'] = rng.choice([2.0, 10.0])
        if rng.random() < 0.2:
            find['minseg'] = rng.choice([3, 50])
        if rng.random() < 0.2:
            find['polydeg'] = rng.choice([1, 3])
        if rng.random() < 0.1:
            find = {}
        if rng.random() < 0.1:
            find = None
        kw = {}
        if rng.random() < 0.6:
            kw['fpmin'] = rng.choice([2, 4, 8, 10, 20, 40])
        if rng.random() < 0.5:
            kw['wtsp'] = rng.choice([1.2, 1.5, 2.0])
        if rng.random() < 0.5:
            kw['ducy_max'] = rng.choice([0.1, 0.2, 0.3, 0.5])
        rc = pipe.range_conf(a, b, bins_min=bmin, bins_max=bmin + rng.choice([2, 4]), cbins=16, name=f'r{i}', **kw)
        rc['find_peaks'] = find
        out.append(rc)
    return out


def enc(p):
    return {'w': int(p.width), 'iw': int(p.iw), 'ip': int(p.ip), 'dm': fx(p.dm, 10**6), 'per': fx(p.period, 10**7), 'f': fx(p.freq, 10**8),
            's': fx(p.snr, 10**5), 'du': fx(p.ducy, 10**8)}


def expected(ts, conf, dered):
    t = ts.deredden(dered[0], minpts=dered[1]).normalise()
    kw = dict(conf['ffa_search'])
    kw.setdefault('fpmin', 8)
    _, pg = ffa_search(t, deredden=False, already_normalised=True, **kw)
    peaks, _ = find_peaks(pg, **(conf['find_peaks'] or {}))
    return peaks


def setup(rng, d, tag, edges):
    """files of one input set: list of (path, dm, n, tsamp)"""
    fmt = tag
    nf = rng.choice([1, 2, 3, 4, 5, 7])
    dms = rng.sample(range(0, rng.choice([400, 4000])), nf)
    step = rng.choice([0.25, 0.25, 0.25, 0.04, 0.01, 0.001])
    dms = [round(k * step, 4) for k in dms]
    same = rng.random() < 0.6
    n0 = rng.choice([2048, 3000, 4096])
    common = [rng.uniform(0.8, 4) for _ in range(rng.choice([0, 0, 1, 2]))]
    files = []
    for i, dm in enumerate(dms):
        n = n0 if same else rng.choice([1024, 2048, 3000, 4096])
        tsamp = 1 / 32 if same else rng.choice([1 / 32, 1 / 64])
        if not i or x.size != n or rng.random() < 0.85:      # sometimes the very data of another trial
            x = make_data(rng, n, tsamp, common, edges)
        sub = os.path.join(d, f'{rng.randrange(10**6)}')
        os.makedirs(sub)
        if fmt == 'presto':
            f = pipe.write_presto(sub, f'a_DM{i}.0', x, tsamp=tsamp, dm=dm, fbot=1200.0, nchan=64, cbw=4.0)
        else:
            f = pipe.write_sigproc(os.path.join(sub, 'a.tim'), x, tsamp=tsamp, dm=dm)
        files.append((f, dm, n, tsamp))
    return files


def lost(rng, p, f):
    """file f becomes unreadable after the trials were selected"""
    path = f[0][:-4] + '.dat' if f[0].endswith('.inf') and rng.random() < 0.7 else f[0]
    if path.endswith('.dat') or rng.random() < 0.5:
        os.remove(path)
    else:
        os.truncate(path, 60)
    e = {'e': 'lost', 'selected': f[1] in [float(x) for x in p.dmiter.selected_dms], 'raised': False}
    try:
        p.search()
    except Exception:
        e['raised'] = True
    return e


def case(rng, runs):
    def fn():
        with pipe.Scratch() as d:
            fmt = rng.choice(['presto', 'presto', 'sigproc'])
            ranges = rand_ranges(rng)
            dered = rng.choice([(3.5, 21), (5.0, 51), (6.5, 101), (12.5, 101), (4.0, 21)])
            conf = pipe.config(ranges, processes=rng.choice([1, 2, 3, 4, 6, 9]), fmt=fmt, dered=dered,
                               band=(None,) * 3 if fmt == 'presto' else (1200.0, 1456.0, 64),
                               dmsel=rng.choice([(None, None, None), (None, None, None), (10.0, 500.0, None), (None, 400.0, None)]))
            p = Pipeline(conf)
            loader = TimeSeries.from_presto_inf if fmt == 'presto' else TimeSeries.from_sigproc
            evs = []
            for k in range(runs):
                files = setup(rng, d, fmt, [rc['ffa_search']['period_max'] for rc in ranges])
                e = {'e': 'search', 'nf': len(files), 'procs': conf['processes'], 'out': 'ok', 'len': [], 'need': [], 'due': [], 'peaks': []}
                lo, hi = conf['dmselect']['min'], conf['dmselect']['max']
                if not any((lo is None or f[1] >= lo) and (hi is None or f[1] <= hi) for f in files):
                    continue
                given = [f[0] for f in files]
                rng.shuffle(given)
                try:
                    if rng.random() < 0.04:                          # a header that cannot be read
                        os.truncate(rng.choice(given), 30)
                        evs.append({'e': 'lost', 'selected': True, 'raised': outcome(lambda: p.prepare(given))[0] != 'ok'})
                        continue
                    p.prepare(given)
                    if rng.random() < 0.12:
                        evs.append(lost(rng, p, rng.choice(files)))
                        continue
                    p.search()
                except Exception as ex:
                    e['out'] = type(ex).__name__
                    evs.append(e)
                    continue
                e['peaks'] = [enc(q) for q in p.peaks]
                for rc in ranges:
                    e['need'].append(fx(rc['ffa_search']['period_min'] * rc['ffa_search'].get('fpmin', 8), 65536))
                bydm = {f[1]: f for f in files}
                for dm in p.dmiter.selected_dms:
                    f, _, n, tsamp = bydm[float(dm)]
                    ts = loader(f)
                    e['len'].append(fx(n * tsamp, 65536))
                    row = []
                    for rc, need in zip(ranges, e['need']):
                        if e['len'][-1] <= need:
                            row.append([])
                        else:
                            row.append([enc(q) for q in expected(ts, rc, dered)])
                    e['due'].append(row)
                evs.append(e)
            return evs
    return fn


def cases(ctx):
    for k in range(ctx.n(64, 800)):
        yield f'search/{k}', case(ctx.rng(f'c{k}'), 2)


if __name__ == '__main__':
    main(cases)
