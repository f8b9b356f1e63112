"""C17: candidate filters"""
import itertools, os
from fractions import Fraction
import numpy as np
from riptide.pipeline.pipeline import Pipeline
from riptide.pipeline.peak_cluster import PeakCluster
from riptide.peak_detection import Peak
from drv import main
import pipe, c19


def mkcluster(c, rng):
    """c: dict dm, s (in 1/1000), n extra fainter peaks with other DMs"""
    mk = lambda dm, s, k: Peak(period=1.0, freq=1.0, width=3, ducy=0.1, iw=1, ip=k, snr=s / 1000, dm=dm / 1000)
    peaks = [mk(c['dm'], c['s'], 0)]
    for k in range(rng.choice([0, 0, 1, 3])):
        peaks.append(mk(max(0, c['dm'] + rng.randint(-3000, 3000)), c['s'] - rng.randint(1, 3000), k + 1))
    rng.shuffle(peaks)
    return PeakCluster(peaks)


def snapshot(cl):
    return sorted(((id(c), tuple(c), c.rank, id(c.parent_fundamental) if c.parent_fundamental is not None else None, c.hfrac)
                   for c in cl), key=lambda t: t[0])


def run(cs, f, rng, order):
    filters = {'dm_min': None if not f['dm'] else f['dm'][0] / 1000, 'snr_min': None if not f['s'] else f['s'][0] / 1000,
               'remove_harmonics': f['rem'] if f['rem'] else rng.choice([False, None]), 'max_number': f['max'] or None}
    p = Pipeline(pipe.config(filters=filters))
    cl = [mkcluster(c, rng) for c in cs]
    by = sorted(range(len(cs)), key=lambda i: -cs[i]['s'])
    for r, i in enumerate(by):
        cl[i].rank = r
    for r, i in enumerate(by):
        if cs[i]['flag']:
            roots = [j for j in by[:r] if not cs[j]['flag']]
            if not roots:
                cs[i]['flag'] = False
                continue
            cl[i].parent_fundamental = cl[rng.choice(roots)]
            cl[i].hfrac = Fraction(2, 1)
    p.clusters = cl
    before = snapshot(cl)
    ids = [id(c) for c in cl]
    e = {'e': 'filter', 'cs': cs, 'f': f, 'out': 'ok', 'kept': [], 'same': False}
    try:
        p.apply_candidate_filters()
    except Exception as ex:
        e['out'] = type(ex).__name__
        return e
    e['same'] = snapshot(p.clusters) == before
    e['kept'] = [ids.index(id(c)) + 1 if id(c) in ids else 0 for c in p.clusters_filtered]
    return e


def small_case(todo, rng):
    def fn():
        return [run([dict(c) for c in cs], dict(f), rng, None) for cs, f in todo]
    return fn


def random_case(rng, nmax):
    def fn():
        evs = []
        for _ in range(6):
            n = rng.randint(0, nmax)
            dms = [rng.choice([0, rng.randint(0, 20000)]) for _ in range(4)]
            snrs = [rng.randint(5000, 40000) for _ in range(6)]
            cs = [{'dm': rng.choice(dms), 's': rng.choice(snrs), 'flag': rng.random() < 0.4} for _ in range(n)]
            f = {'dm': rng.choice([[], [rng.choice(dms)], [rng.randint(-5, 20000)], [0]]),
                 's': rng.choice([[], [rng.choice(snrs)], [rng.randint(5000, 40000)], [0]]),
                 'rem': rng.random() < 0.5, 'max': rng.choice([0, 1, 2, n, n + 1, max(1, n - 1), max(1, n // 2), rng.randint(1, nmax)])}
            evs.append(run(cs, f, rng, None))
        return evs
    return fn


def real_case(rng):
    """the filters as the whole pipeline applies them"""
    def fn():
        with pipe.Scratch() as d:
            out = os.path.join(d, 'out')
            os.makedirs(out)
            files = c19.inputs(rng, d, rng.choice(['bright', 'bright', 'faint']), 'presto')
            f = {'dm': rng.choice([[], [rng.randint(0, 400) * 1000]]), 's': rng.choice([[], [rng.randint(6, 20) * 1000]]),
                 'rem': rng.random() < 0.6, 'max': rng.choice([0, 0, 1, 2, 5])}
            filters = {'dm_min': None if not f['dm'] else f['dm'][0] / 1000, 'snr_min': None if not f['s'] else f['s'][0] / 1000,
                       'remove_harmonics': f['rem'], 'max_number': f['max'] or None}
            conf = pipe.config([pipe.range_conf(0.75, 2.0), pipe.range_conf(2.0, 6.0, bins_min=24, bins_max=26)], dered=(3.5, 21),
                               filters=filters, harm={'snr_distance_max': 6.0})
            e = {'e': 'filter', 'cs': [], 'f': f, 'out': 'ok', 'kept': [], 'same': True}
            p = Pipeline(conf)
            try:
                p.process(files, out)
            except Exception as ex:
                e['out'] = type(ex).__name__
                return e
            for c in p.clusters:
                b = max(c, key=lambda q: q.snr)
                if abs(b.snr * 1000 - round(b.snr * 1000)) < 1e-3 or sum(q.snr == b.snr for q in c) > 1:
                    return []
                e['cs'].append({'dm': int(b.dm * 1000), 's': int(b.snr * 1000), 'flag': bool(c.is_harmonic)})
            ids = [id(c) for c in p.clusters]
            e['kept'] = [ids.index(id(c)) + 1 if id(c) in ids else 0 for c in p.clusters_filtered]
            # the candidates are those of the clusters kept
            e['same'] = sorted(c.params['snr'] for c in p.candidates) == sorted(c.centre.snr for c in p.clusters_filtered)
            return e
    return fn


def cases(ctx):
    one = [{'dm': d, 's': s, 'flag': h} for d in (0, 1500) for s in (7000, 9000) for h in (False, True)]
    fs = [{'dm': d, 's': s, 'rem': r, 'max': m} for d in ([], [0], [1500]) for s in ([], [7000], [9000], [9001])
          for r in (False, True) for m in (0, 1, 2)]
    todo = [(cs, f) for n in range(3) for cs in itertools.product(one, repeat=n) for f in fs]
    for i in range(0, len(todo), 250):
        yield f'small/{i // 250}', small_case(todo[i:i + 250], ctx.rng(f's{i}'))
    for k in range(ctx.n(200, 3000)):
        yield f'random/{k}', random_case(ctx.rng(f'r{k}'), ctx.n(20, 40))
    for k in range(ctx.n(24, 240)):
        yield f'real/{k}', real_case(ctx.rng(f'p{k}'))


if __name__ == '__main__':
    main(cases)
