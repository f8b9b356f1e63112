"""C14: clustering, ranking and harmonic flagging"""
import os
from fractions import Fraction as Fr
import numpy as np
from riptide.pipeline.pipeline import Pipeline
from riptide.pipeline.harmonic_testing import htest
from riptide.peak_detection import Peak
from drv import main
import pipe, c19

FU = 65536          # frequency units per Hz


def mkpeak(k, x, s, d, du, wid=3):
    f = x / FU
    return Peak(period=1.0 / f, freq=f, width=wid, ducy=du / 64, iw=1, ip=k, snr=s / 16, dm=d / 8)


def gen_peaks(rng, nmax, unit):
    """unit: clustering radius in frequency units"""
    out = []
    nsig = rng.choice([0, 1, 1, 2, 3, 5, 8, rng.randint(1, 12)])
    base = rng.randint(1, 60) * 1024
    sigs = []
    for _ in range(nsig):
        if sigs and rng.random() < 0.75:
            x0, s0, d0, du = rng.choice(sigs)
            p, q = rng.choice([(2, 1), (1, 2), (3, 1), (1, 3), (3, 2), (2, 3), (4, 1), (1, 4), (1, 1), (5, 2)])
            if rng.random() < 0.1:
                p, q = rng.randint(1, 100), rng.randint(1, 100)
            x = max(32, int(x0 * Fr(p, q)) + rng.choice([0, 0, 0, 1, -3, 40]))
            s = max(96, int(s0 / (p * q) ** 0.5) + rng.choice([0, 0, 16, -16, 40, -40, 47, 49, 100]))
            d = max(0, d0 + rng.choice([0, 0, 0, 8, 16, 160]))
        else:
            x, s, d, du = base + rng.randint(0, 4096), rng.choice([rng.randint(100, 1600), rng.randint(100, 1600), rng.randint(10**4, 10**6)]), rng.randint(0, 80), rng.choice([1, 2, 4])
        sigs.append((x, s, d, du))
        m = rng.choice([1, 1, 2, 3, 6]) if nmax < 60 else rng.choice([1, 2, nmax, nmax // 2])
        for _ in range(m):
            step = rng.choice([0, unit, unit, unit + 1, max(0, unit - 1), 2 * unit]) if nmax < 60 else rng.choice([0, 1, 1, unit, unit])
            out.append((x, s, d, du))
            x = x + step
            s = max(96, s - rng.choice([0, 1, 16, 50, -20]) * (1 if nmax < 60 else rng.choice([0, 0, -1, -1, 1])))
            d = max(0, d + rng.choice([0, 8, -8]))
    return out[:nmax]


def observe(p, peaks, tmed, fmin, fmax, harm, e):
    """add what the pipeline made of the given peaks to event e"""
    cl = list(p.clusters)
    back = {q: k + 1 for k, q in enumerate(peaks)}
    for c in cl:
        e['clusters'].append([back.get(q, 0) for q in c])
        e['centre'].append(back.get(c.centre, 0))
        e['rank'].append(int(c.rank))
        par = c.parent_fundamental
        e['parent'].append(-1 if par is None else int(par.rank))
        e['flag'].append(bool(c.is_harmonic))
        e['hf'].append({'p': 0, 'q': 0} if c.hfrac is None else {'p': c.hfrac.numerator, 'q': c.hfrac.denominator})
    order = sorted(cl, key=lambda c: c.rank)
    for a in order:
        row = []
        for b in order:
            if a is b or not a.rank < b.rank:
                row.append({'t': False, 'p': 0, 'q': 0})
                continue
            t, f = htest(a.centre, b.centre, float(tmed), fmin, fmax, **harm)
            row.append({'t': bool(t), 'p': f.numerator, 'q': f.denominator})
        e['rel'].append(row)
    return e


def real_case(rng):
    """the whole pipeline on data with pulsars; frequencies in millionths of the clustering radius"""
    def fn():
        with pipe.Scratch() as d:
            rad = rng.choice([0.25, 0.5, 1.0])
            harm = {'denom_max': rng.choice([100, 100, 8]), 'phase_distance_max': rng.choice([1.0, 2.0]),
                    'snr_distance_max': rng.choice([3.0, 6.0])}
            conf = pipe.config([pipe.range_conf(0.75, 2.0), pipe.range_conf(2.0, 6.0, bins_min=24, bins_max=26)], dered=(3.5, 21),
                               radius=rad, harm=harm, filters={'snr_min': 15.0, 'remove_harmonics': rng.random() < 0.5})
            out = os.path.join(d, 'out')
            os.makedirs(out)
            files = c19.inputs(rng, d, 'bright', 'presto')
            e = {'e': 'flags', 'rn': 1000000, 'rd': 1, 'clusters': [], 'centre': [], 'rank': [], 'parent': [], 'flag': [], 'hf': [],
                 'rel': [], 'out': 'ok', 'run': 0, 'x': [], 's': []}
            p = Pipeline(conf)
            try:
                p.process(files, out)
            except Exception as ex:
                e['out'] = type(ex).__name__
                return e
            tobs = os.path.getsize(files[0][:-4] + '.dat') // 4 / 32
            peaks = list(p.peaks)
            e['x'] = [round(Fr(q.freq) * Fr(tobs) / Fr(rad) * 10**6) for q in peaks]
            e['s'] = [round(q.snr * 10**5) for q in peaks]
            srt = sorted(e['x'])
            if any(abs(b - a - 10**6) < 5 for a, b in zip(srt, srt[1:])) or len(set(peaks)) < len(peaks):
                return []
            return observe(p, peaks, tobs, 1200.0, 1456.0, harm, e)
    return fn


def case(rng, nmax):
    def fn():
        with pipe.Scratch() as d:
            evs = []
            # files: only their metadata matter here
            T = rng.choice([16, 32, 64, 128])
            nf = rng.choice([1, 2, 3, 4, 5])
            lens = [T * rng.choice([1, 1, 2, 4]) // rng.choice([1, 1, 2]) for _ in range(nf)]
            fbot, nchan, cbw = rng.choice([(1200.0, 64, 4.0), (400.0, 128, 1.0), (1500.0, 256, -1.0)])
            files = []
            for i, t in enumerate(lens):
                files.append(pipe.write_presto(d, f'f{i}', np.zeros(t * 16, dtype=np.float32), tsamp=0.0625, dm=float(2 * i),
                                               fbot=fbot, nchan=nchan, cbw=cbw))
            srt = sorted(lens)
            tmed = Fr(srt[nf // 2] + srt[(nf - 1) // 2], 2)
            rad = rng.choice([Fr(1, 4), Fr(1, 4), Fr(3, 16), Fr(1), Fr(1, 64), Fr(5, 2)])
            harm = {'denom_max': rng.choice([100, 100, 1, 2, 3]), 'phase_distance_max': rng.choice([1.0, 1.0, 0.125, 4.0, 50.0]),
                    'dm_distance_max': rng.choice([3.0, 3.0, 0.5, 100.0]), 'snr_distance_max': rng.choice([3.0, 3.0, 1.0, 10.0, 1e5])}
            conf = pipe.config([pipe.range_conf(1.0, 2.0, bins_min=8, bins_max=10, cbins=8)], radius=float(rad), harm=harm)
            p = Pipeline(conf)
            r = rad / tmed * FU
            fmin, fmax = sorted((fbot, fbot + nchan * cbw))
            for run in range(rng.choice([1, 2, 3])):
                sel = gen_peaks(rng, nmax, int(r))
                rng.shuffle(sel)
                sel.sort(key=lambda a: -a[0])
                peaks = [mkpeak(k, *a) for k, a in enumerate(sel)]
                p.prepare(files)
                p.peaks = sorted(peaks, key=lambda q: q.period)
                e = {'e': 'flags', 'x': [a[0] for a in sel], 's': [a[1] for a in sel], 'rn': r.numerator, 'rd': r.denominator,
                     'clusters': [], 'centre': [], 'rank': [], 'parent': [], 'flag': [], 'hf': [], 'rel': [], 'out': 'ok',
                     'run': run}
                try:
                    p.cluster_peaks()
                    p.flag_harmonics()
                except Exception as ex:
                    e['out'] = type(ex).__name__
                    evs.append(e)
                    continue
                observe(p, peaks, tmed, fmin, fmax, harm, e)
                evs.append(e)
            return evs
    return fn


def cases(ctx):
    for k in range(ctx.n(400, 6000)):
        yield f'flags/{k}', case(ctx.rng(f'c{k}'), ctx.n(24, 40))
    for k in range(ctx.n(12, 80)):
        rng = ctx.rng(f'm{k}')
        yield f'many/{k}', case(rng, rng.choice([70, 100, 150, 300]))
    for k in range(ctx.n(24, 240)):
        yield f'real/{k}', real_case(ctx.rng(f'r{k}'))


if __name__ == '__main__':
    main(cases)
