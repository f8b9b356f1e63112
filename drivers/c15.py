"""C15: DM trial selection"""
import os
from fractions import Fraction as Fr
import numpy as np
from astropy.coordinates import SkyCoord
from riptide.pipeline.pipeline import Pipeline
from riptide.pipeline.dmiter import DMIterator
from drv import main
import pipe

COORDS = [('10:20:30.5000', '-20:30:40.2500'), ('16:00:00.0000', '-53:00:00.0000'), ('00:48:00.0000', '-27:00:00.0000'),
          ('12:51:00.0000', '-27:00:00.0000')]
BANDS = [(1200.0, 64, 4.0), (400.0, 128, 1.0), (1500.0, 256, -1.0), (1182.0, 1024, 0.25), (1400.0, 1, 200.0), (300.0, 2, 100.0),
         (1000.5, 512, 0.5), (1700.0, 16, -32.0)]


def gal_b(raj, decj):
    return SkyCoord(raj, decj, unit=('hourangle', 'deg')).galactic.b.rad


def sp(raj):
    s = raj.replace(':', '')
    return float(s)


def gen_dms(rng, nmax):
    k = rng.choice(['even', 'even', 'grow', 'random', 'holes', 'one', 'two'])
    if k == 'one':
        return [rng.randint(0, 300000)]
    if k == 'two':
        return rng.sample(range(0, 300000, 10), 2)
    n = rng.randint(3, nmax)
    if k == 'even':
        step, lo = rng.choice([100, 250, 500, 1000, 3300]), rng.choice([0, 0, 1000, 50000])
        return [lo + i * step for i in range(n)]
    if k == 'grow':
        out, x, s = [], 0, rng.choice([50, 100, 300])
        for _ in range(n):
            out.append(x)
            x += s
            s = int(s * rng.choice([1.0, 1.05, 1.1]))
            if x > 950000:
                break
        return out
    if k == 'random':
        return rng.sample(range(0, rng.choice([2000, 50000, 900000])), n)
    out = set()
    x = 0
    for _ in range(n):
        out.add(x)
        x += rng.choice([100, 100, 100, 200, 20000])
    return sorted(out)


def case(rng, nmax):
    def fn():
        with pipe.Scratch() as d:
            dms = gen_dms(rng, nmax)
            order = rng.choice(['asc', 'desc', 'shuffle', 'shuffle'])
            if order == 'desc':
                dms.sort(reverse=True)
            elif order == 'shuffle':
                rng.shuffle(dms)
            fmt = rng.choice(['presto', 'presto', 'sigproc'])
            raj, decj = rng.choice(COORDS)
            fbot, nch, cbw = rng.choice(BANDS)
            bad, why = False, ''
            pmin = rng.choice([Fr(1, 4), Fr(1), Fr(1, 8), Fr(1, 2)])
            bmin = rng.choice([8, 64, 200, 240])
            tsamp = 2.0 ** -12
            trouble = rng.random() < 0.15 and rng.choice(['coord', 'band', 'missing', 'none'])
            odd = rng.randrange(len(dms))
            files = []
            for i, dm in enumerate(dms):
                sub = os.path.join(d, f'd{i % 3}')
                os.makedirs(sub, exist_ok=True)
                r, de, fb = raj, decj, fbot
                if trouble == 'coord' and i == odd and len(dms) > 1:
                    r = '10:20:30.6000'
                    bad, why = True, 'coordinates disagree'
                if trouble == 'band' and fmt == 'presto' and i == odd and len(dms) > 1:
                    fb = fbot + 1.0
                    bad, why = True, 'bands disagree and none configured'
                # names unrelated to the DM, the same base name in several directories
                name = f'x_DM{(i * 7) // 3}.00'
                if fmt == 'presto':
                    files.append(pipe.write_presto(sub, name, np.zeros(16, dtype=np.float32), tsamp=tsamp, dm=dm / 1000, raj=r, decj=de,
                                                   fbot=fb, nchan=nch, cbw=cbw))
                else:
                    files.append(pipe.write_sigproc(os.path.join(sub, name + '.tim'), np.zeros(16), tsamp=tsamp, dm=dm / 1000,
                                                    raj=sp(r), decj=sp(de)))
            if trouble == 'none':
                files, bad, why = [], True, 'no files'
            f1, f2 = sorted((fbot, fbot + nch * cbw))
            band = (None, None, None)
            if fmt == 'sigproc':
                band = (f1, f2, nch)
                if trouble == 'missing':
                    b = list(band)
                    b[rng.randrange(3)] = None
                    band, bad, why = tuple(b), True, 'band parameter missing'
            elif rng.random() < 0.4 and trouble != 'band':
                band = rng.choice([(300.0, 310.0, 2), (f1, None, None), (None, None, 7)])     # ignored
            pick = lambda: rng.choice(dms) + rng.choice([0, 0, 0, 1, -1, 500])
            start = rng.choice([[], [], [0], [pick()], [rng.randint(0, 400000)]])
            end = rng.choice([[], [], [1000000], [pick()], [rng.randint(0, 400000)]])
            sinb = abs(float(np.sin(gal_b(raj, decj))))
            cap, dmsinb = [], None
            if rng.random() < 0.5:
                if rng.random() < 0.7:
                    cap = [rng.choice(dms) + rng.choice([-1, 0])]
                    dmsinb = (cap[0] + 0.5) / 1000 * sinb
                    if dmsinb <= 0:
                        cap, dmsinb = [], None
                else:
                    dmsinb = 45.0
                    v = dmsinb / sinb * 1000
                    if abs(v - round(v)) < 1e-3:
                        dmsinb = None
                    else:
                        cap = [min(int(v), 10 ** 9)]
            conv = rng.choice([float, float, lambda v: int(v) if float(v).is_integer() else float(v)])
            a = [None if not s else conv(s[0] / 1000) for s in (start, end)]
            w = pmin / bmin
            fu = 4
            e = {'e': 'dm', 'd': dms, 'start': start, 'end': end, 'cap': cap, 'f1': int(f1 * fu), 'f2': int(f2 * fu), 'fu': fu, 'n': nch,
                 'wn': w.numerator, 'wd': w.denominator, 'bad': bad, 'why': why or 'empty range', 'sel': [], 'got': [], 'chunks': [],
                 'out': 'ok', 'mode': rng.choice(['iter', 'pipeline'])}
            try:
                if e['mode'] == 'iter':
                    it = DMIterator(files, a[0], a[1], dmsinb_max=dmsinb, fmt=fmt, wmin=float(w), fmin=band[0], fmax=band[1],
                                    nchans=band[2])
                else:
                    big = 100 * pmin
                    rs = [pipe.range_conf(float(pmin), float(big), bins_min=bmin, bins_max=bmin + 4, cbins=8),
                          pipe.range_conf(float(big), 2.0 * float(big), bins_min=bmin, bins_max=bmin + 4, cbins=8)]
                    p = Pipeline(pipe.config(rs, fmt=fmt, band=band, dmsel=(a[0], a[1], dmsinb)))
                    p.prepare(files)
                    it = p.dmiter
            except Exception as ex:
                e['out'] = type(ex).__name__
                return e
            key = {dm / 1000: i + 1 for i, dm in enumerate(dms)}
            fkey = {os.path.realpath(f): i + 1 for i, f in enumerate(files)}
            e['sel'] = [key.get(float(x), 0) for x in it.selected_dms]
            e['got'] = [fkey.get(os.path.realpath(it.get_filename(x)), 0) for x in it.selected_dms]
            for c in sorted({1, 2, 3, 7, len(e['sel']), len(e['sel']) + 1}):
                e['chunks'].append([[fkey.get(os.path.realpath(f), 0) for f in ch] for ch in it.iterate_filenames(chunksize=c)])
            return e
    return fn


def cases(ctx):
    for k in range(ctx.n(400, 5000)):
        yield f'dm/{k}', case(ctx.rng(f'c{k}'), ctx.n(40, 80))


if __name__ == '__main__':
    main(cases)
