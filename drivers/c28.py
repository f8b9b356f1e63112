"""C28: plots of candidates and periodograms"""
import os, re, tempfile
from fractions import Fraction
import numpy as np
import pandas
import matplotlib.pyplot as plt
from matplotlib.patches import Rectangle
from astropy.coordinates import SkyCoord
from riptide import Candidate, Metadata, Periodogram, save_json, load_json
from drv import main, fx

NAMES = ['Period', 'DM', 'Width', 'Duty cycle', 'S/N', 'Source', 'RA', 'Dec', 'MJD', 'UTC']
UNIT = {'Period': 'ms', 'DM': 'pc cm', 'Width': 'bins', 'Duty cycle': '%'}
SOURCES = ['J0534+2200', 'B1919+21', 'a b', 'Crab', '0', '{x}', '{:d}', 'None', '%s', 'PSR J1748-2446ad', 'x' * 40, '']


def decimal(units, exp):
    """the float nearest to units * 10^-exp"""
    return float(Fraction(units, 10 ** exp))


def split(units, exp):
    """units * 10^-exp -> [integer part, billionths]"""
    v = Fraction(units, 10 ** exp)
    i = v.numerator // v.denominator
    return [i, int((v - i) * 10 ** 9)]


def make(rng, nsubs, nbins, npeaks, ndm, blank):
    rows = [[rng.choice([0, 0, 1, -1, rng.randint(-40, 40)]) for _ in range(nbins)] for _ in range(nsubs)]
    for r in rows:
        r[rng.randrange(nbins)] += rng.randint(0, 300)
    a = np.array(rows, dtype=rng.choice([np.float32, np.float32, np.float64]))
    if nsubs == 1 and rng.random() < 0.8:
        a = a[0]
    dms = rng.sample(range(0, 4000), ndm)
    peaks = [[rng.choice(dms), rng.randint(400, 3000)] for _ in range(npeaks)]
    if rng.random() < 0.5:
        peaks.sort(key=lambda p: -p[1])
    cols = [('dm', [p[0] / 8 for p in peaks]), ('snr', [p[1] / 64 for p in peaks]),
            ('period', [rng.uniform(0.1, 2) for _ in peaks]), ('freq', [rng.uniform(0.5, 9) for _ in peaks]),
            ('width', [rng.randint(1, 40) for _ in peaks]), ('ducy', [rng.uniform(0.01, 0.5) for _ in peaks])]
    rng.shuffle(cols)
    df = pandas.DataFrame(dict(cols))
    if rng.random() < 0.3:
        df.index = rng.sample(range(100), len(df))
    pe = rng.choice([10**9, 10**10, 10**11, 10**12, 10**13, 10**14]) * rng.randint(1, 9) + rng.randrange(10**9)       # picoseconds
    dm, width, duty, snr = rng.randrange(0, 30000000), rng.randint(1, 500), rng.randrange(1, 500000), rng.randrange(5000, 900000)
    params = {'period': decimal(pe, 12), 'freq': 1.0 / decimal(pe, 12), 'dm': decimal(dm, 4), 'width': rng.choice([int, np.int64])(width),
              'ducy': decimal(duty, 6), 'snr': rng.choice([float, np.float64])(decimal(snr, 3))}
    tob = rng.choice([1, 3, 100, 536, 4096]) * rng.randint(1, 9)
    ra, dec = rng.choice([rng.randrange(0, 86390000), rng.randrange(0, 100000), 59995, 3599994]), rng.randrange(-323000000, 323000000)
    if rng.random() < 0.4:
        dec = rng.choice([-1, 1]) * rng.choice([12, 4000, 59990, 3599996, 120000])
    day = rng.choice([rng.randrange(41500, 66000), 51544, 60309, 59274, 59275, 51603, 51604, 60369])
    nano = rng.choice([rng.randrange(10**9), rng.randrange(10**9), 0, 999999, 499999999, 999999997, 500000000])
    sky = SkyCoord(ra=ra / 1000.0 * 15.0 / 3600.0, dec=dec / 1000.0 / 3600.0, unit='deg')
    if rng.random() < 0.2:
        sky = sky.galactic.icrs
    src = rng.choice(SOURCES)
    md = {'source_name': src, 'skycoord': sky, 'dm': decimal(dm, 4), 'mjd': decimal(day * 10**9 + nano, 9), 'tobs': float(tob), 'extra': [1]}
    for k in blank:
        md[k] = None
    want = {'Period': split(pe, 9), 'DM': split(dm, 4), 'Width': [width, 0], 'Duty cycle': split(duty, 4), 'S/N': split(snr, 3),
            'sky': [] if 'skycoord' in blank else [ra, dec],
            'mjd': [] if 'mjd' in blank else [day, nano, round(Fraction(nano * 864, 10**4))]}
    return Candidate(params, Metadata(md), df, a), rows, peaks, tob, want, ('' if 'source_name' in blank else src)


def frozen(c):
    return (repr(sorted((k, repr(v)) for k, v in c.params.items())), repr(sorted((k, repr(v)) for k, v in c.tsmeta.items())),
            c.peaks.to_json(double_precision=15), repr(list(c.peaks.columns)), c.subints.tobytes(), c.subints.shape, str(c.subints.dtype))


def number(t):
    m = re.fullmatch(r'(\d+)(?:\.(\d+))?', t)
    return {'kind': 'num', 'n': [int(m[1]), int(m[2] or 0)], 'k': len(m[2] or '')} if m and len(m[1]) < 9 and len(m[2] or '') < 9 else {'kind': 'bad'}


def angle(t):
    m = re.fullmatch(r'([+-]?)(\d{2}):(\d{2}):(\d{2})\.(\d{2})', t)
    return {'kind': 'angle', 'sign': -1 if m[1] == '-' else 1, 's': [int(x) for x in m.groups()[1:]]} if m else {'kind': 'blank' if t == '' else 'bad'}


def date(t):
    m = re.fullmatch(r'(\d{4})-(\d{2})-(\d{2})[ T](\d{2}):(\d{2}):(\d{2})', t)
    return {'kind': 'date', 's': [int(x) for x in m.groups()]} if m else {'kind': 'blank' if t == '' else 'bad'}


def table_of(ax, src):
    lines = {}
    for t in ax.texts:
        x, y = t.get_position()
        lines.setdefault(round(y, 4), []).append((x, t.get_text()))
    out = {}
    for y in lines:
        cells = [s for _, s in sorted(lines[y], key=lambda c: c[0])]
        if cells[0] in NAMES:
            name, val, unit = cells[0], (cells + [''])[1], (cells + ['', ''])[2]
            r = number(val) if name in NAMES[:5] else angle(val) if name in ('RA', 'Dec') else date(val) if name == 'UTC' else \
                {'kind': 'text', 'same': val == src} if name == 'Source' else ({'kind': 'blank'} if val == '' else number(val))
            r['unit'] = unit == '' if name not in UNIT else UNIT[name] in unit
            r['once'] = name not in out
            out[name] = r
    return out


def within(lim, lo, hi):
    a, b = sorted(lim)
    return bool(a <= lo and hi <= b)


def look(fig, tob, src):
    """what the figure shows"""
    img = bars = table = curve = None
    n = 0
    for ax in fig.axes:
        rect = [p for p in ax.patches if isinstance(p, Rectangle)]
        if ax.images:
            img, n = ax, n + 1
        elif len(ax.texts) > 5:
            table, n = ax, n + 1
        elif rect:
            bars, n = ax, n + 1
        elif ax.lines:
            curve, n = ax, n + 1
    ev = {'panels': n, 'axes': len(fig.axes)}
    if None in (img, bars, table, curve):
        return dict(ev, panels=-1)
    im = img.images[0]
    A = np.asarray(im.get_array())
    l, r, b, t = im.get_extent()
    if im.origin == 'lower':
        t, b = b, t
    ny, nx = A.shape
    xc = lambda c: fx(l + (c + 0.5) * (r - l) / nx, 1000)
    yc = lambda k: fx((t + (k + 0.5) * (b - t) / ny) / tob * ny, 1000)
    ev['image'] = {'rows': [[fx(v) for v in row] for row in A], 'x': [xc(c) for c in range(nx)], 'y': [yc(k) for k in range(ny)],
                   'seen': within(img.get_xlim(), -0.5, nx - 0.5) and within(img.get_ylim(), 0, tob)}
    R = sorted([p for p in bars.patches if isinstance(p, Rectangle)], key=lambda p: p.get_x())
    H = [p.get_height() + p.get_y() if p.get_y() != 0 else p.get_height() for p in R]
    ev['bars'] = {'h2': [fx(h, 2) for h in H], 'x': [fx(p.get_x() + p.get_width() / 2, 1000) for p in R],
                  'seen': within(bars.get_xlim(), -0.5, len(R) - 0.5) and within(bars.get_ylim(), min(H + [0]), max(H + [0]))}
    L = [(x, y) for x, y in zip(*curve.lines[0].get_data())]
    ev['curve'] = {'points': [[fx(x, 8), fx(y, 64)] for x, y in L], 'lines': len([q for q in curve.lines if len(q.get_xdata()) > 0]),
                   'seen': within(curve.get_xlim(), min(x for x, _ in L), max(x for x, _ in L)) and within(curve.get_ylim(), min(y for _, y in L), max(y for _, y in L))}
    ev['table'] = table_of(table, src)
    return ev


def via(c, how):
    if how == 'dict':
        return Candidate.from_dict(c.to_dict())
    if how == 'json':
        with tempfile.TemporaryDirectory() as d:
            save_json(os.path.join(d, 'c.json'), c)
            return load_json(os.path.join(d, 'c.json'))
    return c


def cand_case(rng, nsubs, nbins, npeaks, ndm, blank, how):
    def fn():
        c, rows, peaks, tob, want, src = make(rng, nsubs, nbins, npeaks, ndm, blank)
        c = via(c, how)
        old = plt.figure()
        before = frozen(c)
        size, dpi = rng.choice([((18, 4.5), 80), ((12, 3), 60), ((20, 6), 50)])
        fig = c.plot() if rng.random() < 0.3 else c.plot(figsize=size, dpi=dpi)
        ev = look(fig, tob, src)
        ev.update(e='candidate', untouched=frozen(c) == before, other=len(old.axes) == 0, of={'rows': rows, 'peaks': peaks, 'want': want})
        plt.close('all')
        return ev
    return fn


def pgram_case(rng, np_, nw, iwidth):
    def fn():
        widths = np.sort(np.array(rng.sample(range(1, 200), nw)))
        per = sorted(rng.sample(range(1, 10**6), np_))
        snrs = [[rng.choice([rng.randint(-50, 900), 7]) for _ in range(nw)] for _ in range(np_)]
        p = Periodogram(widths, np.array(per) / 1024.0, np.array([rng.randint(100, 200) for _ in per]), np.array(snrs, dtype=np.float32) / 64,
                        metadata=Metadata({'tobs': 100.0}))
        before = [p.widths.tobytes(), p.periods.tobytes(), p.foldbins.tobytes(), p.snrs.tobytes(), repr(sorted(p.metadata.items(), key=str))]
        shown = []
        if rng.random() < 0.4:
            real, plt.show = plt.show, lambda *a, **k: shown.append(plt.get_fignums())
            try:
                p.display(iwidth=iwidth) if iwidth is not None or rng.random() < 0.5 else p.display()
            finally:
                plt.show = real
            how, count = 'display', len(shown)
        else:
            fig = plt.figure()
            p.plot(iwidth=iwidth) if iwidth is not None or rng.random() < 0.5 else p.plot()
            how, count = 'plot', len(plt.get_fignums())
        fig = plt.gcf()
        ax = [a for a in fig.axes if a.lines]
        ev = {'e': 'periodogram', 'how': how, 'count': count, 'axes': len(ax), 'per': per, 'snrs': snrs,
              'iwidth': 0 if iwidth is None else (iwidth % nw) + 1,
              'width': 0 if iwidth is None else int(widths[iwidth])}
        if len(ax) == 1:
            L = [(float(x), float(y)) for x, y in zip(*ax[0].lines[0].get_data())]
            title = ax[0].get_title()
            m = re.search(r'(\d+)', title)
            ev['points'] = [[fx(x, 1024), fx(y, 64)] for x, y in L]
            ev['seen'] = within(ax[0].get_xlim(), min(x for x, _ in L), max(x for x, _ in L)) and within(ax[0].get_ylim(), min(y for _, y in L), max(y for _, y in L))
            ev['title'] = int(m[1]) if m else 0
        ev['untouched'] = before == [p.widths.tobytes(), p.periods.tobytes(), p.foldbins.tobytes(), p.snrs.tobytes(),
                                     repr(sorted(p.metadata.items(), key=str))]
        plt.close('all')
        return ev
    return fn


def hist_case(rng, nops):
    """figures opened, saved, closed: how many stay open, what files there are"""
    def fn():
        plt.close('all')
        evs = [{'e': 'start'}]
        cands = [make(rng, rng.choice([1, 4]), rng.randint(8, 40), 5, 3, [])[0] for _ in range(2)]
        d = tempfile.mkdtemp()
        mine, k = [], 0
        for _ in range(nops):
            op = rng.choice(['plot', 'savefig', 'savefig', 'savefig', 'figure', 'close', 'show'])
            if op == 'close' and not mine:
                op = 'savefig'
            c = rng.choice(cands)
            ev = {'e': 'step', 'op': op, 'png': True, 'shown': 0, 'drew': True}
            axes = [(f, len(f.axes)) for f in mine]
            if op == 'plot':
                f = c.plot(figsize=(9, 3), dpi=40)
                ev['drew'] = len(f.axes) >= 4
                mine.append(f)
            elif op == 'figure':
                mine.append(plt.figure())
            elif op == 'close':
                plt.close(mine.pop(rng.randrange(len(mine))))
            elif op == 'show':
                got, real = [], plt.show
                plt.show = lambda *a, **k: got.append(len(plt.gcf().axes))
                try:
                    c.show(figsize=(9, 3), dpi=40)
                finally:
                    plt.show = real
                ev['shown'] = len(got)
                ev['drew'] = bool(got) and got[-1] >= 4
                mine.append(plt.gcf())
            else:
                k += 1
                p = os.path.join(d, rng.choice([f'c{k}.png', 'same.png', f'c.{k}.x.png']))
                w, h, dpi = rng.choice([(9, 3, 40), (10, 4, 30)])
                c.savefig(p, figsize=(w, h), dpi=dpi)
                b = open(p, 'rb').read()
                ev['png'] = b[:8] == b'\x89PNG\r\n\x1a\n' and int.from_bytes(b[16:20], 'big') == w * dpi and int.from_bytes(b[20:24], 'big') == h * dpi \
                    and b[-8:-4] == b'IEND'
            ev['untouched'] = all(len(f.axes) == n for f, n in axes)
            ev['open'] = len(plt.get_fignums())
            evs.append(ev)
        plt.close('all')
        return evs
    return fn


def cases(ctx):
    r0 = ctx.rng('c28')
    import random
    sub = lambda: random.Random(r0.random())
    fixed = [(1, 1, 1, 1), (1, 2, 1, 1), (2, 1, 2, 1), (1, 3, 1, 1), (2, 2, 5, 2), (3, 5, 10, 3), (1, 255, 3, 2), (32, 256, 20, 8), (64, 101, 60, 40)]
    for i, (s, b, p, d) in enumerate(fixed):
        yield f'fixed/{i}', cand_case(sub(), s, b, p, d, [], 'direct')
    opt = ['source_name', 'skycoord', 'mjd']
    for i in range(8):
        yield f'blank/{i}', cand_case(sub(), 4, 16, 5, 2, [k for j, k in enumerate(opt) if i >> j & 1], 'direct')
    for i in range(ctx.n(70, 900)):
        r = sub()
        s, b = r.choice([1, 1, 2, 3, r.randint(1, 40)]), r.choice([r.randint(1, 12), r.randint(8, 64), r.randint(60, ctx.n(200, 600))])
        n = r.choice([1, 2, r.randint(1, 30)])
        yield f'random/{i}', cand_case(r, s, b, n, r.randint(1, max(1, n)), [k for k in opt if r.random() < 0.15],
                                       r.choice(['direct', 'direct', 'dict', 'json']))
    for i in range(ctx.n(60, 600)):
        r = sub()
        nw = r.choice([1, 2, r.randint(1, 12)])
        iw = r.choice([None, None, 0, nw - 1, r.randrange(nw), -1])
        yield f'periodogram/{i}', pgram_case(r, r.choice([1, 2, r.randint(2, 300)]), nw, iw)
    for i in range(ctx.n(8, 80)):
        yield f'figures/{i}', hist_case(sub(), 10)


if __name__ == '__main__':
    main(cases)
