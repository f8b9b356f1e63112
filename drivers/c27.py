"""C27: time series made from arrays, raw files and the generator"""
import math, os, tempfile
from fractions import Fraction as Fr
import numpy as np
from riptide import TimeSeries, Metadata
from riptide.libffa import generate_signal
from drv import main, outcome, iv, fx, BAD
import pipe

DT = ['f4', 'f8', '>f4', '>f8', 'f2', 'i1', 'i2', '>i2', 'i4', '>i4', 'i8', 'u1', 'u2', 'u4', 'u8']


def made_case(rng, count):
    def fn():
        evs = []
        with tempfile.TemporaryDirectory(dir=os.environ['VERIF_SCRATCH']) as d:
            for _ in range(count):
                dt = np.dtype(rng.choice(DT))
                n = rng.choice([1, 2, 3, rng.randint(4, 60), rng.randint(60, 400)])
                top = 120 if dt.itemsize == 1 else 2000
                den = rng.choice([1, 4, 8]) if dt.kind == 'f' else 1
                vals = [rng.randint(0 if dt.kind == 'u' else -top, top) for _ in range(n)]
                a = (np.array(vals, dtype=float) / den).astype(dt)
                k = rng.choice([1, 1024, 65, 20000, 2**20, rng.randint(1, 10**6)])
                ts = rng.choice([float, float, np.float64])(k / 2**20)
                if k == 2**20 and rng.random() < 0.5:
                    ts = 1
                e = {'e': 'made', 'how': rng.choice(['init', 'array', 'list', 'tuple', 'npy', 'raw', 'raw']), 'vals': vals, 'tsamp': k, 'copy': False,
                     'dt': dt.str}
                before = a.copy()
                if e['how'] in ('init', 'array'):
                    v = a if rng.random() < 0.5 else np.repeat(a, 2)[::2]
                    e['copy'] = rng.random() < 0.5
                    make = (lambda: TimeSeries(v, ts, copy=e['copy'])) if e['how'] == 'init' else (lambda: TimeSeries.from_numpy_array(v, ts, copy=e['copy']))
                elif e['how'] in ('list', 'tuple'):
                    v = (list if e['how'] == 'list' else tuple)(x / den for x in vals)
                    e['copy'] = rng.random() < 0.5
                    make = lambda: TimeSeries.from_numpy_array(v, ts, copy=e['copy'])
                else:
                    p = os.path.join(d, rng.choice(['x', 'x.dat', 'a b.npy', 'x.npy', 'y.bin']))
                    if e['how'] == 'npy':
                        if not p.endswith('.npy'):
                            p += '.npy'
                        np.save(p, a)
                        make = lambda: TimeSeries.from_npy_file(p, ts)
                    else:
                        a.tofile(p)
                        typ = rng.choice([dt, dt.str])
                        if dt.str == '<f4' and rng.random() < 0.5:
                            make = lambda: TimeSeries.from_binary(p, ts)
                        else:
                            make = lambda: TimeSeries.from_binary(p, ts, dtype=typ)
                e['out'], t = outcome(make)
                e.update(got=[], f32=False, nsamp=-1, gottsamp=-1, length=-1, tobs=-1, shared=False, pure=True)
                undo = pipe.clobber(p) if e['out'] == 'ok' and e['how'] in ('npy', 'raw') else lambda: None   # data are those read then
                if e['out'] == 'ok':
                    e['got'] = [iv(x * den) for x in t.data.astype(float)] if t.data.ndim == 1 else []
                    e['f32'] = t.data.dtype == np.float32
                    e['nsamp'], e['gottsamp'] = t.nsamp, iv(t.tsamp * 2**20)
                    e['length'], e['tobs'] = big31(t.length), big31(t.metadata['tobs'])
                    if big31(t.tobs) != e['length']:
                        e['tobs'] = -1
                    if e['copy'] and isinstance(v, np.ndarray):
                        e['shared'] = bool(np.shares_memory(t.data, v))
                    e['pure'] = bool(np.array_equal(a, before))
                undo()
                evs.append(e)
        return evs
    return fn


def big31(x):
    return iv(x * 2**20)


def train_case(rng, count):
    def fn():
        evs = []
        for _ in range(count):
            evs.append(train(rng))
        return evs
    return fn


def train(rng):
    a = rng.choice([2, 3, 4, 6, 8, 12, 16, 24, 30, 48, 60, 64, 96, 120, 7, 15, 45, 101])
    b = rng.choice([1, 1, 1] + [q for q in (2, 3, 5, 7) if math.gcd(a, q) == 1 and a > 2 * q])
    j0 = rng.choice([0, a // 2, rng.randrange(a), rng.randrange(a)])
    turns = rng.choice([0, 0, 0, 1, -1, 5])
    # width: at a place of the grid, or anywhere
    ducy = rng.choice([Fr(2 * rng.randint(1, max(1, a // 6)), a), Fr(rng.randint(1, 60), 100), Fr(rng.choice([1, 2, 5, 10, 50]), 100), Fr(1, 3), Fr(1, 2)])
    ducy = min(ducy, Fr(3, 4))
    n = a * rng.choice([1, 1, 2, 3]) + rng.choice([0, 0, 1, a // 2])
    n = max(n, a, 2)
    far = rng.random() < 0.08                                      # the end of a long series
    if far:
        n += a * (rng.choice([40000, 300000]) // a)
    amp = rng.choice([1, 10, 1000, Fr(1, 2), 7])
    # sampling time and length in units 2^-20 s or of decimals; the length is not always whole
    ts = rng.choice([1024, 16384, 65, 1000, 10**5, 3] if not far else [64, 3, 50])
    frac = rng.choice([0, 0, Fr(1, 4), -Fr(1, 4), Fr(3, 8), -Fr(3, 8)])
    dec = rng.random() < 0.4
    unit = 10**6 if dec else 2**20
    e = {'e': 'train', 'a': a, 'b': b, 'j0': j0, 'n': -1, 'ts': 8 * ts, 'len': int(8 * ts * (n + frac)), 'hn': (ducy / 2).numerator, 'hd': (ducy / 2).denominator,
         'attrs': True, 'neg': False, 'norm': 0, 'repeat': True, 'lg': [], 'first': 0, 'one': 1, 'cap': 1, 'how': rng.choice(['series', 'series', 'function'])}
    tsamp, length = ts / unit, e['len'] / 8 / unit
    phi0 = j0 / a + turns
    kw = dict(phi0=phi0, ducy=float(ducy), amplitude=float(amp), stdnoise=0.0)
    if j0 * 2 == a and not turns and rng.random() < 0.5:
        del kw['phi0']
    if amp == 10 and rng.random() < 0.5:
        del kw['amplitude']
    if ducy == Fr(1, 50) and rng.random() < 0.5:
        del kw['ducy']
    if e['how'] == 'series':
        make = lambda: TimeSeries.generate(length, tsamp, a * ts / b / unit if not dec else a / b * tsamp, **kw)
    else:
        make = lambda: TimeSeries(generate_signal(n, a / b, **kw), tsamp)
        e['len'] = 8 * ts * n
    e['out'], t = outcome(make)
    if e['out'] != 'ok':
        return e
    x = t.data.astype(float)
    e['n'] = t.nsamp
    e['attrs'] = bool(t.data.ndim == 1 and t.data.dtype == np.float32 and t.tsamp == tsamp and t.metadata['tobs'] == t.tobs == t.nsamp * tsamp and
                      (e['how'] != 'series' or t.metadata['source_name'] == 'fake'))
    e['repeat'] = bool(np.array_equal(make().data, t.data))
    if not x.size or not np.all(np.isfinite(x)) or not np.max(x) > 0:
        e['neg'] = True
        return e
    e['neg'] = bool(np.any(x < 0))
    e['norm'] = fx(math.sqrt(float(np.sum(x * x))) / float(amp), 10**6)
    with np.errstate(divide='ignore'):
        e['first'] = max(0, t.nsamp - a - 1) if far else 0
        x, top = x[e['first']:], np.max(x)
        lg = np.log2(top / np.abs(x))
    lg[x < 1e-30] = 1e9                                            # float32 is less accurate there
    m = 2**15 if np.max(lg) > 1e8 else max(1.0, float(np.max(lg)))
    one = 2**14
    while one * np.max(np.where(lg > 1e8, 0, lg)) >= 2**15 and one > 256:
        one //= 2
    e['one'], e['cap'] = one, 2**24
    e['lg'] = [min(2**24, int(round(v * one))) if v < 1e8 else 2**24 for v in lg]
    return e


def noise_case(rng, count):
    def fn():
        evs = []
        for _ in range(count):
            np.random.seed(rng.randrange(2**31))
            n = 20000
            s = rng.choice([1.0, 1.0, 0.25, 3.0, 100.0])
            amp = rng.choice([0.0, 10.0, 1000.0, 5.0])
            kw = dict(phi0=rng.random(), ducy=rng.choice([0.02, 0.1, 0.5]), amplitude=amp)
            per = rng.uniform(5, 400)
            std = {} if s == 1.0 and rng.random() < 0.5 else {'stdnoise': s}
            e = {'e': 'noise', 'z': [], 'fresh': True, 's': fx(s, 100), 'amp': int(amp)}
            make = lambda **q: TimeSeries.generate(n * 0.001, 0.001, per * 0.001, **kw, **q).data.astype(float) if e['how'] == 'series' else \
                np.asarray(generate_signal(n, per, **kw, **q), dtype=float)
            e['how'] = rng.choice(['series', 'function'])
            e['out'], x = outcome(lambda: make(**std))
            if e['out'] == 'ok':
                clean = make(stdnoise=0.0)
                r = (x - clean) / s
                m, v = r.mean(), r.var()
                q = (r - m) / math.sqrt(v) if v > 0 else r * 0
                z = [m * math.sqrt(n), (v - 1) * math.sqrt(n / 2), (q**3).mean() * math.sqrt(n / 6), ((q**4).mean() - 3) * math.sqrt(n / 24),
                     (q[1:] * q[:-1]).mean() * math.sqrt(n), (q[2:] * q[:-2]).mean() * math.sqrt(n), (r[:n // 2].mean() - r[n // 2:].mean()) * math.sqrt(n) / 2,
                     (np.log((r[:n // 2]**2).mean() / max(1e-9, (r[n // 2:]**2).mean())) * math.sqrt(n) / 2 / math.sqrt(2))]
                if amp:
                    z.append((r * clean).sum() / math.sqrt((clean**2).sum()))
                e['z'] = [max(-10**6, min(10**6, fx(y, 100))) for y in z]
                e['fresh'] = bool(np.abs(make(**std) - x).max() > 0)
            evs.append(e)
        return evs
    return fn


def cases(ctx):
    for k in range(ctx.n(40, 400)):
        yield f'made/{k}', made_case(ctx.rng(f'm{k}'), 20)
    for k in range(ctx.n(60, 600)):
        yield f'train/{k}', train_case(ctx.rng(f't{k}'), 15)
    for k in range(ctx.n(16, 160)):
        yield f'noise/{k}', noise_case(ctx.rng(f'n{k}'), 4)


if __name__ == '__main__':
    main(cases)
