"""C23: saving to and loading from JSON"""
import copy, os, struct
from fractions import Fraction as Fr
import numpy as np
import pandas
import matplotlib
import riptide
import astropy.units as uu
from astropy.coordinates import SkyCoord
from riptide import TimeSeries, Periodogram, Metadata, Candidate, save_json, load_json, ffa_search, find_peaks
from riptide.serialization import to_json, from_json
from drv import main, outcome
import pipe


def node(t, s='', b=(), k=(), c=()):
    return {'t': t, 's': s, 'b': list(b), 'k': list(k), 'c': list(c)}


def deg(x):
    f = Fr(float(x)) * 10**9
    r = round(f)
    return [r // 10**9, r % 10**9]


def tree(v):
    """exact description of a value"""
    if v is None:
        return node('none')
    if isinstance(v, (bool, np.bool_)):
        return node('bool' if isinstance(v, bool) else 'npbool', '', [int(v)])
    if isinstance(v, np.integer):
        return node('npint', str(int(v)))
    if isinstance(v, np.floating) and type(v) is not float:
        return node('npfloat', '', struct.pack('<d', float(v)) if v == v else [])
    if type(v) is int:
        return node('int', str(v))
    if type(v) is float:
        return node('float', '', struct.pack('<d', v) if v == v else [])
    if isinstance(v, str):
        return node('str', v)
    if isinstance(v, np.ndarray):
        return node('array', v.dtype.str, list(v.shape), c=[node('bytes', '', v.tobytes())])
    if isinstance(v, pandas.DataFrame):
        same = list(v.index) == list(range(len(v)))
        return node('table', 'plain' if same else 'index', [len(v)], [str(x) for x in v.columns],
                    [node('column', '', np.asarray(v[x], dtype=float).tobytes()) for x in v.columns])
    if isinstance(v, SkyCoord):
        return node('sky', '', deg(v.icrs.ra.deg) + deg(v.icrs.dec.deg))
    if isinstance(v, dict):
        ks = sorted(v)
        return node('dict', '', k=ks, c=[tree(v[k]) for k in ks])
    if isinstance(v, (list, tuple)):
        t = 'list' if isinstance(v, list) else 'tuple'
        return node(t, c=[tree(x) for x in v])
    at = {TimeSeries: ['data', 'metadata', 'tsamp'], Periodogram: ['foldbins', 'metadata', 'periods', 'snrs', 'widths'],
          Candidate: ['params', 'peaks', 'subints', 'tsmeta']}.get(type(v))
    if at:
        ver = getattr(v, 'version', None)
        ver = 'CURRENT' if ver is not None and ver == riptide.__version__ else ver
        return node(type(v).__name__, k=at + ['version'], c=[tree(getattr(v, a)) for a in at] + [tree(ver)])
    return node('other ' + type(v).__name__)


def arrays(v):
    """every array held by a value"""
    if isinstance(v, np.ndarray):
        yield v
    elif isinstance(v, dict):
        for x in v.values():
            yield from arrays(x)
    elif isinstance(v, (list, tuple)):
        for x in v:
            yield from arrays(x)
    elif isinstance(v, TimeSeries):
        yield v.data
    elif isinstance(v, Periodogram):
        yield from (v.widths, v.periods, v.foldbins, v.snrs)
    elif isinstance(v, Candidate):
        yield v.subints
        yield from arrays(v.params)


def spoil(v):
    """write to everything that can be written to; number of arrays that cannot"""
    bad = 0
    for a in arrays(v):
        try:
            a[...] = np.zeros((), dtype=a.dtype)
        except ValueError:
            bad += 1
    return bad


def rt_event(v, d, kw):
    f, g = os.path.join(d, 'a.json'), os.path.join(d, 'b.json')
    e = {'e': 'rt', 'orig': tree(v)}
    none = node('none')
    e.update(loaded=none, second=none, resaved=none, after=none, alone=none, unwritable=0)

    def go():
        save_json(f, v, **kw)
        e['after'] = tree(v)
        a = load_json(f)
        e['loaded'] = tree(a)
        b = from_json(to_json(v))
        e['second'] = tree(b)
        save_json(g, a)
        c = load_json(g)
        e['resaved'] = tree(c)
        e['unwritable'] = spoil(a)
        e['alone'] = tree(b)
        e['after'] = e['after'] if tree(v) == e['after'] else tree(v)
        return 1
    e['out'], _ = outcome(go)
    return e


DTYPES = ['f4', 'f8', '>f4', '>f8', 'i4', 'i8', '>i4', 'u1', 'i1', 'u2', 'f2', 'c8', 'c16', '?', 'S3', 'U2', 'u8']


def array(rng, dt=None, shape=None):
    dt = np.dtype(dt or rng.choice(DTYPES))
    shape = shape if shape is not None else rng.choice([(), (0,), (1,), (5,), (2, 3), (3, 1), (0, 4), (2, 2, 2), (1, 1)])
    n = int(np.prod(shape))
    if dt.kind in 'SU':
        a = np.array([rng.choice(['', 'a', 'bc']) for _ in range(n)]).astype(dt).reshape(shape)
    elif dt.kind == 'b':
        a = np.array([rng.random() < 0.5 for _ in range(n)], dtype=bool).reshape(shape)
    else:
        a = np.frombuffer(rng.randbytes(n * dt.itemsize), dtype=dt).reshape(shape).copy()
    if dt.kind == 'f' and a.size and rng.random() < 0.3:
        a.flat[0] = rng.choice([np.nan, np.inf, -np.inf, -0.0])
    return layout(rng, a)


def layout(rng, a):
    how = rng.choice(['c', 'f', 'rev', 'step', 't', 'ro'])
    if how == 'f':
        return np.asfortranarray(a)
    if how == 'rev' and a.ndim:
        return a[::-1]
    if how == 'step' and a.ndim:
        b = np.zeros((a.shape[0] * 2,) + a.shape[1:], dtype=a.dtype)
        b[::2] = a
        return b[::2]
    if how == 't' and a.ndim > 1:
        return a.T
    if how == 'ro':
        a = a.copy()
        a.setflags(write=False)
    return a


def sky(rng):
    ra, dec = rng.choice([0.0, 359.9999999, rng.uniform(0, 360)]), rng.choice([0.0, 90.0, -90.0, rng.uniform(-90, 90)])
    if rng.random() < 0.3:
        return SkyCoord(ra, dec, unit='deg', frame=rng.choice(['galactic', 'fk5']))
    if rng.random() < 0.3:
        return SkyCoord('01:02:03.456', '-00:00:01.5', unit=(uu.hour, uu.degree))
    return SkyCoord(ra, dec, unit='deg', frame='icrs')


SCALARS = [None, True, False, 0, -5, 2**40, 10**30, 0.1, -0.0, 1e-300, 1.7976931348623157e308, float('inf'), float('nan'), '', 'a"b\\n\n',
                       'é', '__type', -2**63, 0.30000000000000004, 5e-324]


NPSCALARS = [np.int64(-7), np.int32(5), np.uint8(255), np.float32(0.1), np.float64(0.1), np.float16(0.5), np.uint64(2**63), np.int64(2**40),
             np.float32(1e-40), np.float64(1e300), np.float32('nan'), np.int8(-128)]


def scalar(rng):
    return rng.choice(SCALARS + [rng.uniform(-1, 1), rng.random() * 1e-9])


def npscalar(rng):
    return rng.choice(NPSCALARS)


def nested(rng, depth, np_ok):
    r = rng.random()
    if depth == 0 or r < 0.3:
        return scalar(rng) if not np_ok or rng.random() < 0.7 else npscalar(rng)
    if r < 0.55:
        return [nested(rng, depth - 1, np_ok) for _ in range(rng.choice([0, 1, 2, 3]))]
    if r < 0.65:
        return tuple(nested(rng, depth - 1, np_ok) for _ in range(rng.choice([0, 1, 2])))
    if r < 0.8 or not np_ok:
        return {rng.choice(['a', 'data', 'shape', 'é', '', 'type', 'b c']): nested(rng, depth - 1, np_ok) for _ in range(rng.choice([0, 1, 2]))}
    return rng.choice([array, sky, table])(rng)


def table(rng):
    n = rng.choice([0, 1, 3])
    names = ['period', 'freq', 'dm', 'width', 'ducy', 'snr']
    if rng.random() < 0.5:
        names += [f'{a}{b}' for a in ('x', 'DM', 'col ', 'é', '_') for b in rng.sample(range(20), 3)]
    cols = rng.sample(names, min(len(names), rng.choice([1, 2, 6, 6, 7, 9, 14])))
    return pandas.DataFrame({c: [(rng.randrange(100) if c == 'width' else rng.uniform(0, 9)) for _ in range(n)] for c in cols},
                            columns=cols, dtype=float if n == 0 else None)


def metadata(rng):
    it = {'source_name': rng.choice([None, 'J0000']), 'skycoord': rng.choice([None, sky(rng)]), 'dm': rng.choice([None, 0.0, 12.345]),
          'mjd': rng.choice([None, 59000.123456789]), 'fname': rng.choice([None, '/a/b.inf'])}
    for k in ('extra', 'other'):
        if rng.random() < 0.6:
            it[k] = nested(rng, 2, False)
    return it


def ts_of(rng, n=None):
    n = n or rng.choice([1, 2, 64, 300])
    x = np.asarray([rng.gauss(3, 2) for _ in range(n)], dtype=np.float32)
    ts = TimeSeries(layout(rng, x), rng.choice([0.015625, 1e-3, 6.4e-5]), metadata=metadata(rng))
    return versioned(rng, ts)


def versioned(rng, o):
    if rng.random() < 0.3:
        o.version = rng.choice(['0.0.1', '99.1', '0.1.2+g12345'])
    return o


def pgram(rng):
    if rng.random() < 0.5:
        n = rng.choice([0, 1, 5])
        return versioned(rng, Periodogram(array(rng, 'i4', (2,)), array(rng, 'f8', (n,)), array(rng, 'u4', (n,)), array(rng, 'f4', (n, 2)),
                                          rng.choice([None, Metadata(metadata(rng))])))
    ts = ts_of(rng, 300)
    _, p = ffa_search(ts, period_min=10 * ts.tsamp, period_max=30 * ts.tsamp, bins_min=8, bins_max=9, deredden=False)
    return versioned(rng, p)


def cand(rng):
    k = {'period': 1.5, 'freq': 1 / 1.5, 'dm': 3.0, 'width': 4, 'ducy': 0.1, 'snr': np.float32(9.1)}
    rows = [dict(k, dm=float(i), snr=np.float32(i * 1.1), width=i, period=1.5 + i * 1e-9) for i in range(rng.choice([1, 2, 5]))]
    sub = array(rng, 'f4', rng.choice([(16,), (4, 16), (1, 8)]))
    return versioned(rng, Candidate(k, Metadata(metadata(rng)), pandas.DataFrame.from_dict(rows), sub))


def value(rng, i):
    o = rng.choice([ts_of, pgram, cand])
    kind = ['ts', 'pgram', 'cand', 'array', 'nested', 'mix', 'meta', 'table', 'sky'][i % 9]
    return {'ts': ts_of, 'pgram': pgram, 'cand': cand, 'array': array, 'table': table, 'sky': sky,
            'nested': lambda r: nested(r, 3, True), 'meta': lambda r: Metadata(metadata(r)),
            'mix': lambda r: {'x': [o(r), [o(r)], {'y': array(r)}], 'z': {'__version__': 'z', 'w': o(r)}, 's': sky(r)}}[kind](rng)


def rt_case(rng):
    def fn():
        with pipe.Scratch() as d:
            evs = []
            for i in range(9):
                kw = rng.choice([{}, {}, {'indent': None}, {'sort_keys': True}, {'indent': 0}])
                evs.append(rt_event(value(rng, i), d, kw))
            return evs
    return fn


def all_case(rng, part):
    """every scalar, and every dtype, shape and layout"""
    def fn():
        with pipe.Scratch() as d:
            evs = [rt_event({'x': [x]}, d, {}) for x in SCALARS + NPSCALARS] + [rt_event(x, d, {}) for x in NPSCALARS[:2]] if part == 0 else []
            for dt in DTYPES[part::4]:
                for sh in [(), (0,), (1,), (5,), (2, 3), (0, 4), (2, 2, 2)]:
                    evs.append(rt_event([array(rng, dt, sh) for _ in range(8)], d, {}))
            return evs
    return fn


def use_event(op, make, act):
    """act on a fresh original, and on the loaded copy of another fresh original"""
    none = node('none')
    e = {'e': 'use', 'op': op, 'a': none, 'b': none}
    x = make()
    y = from_json(to_json(make()))

    def run(o):
        r = act(o)
        t = tree([r, o])
        for q in [t] + t['c']:
            strip(q)
        return t
    e['outa'], a = outcome(lambda: run(x))
    e['outb'], b = outcome(lambda: run(y))
    e['a'], e['b'] = a or none, b or none
    return e


def strip(t):
    """leave versions and numpy scalar types out of the comparison of results"""
    if t['k'] and t['k'][-1] == 'version':
        t['k'], t['c'] = t['k'][:-1], t['c'][:-1]
    if t['t'] == 'npint':
        t['t'] = 'int'
    if t['t'] == 'npfloat':
        t['t'] = 'float'
    if t['t'] == 'tuple':
        t['t'] = 'list'
    for x in t['c']:
        strip(x)


def use_case(rng):
    def fn():
        evs = []
        n = rng.choice([256, 300, 1000])
        seed = rng.randrange(10**6)

        def mk():
            r = np.random.RandomState(seed)
            return TimeSeries(r.normal(size=n).astype(np.float32), 0.015625, metadata={'dm': 3.0, 'source_name': 'x', 'skycoord': SkyCoord(10, 20, unit='deg')})

        def mkp():
            return ffa_search(mk(), period_min=0.5, period_max=2.0, bins_min=16, bins_max=20, fpmin=1, rmed_width=1.0, rmed_minpts=21)[1]

        def mkc():
            r = np.random.RandomState(seed)
            rows = [{'period': 1.5, 'freq': 1 / 1.5, 'dm': float(i % 3), 'width': i, 'ducy': 0.1, 'snr': 9.0 + i} for i in range(6)]
            return Candidate(dict(rows[-1]), Metadata({'dm': 3.0, 'skycoord': SkyCoord(10, 20, unit='deg'), 'tobs': 5.0, 'mjd': 59000.5,
                                                       'source_name': 'x', 'fname': 'y'}), pandas.DataFrame.from_dict(rows),
                             r.normal(size=(4, 16)).astype(np.float32))
        ops = {'normalise': lambda t: t.normalise(), 'normalise inplace': lambda t: t.normalise(inplace=True),
               'deredden': lambda t: t.deredden(1.0, minpts=21), 'deredden inplace': lambda t: t.deredden(1.0, minpts=21, inplace=True),
               'downsample': lambda t: t.downsample(2.5), 'downsample inplace': lambda t: t.downsample(2, inplace=True),
               'fold': lambda t: t.fold(1.0, 16, subints=3), 'copy': lambda t: t.copy(), 'search': lambda t: list(ffa_search(
                   t, period_min=0.5, period_max=2.0, bins_min=16, bins_max=20, fpmin=1, rmed_width=1.0, rmed_minpts=21)),
               'assign': lambda t: t.data.__setitem__(slice(0, 3), 7.0), 'add': lambda t: np.add(t.data, 1.0, out=t.data) is None,
               'meta': lambda t: t.metadata.update(dm=9.0), 'str': str, 'tobs': lambda t: [t.tobs, t.length, t.nsamp]}
        for op, act in ops.items():
            evs.append(use_event(op, mk, act))
        pops = {'freqs': lambda p: p.freqs, 'tobs': lambda p: p.tobs, 'max': lambda p: p.snrs.max(axis=1), 'assign': lambda p: p.snrs.fill(0),
                'peaks': lambda p: [list(x) for x in find_peaks(p, smin=2.0)[0]], 'source': lambda p: p.metadata['source_name']}
        for op, act in pops.items():
            evs.append(use_event('periodogram ' + op, mkp, act))
        cops = {'profile': lambda c: c.profile, 'dm_curve': lambda c: list(c.dm_curve), 'str': str, 'assign': lambda c: c.subints.fill(0),
                'peaks': lambda c: c.peaks.sort_values('snr', ascending=False).snr.values, 'best': lambda c: c.params['period']}
        for op, act in cops.items():
            evs.append(use_event('candidate ' + op, mkc, act))
        return evs
    return fn


def plot_case(rng):
    def fn():
        with pipe.Scratch() as d:
            import matplotlib.pyplot as plt
            meta = {'dm': 3.0, 'skycoord': SkyCoord(10, 20, unit='deg'), 'tobs': 5.0, 'mjd': 59000.5, 'source_name': 'x', 'fname': 'y'}
            rows = [{'period': 1.5, 'freq': 1 / 1.5, 'dm': float(i % 3), 'width': i, 'ducy': 0.1, 'snr': 9.0 + i} for i in range(6)]
            mkc = lambda: Candidate(dict(rows[-1]), Metadata(meta), pandas.DataFrame.from_dict(rows), np.ones((4, 16), dtype=np.float32))
            f = os.path.join(d, 'a.png')
            return [use_event('plot', mkc, lambda c: c.savefig(f))]
    return fn


def cases(ctx):
    for i in range(ctx.n(24, 400)):
        yield f'rt/{i}', rt_case(ctx.rng(f'rt/{i}'))
    for i in range(4):
        yield f'all/{i}', all_case(ctx.rng(f'all/{i}'), i)
    for i in range(ctx.n(3, 12)):
        yield f'use/{i}', use_case(ctx.rng(f'use/{i}'))
    yield 'plot/0', plot_case(ctx.rng('plot'))


if __name__ == '__main__':
    main(cases)
