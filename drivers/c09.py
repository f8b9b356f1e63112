"""C09: histories of TimeSeries operations generated by TLC, replayed in the real code"""
import json, os, tempfile
import numpy as np
from astropy.coordinates import SkyCoord
import riptide
from riptide import TimeSeries
from riptide.metadata import Metadata
from drv import main, fx, BAD

UNITS = 4096


class World:
    def __init__(self, rng):
        self.exact, self.approx, self.dicts = {}, [], []
        self.rng = rng
        self.objs = []

    def x(self, a):
        a = np.ascontiguousarray(a)
        return self.exact.setdefault((a.shape, str(a.dtype), a.tobytes()), len(self.exact) + 1)

    def a(self, a):
        """identity of the samples up to rounding errors"""
        a = np.asarray(a, dtype=np.float64)
        for i, b in enumerate(self.approx):
            if a.shape == b.shape and np.allclose(a, b, rtol=1e-5, atol=1e-5 * max(1e-30, float(np.max(np.abs(b), initial=0))), equal_nan=True):
                return i + 1
        self.approx.append(a.copy())
        return len(self.approx)

    def m(self, d):
        d = {k: v for k, v in dict(d).items() if k != 'tobs'}
        s = sorted((k, repr(v), type(v).__name__) for k, v in d.items())
        if s not in self.dicts:
            self.dicts.append(s)
        return self.dicts.index(s) + 1

    def observe(self, o, t0):
        err = 0
        n, t = len(o.data), o.tsamp
        for v in (o.tobs, o.length, o.metadata['tobs']):
            e = fx(v / (n * t) - 1, 10**12) if v is not None and n else BAD
            err = max(err, abs(e))
        u = o.tsamp / t0 * UNITS
        return {'x': self.x(o.data), 'a': self.a(o.data), 't': round(u) if abs(u - round(u)) < 1e-6 else BAD,
                'n': int(o.nsamp) if o.nsamp == len(o.data) and o.data.ndim == 1 else BAD, 'm': self.m(o.metadata),
                'f32': bool(o.data.dtype == np.float32 and isinstance(o.data, np.ndarray)), 'tob': err}


DTYPES = [np.float32, np.float32, np.float32, np.float64, np.int16, np.int64]


def build(w, rng, arr, t0, d, copy, scratch):
    """build an object; returns object, metadata expected"""
    if not copy:
        if d is not None or rng.random() < 0.5:
            return TimeSeries(arr, t0, metadata=d, copy=False), d
        if rng.random() < 0.3:
            return TimeSeries.from_numpy_array(arr, t0), None
        return TimeSeries.from_numpy_array(arr, t0, copy=False), None
    c = rng.random()
    if c < 0.4:
        return TimeSeries(arr, t0, metadata=d, copy=True), d
    if c < 0.6:
        return TimeSeries.from_numpy_array(arr, t0, copy=True), None
    if c < 0.7:
        return TimeSeries(arr, t0, copy=True), None
    f = os.path.join(scratch, 'data.bin')
    if c < 0.85:
        arr.tofile(f)
        if arr.dtype == np.float32 and rng.random() < 0.5:
            return TimeSeries.from_binary(f, t0), None
        return TimeSeries.from_binary(f, t0, dtype=arr.dtype), None
    np.save(f + '.npy', arr)
    return TimeSeries.from_npy_file(f + '.npy', t0), None


def history_case(rng, hist):
    def fn():
        with tempfile.TemporaryDirectory(dir=os.environ['VERIF_SCRATCH']) as scratch:
            return replay(rng, hist, scratch)
    return fn


def replay(rng, hist, scratch):
    w = World(rng)
    n0 = rng.choice([64, 97, 150, 256, 301, 500])
    t0 = rng.choice([1.0, 0.5, 1e-3, 64e-6, 0.1, 256e-6])
    dtype = rng.choice(DTYPES)
    arr = np.array([rng.gauss(0, 3) for _ in range(n0)]) * 4 + rng.choice([0, 0, 50, 1000])
    arr = arr.astype(dtype)
    c = rng.random()
    if c < 0.25:                                     # an array that does not own its memory
        big = np.full(n0 + 20, 77, dtype)
        big[7:7 + n0] = arr
        arr = big[7:7 + n0]
    elif c < 0.4 and all(h['copy'] for h in hist if h['op'] == 'new'):
        big = np.full(3 * n0, 77, dtype)
        big[1::3] = arr
        arr = big[1::3] if rng.random() < .5 else big[1::3][::-1][::-1]
    elif c < 0.5:
        arr = np.frombuffer(bytearray(arr.tobytes()), dtype)
    d = rng.choice([None, {'source_name': 'J0001', 'dm': 12.5, 'mjd': 55000.25, 'extra': [1, 2], 'nested': {'a': 1}},
                    {'skycoord': SkyCoord(10.0, -20.0, unit='deg'), 'fname': 'x.dat', 'dm': None, 'tobs': 1.0},
                    Metadata({'source_name': 'meta', 'telescope': 'GBT', 'tobs': 12.0, 'dm': 0.0})])
    ws = rng.choice([5, 7, 11, 15, 21, 31])
    dered = (ws * t0, rng.choice([101, ws, 3, 5]))
    bins = rng.choice([4, 8, 10])
    pf = rng.choice([1.0, 1.5, 2.25, 3.0, 4.0])
    sub = rng.choice([None, None, 1, 2])
    P = float(t0 * bins * pf * 1.0000001)
    did = lambda: w.m(d) if d is not None else 0
    dtob = lambda: 0 if d is None else hash((repr(d.get('tobs')), d is None)) % 1000003
    evs = [{'e': 'start', 'arr': w.x(arr), 'dict': did() * 7 + dtob() % 7}]
    m_none = w.m({k: None for k in ('source_name', 'skycoord', 'dm', 'mjd', 'fname')})
    full = lambda dd: w.m({**{k: None for k in ('source_name', 'skycoord', 'dm', 'mjd', 'fname')}, **dd}) if dd is not None else m_none
    objs = w.objs
    for h in hist:
        op, i = h['op'], h['i']
        if i and i > len(objs):
            break                                    # an earlier operation of the history was refused
        ev = {'e': 'step', 'op': op, 'i': i, 'inplace': h['inplace'], 'copy': h['copy'], 'num': h['num'], 'den': h['den'],
              'par': 0, 'out': 'ok', 'ret': '', 'may': False, 'want': 0, 't0': UNITS, 'n0': n0, 'm0': 0, 'flat': False,
              'mean': 0, 'var': 0, 'fresh': True, 'res': 0}
        o = objs[i - 1] if i else None
        before = None
        r = None
        try:
            if op == 'new':
                r, dd = build(w, rng, arr, t0, d, h['copy'], scratch)
                objs.append(r)
                ev['want'] = w.a(arr.astype(np.float32))
                ev['m0'] = full(dd)
            elif op == 'write':
                o.data[rng.randrange(len(o.data))] += 17
            elif op == 'array':
                arr[rng.randrange(n0)] += 9
            elif op == 'meta':
                k = rng.choice(['source_name', 'note', 'extra', 'dm', 'telescope'])
                v = float(rng.randint(1, 99)) if k == 'dm' else f'v{rng.randint(1, 99)}'
                ev['want'] = w.m({**dict(o.metadata), k: v})
                o.metadata[k] = v
            elif op == 'fold':
                before = o.data
                ev['may'] = not (P > 1.000001 * bins * o.tsamp and P * (sub or 1) * 1.001 < o.length)
                y = o.fold(P, bins) if sub is None and rng.random() < .5 else o.fold(P, bins, subints=sub)
                ev['fresh'] = not any(np.shares_memory(y, z.data) for z in objs) and not np.shares_memory(y, arr)
                ev['res'] = w.a(y)
            elif op == 'copy':
                r = o.copy()
            else:
                kw = {'inplace': True} if h['inplace'] else rng.choice([{}, {'inplace': False}])
                if op == 'normalise':
                    ev['flat'] = bool(np.asarray(o.data, float).std() < 1e-6 * (1e-30 + np.abs(o.data).max()))
                    r = o.normalise(**kw)
                elif op == 'deredden':
                    ev['may'] = o.tsamp != t0
                    if dered[1] == 101 and rng.random() < .5:
                        r = o.deredden(dered[0], **kw)
                    else:
                        r = o.deredden(dered[0], minpts=dered[1], **kw)
                else:
                    ev['par'] = h['num'] * 8 + h['den']
                    r = o.downsample(h['num'] / h['den'], **kw)
        except ValueError as ex:
            ev['out'] = 'ValueError'
        if op in ('normalise', 'deredden', 'downsample', 'copy') and ev['out'] == 'ok':
            ev['ret'] = 'none' if r is None else 'object' if isinstance(r, TimeSeries) else type(r).__name__
            if isinstance(r, TimeSeries) and r is not o and not h['inplace']:
                objs.append(r)
            if op == 'normalise':
                z = (o if h['inplace'] else r).data.astype(float)
                ev['mean'], ev['var'] = fx(z.mean(), 10**6), fx(z.var(), 10**6)
        ev['obs'] = [w.observe(z, t0) for z in objs]
        ev['arr'], ev['dict'] = w.x(arr), did() * 7 + dtob() % 7
        bufs = [arr] + [z.data for z in objs]
        ev['sh'] = [[a, b] for a in range(len(bufs)) for b in range(a + 1, len(bufs)) if np.shares_memory(bufs[a], bufs[b])]
        if any(objs[a].metadata is objs[b].metadata for a in range(len(objs)) for b in range(a)):
            ev['sh'].append([len(objs), len(objs)])
        if any(z.metadata is d for z in objs):
            ev['sh'].append([0, len(objs)])
        evs.append(ev)
        if ev['out'] == 'ok' and len(objs) and any(len(z.data) == 0 for z in objs):
            break
    return evs


def S(op, i=1, inplace=False, num=1, den=1, copy=False):
    return {'op': op, 'i': i, 'copy': copy, 'num': num, 'den': den, 'inplace': inplace}


def cases(ctx):
    if ctx.opts.gen:
        for k, h in enumerate(json.load(open(ctx.opts.gen))):
            yield f'gen/{k}', history_case(ctx.rng(f'g{k}'), h)
    ops = [('normalise', 1, 1), ('deredden', 1, 1), ('downsample', 2, 1), ('downsample', 3, 2)]
    k = 0
    for rep in range(ctx.n(2, 20)):
        for pre in [None] + ops:
            for x in ops:
                for copy in (True, False):
                    h = [S('new', 0, copy=copy)]
                    if pre:
                        h.append(S(pre[0], 1, True, pre[1], pre[2]))
                    out = S(x[0], 1, False, x[1], x[2])
                    h += [out, dict(out), S('copy', 1), S(x[0], 1, True, x[1], x[2]), S('meta', 2), S('write', 2), S('write', 1),
                          S('fold', 1), S('fold', 4), S(x[0], 4, True, x[1], x[2]), S('meta', 4), S('fold', 4), S('array', 0)]
                    k += 1
                    yield f'pair/{k}', history_case(ctx.rng(f'p{k}'), h)


if __name__ == '__main__':
    main(cases)
