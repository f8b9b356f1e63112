"""C25: array arguments of any layout and type"""
import ctypes, itertools, os, tempfile
import numpy as np
import riptide
from riptide import (TimeSeries, Periodogram, Metadata, ffa_search, ffa1, ffa2, boxcar_snr, downsample, running_median,
                     fast_running_median, find_peaks)
from riptide import libcpp
from drv import main, outcome, iv, fx, BAD

libc = ctypes.CDLL(None)
DT = ['f4', 'f8', '>f4', '>f8', 'f2', 'g', 'i1', 'i2', 'i4', 'i8', '>i2', 'u1', 'u2', 'u4', 'u8', '?']


def disturb(k):
    """fresh memory is filled with different bytes at every call"""
    libc.mallopt(-6, (0x55, 0xAA, 0x3F, 0xC1)[k % 4])
    for n in SMALL:                                                # numpy keeps small blocks for itself: seven of each size
        for x in [np.empty(n, dtype=np.uint8) for _ in range(7)]:
            x.fill((k * 37 + 11) % 256)


SMALL = sorted(set(list(range(4, 164, 4)) + [4 * a * b for a in range(1, 8) for b in (4, 5, 9, 11, 12, 16, 17, 33) if a * b < 256]))


def poison(dt):
    dt = np.dtype(dt)
    return {'f': 1e4, 'i': 101, 'u': 101, 'b': True}[dt.kind] if dt.itemsize <= 2 else {'f': 1e30, 'i': 10**6, 'u': 10**6}[dt.kind]


FILL = None                                                        # what is around the values, if not poison


class Sub(np.ndarray):
    pass


def wrap(a, steps, offs, after, order=None):
    """view equal to a: storage of poison, with the axes of a strided by `steps` (negative: reversed)"""
    order = order or range(a.ndim)
    full = [a.shape[d] * abs(steps[d]) + offs[d] + after[d] for d in range(a.ndim)]
    total, pad = int(np.prod(full)), 2 * a.size + 16
    store = np.full(total + 2 * pad, poison(a.dtype) if FILL is None else FILL, dtype=a.dtype)
    view = store[pad:pad + total].reshape([full[d] for d in order]).transpose(np.argsort(list(order)))
    sel = []
    for d in range(a.ndim):
        s = abs(steps[d])
        idx = slice(offs[d], offs[d] + (a.shape[d] - 1) * s + 1, s)
        sel.append(idx)
    v = view[tuple(sel)]
    v = v[tuple(slice(None, None, -1 if steps[d] < 0 else 1) for d in range(a.ndim))]
    v[...] = a
    return v, store


def layouts(a, scratch=None):
    """(name, equal array, underlying storage)"""
    n = a.ndim
    one, zero = [1] * n, [0] * n
    yield ('slice',) + wrap(np.atleast_1d(a), one, [0] * (n - 1) + [0], zero) if n == 1 else ('whole',) + wrap(a, one, zero, zero)
    if n == 1:
        v, s = wrap(a, one, [37], [41])
        yield 'inside', v, s
    else:
        v, s = wrap(a, one, [2] + [0] * (n - 1), [3] + [0] * (n - 1))
        yield 'rows', v, s
        yield ('padded',) + wrap(a, one, [1] * n, [2] * n)
        yield ('fortran',) + wrap(a, one, zero, zero, list(range(n))[::-1])
        yield ('fortran padded',) + wrap(a, one, zero, [1] * n, list(range(n))[::-1])
        yield ('reversed rows',) + wrap(a, [-1] + [1] * (n - 1), zero, zero)
        yield ('skipped rows',) + wrap(a, [2] + [1] * (n - 1), zero, zero)
        if n == 3:
            yield ('swapped',) + wrap(a, one, zero, zero, [1, 0, 2])
            yield ('rolled',) + wrap(a, one, zero, zero, [2, 0, 1])
    yield ('strided',) + wrap(a, [1] * (n - 1) + [2], [0] * (n - 1) + [1], zero)
    yield ('strided 3',) + wrap(a, [1] * (n - 1) + [3], zero, zero)
    yield ('reversed',) + wrap(a, [-1] * n, zero, zero)
    yield ('reversed last',) + wrap(a, [1] * (n - 1) + [-1], [0] * (n - 1) + [4], [0] * (n - 1) + [4])
    yield ('reversed strided',) + wrap(a, [-2] * n, zero, zero)
    v, s = wrap(a, one, zero, zero)
    v.flags.writeable = False
    yield 'readonly', v, s
    v, s = wrap(a, [2] * n, zero, zero)
    v.flags.writeable = False
    yield 'readonly strided', v, s
    raw = np.full(a.nbytes + 24, 0x7e, dtype=np.uint8)
    v = raw[9:9 + a.nbytes].view(a.dtype).reshape(a.shape)
    v[...] = a
    yield 'unaligned', v, raw
    rec = np.zeros(a.shape, dtype=[('x', 'i1'), ('v', a.dtype), ('y', 'i2')])
    v = rec['v']
    v[...] = a
    yield 'field', v, rec
    v, s = wrap(a, one, zero, zero)
    yield 'subclass', v.view(Sub), s
    if scratch:
        m = np.memmap(os.path.join(scratch, 'mm'), dtype=a.dtype, mode='w+', shape=a.shape)
        m[...] = a
        yield 'memmap', m, m
    if a.size and np.all(a == a.ravel()[0]):
        s = np.full(1, a.ravel()[0])
        yield 'broadcast', np.broadcast_to(s, a.shape), s
    if n >= 2 and np.all(a == a[0]):
        s = np.array(a[0])
        yield 'broadcast rows', np.broadcast_to(s, a.shape), s


def leaves(r):
    """numbers and arrays of a result"""
    if isinstance(r, np.ndarray):
        return [r]
    if isinstance(r, TimeSeries):
        return [r.data, np.float64(r.tsamp), np.float64(r.metadata['tobs'])]
    if isinstance(r, Periodogram):
        return [r.widths, r.periods, r.foldbins, r.snrs]
    if isinstance(r, dict):
        return [x for k in sorted(r) for x in leaves(r[k])] + [np.array(sorted(r), dtype=float)]
    if isinstance(r, (list, tuple)):
        return [np.int64(len(r))] + [x for y in r for x in leaves(y)]
    return [np.asarray(r)]


def form(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and x.dtype == y.dtype for x, y in zip(a, b))


def dev(a, b):
    """largest difference, relative to the largest value, in 1e-7"""
    if len(a) != len(b):
        return BAD
    worst = 0
    for x, y in zip(a, b):
        if x.shape != y.shape:
            return BAD
        x, y = np.asarray(x, dtype=np.float64), np.asarray(y, dtype=np.float64)
        if not np.array_equal(np.isnan(x), np.isnan(y)):
            return BAD
        d = np.nanmax(np.abs(x - y), initial=0.0)
        s = np.nanmax(np.abs(y), initial=0.0)
        if d:
            worst = max(worst, min(BAD, fx(d / s if s else 1e9, 10**7)))
    return worst


def exact(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and x.dtype == y.dtype and np.ascontiguousarray(x).tobytes() == np.ascontiguousarray(y).tobytes()
                                    for x, y in zip(a, b))


def compare(fn, ref, a, store, plain, tol, shareable=()):
    before = store.tobytes()
    disturb(1)
    o1, r1 = outcome(lambda: fn(a))
    clean = store.tobytes() == before
    disturb(2)
    o2, r2 = outcome(lambda: fn(a))
    clean = clean and store.tobytes() == before
    ev = {'e': 'same', 'ref': ref[0], 'out': o1, 'plain': plain, 'clean': clean, 'rep': o1 == o2, 'shared': False, 'form': True, 'dev': 0, 'tol': tol}
    if o1 == 'ok' and o2 == 'ok' and ref[0] == 'ok':
        l1, l2, l0 = leaves(r1), leaves(r2), ref[1]
        ev['rep'] = exact(l1, l2)
        ev['shared'] = any(np.shares_memory(x, store) for x in l1) or any(np.shares_memory(x, y) for x in l1 for y in l2)
        ev['form'] = form(l1, l0)
        ev['dev'] = dev(l1, l0)
    return ev


def same_case(fn, shape, dts, seed, tol=20, small=False, only=None, transform=None, extreme=False):
    """fn at every layout of values of each type; the reference is fn of a contiguous float32 copy"""
    def case():
        rng = np.random.RandomState(seed)
        evs = []
        with tempfile.TemporaryDirectory(dir=os.environ['VERIF_SCRATCH']) as scratch:
            for dt in dts:
                k = np.dtype(dt).kind
                base = rng.normal(size=shape) * (4 if small else 20)
                if transform:
                    base = transform(base)
                if k == 'u':
                    base = np.abs(base)
                if k in 'iu':
                    base = np.rint(base)
                if k == 'b':
                    base = base > 0
                if extreme and k != 'b':
                    top = 30000 if k == 'f' else min(float(np.iinfo(dt).max), 2.0**40)
                    base = rng.choice([0.1, 0.5, 0.9, 0.99], size=shape) * top
                    base[rng.uniform(size=shape) < 0.3] *= 0.0 if k == 'u' else -1.0
                    base = np.rint(base)
                base = base.astype(dt)
                copy = np.ascontiguousarray(base.astype(np.float32))
                o, r = outcome(lambda: fn(copy))
                ref = (o, [np.array(x) for x in leaves(r)] if o == 'ok' else None)
                evs.append({**compare(fn, ref, copy, copy, True, tol), 'what': f'{dt} copy'})
                for name, a, store in layouts(base, scratch):
                    if only and name not in only:
                        continue
                    evs.append({**compare(fn, ref, a, store, False, tol), 'what': f'{dt} {name}'})
                evs.append({**compare(fn, ref, copy, copy, True, tol), 'what': f'{dt} copy again'})
        return evs
    return case


# ---------------------------------------------------------------- functions of one array
W1 = np.array([1, 2, 3, 5])


def ts_of(a):
    return TimeSeries(a, 0.01, metadata={'dm': 1.0})


def search(a, **kw):
    ts, pg = ffa_search(ts_of(a), period_min=0.2, period_max=0.4, bins_min=16, bins_max=20, rmed_width=0.4, rmed_minpts=11, fpmin=1, **kw)
    return [pg] if kw.get('already_normalised') else [ts, pg]


PG = {}


def pgram(a):
    """a periodogram with given S/N values"""
    m, nw = a.shape
    periods = 1.0 + np.arange(m) * 1e-3
    return Periodogram(np.arange(1, nw + 1), periods, np.full(m, 16, dtype=np.uint32), a, metadata=Metadata({'dm': 2.0, 'tobs': 300.0}))


def peaks(pg):
    pk, polycos = find_peaks(pg, smin=5.0, segwidth=5.0, minseg=3)
    return [np.array([list(p) for p in pk], dtype=float), {int(k): np.asarray(v) for k, v in polycos.items()}]


def spiky(base):
    base = np.abs(base) * 0.02
    base[len(base) // 3] += 15
    base[len(base) // 2] += 25
    return base


FUNCS = {
    'ffa2': (lambda a: ffa2(a), (7, 12), {}),
    'ffa2 rows': (lambda a: ffa2(a), (1, 9), {}),
    'ffa2 column': (lambda a: ffa2(a), (9, 1), {}),
    'ffa2 large': (lambda a: ffa2(a), (65, 130), {}),
    'ffa1': (lambda a: ffa1(a, 11), (98,), {}),
    'ffa1 whole': (lambda a: ffa1(a, 20), (20,), {}),
    'ffa1 one': (lambda a: ffa1(a, 1), (20,), {}),
    'snr 1d': (lambda a: boxcar_snr(a, W1), (16,), {}),
    'snr 2d': (lambda a: boxcar_snr(a, W1, stdnoise=2.5), (7, 11), {}),
    'snr 3d': (lambda a: boxcar_snr(a, W1), (3, 5, 9), {}),
    'snr 3d thin': (lambda a: boxcar_snr(a, W1), (3, 1, 9), {}),
    'snr short': (lambda a: boxcar_snr(a, np.array([1])), (4, 2), {}),
    'snr list': (lambda a: boxcar_snr(a, [1, 4]), (2, 8), {}),
    'downsample': (lambda a: downsample(a, 2.75), (100,), {}),
    'downsample little': (lambda a: downsample(a, 1.0625), (100,), {}),
    'downsample all': (lambda a: downsample(a, 17.0), (17,), {}),
    'running_median': (lambda a: running_median(a, 5), (60,), {}),
    'running_median 1': (lambda a: running_median(a, 1), (30,), {}),
    'running_median wide': (lambda a: running_median(a, 29), (30,), {}),
    'fast median exact': (lambda a: fast_running_median(a, 5, 101), (60,), {}),
    'fast median': (lambda a: fast_running_median(a, 31, 7), (131,), {'tol': 60}),
    'fast median 2': (lambda a: fast_running_median(a, 22, 11), (90,), {'tol': 60}),
    'fast median 1': (lambda a: fast_running_median(a, 1), (40,), {}),
    'fast median 1 of 3': (lambda a: fast_running_median(a, 1, 3), (41,), {}),
    'fast median 3': (lambda a: fast_running_median(a, 3, 3), (41,), {}),
    'libcpp.rollback 0': (lambda a: libcpp.rollback(a, 0), (33,), {}),
    'libcpp.rollback whole': (lambda a: libcpp.rollback(a, 2 * len(a)), (33,), {}),
    'libcpp.circular_prefix_sum 1': (lambda a: libcpp.circular_prefix_sum(a, 1), (33,), {}),
    'libcpp.circular_prefix_sum whole': (lambda a: libcpp.circular_prefix_sum(a, len(a)), (33,), {}),
    'libcpp.fused_rollback_add 0': (lambda a: libcpp.fused_rollback_add(a, a, 0), (33,), {}),
    'snr equal': (lambda a: boxcar_snr(a, [3, 3], stdnoise=2.0), (4, 8), {}),
    'ffa1 two': (lambda a: ffa1(a, 10), (20,), {}),
    'ffa2 one': (lambda a: ffa2(a), (1, 1), {}),
    'libcpp.rollback': (lambda a: libcpp.rollback(a, 5), (33,), {}),
    'libcpp.rollback far': (lambda a: libcpp.rollback(a, 1000), (33,), {}),
    'libcpp.circular_prefix_sum': (lambda a: libcpp.circular_prefix_sum(a, 100), (33,), {}),
    'libcpp.fused_rollback_add': (lambda a: libcpp.fused_rollback_add(a, a, 7), (33,), {}),
    'libcpp.fused_rollback_add 2': (lambda a: libcpp.fused_rollback_add(np.arange(33, dtype='f4'), a, 40), (33,), {}),
    'libcpp.ffa2': (lambda a: libcpp.ffa2(a), (8, 5), {}),
    'libcpp.snr1': (lambda a: libcpp.snr1(a, W1), (17,), {}),
    'libcpp.snr2': (lambda a: libcpp.snr2(a, W1, 0.5), (5, 17), {}),
    'libcpp.downsample': (lambda a: libcpp.downsample(a, 1.5), (50,), {}),
    'libcpp.running_median': (lambda a: libcpp.running_median(a, 7), (50,), {}),
    'libcpp.periodogram': (lambda a: libcpp.periodogram(a, 0.01, W1, 0.2, 0.4, 16, 20), (400,), {}),
    'TimeSeries.normalise': (lambda a: ts_of(a).normalise(), (200,), {}),
    'TimeSeries.deredden': (lambda a: ts_of(a).deredden(0.21, minpts=7), (200,), {'tol': 60}),
    'TimeSeries.deredden exact': (lambda a: ts_of(a).deredden(0.07), (200,), {}),
    'TimeSeries.deredden 1': (lambda a: ts_of(a).deredden(0.01), (200,), {}),
    'TimeSeries.fold whole': (lambda a: ts_of(a).fold(0.25, 5, subints=1), (25,), {}),
    'TimeSeries.fold one': (lambda a: TimeSeries(a, 0.0078125).fold(0.0078125 * a.size, a.size // 2), (25,), {}),
    'TimeSeries.downsample': (lambda a: ts_of(a).downsample(3.5), (200,), {}),
    'TimeSeries.downsample little': (lambda a: ts_of(a).downsample(1.03125), (200,), {}),
    'TimeSeries.fold': (lambda a: ts_of(a).fold(0.25, 10), (200,), {}),
    'TimeSeries.fold 1': (lambda a: ts_of(a).fold(0.25, 10, subints=1), (200,), {}),
    'TimeSeries.fold 3': (lambda a: ts_of(a).fold(0.25, 10, subints=3), (200,), {}),
    'TimeSeries.fold all': (lambda a: ts_of(a).fold(0.25, 12, subints=8), (200,), {}),
    'TimeSeries copy': (lambda a: TimeSeries(a, 0.5, copy=True), (20,), {}),
    'TimeSeries copy 2': (lambda a: TimeSeries.from_numpy_array(a, 0.5, copy=True), (20,), {}),
    'TimeSeries.copy()': (lambda a: TimeSeries(a, 0.5).copy(), (20,), {}),
    'ffa_search': (lambda a: search(a), (400,), {'tol': 300}),
    'ffa_search plain': (lambda a: search(a, deredden=False), (400,), {'tol': 300}),
    'ffa_search normalised': (lambda a: search(a, deredden=False, already_normalised=True), (400,), {'tol': 100}),
    'find_peaks': (lambda a: peaks(pgram(a)), (300, 3), {'tol': 1000, 'transform': spiky}),
    'find_peaks one width': (lambda a: peaks(pgram(a)), (300, 1), {'tol': 1000, 'transform': spiky}),
}


def widths_case(fn):
    """layouts and types of trial widths"""
    def case():
        global FILL
        FILL = 4                                                   # a valid width, but not a wanted one
        evs = []
        rng = np.random.RandomState(3)
        x = rng.normal(size=(4, 16)).astype(np.float32)
        vals = np.array([3, 1, 2, 5])
        o, r = outcome(lambda: fn(x, vals.astype(np.uint64)))
        ref = (o, [np.array(y) for y in leaves(r)] if o == 'ok' else None)
        for dt in ['u8', 'f4', 'f8', 'i1', 'i2', 'i4', 'i8', '>i4', 'u1', 'u2', 'u4', '>u8', 'f2', 'g']:
            for name, a, store in layouts(vals.astype(dt)):
                evs.append({**compare(lambda w: fn(x, w), ref, a, store, False, 20), 'what': f'{dt} {name}'})
        FILL = None
        return evs
    return case


def axes_case():
    """periods, bins and widths of a periodogram in any layout"""
    evs = []
    rng = np.random.RandomState(5)
    m, nw = 300, 3
    base = {'widths': np.arange(1, nw + 1), 'periods': 1.0 + np.arange(m) * 1e-3, 'foldbins': np.full(m, 16, dtype=np.uint32),
            'snrs': spiky(rng.normal(size=(m, nw)) * 20).astype(np.float32)}
    md = {'dm': 2.0, 'tobs': 300.0}
    run = lambda d: peaks(Periodogram(d['widths'], d['periods'], d['foldbins'], d['snrs'], metadata=Metadata(md)))
    o, r = outcome(lambda: run(base))
    ref = (o, [np.array(y) for y in leaves(r)] if o == 'ok' else None)
    for key, dts in (('widths', ['i4', 'i8', 'u8', 'u1']), ('periods', ['f8', '>f8', 'g']), ('foldbins', ['u4', 'i8', 'u1', 'u2'])):
        for dt in dts:
            for name, a, store in layouts(base[key].astype(dt)):
                evs.append({**compare(lambda x: run({**base, key: x}), ref, a, store, False, 1000), 'what': f'{key} {dt} {name}'})
    return evs


# ---------------------------------------------------------------- functions of integers, as memory and views
KERN = {'roll': lambda a, b, n: libcpp.rollback(a, n), 'rolladd': lambda a, b, n: libcpp.fused_rollback_add(a, b, n),
        'prefix': lambda a, b, n: libcpp.circular_prefix_sum(a, n), 'median': lambda a, b, n: running_median(a, n) if a.size % 2 else fast_running_median(a, n),
        'groups': lambda a, b, n: downsample(a, float(n)), 'rows': lambda a, b, n: ffa2(a)}


def view_of(rng, mem, shape):
    """random view: (array, description)"""
    n = len(mem)
    for _ in range(1000):
        strides, span = [], 0
        kind = rng.random()
        for d in range(len(shape)):
            cont = int(np.prod(shape[d + 1:]))
            s = cont if kind < 0.35 else rng.choice([cont, cont, -cont, 2 * cont, -2 * cont, cont + 1, 0, 1, 3])
            strides.append(s)
        lo = sum(min(0, s * (k - 1)) for s, k in zip(strides, shape))
        hi = sum(max(0, s * (k - 1)) for s, k in zip(strides, shape))
        if hi - lo < n:
            off = rng.randint(-lo, n - 1 - hi)
            v = np.lib.stride_tricks.as_strided(mem[off:], shape, [s * mem.itemsize for s in strides]) if lo == 0 else \
                np.ndarray(shape, mem.dtype, mem, off * mem.itemsize, [s * mem.itemsize for s in strides])
            return v, {'off': off, 'shape': list(shape), 'strides': strides}
    raise RuntimeError('no view')


def kernel_case(rng, count):
    def case():
        evs = []
        for i in range(count):
            f = rng.choice(list(KERN))
            dt = rng.choice(['f4', 'f4', 'f4', 'f8', '>f4', 'i2', 'i4', 'i8', 'u1', 'i1'])
            n = rng.randint(1, 14)
            hi = 5 if dt in ('u1', 'i1') else 1000
            mem = np.array([rng.randint(0, hi) for _ in range(rng.randint(n, 40))]).astype(dt)
            shape = (1, n) if f == 'rows' else (n,)
            if f in ('median', 'groups') and n < 2:
                continue
            arg = {'roll': rng.choice([0, 1, n, rng.randint(0, 3 * n), 10**6 + 1]), 'prefix': rng.randint(1, 4 * n),
                   'median': rng.randrange(1, n, 2) if n > 1 else 1, 'groups': rng.randint(2, n) if n > 1 else 2, 'rows': 0}.get(f, rng.randint(0, 3 * n))
            a, da = view_of(rng, mem, shape)
            views = [da]
            b = None
            if f == 'rolladd':
                b, db = view_of(rng, mem, shape)
                views.append(db)
            if rng.random() < 0.3:
                a.flags.writeable = False
            before = [iv(x) for x in mem]
            disturb(1)
            o, r = outcome(lambda: KERN[f](a, b, arg))
            disturb(2)
            o2, r2 = outcome(lambda: KERN[f](a, b, arg))
            val = lambda r: [iv(x) for x in np.asarray(r).ravel()] if isinstance(r, np.ndarray) and r.dtype == np.float32 and \
                r.shape == ((1, n) if f == 'rows' else (len(r),)) else [BAD]
            evs.append({'e': 'kernel', 'f': f, 'mem': before, 'views': views, 'arg': arg, 'out': o, 'plain': dt == 'f4' and a.flags.writeable,
                        'res': val(r) if o == 'ok' else [], 'again': val(r2) if o2 == 'ok' else [], 'after': [iv(x) for x in mem],
                        'shared': bool(o == 'ok' and (np.shares_memory(r, mem) or (o2 == 'ok' and np.shares_memory(r, r2))))})
        return evs
    return case


def large_case(fn, shape, seed):
    """sizes at which memory of the wrong kind runs out"""
    def case():
        a = np.random.RandomState(seed).normal(size=shape).astype(np.float32)
        o, r = outcome(lambda: fn(a))
        ref = (o, [np.array(x) for x in leaves(r)] if o == 'ok' else None)
        return [{**compare(fn, ref, a, a, True, 20), 'what': 'large'}]
    return case


LARGE = {
    'snr': (lambda a: boxcar_snr(a, [1, 7, 1000]), (3000000,)),
    'snr rows': (lambda a: boxcar_snr(a, [1, 7]), (200000, 9)),
    'ffa2 tall': (lambda a: ffa2(a), (60000, 10)),
    'ffa2 wide': (lambda a: ffa2(a), (3, 1000000)),
    'ffa1': (lambda a: ffa1(a, 250), (2**21,)),
    'downsample': (lambda a: downsample(a, 1.37), (3000000,)),
    'running_median': (lambda a: running_median(a, 101), (100000,)),
    'running_median wide': (lambda a: running_median(a, 3001), (30000,)),
    'prefix': (lambda a: libcpp.circular_prefix_sum(a, 2500000), (1000000,)),
    'fold': (lambda a: ts_of(a).fold(1000.0, 50000), (500000,)),
    'fold rows': (lambda a: ts_of(a).fold(0.5, 25), (500000,)),
    'search': (lambda a: libcpp.periodogram(a, 1e-3, W1, 300.0, 300.4, 30000, 30010), (1000000,)),
}


def cases(ctx):
    seeds = ctx.n(1, 6)
    for s in range(seeds):
        for name, (fn, shape, opt) in FUNCS.items():
            rng = ctx.rng(f'{name}{s}')
            base = ctx.seed * 1000 + s
            for j, dts in enumerate([['f4'], DT[1:6], DT[6:11], DT[11:]]):
                yield f'same/{name}/{s}/{j}', same_case(fn, shape, dts, base, **opt)
            # values near the ends of the range of each type
            if 'transform' not in opt:
                yield f'ends/{name}/{s}', same_case(fn, shape, DT[4:5] + DT[6:], base, **{**opt, 'extreme': True, 'only': ('slice', 'strided', 'whole')})
            # equal values: arrays repeated without a copy
            flat = {**opt, 'transform': (lambda b: b * 0 + 3.0), 'only': ('broadcast', 'broadcast rows')}
            if not name.startswith(('find', 'TimeSeries.normalise', 'ffa_search')):
                yield f'flat/{name}/{s}', same_case(fn, shape, ['f4', 'f8', 'i4'], base, **flat)
            # other sizes
            for j in range(ctx.n(2, 6)):
                if len(shape) == 1 and not name.startswith(('ffa1', 'ffa_s', 'downsample all', 'libcpp.fused_rollback_add 2')):
                    sh = (shape[0] + rng.randint(1, 40),)
                elif name.startswith(('ffa2', 'libcpp.ffa2', 'snr 2d', 'libcpp.snr2')):
                    sh = (rng.randint(1, 40), shape[1] + rng.randint(0, 30))
                else:
                    continue
                yield f'size/{name}/{s}/{j}', same_case(fn, sh, ['f4', rng.choice(DT[1:])], base + j, **opt)
    yield 'widths/boxcar_snr', widths_case(lambda x, w: boxcar_snr(x, w))
    yield 'widths/snr1', widths_case(lambda x, w: libcpp.snr1(x[0], w))
    yield 'widths/snr2', widths_case(lambda x, w: libcpp.snr2(x, w))
    yield 'widths/periodogram', widths_case(lambda x, w: libcpp.periodogram(np.resize(x, 500), 0.01, w, 0.2, 0.4, 16, 20))
    yield 'axes', axes_case
    for name, (fn, shape) in LARGE.items():
        yield f'large/{name}', large_case(fn, shape, ctx.seed)
    for i in range(ctx.n(24, 240)):
        yield f'kernel/{i}', kernel_case(ctx.rng(f'k{i}'), 100)


if __name__ == '__main__':
    main(cases)
