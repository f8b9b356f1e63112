"""C26: metadata"""
import collections, copy, json, math, os, pickle, tempfile
import numpy as np
from astropy.coordinates import SkyCoord
from riptide import TimeSeries, Metadata, Candidate, Periodogram, ffa_search
from riptide.peak_detection import Peak
from riptide.pipeline.peak_cluster import PeakCluster
from drv import main, outcome, fx, BAD
import pipe

RES = ['source_name', 'skycoord', 'dm', 'mjd', 'tobs', 'fname']
SKY = [SkyCoord(10.0, -20.0, unit='deg'), SkyCoord('05h34m31.9s +22d00m52s'), SkyCoord(l=120, b=5, unit='deg', frame='galactic')]


class Odd:
    def __eq__(self, other):
        return type(other) is Odd
    __hash__ = None


class Sub(dict):
    pass


def loop():
    x = [1]
    x.append(x)
    return x


# kind: values.  Everything that is not a string, a float, an integer or a SkyCoord is either "json" or "nojson"
VALUES = {
    'none': [None],
    'str': ['J0534+2200', '', 'a "quoted" \n é \u2603', np.str_('np'), '1.5', 'None'],
    'neg': [-1.0, -5e-324, -1e300, np.float64(-3.5), float('-inf')],
    'zero': [0.0, -0.0, np.float64(0)],
    'pos': [1.0, 5e-324, 56.71, 1.7e308, np.float64(3.25), 1e-3],
    'nan': [float('nan'), np.float64('nan')],
    'inf': [float('inf'), np.float64('inf')],
    'int': [1, 0, -1, 12, 10**30],
    'bool': [True, False],
    'json': [[], [1, 2.5, None], (1, 2), {}, {'a': {'b': [True]}}, {1: 2}, [[['x']]], ('a', ('b',)), collections.OrderedDict(z=1)],
    'nojson': [{1, 2}, set(), b'bytes', 1 + 2j, Odd(), object(), np.arange(3), np.float32(1.5), np.int64(4), np.bool_(True), [1, {2}],
               {'a': {'b': b'x'}}, {(1, 2): 3}, range(3), frozenset(), loop(), np.zeros(0), (np.float32(1),), lambda x: x, int,
               np.datetime64('2020-01-01')],
    'sky': SKY,
}
KINDS = list(VALUES)


def kind(v):
    if v is None:
        return 'none'
    if isinstance(v, str):
        return 'str'
    if isinstance(v, bool):
        return 'bool'
    if isinstance(v, int):
        return 'int'
    if isinstance(v, float):
        return 'nan' if v != v else 'neg' if v < 0 else 'zero' if v == 0 else 'inf' if math.isinf(v) else 'pos'
    if isinstance(v, SkyCoord):
        return 'sky'
    try:
        json.dumps(v)
        return 'json'
    except Exception:
        return 'nojson'


def equal(a, b):
    if a is b:
        return True
    if isinstance(a, SkyCoord) or isinstance(b, SkyCoord):
        return isinstance(a, SkyCoord) and isinstance(b, SkyCoord) and repr(a) == repr(b)
    if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
        return True
    try:
        return bool(a == b)
    except Exception:
        return False


def shot(d):
    return [(k, id(v), repr(v)) for k, v in d.items()]


def build_case(src, values, how):
    """values: list of (key, kind, value)"""
    def fn():
        items = {k: v for k, _, v in values}
        if how == 'sub':
            items = Sub(items)
        elif how == 'ordered':
            items = collections.OrderedDict(items)
        elif how == 'metadata':
            md = Metadata({})
            for k, v in items.items():
                md[k] = v
            items = md
        before = shot(items)
        make = {'from_dict': lambda: Metadata.from_dict(items), 'series': lambda: TimeSeries(np.zeros(5), 2.0, metadata=items).metadata}
        out, m = outcome(make.get(how, lambda: Metadata(items)))
        listed = [(k, items[k]) for k in items] if how == 'metadata' else [(k, v) for k, _, v in values]
        kof = {k: kd for k, kd, _ in values}
        ev = {'e': 'build', 'src': 'items', 'out': out, 'clean': shot(items) == before, 'kinds': {}, 'items': []}
        rec = []
        for k, v in listed:
            key = k if isinstance(k, str) else 'KEY ' + repr(k)
            rec.append({'k': key, 'kind': kof.get(k, 'none'), 'same': False, 'eq': False, 'key': k, 'v': v})
        if out == 'ok':
            ev['kinds'] = {(k if isinstance(k, str) else 'KEY ' + repr(k)): kind(v) for k, v in m.items()}
            if how == 'series':                       # a TimeSeries knows better
                rec = [r for r in rec if r['k'] != 'tobs']
                rec.append({'k': 'tobs', 'kind': 'pos', 'key': 'tobs', 'v': 10.0})
            for r in rec:
                if r['key'] in m:
                    w = m[r['key']]
                    r['same'] = type(w) is type(r['v']) and equal(w, r['v'])
                    r['eq'] = equal(w, r['v'])
            if not isinstance(m, Metadata) or m is items or not isinstance(m, dict) or m.to_dict() != dict(m) or type(m.to_dict()) is not dict:
                ev['e'] = 'not a Metadata of its own'
        for r in rec:
            r.pop('key'), r.pop('v')
        ev['items'] = rec
        return ev
    return fn


def odd_case(items, how):
    """things that are not a dict with string keys"""
    def fn():
        before = repr(items)
        out, m = outcome(lambda: Metadata(items) if how == 'md' else TimeSeries(np.zeros(5), 2.0, metadata=items).metadata)
        bad = out == 'ok' and any(kind(v) == 'nojson' or (kind(v) == 'sky' and k != 'skycoord') for k, v in m.items())
        return {'e': 'build' if not bad else 'value that cannot be written accepted', 'src': 'odd', 'out': out, 'clean': repr(items) == before,
                'kinds': {str(k): kind(v) for k, v in m.items()} if out == 'ok' else {}, 'items': []}
    return fn


def file_case(fmt, hdr):
    """headers with unusual values: whatever is accepted is valid"""
    def fn():
        with tempfile.TemporaryDirectory(dir=os.environ['VERIF_SCRATCH']) as d:
            data = np.arange(hdr.pop('n', 8), dtype=np.float32)
            if fmt == 'presto':
                p = pipe.write_presto(d, 'x', data, **hdr)
                load = [lambda: Metadata.from_presto_inf(p), lambda: TimeSeries.from_presto_inf(p).metadata]
            else:
                kw = dict(hdr)
                ek = kw.pop('extra_keys', {})
                p = pipe.write_sigproc(os.path.join(d, 'x.tim'), data, **kw)
                load = [lambda: Metadata.from_sigproc(p, extra_keys=ek), lambda: TimeSeries.from_sigproc(p, extra_keys=ek).metadata]
            evs = []
            for f in load:
                out, m = outcome(f)
                bad = out == 'ok' and any(kind(v) == 'nojson' or (kind(v) == 'sky' and k != 'skycoord') for k, v in m.items())
                evs.append({'e': 'build' if not bad else 'value that cannot be written accepted', 'src': 'file', 'out': out, 'clean': True,
                            'kinds': {k: kind(v) for k, v in m.items()} if out == 'ok' else {}, 'items': []})
            return evs
    return fn


class World:
    def __init__(self):
        self.vals = [None]

    def v(self, x):
        for i, y in enumerate(self.vals):
            if type(x) is type(y) and equal(x, y):
                return i
        self.vals.append(copy.deepcopy(x))
        return len(self.vals) - 1

    def m(self, d, tobs=False):
        return {str(k): self.v(x) for k, x in d.items() if k != 'tobs' or tobs}

    def obs(self, md, n, t):
        e = fx(md['tobs'] / (n * t) - 1, 10**12) if isinstance(md.get('tobs'), float) else BAD
        kinds = {k: kind(md[k]) if k in md else 'nojson' for k in RES}
        ok = all(kinds[k] in ('none', 'str') for k in ('source_name', 'fname')) and kinds['skycoord'] in ('none', 'sky') and \
            all(kinds[k] in ('none', 'zero', 'pos') for k in ('dm', 'mjd')) and kinds['tobs'] == 'pos'
        return {'m': self.m(md), 'tob': e, 'valid': bool(ok and isinstance(md, Metadata))}


def history_case(rng, hist):
    def fn():
        with tempfile.TemporaryDirectory(dir=os.environ['VERIF_SCRATCH']) as d:
            return replay(rng, hist, d)
    return fn


def replay(rng, hist, scratch):
    w = World()
    n0 = rng.choice([400, 601, 1024])
    t0 = rng.choice([0.01, 2.0**-8, 64e-6 * 100])
    arr = np.array([rng.gauss(0, 3) for _ in range(n0)], dtype=rng.choice([np.float32, np.float64]))
    some = {'dm': rng.choice([None, 0.0, 12.5]), 'extra': rng.choice([[1, 2], 'text', None, {'a': [3.5]}])}
    if rng.random() < 0.5:
        some['skycoord'] = SKY[0]
    if rng.random() < 0.5:
        some['tobs'] = rng.choice([None, 1.0, 77.0])
    if rng.random() < 0.3:
        some['source_name'] = 'B1919+21'
    callers = [dict(some), Metadata(some)]
    if rng.random() < 0.3:
        callers[0]['mjd'] = 50000.25
    seen = lambda: [w.m(c, True) for c in callers]
    objs = []
    evs = [{'e': 'start', 'callers': seen()}]
    pf = pipe.write_presto(scratch, 'p', arr.astype(np.float32), dm=3.5, tsamp=repr(t0), source='PSR', mjd='56000.5')
    sf = pipe.write_sigproc(os.path.join(scratch, 's.tim'), arr.astype(np.float32), tsamp=t0, dm=7.25)
    k = 0
    for h in hist:
        op, i, key, inplace = h['op'], h['i'], h['key'], h['inplace']
        k += 1
        ev = {'e': 'step', 'op': op, 'i': i, 'key': key, 'inplace': inplace, 'value': 0, 'given': {}, 'products': [], 'out': 'ok'}
        o = objs[i - 1] if op not in ('new', 'caller') else None
        try:
            if op == 'new':
                if key in ('dict', 'meta'):
                    src = callers[0 if key == 'dict' else 1]
                    ev['given'] = w.m(src)
                    if key == 'dict' and rng.random() < 0.3:
                        r = TimeSeries.from_dict({'data': arr, 'tsamp': t0, 'metadata': src})
                    else:
                        r = TimeSeries(arr, t0, metadata=src, copy=rng.random() < 0.5)
                elif key == 'none':
                    r = TimeSeries(arr, t0)
                elif key == 'numpy':
                    f = os.path.join(scratch, 'a')
                    c = rng.random()
                    if c < 0.4:
                        r = TimeSeries.from_numpy_array(arr, t0, copy=rng.random() < 0.5)
                    elif c < 0.7:
                        arr.tofile(f)
                        r = TimeSeries.from_binary(f, t0, dtype=arr.dtype)
                    else:
                        np.save(f + '.npy', arr)
                        r = TimeSeries.from_npy_file(f + '.npy', t0)
                elif key == 'generate':
                    r = TimeSeries.generate(n0 * t0, t0, 20 * t0, amplitude=5.0, ducy=0.1, phi0=0.25)
                    ev['given'] = w.m({'source_name': 'fake', 'signal_shape': 'Von Mises', 'signal_period': 20 * t0,
                                       'signal_initial_phase': 0.25, 'signal_duty_cycle': 0.1})
                elif key == 'presto':
                    r = TimeSeries.from_presto_inf(pf)
                    ev['given'] = {**w.m(r.metadata), **w.m({'dm': 3.5, 'mjd': 56000.5, 'source_name': 'PSR', 'fname': os.path.realpath(pf)})}
                else:
                    r = TimeSeries.from_sigproc(sf)
                    ev['given'] = {**w.m(r.metadata), **w.m({'dm': 7.25, 'fname': os.path.realpath(sf)})}
                objs.append(r)
            elif op in ('copy', 'again', 'dict'):
                if op == 'copy':
                    r = rng.choice([lambda: o.copy(), lambda: copy.deepcopy(o), lambda: pickle.loads(pickle.dumps(o))])()
                elif op == 'again':
                    r = TimeSeries(o.data, o.tsamp, metadata=o.metadata, copy=rng.random() < 0.5)
                else:
                    r = TimeSeries.from_dict(o.to_dict())
                objs.append(r)
            elif op in ('normalise', 'deredden', 'downsample'):
                a = {'normalise': (), 'deredden': (rng.choice([7, 11]) * o.tsamp,), 'downsample': (rng.choice([2, 1.5, 1.25]),)}[op]
                if op == 'downsample' and len(o.data) < 60:
                    a = (1.0,)
                r = getattr(o, op)(*a, inplace=inplace)
                if not inplace:
                    objs.append(r)
            elif op == 'set':
                key = ev['key'] = rng.choice({'dm': ['dm', 'dm', 'mjd', 'source_name', 'skycoord', 'fname'], 'extra': ['extra', 'new', 'other']}[key])
                v = {'dm': 100.0 + k, 'mjd': 100.0 + k, 'skycoord': SkyCoord(float(k), 5.0, unit='deg'), 'extra': [k]}.get(key, f'set {k}')
                o.metadata[key] = v
                ev['value'] = w.v(v)
            elif op == 'caller':
                v = {'dm': 200.0 + k, 'extra': [k, k]}[key]
                callers[i - 1][key] = v
                ev['value'] = w.v(v)
            elif op == 'search':
                t = o.tsamp
                kw = dict(period_min=20 * t, period_max=30 * t, bins_min=16, bins_max=20, fpmin=1)
                for k2 in rng.choice([[{}], [{'deredden': False}], [{'deredden': False, 'already_normalised': True}]]):
                    ts, pg = ffa_search(o, rmed_width=7 * t, rmed_minpts=7, **{**kw, **k2})
                    for x in (ts, pg):
                        ev['products'].append(w.obs(x.metadata, len(ts.data), ts.tsamp))
                    if pg.tobs != pg.metadata['tobs']:
                        ev['e'] = 'tobs of the periodogram'
            else:
                pk = Peak(period=20.0 * o.tsamp, freq=1 / (20.0 * o.tsamp), width=3, ducy=0.1, iw=1, ip=10, snr=10.0, dm=5.0)
                c = Candidate.from_pipeline_output(o, PeakCluster([pk], rank=0), 10, subints=rng.choice([None, 1, 4]))
                ev['products'].append(w.obs(c.tsmeta, len(o.data), o.tsamp))
        except Exception as e:
            ev['out'] = type(e).__name__
        ev['obs'] = [w.obs(o.metadata, len(o.data), o.tsamp) for o in objs]
        ev['callers'] = seen()
        evs.append(ev)
        if ev['out'] != 'ok':
            break
    return evs


def cases(ctx):
    keys = RES + ['extra']
    hows = ['plain', 'from_dict', 'sub', 'ordered', 'metadata', 'series']
    n = 0
    for how in hows:
        for key in keys:
            for kd in KINDS:
                for j, v in enumerate(VALUES[kd]):
                    if how not in ('plain', 'series') and not ctx.thorough and (n := n + 1) % 3:
                        continue
                    if how == 'series' and key == 'tobs':
                        continue
                    yield f'one/{how}/{key}/{kd}/{j}', build_case('items', [(key, kd, v)], how)
    rng = ctx.rng('many')
    extra = ['nsamp', 'a', 'A b', '', 'é', 'telescope', 'data', 'items', 'dm_', 'Dm', 'DM', '__type__', 'skycoord_', 'self']
    for i in range(ctx.n(400, 8000)):
        vals = []
        good = rng.random() < 0.6
        for k in rng.sample(RES, rng.randint(0, 6)) + rng.sample(extra, rng.randint(0, 6)):
            if good or rng.random() < 0.7:
                ok = {'source_name': ['none', 'str'], 'fname': ['none', 'str'], 'skycoord': ['none', 'sky'], 'dm': ['none', 'zero', 'pos'],
                      'mjd': ['none', 'zero', 'pos'], 'tobs': ['none', 'pos']}.get(k, ['none', 'str', 'neg', 'zero', 'pos', 'nan', 'inf', 'int', 'bool', 'json'])
            else:
                ok = KINDS
            kd = rng.choice(ok)
            vals.append((k, kd, rng.choice(VALUES[kd])))
        rng.shuffle(vals)
        how = rng.choice(hows)
        if how == 'series':
            vals = [x for x in vals if x[0] != 'tobs']
        yield f'many/{i}', build_case('items', vals, how)
    odd = [[], [('dm', 1.0)], None, 5, 'text', 1.5, [['dm', -1.0]], {1: 2}, {1: {2}}, {None: b'x'}, {b'dm': -1.0}, {(1, 2): {3}}, {1.5: object},
           {'dm': 1.0, 2: {3}}, {True: set()}, {'a': 1, None: 2}, {'dm'}, (('dm', 'x'),)]
    for i, x in enumerate(odd):
        for how in ('md', 'ts'):
            yield f'odd/{i}/{how}', odd_case(x, how)
    heads = [dict(dm=x) for x in (-1.0, 0.0, -0.0, 5.5)] + [dict(mjd=x) for x in ('-5.5', '0.0', '60000.25')] + \
        [dict(tsamp=x) for x in ('-1.0', '0.5')] + [dict(n=0), dict(n=1), dict(source=''), dict(source='None')]
    for i, hd in enumerate(heads):
        yield f'presto/{i}', file_case('presto', dict(hd))
    heads = [dict(dm=x) for x in (-1.0, 0.0, -0.0, 5.5, None)] + [dict(tsamp=x) for x in (-1.0, 0.5)] + [dict(n=0), dict(n=1)]
    for i, hd in enumerate(heads):
        yield f'sigproc/{i}', file_case('sigproc', dict(hd))
    hists = json.load(open(ctx.opts.gen))
    for i, h in enumerate(hists):
        yield f'hist/{i}', history_case(ctx.rng(f'h{i}'), h)


if __name__ == '__main__':
    main(cases)
