"""C21: SIGPROC files"""
import os, struct
import numpy as np
import riptide
from riptide import TimeSeries, Metadata
from riptide.reading import SigprocHeader
from drv import main, outcome, fx, iv
import pipe

INTS = ["telescope_id", "machine_id", "data_type", "barycentric", "pulsarcentric", "nsamples", "nifs", "nbeams",
        "ibeam", "hdrlen", "orig_hdrlen", "new_hdrlen", "sampsize"]
FLOATS = ["az_start", "za_start", "fch1", "foff", "fchannel", "flux", "period", "pb", "ecc", "asini", "bandwidth", "fbottom",
          "ftop", "accel"]
STRS = ["filename", "telescope", "rawdatafile", "obs_date", "obs_time"]
PYT = {'int': int, 'float': float, 'str': str, 'bool': bool}


def rep(v):
    """[type, exact value] of a metadata item"""
    if v is None:
        return 'none', []
    if type(v) is bool:
        return 'bool', [int(v)]
    if type(v) is int:
        return ('int', [v]) if -2**31 <= v < 2**31 else ('long', [])
    if isinstance(v, float):
        return 'float', list(struct.pack('<d', v))
    if isinstance(v, str):
        return 'str', list(v.encode())
    return type(v).__name__, []


def coord(rng, dec):
    """sign, degrees / hours, minutes, 1e-4 seconds, and the float that codes them"""
    sg = rng.choice([1, 1, -1, -1]) if dec else rng.choice([1, 1, 1, -1])
    h = rng.choice([0, 0, 1, 9, 10, 59 if dec else 23, 89 if dec else 12]) if rng.random() < 0.5 else rng.randrange(90 if dec else 24)
    m = rng.choice([0, 0, 1, 59, rng.randrange(60)])
    s = rng.choice([0, 0, 1, 599999, rng.randrange(600000)])
    return [sg, h, m, s], sg * (h * 10000 + m * 100 + s / 10000)


def read_event(path, raw, extra, kind, ra, dec, fra, fdec):
    py = {k: PYT[t] for k, t in extra}
    e = {'e': 'sig', 'kind': kind, 'file': list(raw), 'extra': [{'k': k, 't': t} for k, t in extra], 'path': os.path.realpath(path),
         'ra': ra, 'dec': dec, 'raw_ra': list(struct.pack('<d', fra)), 'raw_dec': list(struct.pack('<d', fdec)), 'got': []}
    if kind == 'ts':
        e['out'], o = outcome(lambda: TimeSeries.from_sigproc(path, extra_keys=py) if py else TimeSeries.from_sigproc(path))
    elif kind == 'meta':
        e['out'], o = outcome(lambda: Metadata.from_sigproc(path, extra_keys=py) if py else Metadata.from_sigproc(path))
    if e['out'] != 'ok':
        return e
    undo = pipe.clobber(path) if kind == 'ts' else None
    md = o.metadata if kind == 'ts' else o
    for k, v in md.items():
        if k == 'skycoord':
            continue
        t, x = rep(v)
        e['got'].append({'k': str(k), 't': t, 'v': x})
    sc = md['skycoord']
    e['gra'], e['gdec'] = (fx(sc.icrs.ra.deg / 15, 36000000), fx(sc.icrs.dec.deg, 3600000)) if sc is not None else (-1, -1)
    try:
        e['tobs'] = fx(md['tobs'] / md['tsamp'], 1000)
    except Exception as ex:
        e['tobs'] = -1
    e['fname'] = str(md['fname'])
    if kind == 'ts':
        e['dtype'], e['n'], e['tsamp'] = str(o.data.dtype), int(o.nsamp), list(struct.pack('<d', o.tsamp))
        e['raw'] = list(np.ascontiguousarray(o.data).tobytes())
        e['vals'] = [iv(x) for x in o.data] if len(e['raw']) < 4096 else []
        undo()
    return e


def header(rng, nbits=None, signed='auto'):
    ra, fra = coord(rng, False)
    dec, fdec = coord(rng, True)
    nbits = nbits or rng.choice([8, 32])
    if signed == 'auto':
        signed = rng.choice([0, 1, 255]) if nbits == 8 or rng.random() < 0.3 else None
    it = {'nbits': ('int', nbits), 'nchans': ('int', 1), 'tsamp': ('float', rng.choice([0.015625, 6.4e-5, 1.0, 2.0**-20])),
          'src_raj': ('float', fra), 'src_dej': ('float', fdec)}
    if signed is not None:
        it['signed'] = ('bool', signed)
    if rng.random() < 0.8:
        it['refdm'] = ('float', rng.choice([0.0, 12.5, 1e-3, 3000.0]))
    if rng.random() < 0.8:
        it['tstart'] = ('float', rng.choice([0.0, 58123.123456789, 60000.5]))
    if rng.random() < 0.8:
        it['source_name'] = ('str', rng.choice(['J0534+2200', '', 'B', 'x y', 'HEADER_END', 'tsamp', 'Sgr A*', 'é' * 3]))
    for _ in range(rng.choice([0, 1, 3, 8])):
        k = rng.choice(INTS)
        it[k] = ('int', rng.choice([0, 1, -1, 2147483647, -2147483648, 256, 65536, rng.randrange(-10**9, 10**9)]))
        k = rng.choice(FLOATS)
        it[k] = ('float', rng.choice([0.0, -0.0, 1400.5, -0.390625, 1e-300, 5e300, rng.uniform(-10, 10)]))
        k = rng.choice(STRS)
        it[k] = ('str', rng.choice(['', 'Parkes', 'a' * 80, 'HEADER_START', '1']))
    return it, (ra, dec, fra, fdec)


def samples(rng, nbits, n):
    if nbits == 8:
        return bytes(rng.choice([0, 1, 127, 128, 255, rng.randrange(256)]) for _ in range(n))
    vals = [rng.choice([0.0, -0.0, 1.5, -2.25, 3.4e38, 1e-45, rng.uniform(-5, 5)]) for _ in range(n)]
    return np.asarray(vals, dtype=np.float32).tobytes()


def write(d, name, raw):
    p = os.path.join(d, name)
    with open(p, 'wb') as f:
        f.write(raw)
    return p


def tolist(it, rng=None):
    ks = list(it)
    if rng:
        rng.shuffle(ks)
    return [(k, it[k][0], it[k][1]) for k in ks]


def good(rng):
    def fn():
        with pipe.Scratch() as d:
            evs = []
            for i in range(8):
                it, c = header(rng)
                n = rng.choice([1, 2, 3, 7, 40])
                data = samples(rng, it['nbits'][1], n)
                if it['nbits'][1] == 32 and rng.random() < 0.2:
                    data += bytes(rng.randrange(1, 4))                              # incomplete last sample
                extra = []
                items = tolist(it, rng)
                for k, t in [('telescope_diameter', 'float'), ('num_trusses', 'int'), ('planet_name', 'str'), ('rotten', 'bool'),
                             ('telescope_id', 'str'), ('flux', 'int'), ('obs_date', 'float'), ('machine_id', 'bool')]:
                    if rng.random() < 0.2:
                        extra.append((k, t))
                        items = [x for x in items if x[0] != k]
                        if rng.random() < 0.8:
                            v = {'float': 2.5, 'int': -7, 'str': 'Mars', 'bool': rng.choice([0, 1])}[t]
                            items.insert(rng.randrange(len(items) + 1), (k, t, v))
                if rng.random() < 0.2:                                               # a repeated key
                    k, t, v = rng.choice([x for x in items if x[0] in INTS + FLOATS] or [('nifs', 'int', 1)])
                    if k not in dict(extra):
                        items.insert(rng.randrange(len(items) + 1), (k, t, 5 if v == 2147483647 else v + 1))
                raw = sigbytes(items, data)
                p = write(d, rng.choice(['a.tim', 'b.c.tim', 'noext']), raw)
                if rng.random() < 0.3:
                    p = os.path.relpath(p)
                for kind in ('ts', 'meta'):
                    evs.append(read_event(p, raw, extra, kind, *c))
            return evs
    return fn


def sigbytes(items, data, start='HEADER_START'):
    out = bstr(start)
    for k, t, v in items:
        out += bstr(k)
        out += bstr(v) if t == 'str' else struct.pack({'int': '<i', 'float': '<d', 'bool': 'B'}[t], v)
    return out + bstr('HEADER_END') + data


def bstr(s):
    return struct.pack('<i', len(s.encode())) + s.encode()


def bad(rng):
    def fn():
        with pipe.Scratch() as d:
            evs = []
            for kind in ('nbits', 'nbits', 'nchans', 'unsigned', 'nosign', 'unknown', 'start', 'drop', 'tsamp', 'empty', 'refdm', 'tstart',
                         'swapped', 'undeclared', 'short'):
                it, c = header(rng)
                start = 'HEADER_START'
                n = 4
                data = samples(rng, it['nbits'][1], n)
                extra = []
                if kind == 'nbits':
                    it['nbits'] = ('int', rng.choice([1, 2, 4, 16, 64, 0, -8, -32, 9, 33]))
                    data = bytes(64)
                elif kind == 'nchans':
                    it['nchans'] = ('int', rng.choice([2, 3, 1024, 2147483647]))
                elif kind == 'nosign':
                    it['nbits'] = ('int', 8)
                    it.pop('signed', None)
                    extra = rng.choice([[], [('signed', 'bool')], [('nbits', 'int'), ('signed', 'bool')]])
                elif kind == 'unsigned':
                    it['nbits'], it['signed'] = ('int', 8), ('bool', rng.choice([0, 0, 1]))
                    data = bytes(range(120, 140))
                elif kind == 'unknown':
                    it[rng.choice(['foo', 'Tsamp', 'tsamp_', 'nbit', 'SIGNED', 'header_end', ''])] = ('int', 4)
                elif kind == 'undeclared':
                    it['num_trusses'] = ('int', 4)
                    extra = [('num_trusse', 'int')]
                elif kind == 'start':
                    start = rng.choice(['HEADER_STARt', 'HEADER_END', 'HEADER_START ', '', 'header_start', 'HEADER_STAR'])
                elif kind == 'drop':
                    k = rng.choice(['nbits', 'nchans', 'tsamp', 'src_raj', 'src_dej'])
                    t = it.pop(k)[0]
                    extra = rng.choice([[], [(k, t)]])
                elif kind == 'tsamp':
                    it['tsamp'] = ('float', rng.choice([0.0, -0.0, -1.0]))
                elif kind == 'empty':
                    data = b''
                elif kind == 'short':
                    it['nbits'], data = ('int', 32), bytes(rng.choice([1, 2, 3, 4]))
                elif kind == 'refdm':
                    it['refdm'] = ('float', rng.choice([-1.0, -1e-9, -0.0]))
                elif kind == 'tstart':
                    it['tstart'] = ('float', -5.0)
                elif kind == 'swapped':
                    it['nbits'] = ('float', 32.0)
                raw = sigbytes(tolist(it, rng), data, start)
                if kind == 'swapped':
                    extra = [('nbits', 'float')]
                p = write(d, 'a.tim', raw)
                for k in ('ts', 'meta'):
                    evs.append(read_event(p, raw, extra, k, *c))
            return evs
    return fn


def cuts(rng, step):
    """a file cut at every byte, and with single bytes of the header changed"""
    def fn():
        with pipe.Scratch() as d:
            evs = []
            it, c = header(rng)
            raw = sigbytes(tolist(it, rng), samples(rng, it['nbits'][1], 2))
            for i in range(rng.randrange(step), len(raw), step):
                evs.append(read_event(write(d, 'a.tim', raw[:i]), raw[:i], [], 'meta', *c))
            for _ in range(20):
                i = rng.randrange(len(raw))
                b = bytearray(raw)
                b[i] = (b[i] + rng.choice([1, 32, 128, 255])) % 256
                b = bytes(b)
                evs.append(read_event(write(d, 'a.tim', b), b, [], 'ts', *c))
            return evs
    return fn


def other(rng):
    """files that are something else"""
    def fn():
        with pipe.Scratch() as d:
            evs = []
            it, c = header(rng)
            for raw in [b'', b'\0', b'HEADER_START', bytes(40), bytes(range(256)), pipe.inf_text().encode(), rng.randbytes(300),
                        np.zeros(32, dtype=np.float32).tobytes(), b'\xff' * 64, b'\x0c\0\0\0HEADER_START', b'\x0c\0\0\0HEADER_START' + bytes(30)]:
                p = write(d, 'a.tim', raw)
                for k in ('ts', 'meta'):
                    evs.append(read_event(p, raw, [], k, *c))
            return evs
    return fn


def large(rng, n):
    def fn():
        with pipe.Scratch() as d:
            evs = []
            for nb in (8, 32):
                it, c = header(rng, nb)
                raw = sigbytes(tolist(it, rng), samples(rng, nb, n))
                evs.append(read_event(write(d, 'a.tim', raw), raw, [], 'ts' if nb == 32 else 'meta', *c))
            return evs
    return fn


def cases(ctx):
    for i in range(ctx.n(24, 300)):
        yield f'good/{i}', good(ctx.rng(f'good/{i}'))
    for i in range(ctx.n(12, 120)):
        yield f'bad/{i}', bad(ctx.rng(f'bad/{i}'))
    for i in range(ctx.n(4, 24)):
        yield f'cuts/{i}', cuts(ctx.rng(f'cuts/{i}'), ctx.n(5, 1))
    yield 'other/0', other(ctx.rng('other'))
    for i in range(ctx.n(1, 4)):
        yield f'large/{i}', large(ctx.rng(f'large/{i}'), ctx.n(2000, 20000))


if __name__ == '__main__':
    main(cases)
