"""C22: PRESTO .inf / .dat pairs"""
import os, struct, warnings
import numpy as np
from riptide import TimeSeries, Metadata
from riptide.reading import PrestoInf
from drv import main, outcome, fx
import pipe


def dbl(v):
    return list(struct.pack('<d', v))


def number(s):
    """bytes of the double that the text spells, or nothing"""
    try:
        return dbl(float(s))
    except ValueError:
        return []


def rep(k, v):
    g = {'k': k, 't': 'other', 'str': '', 'float': [], 'int': 0, 'bool': 0}
    if v is None:
        g['t'] = 'none'
    elif type(v) is bool:
        g['t'], g['bool'] = 'bool', int(v)
    elif type(v) is int and -2**31 <= v < 2**31:
        g['t'], g['int'] = 'int', v
    elif isinstance(v, float):
        g['t'], g['float'] = 'float', dbl(v)
    elif type(v) is str:
        g['t'], g['str'] = 'str', v
    return g


def event(path, text, kind, ra, dec, coords=True, dat=None, real=None):
    lines = text.strip('\n').split('\n') if text.strip('\n') else []
    e = {'e': 'inf', 'kind': kind, 'ra': ra, 'dec': dec, 'coords': coords, 'havedat': dat is not None, 'dat': list(dat or b''),
         'lines': [{'x': x, 'f': number(x[41:].strip()) if len(x) > 41 and i != 1 else []} for i, x in enumerate(lines)],
         'path': os.path.realpath(path), 'got': [], 'pairs': [], 'value': False}
    o = None
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            o = {'inf': PrestoInf, 'meta': Metadata.from_presto_inf, 'ts': TimeSeries.from_presto_inf}[kind](path)
            if kind == 'inf':
                o.skycoord
            e['out'] = 'ok'
        except Exception as ex:
            e['out'], e['value'] = type(ex).__name__, isinstance(ex, ValueError)
    if e['out'] != 'ok':
        return e
    undo = pipe.clobber(path[:-4] + '.dat') if kind == 'ts' else None
    md = o.metadata if kind == 'ts' else o
    e['warned'] = sum(issubclass(x.category, UserWarning) and any(b in str(x.message) for b in ('X-ray', 'Gamma', 'high-energy')) for x in w)
    for k, v in md.items():
        if k not in ('skycoord', 'onoff_pairs'):
            e['got'].append(rep(str(k), v))
    e['pairs'] = [[int(a), int(b)] for a, b in md['onoff_pairs']]
    sc = md.skycoord if kind == 'inf' else md['skycoord']
    e['gra'], e['gdec'] = fx(sc.icrs.ra.deg / 15, 36000000), fx(sc.icrs.dec.deg, 3600000)
    e['fname'] = str(md.fname if kind == 'inf' else md['fname'])
    if kind != 'inf':
        e['tobs'] = fx(md['tobs'] / md['tsamp'], 1000)
    if kind == 'ts':
        e['tsamp'], e['dtype'] = dbl(o.tsamp), str(o.data.dtype)
        e['raw'] = list(np.ascontiguousarray(o.data).tobytes())
        undo()
    return e


def coords(rng):
    sg = rng.choice([1, -1])
    r = [1, rng.choice([0, 0, 5, 23, rng.randrange(24)]), rng.choice([0, 59, rng.randrange(60)]), rng.choice([0, 10000, 599999, rng.randrange(600000)])]
    d = [sg, rng.choice([0, 0, 5, 89, rng.randrange(90)]), rng.choice([0, 0, 59, rng.randrange(60)]), rng.choice([0, 10000, 599990, rng.randrange(60000) * 10])]
    rs = f'{r[1]:02d}:{r[2]:02d}:{r[3] // 10000:02d}.{r[3] % 10000:04d}'
    ds = f'{"-" if sg < 0 else rng.choice(["", "+"])}{d[1]:02d}:{d[2]:02d}:{d[3] // 10000:02d}.{d[3] % 10000:04d}'
    return r, d, rs, ds


def words(rng):
    return rng.choice(['Parkes', 'GBT', 'a = b', '', 'Kenji Oba', "O'Neil", 'x' * 60, '1', '=', 'None', 'None (Artificial Data Set) '[:-2],
                       'Any breaks', 'Radio', '1,2'])


def fields(rng, band=None, npairs=None):
    ra, dec, rs, ds = coords(rng)
    band = band or rng.choice(['Radio', 'X-ray', 'Gamma'])
    npairs = rng.choice([None, 1, 2, 3, 12]) if npairs is None else npairs
    f = lambda: rng.choice(['0', '1', '981', '1182.1953125', '6.4e-05', '1e3', '-2.5', '0.1', '42.42', '3.', '.5', '+7.25'])
    p = lambda: rng.choice(['0', '1', '42.42', '1e-3', '3000', '.5'])
    kw = dict(telescope=words(rng), instrument=words(rng), source=words(rng), observer=words(rng), analyst=words(rng), raj=rs, decj=ds,
              mjd=rng.choice(['59000.000000', '0', '58123.123456789012', '51000']), bary=rng.choice([0, 1, 1, 2]),
              nsamp=rng.choice([16, 1, 1048576, '0016']), tsamp=rng.choice(['6.4e-05', '0.015625', '1', '0.000126']), band=band,
              fov=f(), dm=p(), fbot=f(), bandwidth=f(), nchan=rng.choice([1, 1024, 0]), cbw=f(), kev=f(), pass_kev=f(),
              notes=rng.choice([(), ('    note',), ('x', '', 'y = z'), (pipe.key_line('Data analyzed by', 'z'),)]))
    if npairs:
        kw['breaks'] = rng.choice([1, 1, 3])
        kw['pairs'] = [(rng.randrange(1000), rng.randrange(100000)) for _ in range(npairs)]
        if rng.random() < 0.3:                                       # pairs that occur twice, or out of order
            kw['pairs'] = [rng.choice(kw['pairs']) for _ in range(npairs)]
    elif rng.random() < 0.1:
        kw['breaks'] = 1                                             # breaks without pairs
    return kw, ra, dec


def names(rng):
    return rng.choice(['x', 'a.b', 'J0000_DM12.50', 'x.inf', 'a b', '.hidden', 'dat', 'x.dat', 'DM1.0.0.0'])


def write(d, sub, base, text, dat, newline='\n'):
    dd = os.path.join(d, sub)
    os.makedirs(dd, exist_ok=True)
    path = os.path.join(dd, base + '.inf')
    with open(path, 'w', newline=newline) as f:
        f.write(text)
    dp = os.path.join(dd, base + '.dat')
    if dat is None:
        if os.path.exists(dp):
            os.remove(dp)
    else:
        with open(dp, 'wb') as f:
            f.write(dat)
    return path


def data(rng):
    n = rng.choice([1, 2, 5, 16, 33])
    return np.asarray([rng.choice([0.0, -0.0, 1.5, 3e38, -1e-40, rng.uniform(-3, 3)]) for _ in range(n)], dtype=np.float32).tobytes()


def good(rng):
    def fn():
        with pipe.Scratch() as d:
            evs = []
            for i in range(8):
                kw, ra, dec = fields(rng)
                base = names(rng)
                text = pipe.inf_text(basename=rng.choice([base, 'other', 'a.b']), **kw)
                if rng.random() < 0.2:
                    text = '\n' + text
                if rng.random() < 0.2:
                    text = text.rstrip('\n')
                dat = data(rng)
                sub = rng.choice(['.', 'sub', 'a.b', 'x.inf.d'])
                for other in ('x', 'a', 'other', 'a.b', 'DM1'):                      # data of other files lie around
                    if other != base and rng.random() < 0.5:
                        write(d, sub, other, 'nothing', data(rng))
                p = write(d, sub, base, text, dat, rng.choice(['\n', '\n', '\r\n']))
                if rng.random() < 0.3:
                    p = os.path.relpath(p)
                for kind in ('inf', 'meta', 'ts'):
                    evs.append(event(p, text, kind, ra, dec, dat=dat))
            return evs
    return fn


def bad(rng):
    def fn():
        with pipe.Scratch() as d:
            evs = []
            for how in ('fake', 'band', 'column', 'column', 'number', 'number', 'short', 'pair', 'breaks', 'nodat', 'negative', 'blank'):
                band = {'negative': 'Radio'}.get(how)
                kw, ra, dec = fields(rng, band)
                ok = True
                dat = data(rng)
                if how == 'fake':
                    kw['telescope'] = 'None (Artificial Data Set)'
                elif how == 'band':
                    kw['band'] = rng.choice(['Optical', 'radio', 'Infra-Red', '', 'X-Ray', 'Radio 2', 'Gamma-ray', 'UV'])
                elif how == 'number':
                    k = rng.choice(['mjd', 'bary', 'nsamp', 'tsamp', 'breaks', 'fov', 'dm', 'fbot', 'bandwidth', 'nchan', 'cbw', 'kev'])
                    kw[k] = rng.choice(['', 'abc', '1.5.2', '0x10', '1 2', '--1', '12,5', 'yes', '1.5'])
                elif how == 'negative':
                    k = rng.choice(['mjd', 'dm', 'tsamp', 'nsamp'])
                    kw[k] = '-1'
                elif how == 'nodat':
                    dat = None
                elif how == 'breaks':
                    kw['breaks'], kw['pairs'] = 0, [(1, 5)]
                elif how == 'pair':
                    kw['breaks'], kw['pairs'] = 1, [(1, 5), (7, 9), (11, 12)]
                text = pipe.inf_text(basename='x', **kw)
                lines = text.split('\n')
                if how == 'column':
                    i = rng.randrange(20)
                    if i < len(lines):
                        x = lines[i]
                        lines[i] = rng.choice([' ' + x, x[1:], x.replace('=', ':', 1), x[:40], '', x[:40] + ' ' + x[41:], x[:38] + x[40:]])
                elif how == 'short':
                    lines = lines[:rng.randrange(1, 20)]
                elif how == 'blank':
                    lines.insert(rng.randrange(1, 14), '')
                elif how == 'pair':
                    i = 12 + rng.randrange(3)
                    lines[i] = rng.choice([lines[i].replace(',', ' '), lines[i].replace(',', ',,'), lines[i][:41], lines[i] + ', 4',
                                           lines[i].replace('=', '-'), lines[i] + 'x', lines[i] + '.5', lines[i] + 'e2'])
                text = '\n'.join(lines)
                p = write(d, '.', 'x', text, dat)
                for kind in ('inf', 'meta', 'ts'):
                    evs.append(event(p, text, kind, ra, dec, ok, dat=dat))
            return evs
    return fn


def lines_case(rng):
    """every line of a good file spoilt in turn"""
    def fn():
        with pipe.Scratch() as d:
            evs = []
            for band in ('Radio', 'X-ray', 'Gamma'):
                kw, ra, dec = fields(rng, band, rng.choice([0, 2]))
                kw['notes'] = ()
                text0 = pipe.inf_text(basename='x', **kw)
                n = len(text0.split('\n')) - 1
                for i in range(n):
                    lines = text0.split('\n')
                    lines[i] = lines[i].replace('=', '~', 1)
                    text = '\n'.join(lines)
                    p = write(d, '.', 'x', text, b'\0' * 8)
                    evs.append(event(p, text, rng.choice(['inf', 'meta', 'ts']), ra, dec, dat=b'\0' * 8))
                    lines = text0.split('\n')[:i]
                    text = '\n'.join(lines)
                    p = write(d, '.', 'x', text, b'\0' * 8)
                    evs.append(event(p, text, rng.choice(['inf', 'meta', 'ts']), ra, dec, dat=b'\0' * 8))
            return evs
    return fn


def cases(ctx):
    for i in range(ctx.n(24, 300)):
        yield f'good/{i}', good(ctx.rng(f'good/{i}'))
    for i in range(ctx.n(16, 150)):
        yield f'bad/{i}', bad(ctx.rng(f'bad/{i}'))
    for i in range(ctx.n(2, 12)):
        yield f'lines/{i}', lines_case(ctx.rng(f'lines/{i}'))


if __name__ == '__main__':
    main(cases)
