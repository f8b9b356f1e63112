"""C24: rseek"""
import contextlib, io, os, struct, subprocess, sys
import numpy as np
from riptide import TimeSeries, ffa_search, find_peaks
from riptide.apps import rseek
from drv import main, outcome, fx
import pipe

DEF = {'Pmin': 1.0, 'Pmax': 10.0, 'bmin': 240, 'bmax': 260, 'smin': 7.0, 'wtsp': 1.5, 'rmed_width': 4.0, 'rmed_minpts': 101, 'clrad': 0.2}
INT = ('bmin', 'bmax', 'rmed_minpts')


def text(k, v):
    if type(v) is int:
        return f'i{v}'
    return f'f{float(v)!r}' if isinstance(v, float) else f'{type(v).__name__} {v}'


def parse(argv):
    err = io.StringIO()
    with contextlib.redirect_stderr(err), contextlib.redirect_stdout(err):
        try:
            return 'ok', rseek.get_parser().parse_args(argv)
        except SystemExit as ex:
            return f'exit {ex.code}', None


def args_event(given, fmt, fname, rng, valid=True, extra=()):
    argv = []
    ks = list(given)
    rng.shuffle(ks)
    for k in ks:
        argv += rng.choice([[f'--{k}', str(given[k])], [f'--{k}={given[k]}']])
    f = [] if fmt is None else rng.choice([['-f', fmt], ['--format', fmt], [f'--format={fmt}']])
    argv = f + argv + [fname] if rng.random() < 0.5 else [fname] + argv + f
    argv += extra
    e = {'e': 'args', 'valid': valid, 'format': fmt or '', 'fname': fname, 'given': []}
    for k, v in given.items():
        if valid:
            e['given'].append({'k': k, 'v': text(k, int(v) if k in INT else float(v))})
    e['out'], a = parse(argv)
    e['got'] = {k: '' for k in list(DEF) + ['format', 'fname']}
    if a is not None:
        for k in DEF:
            e['got'][k] = text(k, getattr(a, k, None))
        e['got']['format'], e['got']['fname'] = str(a.format), str(a.fname)
    return e


def args_case(rng):
    def fn():
        evs = []
        for _ in range(12):
            given = {}
            for k in DEF:
                if rng.random() < 0.4:
                    given[k] = rng.choice(['1', '2', '33', '480', '007']) if k in INT else rng.choice(['1', '0.25', '2.5e1', '12', '.5', '1e-3'])
            evs.append(args_event(given, rng.choice(['presto', 'sigproc']), rng.choice(['a.inf', 'x/y.tim', 'b']), rng))
        k = rng.choice(list(DEF))
        evs.append(args_event({k: 'abc'}, 'presto', 'a', rng, False))
        evs.append(args_event({rng.choice(INT): '2.5'}, 'presto', 'a', rng, False))
        evs.append(args_event({}, None, 'a', rng, False))
        evs.append(args_event({}, 'Presto', 'a', rng, False))
        evs.append(args_event({}, 'presto', 'a', rng, False, ['--fpmin', '8']))
        evs.append(args_event({}, 'presto', 'a', rng, False, ['second']))
        return evs
    return fn


def series(rng, nsamp, tsamp, npsr):
    r = np.random.RandomState(rng.randrange(2**31))
    x = r.normal(size=nsamp)
    t = np.arange(nsamp) * tsamp
    for _ in range(npsr):
        p = rng.choice([rng.uniform(0.6, 3.0), rng.uniform(3, 12), rng.uniform(12, 40), rng.uniform(0.3, 0.95) * nsamp * tsamp])
        d = rng.choice([0.05, 0.1, 0.2, 0.29])
        amp = rng.choice([1.0, 2.0, 4.0])
        x += amp * ((t / p) % 1 < d)
    return x.astype(np.float32)


def lines_of(out):
    """printed table -> rows in fixed units, by the names of the columns"""
    cols, rows = None, []
    for ln in out.splitlines():
        w = ln.split()
        if cols is None:
            if set(w) == {'period', 'freq', 'width', 'ducy', 'dm', 'snr'}:
                cols = w
            continue
        if len(w) == 6:
            d = dict(zip(cols, w))
            du = float(d['ducy'].rstrip('%')) * (100 if d['ducy'].endswith('%') else 10000)
            rows.append({'p6': fx(d['period'], 10**6), 'f6': fx(d['freq'], 10**6), 'w': fx(d['width']), 'du': fx(du), 'dm1': fx(d['dm'], 10),
                         'sn1': fx(d['snr'], 10)})
    return rows


def key(period, freq, width, ducy, dm, snr):
    dm = 0 if dm is None or dm != dm else dm
    return ' '.join([f'{float(period):.9e}', f'{float(freq):.9e}', str(int(width)), f'{float(ducy):.6e}', f'{float(dm):.6e}', f'{float(snr):.5e}'])


def run_event(path, fmt, o, process=False):
    op = dict(DEF, **o)
    ts = (TimeSeries.from_presto_inf if fmt == 'presto' else TimeSeries.from_sigproc)(path)
    _, pg = ffa_search(ts, period_min=op['Pmin'], period_max=op['Pmax'], bins_min=op['bmin'], bins_max=op['bmax'], rmed_width=op['rmed_width'],
                       rmed_minpts=op['rmed_minpts'], wtsp=op['wtsp'], fpmin=1, ducy_max=0.3)
    pk, _ = find_peaks(pg, smin=op['smin'], clrad=op['clrad'])
    e = {'e': 'run', 'r': fx(op['clrad'], 10**6), 'lib': not process, 'none': False, 'columns': True, 'rows': [], 'lines': [], 'peaks': []}
    for p in pk:
        e['peaks'].append({'f': fx(p.freq * ts.length, 10**6), 's': struct.unpack('<i', struct.pack('<f', p.snr))[0],
                           'key': key(p.period, p.freq, p.width, p.ducy, p.dm, p.snr), 'p6': fx(p.period, 10**6), 'f6': fx(p.freq, 10**6),
                           'w': int(p.width), 'du': fx(p.ducy, 10**4), 'dm1': fx(p.dm, 10) if p.dm is not None else -1, 'sn1': fx(p.snr, 10)})
    fs = {p.freq: q['f'] for p, q in zip(pk, e['peaks'])}
    e['amb'] = len(set(fs.values())) != len(fs)                # distinct frequencies that look the same
    argv = ['-f', fmt] + [x for k, v in o.items() for x in (f'--{k}', str(v))] + [path]
    if process:
        q = subprocess.run([sys.executable, '-B', '-c', 'from riptide.apps.rseek import main; main()'] + argv, capture_output=True, text=True, timeout=120)
        e['out'] = 'ok' if q.returncode == 0 else f'exit {q.returncode}'
        e['lines'] = lines_of(q.stdout)
        e['none'] = not e['lines']
        return e
    st, args = parse(argv)
    if st != 'ok':
        e['out'] = st
        return e
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        e['out'], df = outcome(lambda: rseek.run_program(args))
    if e['out'] == 'ok':
        e['lines'], e['none'] = lines_of(buf.getvalue()), df is None
        if df is not None:
            e['columns'] = set(df.columns) == {'period', 'freq', 'width', 'ducy', 'dm', 'snr'}
            e['rows'] = [key(r.period, r.freq, r.width, r.ducy, r.dm, r.snr) for r in df.itertuples()] if e['columns'] else []
    return e


def run_case(rng, k, process=False):
    def fn():
        with pipe.Scratch() as d:
            evs = []
            for i in range(1 if process else 3):
                tsamp = 1 / 32
                nsamp = rng.choice([2048, 4096, 6000])
                x = series(rng, nsamp, tsamp, rng.choice([0, 1, 2, 4]))
                fmt = ['presto', 'sigproc'][(k + i) % 2]
                dm = rng.choice([0.0, 12.25, 340.0])
                if rng.random() < 0.15:                                              # no DM known
                    if fmt == 'presto':
                        path = pipe.write_presto(d, f'x{i}', x, tsamp=tsamp, band=rng.choice(['X-ray', 'Gamma']))
                    else:
                        path = pipe.write_sigproc(os.path.join(d, f'x{i}.tim'), x, tsamp=tsamp, dm=None)
                elif fmt == 'presto':
                    path = pipe.write_presto(d, f'x{i}', x, tsamp=tsamp, dm=dm)
                else:
                    path = pipe.write_sigproc(os.path.join(d, f'x{i}.tim'), x, tsamp=tsamp, dm=dm)
                bmin = rng.choice([8, 12, 16, 20])
                o = {'Pmin': rng.choice([bmin * tsamp, 0.75, 1.0]), 'Pmax': rng.choice([2.5, 12.0, 50.0, nsamp * tsamp, 10000.0]), 'bmin': bmin,
                     'bmax': bmin + rng.choice([1, 4]), 'smin': rng.choice([3.5, 5.0, 7.0, 9.0]), 'wtsp': rng.choice([1.1, 1.5, 2.0]),
                     'clrad': rng.choice([0.0, 0.05, 0.2, 1.0, 10.0])}
                o['rmed_width'], o['rmed_minpts'] = rng.choice([(3.5, 21), (5.0, 51), (6.5, 101), (61.0, 101), (61.0, 101)])
                o['Pmin'] = max(o['Pmin'], bmin * tsamp)
                if rng.random() < 0.25:                                              # long periods only
                    o.update(Pmin=10.0, Pmax=1000.0, rmed_width=61.0, rmed_minpts=101)
                if rng.random() < 0.3:
                    o.pop('smin')
                if rng.random() < 0.3:
                    o.pop('clrad')
                if rng.random() < 0.3:
                    o.pop('wtsp')
                if rng.random() < 0.15:
                    o['smin'] = 500.0
                evs.append(run_event(path, fmt, o, process))
            return evs
    return fn


def default_case(rng, only):
    """every option left to its default but one"""
    def fn():
        with pipe.Scratch() as d:
            x = series(rng, 16384, 1 / 256, 2)
            path = pipe.write_presto(d, 'x', x, tsamp=1 / 256, dm=5.0)
            o = {} if only is None else {only: {'Pmin': 1.5, 'Pmax': 3.0, 'bmin': 250, 'bmax': 242, 'smin': 4.0, 'wtsp': 2.0, 'rmed_width': 2.0,
                                                'rmed_minpts': 31, 'clrad': 5.0}[only]}
            if only == 'rmed_minpts':
                o['rmed_width'] = 3.0
            if only != 'smin':
                o['smin'] = 5.0
            return [run_event(path, 'presto', o)]
    return fn


def cases(ctx):
    for i in range(ctx.n(4, 30)):
        yield f'args/{i}', args_case(ctx.rng(f'args/{i}'))
    for i in range(ctx.n(40, 400)):
        yield f'run/{i}', run_case(ctx.rng(f'run/{i}'), i)
    for k in [None] + list(DEF):
        yield f'default/{k}', default_case(ctx.rng(f'default/{k}'), k)
    for i in range(ctx.n(2, 8)):
        yield f'process/{i}', run_case(ctx.rng(f'process/{i}'), i, True)


if __name__ == '__main__':
    main(cases)
