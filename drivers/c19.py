"""C19: data products of the pipeline"""
import csv, hashlib, os, re
from fractions import Fraction as Fr
import numpy as np
import yaml
from riptide import load_json
import riptide.pipeline.pipeline as rp
from riptide.pipeline.pipeline import Pipeline
from drv import main
import pipe, c16

PK = ('period', 'freq', 'dm', 'width', 'ducy', 'snr')
CL = ('rank', 'period', 'dm', 'snr', 'ducy', 'freq', 'npeaks', 'hfrac_num', 'hfrac_denom', 'fundamental_rank')


def dec(x):
    """number (text or value) rounded to nine decimals, as [integer part, fraction, negative]"""
    try:
        v = Fr(x) if isinstance(x, str) else Fr(float(x))
    except Exception:
        return [-1, -1, 0]
    n = round(abs(v) * 10**9)
    ip, fr = divmod(n, 10**9)
    return [int(min(ip, 2**30)), int(fr), int(v < 0)]


def read_csv(path, cols):
    if not os.path.exists(path):
        return []
    with open(path, newline='') as f:
        rd = csv.DictReader(f)
        if sorted(rd.fieldnames or []) != sorted(cols):
            return [[[-1, -1, 0]]]
        return [[dec(r.get(c) or 'missing') for c in cols] for r in rd]


def listing(out):
    res = []
    for r, ds, fs in os.walk(out):
        for f in fs + ds:
            rel = os.path.relpath(os.path.join(r, f), out)
            k, n = {'peaks.csv': 'peaks', 'clusters.csv': 'clusters', 'candidates.csv': 'cands'}.get(rel, 'other'), -1
            m = re.fullmatch(r'candidate_(\d{4,})\.(json|png)', rel)
            if m:
                k, n = m.group(2), int(m.group(1))
            res.append({'k': k, 'n': n})
    return res


def digest(c, ordered=True):
    """everything a candidate holds, in a form that can be compared; peaks with equal periods come in any order"""
    h = hashlib.sha1()
    s = np.ascontiguousarray(c.subints)
    h.update(str((s.shape, s.dtype)).encode() + s.tobytes())
    h.update(repr(sorted((k, float(v)) for k, v in c.params.items())).encode())
    df = c.peaks
    rows = [[float(v) for v in r] for r in df[list(PK)].values.tolist()]
    h.update(repr(rows if ordered else sorted(rows)).encode())
    m = dict(c.tsmeta)
    sc = m.pop('skycoord')
    h.update(repr(sorted((k, repr(v)) for k, v in m.items())).encode() + repr((sc.ra.deg, sc.dec.deg)).encode())
    return h.hexdigest()[:16]


def contents(out):
    """digest of every product that must not depend on history"""
    res = []
    for f in sorted(os.listdir(out)):
        p = os.path.join(out, f)
        if f.endswith('.csv'):
            res.append([f, hashlib.sha1(b'\n'.join(sorted(open(p, 'rb').read().split(b'\n')))).hexdigest()[:12]])
        elif f.endswith('.json'):
            res.append([f, digest(load_json(p), False)])
        else:
            res.append([f, ''])
    return res


def inputs(rng, d, kind, fmt, opt={}):
    """files with the given outcome in mind: bright signals, faint signals only, noise"""
    nf = rng.choice([1, 2, 3])
    tsamp, n = 1 / 32, rng.choice([2048, 3000])
    dms = rng.sample(range(0, 2000), nf)
    per = rng.uniform(0.9, 3.0)
    sub = os.path.join(d, 'in%d' % rng.randrange(10**8))
    os.makedirs(sub)
    files = []
    for i, dm in enumerate(dms):
        g = np.random.RandomState(rng.randrange(2**31))
        x = g.normal(size=n)
        if kind == 'bright':
            x += c16.pulses(g, n, tsamp, per, rng.choice([2.0, 3.0, 4.0]), 0.1)
            if i == 0:
                x += c16.pulses(g, n, tsamp, rng.uniform(0.9, 5.0), 2.5, 0.1)
        elif kind == 'faint':
            x += c16.pulses(g, n, tsamp, per, 0.9, 0.1)
        x = x.astype(np.float32)
        if fmt == 'presto':
            files.append(pipe.write_presto(sub, f'a_{i}', x, tsamp=tsamp, dm=dm / 4, fbot=1200.0, nchan=64, cbw=4.0))
        else:
            files.append(pipe.write_sigproc(os.path.join(sub, f'a_{i}.tim'), x, tsamp=tsamp, dm=dm / 4, **opt))
    return files


def observe(p, out, before, after, plot):
    e = {'files': listing(out), 'plot': plot, 'out': 'ok', 'outside': before == after,
         'peaks': [[dec(getattr(q, c)) for c in PK] for q in p.peaks], 'csvpeaks': read_csv(os.path.join(out, 'peaks.csv'), PK),
         'csvclusters': read_csv(os.path.join(out, 'clusters.csv'), CL), 'csvcands': read_csv(os.path.join(out, 'candidates.csv'), PK)}
    e['clusters'], e['npeaks'] = [], []
    for c in p.clusters:
        b = max(c, key=lambda q: q.snr)
        par = c.parent_fundamental
        num, den, fr = (0, 0, c.rank) if par is None else (c.hfrac.numerator, c.hfrac.denominator, par.rank)
        e['clusters'].append([dec(v) for v in (c.rank, b.period, b.dm, b.snr, b.ducy, b.freq, len(c), num, den, fr)])
        e['npeaks'].append(len(c))
    e['rowsnr'] = [[r[k][0] * 1000 + r[k][1] // 10**6 for r in e[t] if len(r) > k] for t, k in (('csvclusters', 3), ('csvcands', 5))]
    e['cands'] = [[dec(c.params[k]) for k in PK] for c in p.candidates]
    e['objs'] = [digest(c) for c in p.candidates]
    e['snr'] = [int(c.params['snr'] * 1e5) for c in p.candidates]
    e['json'], e['png'] = [], True
    for i in range(len(p.candidates)):
        f = os.path.join(out, f'candidate_{i:04d}.json')
        if os.path.exists(f):
            try:
                e['json'].append(digest(load_json(f)))
            except Exception as ex:
                e['json'].append(type(ex).__name__)
        f = f[:-5] + '.png'
        if plot and os.path.exists(f):
            b = open(f, 'rb').read()
            e['png'] = e['png'] and b[:8] == b'\x89PNG\r\n\x1a\n' and len(b) > 2000
    return e


def case(rng, kinds, plot, cli, fmt=None):
    def fn():
        with pipe.Scratch() as d:
            cwd = os.getcwd()
            here = os.path.join(d, 'cwd')
            os.makedirs(here)
            os.chdir(here)
            try:
                return history(rng, d, kinds, plot, cli, fmt)
            finally:
                os.chdir(cwd)
    return fn


def history(rng, d, kinds, plot, cli, fmt):
    fmt = fmt or rng.choice(['presto', 'presto', 'sigproc'])
    # header keys that SIGPROC files need not have
    opt = rng.choice([{}, {'source': None}, {'mjd': None}, {'source': None, 'mjd': None}])
    sub = lambda: rng.choice([None, 1, 4, 8, 8, 200])
    ranges = [pipe.range_conf(0.75, 2.0, bins_min=16, bins_max=20, cbins=16, subints=sub(), find={'smin': 6.0}),
              pipe.range_conf(2.0, 6.0, bins_min=24, bins_max=26, cbins=rng.choice([24, 32]), subints=sub(), find={'smin': 6.0})]
    for r in ranges:
        r['ffa_search']['fpmin'] = rng.choice([4, 8, 20])
    if 'many' in kinds:                                              # so many candidates that they need more digits
        ranges = [pipe.range_conf(0.75, 2.0, bins_min=16, bins_max=20, cbins=16, subints=8, find={'smin': 2.0}),
                  pipe.range_conf(2.0, 6.0, bins_min=24, bins_max=26, cbins=24, subints=8, find={'smin': 2.0})]
    filt = {'snr_min': rng.choice([10.0, 14.0]), 'remove_harmonics': rng.random() < 0.5, 'max_number': rng.choice([None, None, 1, 3])}
    if 'many' in kinds:
        filt = {'snr_min': None, 'remove_harmonics': False, 'max_number': None}
    conf = pipe.config(ranges, fmt=fmt, dered=rng.choice([(3.5, 21), (5.0, 51)]), processes=rng.choice([1, 2, 3, 5]),
                       band=(None,) * 3 if fmt == 'presto' else (1200.0, 1456.0, 64), filters=filt, plot=plot,
                       radius=1e-5 if 'many' in kinds else 0.25)
    p = Pipeline(conf)
    evs = []
    for i, kind in enumerate(kinds):
        files = inputs(rng, d, kind, fmt, opt)
        name = rng.choice(['out{}', 'out{}', 'out{}.v1.2', 'out {} (a)', 'out{}/b/c.d'])
        top = name.format(i).split('/')[0]
        out, fresh = os.path.join(d, name.format(i)), os.path.join(d, f'fresh{i}')
        os.makedirs(out)
        os.makedirs(fresh)
        target = os.path.relpath(out) if rng.random() < 0.3 else out
        before = {k: v for k, v in pipe.tree(d).items()}
        e = {'e': 'run', 'kind': kind, 'again': [], 'fresh': []}
        try:
            p.process(files, target)
            after = {k: v for k, v in pipe.tree(d).items() if not k.startswith(top + '/')}
            e.update(observe(p, out, before, after, plot))
            e['again'] = contents(out)
            if cli:
                cf = os.path.join(d, f'conf{i}.yaml')
                with open(cf, 'w') as f:
                    yaml.safe_dump(conf, f)
                rp.run_program(rp.get_parser().parse_args(['-c', cf, '-o', fresh, '--log-level', 'WARNING'] + files))
            else:
                Pipeline(conf).process(files[::-1] if rng.random() < 0.3 else files, fresh)
            e['fresh'] = contents(fresh)
        except Exception as ex:
            e['out'] = type(ex).__name__ + ': ' + str(ex)[:80].encode('ascii', 'replace').decode()
            for k in ('files', 'peaks', 'cands'):
                e.setdefault(k, [])
            e.setdefault('plot', plot)
        evs.append(e)
    return evs


def fault(rng):
    """one name in the output directory is taken by a directory: the product of that name cannot be written"""
    def fn():
        with pipe.Scratch() as d:
            evs = []
            plot = rng.random() < 0.3
            ranges = [pipe.range_conf(0.75, 5.0, bins_min=16, bins_max=20, cbins=16, subints=4, find={'smin': 6.0})]
            conf = pipe.config(ranges, dered=(3.5, 21), processes=rng.choice([1, 2, 4]), filters={'snr_min': 10.0}, plot=plot)
            files = inputs(rng, d, 'bright', 'presto')
            clean, p = os.path.join(d, 'clean'), Pipeline(conf)
            os.makedirs(clean)
            p.process(files, clean)
            n = len(p.candidates)
            names = [('peaks.csv', 'peaks', -1), ('clusters.csv', 'clusters', -1), ('candidates.csv', 'cands', -1), ('candidates.json', 'other', -1)]
            names += [(f'candidate_{k:04d}.{x}', x, k) for k in sorted({0, n // 2, max(0, n - 1), n, n + 3}) for x in ('json', 'png')]
            for name, k, i in rng.sample(names, 4):
                out = os.path.join(d, 'out%d' % rng.randrange(10**8))
                os.makedirs(os.path.join(out, name))
                before = pipe.tree(d)
                q = p if rng.random() < 0.5 else Pipeline(conf)
                e = {'e': 'fault', 'k': k, 'n': i, 'plot': plot, 'npeaks': len(p.peaks), 'ncands': n, 'raised': False}
                try:
                    q.process(files, out)
                except Exception:
                    e['raised'] = True
                rel = os.path.basename(out) + '/'
                rest = lambda t: {f: v for f, v in t.items() if not f.startswith(rel)}
                e['outside'] = rest(before) == rest(pipe.tree(d))
                e['files'] = listing(out)
                evs.append(e)
            return evs
    return fn


def cases(ctx):
    for k in range(ctx.n(6, 60)):
        yield f'fault/{k}', fault(ctx.rng(f'f{k}'))
    for k in range(ctx.n(36, 500)):
        rng = ctx.rng(f'h{k}')
        kinds = [rng.choice(['bright', 'bright', 'faint', 'noise']) for _ in range(rng.choice([1, 2, 2, 3]))]
        if k < 8:
            kinds = [['bright', 'noise'], ['bright', 'faint'], ['bright', 'bright'], ['faint', 'noise'], ['noise', 'bright'],
                     ['bright', 'faint', 'noise'], ['faint', 'bright'], ['noise', 'faint']][k]
        yield f'history/{k}', case(rng, kinds, False, k % 6 == 5)
    for k in range(ctx.n(1, 4)):
        yield f'many/{k}', case(ctx.rng(f'm{k}'), ['many', 'bright'], False, False)
    for k in range(ctx.n(8, 40)):
        yield f'plots/{k}', case(ctx.rng(f'p{k}'), ['bright'], True, False, 'sigproc' if k % 2 else None)


if __name__ == '__main__':
    main(cases)
