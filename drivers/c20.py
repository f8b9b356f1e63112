"""C20: pipeline configuration"""
import copy, json, os
from fractions import Fraction as Fr
import numpy as np
import yaml
import riptide
from riptide.pipeline.pipeline import Pipeline
from drv import main, outcome
import pipe

VALUES = {'int3': 3, 'int1': 1, 'int0': 0, 'negint': -4, 'big': 1000000, 'f25': 2.5, 'half': 0.5, 'f1': 1.0, 'f0': 0.0, 'negf': -2.5, 'f3': 3.0,
          'tiny': 1e-9, 'above1': 1.0000001, 'below1': 0.9999999, 'nan': float('nan'), 'inf': float('inf'), 'npf': np.float64(2.5),
          'npi': np.int64(3), 'frac': Fr(5, 2), 'numstr': '5', 'word': 'abc', 'empty': '', 'presto': 'presto', 'sigproc': 'sigproc',
          'Presto': 'Presto', 'true': True, 'false': False, 'list': [], 'dict': {}, 'listnum': [3], 'null': None}


def base():
    a = pipe.range_conf(1.0, 2.0, fpmin=8, wtsp=1.5, ducy_max=0.2, name='short',
                        find={'smin': 6.0, 'segwidth': 5.0, 'nstd': 6.0, 'minseg': 10, 'polydeg': 2, 'clrad': 0.1})
    b = pipe.range_conf(2.0, 4.0, name='long', find={})
    return pipe.config([a, b], band=(1200.0, 1500.0, 64), dmsel=(0.0, 100.0, 45.0),
                       filters={'dm_min': 1.0, 'snr_min': 7.0, 'remove_harmonics': True, 'max_number': 10})


def locate(conf, key):
    parts = key.split('.')
    o = conf
    for q in parts[:-1]:
        o = o[int(q)] if isinstance(o, list) else o[q]
    last = parts[-1]
    return o, int(last) if isinstance(o, list) else last


def mutate(conf, key, tok):
    o, last = locate(conf, key)
    if tok == 'missing':
        if isinstance(o, list):
            o[last] = None                       # an entry that is not there: blank
        else:
            o.pop(last, None)
    else:
        o[last] = copy.deepcopy(VALUES[tok])


def klass(v):
    return {bool: 'bool', int: 'int', float: 'float', str: 'str', dict: 'dict', list: 'list', type(None): 'null'}.get(type(v), 'other')


def conf_event(muts, mode, d):
    conf = base()
    for m in muts:
        mutate(conf, m['k'], m['t'])
    e = {'e': 'conf', 'muts': muts, 'mode': mode, 'got': []}
    if mode == 'yaml':
        f = os.path.join(d, 'c.yaml')
        with open(f, 'w') as fo:
            yaml.safe_dump(conf, fo)
        e['out'], p = outcome(lambda: Pipeline.from_yaml_config(f))
    else:
        e['out'], p = outcome(lambda: Pipeline(conf))
    if e['out'] == 'ok':
        for m in muts:
            if m['t'] == 'missing':
                e['got'].append({'eq': True, 'c': 'none'})
                continue
            try:
                o, last = locate(p.config, m['k'])
                v = o[last]
                want = VALUES[m['t']]
                eq = v == want and (klass(v) == 'bool') == (klass(want) == 'bool')
                if m['k'].endswith('find_peaks') and want is None:
                    eq = v in (None, {})
                e['got'].append({'eq': bool(eq), 'c': klass(v)})
            except Exception as ex:
                e['got'].append({'eq': False, 'c': type(ex).__name__})
    return e


def conf_case(todo):
    def fn():
        with pipe.Scratch() as d:
            evs = []
            for muts, mode in todo:
                if mode == 'yaml' and any(m['t'] in ('npf', 'npi', 'frac') for m in muts):
                    mode = 'dict'
                evs.append(conf_event(muts, mode, d))
            return evs
    return fn


def triple(x):
    f = Fr(x)
    a, r = divmod(f, 1)
    b, r = divmod(r * 2**26, 1)
    c, r = divmod(r * 2**26, 1)
    return [int(a), int(b), int(c), int(r != 0)]


def range_case(rng):
    def fn():
        with pipe.Scratch() as d:
            evs = []
            for _ in range(6):
                nf = rng.choice([1, 2, 3])
                unit = 64 * rng.choice([1, 1, 4, 16, 64, 1024])                        # sampling times are multiples of 1/unit s
                ks = [rng.choice([1, 2, 2, 3, 4]) for _ in range(nf)]                  
                files = [pipe.write_presto(d, f'f{i}', None, nsamp=4096, tsamp=k / unit, dm=float(i)) for i, k in enumerate(ks)]
                tmax = max(ks)
                nr = rng.choice([1, 2, 3])
                rs, rows = [], []
                lo = rng.choice([32, 48, 64, 100, 128, 130])
                trouble = rng.choice(['none', 'none', 'bins', 'cbins', 'gap', 'ulp', 'overlap', 'swap', 'edge'])
                at = rng.randrange(nr)
                prev = None
                for i in range(nr):
                    hi = lo * rng.choice([2, 3]) + rng.choice([0, 1])
                    lim = lo // tmax                                                  # largest number of bins allowed
                    b, c = rng.choice([lim, max(1, lim - 1), max(1, lim // 2)]), rng.choice([lim, max(1, lim - 2), max(1, lim // 3)])
                    if i == at and trouble == 'bins':
                        b = lim + rng.choice([1, 1, 5])
                    if i == at and trouble == 'cbins':
                        c = lim + rng.choice([1, 1, 5])
                    plo, phi = lo / unit, hi / unit
                    if prev is not None and i == at:
                        if trouble == 'gap':
                            plo += 1 / unit / 16
                        elif trouble == 'overlap':
                            plo -= 1 / unit / 16
                            b = c = 1
                        elif trouble == 'ulp':
                            plo = float(np.nextafter(plo, 100.0))
                    rs.append(pipe.range_conf(plo, phi, bins_min=b, bins_max=b + 4, cbins=c, name=f'r{i}'))
                    prev, lo = hi, hi
                if trouble == 'swap' and nr > 1:
                    rs[0], rs[1] = rs[1], rs[0]
                for r in rs:
                    f = r['ffa_search']
                    rows.append({'pmin': int(Fr(f['period_min']) * 1024 * unit), 'bmin': f['bins_min'], 'cb': r['candidates']['bins'],
                                 'lo': triple(f['period_min']), 'hi': triple(f['period_max'])})
                e = {'e': 'ranges', 'ranges': rows, 'tmax': tmax * 1024, 'clean': True, 'how': rng.choice(['prepare', 'process'])}
                p = Pipeline(pipe.config(rs))
                out = os.path.join(d, 'out')
                os.makedirs(out, exist_ok=True)
                before = pipe.tree(d)
                # there are no data files: reading them before the check fails
                if e['how'] == 'process' and not valid(rows, e['tmax']):
                    e['out'], _ = outcome(lambda: p.process(files, out))
                else:
                    e['out'], _ = outcome(lambda: p.prepare(files))
                e['clean'] = pipe.tree(d) == before
                evs.append(e)
            return evs
    return fn


def valid(rows, tmax):
    return all(r['bmin'] * tmax <= r['pmin'] and r['cb'] * tmax <= r['pmin'] for r in rows) and \
        all(a['hi'] == b['lo'] for a, b in zip(rows[:-1], rows[1:]))


def example_case():
    """the documented model configuration is accepted"""
    f = os.path.join(os.path.dirname(riptide.__file__), 'pipeline', 'config', 'example.yaml')
    out, p = outcome(lambda: Pipeline.from_yaml_config(f))
    return {'e': 'conf', 'muts': [], 'mode': 'example', 'got': [], 'out': out}


def cases(ctx):
    yield 'example/0', example_case
    todo = []
    for k, h in enumerate(json.load(open(ctx.opts.gen))):
        todo.append((h, 'yaml' if k % 4 == 3 else 'dict'))
    single = [t for t in todo if len(t[0]) == 1]
    multi = [t for t in todo if len(t[0]) > 1]
    for name, ts in (('single', single), ('multi', multi)):
        for i in range(0, len(ts), 40):
            yield f'{name}/{i // 40}', conf_case(ts[i:i + 40])
    for k in range(ctx.n(60, 800)):
        yield f'ranges/{k}', range_case(ctx.rng(f'r{k}'))


if __name__ == '__main__':
    main(cases)
