"""C12: friends-of-friends clustering"""
import itertools
import numpy as np
from riptide.clustering import cluster1d
from drv import main, outcome, iv


NARROW = {'i8': np.int8, 'u8': np.uint8, 'i16': np.int16, 'u32': np.uint32}


def event(x, r, scale, how, already, off=0):
    """x: integers; the code gets off + x/scale and r/scale"""
    a = np.asarray(x, dtype=np.float64) / scale
    if how not in ('f32', 'int') and how not in NARROW:
        a = a + off                             # exact: fewer than 52 bits
    if how == 'f32':
        a = a.astype(np.float32)
    elif how == 'int':
        a = np.asarray(x, dtype=np.int64)
        scale = 1
    elif how in ('i8', 'u8', 'i16', 'u32') and all(np.iinfo(NARROW[how]).min <= v <= np.iinfo(NARROW[how]).max for v in x):
        a = np.asarray(x, dtype=NARROW[how])
        scale = 1
    elif how == 'strided':
        b = np.full(2 * len(a), 77.0)
        b[::2] = a
        a = b[::2]
    keep = a.copy()
    if how == 'readonly':
        a.flags.writeable = False
    rr = r / scale if scale != 1 else r
    if already is None:
        out, g = outcome(lambda: cluster1d(a, rr))
    else:
        out, g = outcome(lambda: cluster1d(a, rr, already_sorted=already))
    groups = [[iv(v) for v in np.asarray(c).ravel()] for c in g] if out == 'ok' else []
    return {'e': 'cluster', 'x': [int(v) for v in x], 'r': r, 'out': out, 'groups': groups,
            'pure': bool(np.array_equal(a, keep))}


def modes(x):
    """how the order of x may be declared"""
    m = [None, False]
    if all(x[i] <= x[i + 1] for i in range(len(x) - 1)) or all(x[i] >= x[i + 1] for i in range(len(x) - 1)):
        m.append(True)
    return m


def small_case(xs, rmax):
    def fn():
        return [event(x, r, [1, 2, 1024][(len(x) + r) % 3], ['f64', 'int', 'f32', 'strided', 'readonly'][(sum(x) + r) % 5], a)
                for x in xs for r in range(rmax + 1) for a in modes(x)[1:]]
    return fn


def random_case(rng, nmax):
    def fn():
        evs = []
        for _ in range(4):
            n = rng.choice([1, 2, 3, rng.randint(4, nmax), nmax])
            span = rng.choice([n, 3 * n, 20 * n, 1000 * n])
            x = [rng.randint(-span, span) for _ in range(n)]
            if rng.random() < 0.4:
                c = [rng.randint(-span, span) for _ in range(max(1, n // 8))]
                x = [rng.choice(c) + rng.randint(-2, 2) for _ in range(n)]
            o = rng.choice(['asc', 'desc', 'none', 'none'])
            if o != 'none':
                x.sort(reverse=o == 'desc')
            r = rng.choice([0, 1, 2, rng.randint(0, 50), span // max(1, n), 10 * span])
            for a in modes(x):
                evs.append(event(x, r, rng.choice([1, 2, 64, 65536, 2**20]), rng.choice(['f64', 'int', 'f32', 'strided', 'readonly']), a,
                                 rng.choice([0, 0, 1, 1000, -1000, 2**20])))
        for _ in range(3):                      # integer types in which differences may overflow
            how = rng.choice(list(NARROW))
            info = np.iinfo(NARROW[how])
            lo, hi = max(int(info.min), -2**28), min(int(info.max), 2**28)
            x = [rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(lo, lo + 20)]) for _ in range(rng.randint(1, 30))]
            o = rng.choice(['asc', 'desc', 'none'])
            if o != 'none':
                x.sort(reverse=o == 'desc')
            for a in modes(x):
                evs.append(event(x, rng.choice([0, 1, 5, 50, (hi - lo) // 2]), 1, how, a))
        return evs
    return fn


def many_case(rng):
    """tens of thousands of points: see Many in the specification"""
    def fn():
        n = rng.choice([rng.randint(2000, 9000), rng.randint(33000, 90000)])
        r = rng.randint(1, 20)
        pos = sorted(rng.sample(range(2, n + 1), rng.randint(0, 12)))
        jumps = [[k, rng.choice([r - 1, r, r - 1 + rng.randint(1, 5), 10 * r, rng.randint(0, 2 * r)])] for k in pos]
        d = np.ones(n, dtype=np.int64)
        d[0] = 0
        for k, j in jumps:
            d[k - 1] += j
        v = np.cumsum(d).astype(np.float64) / 64.0
        how = rng.choice(['asc', 'desc', 'shuffled'])
        order = np.arange(n)
        if how == 'desc':
            order = order[::-1]
        elif how == 'shuffled':
            order = np.random.RandomState(rng.randrange(1 << 30)).permutation(n)
        x = v[order]
        keep = x.copy()
        sd = how != 'shuffled' and rng.random() < 0.7
        out, g = outcome(lambda: cluster1d(x, r / 64.0, already_sorted=sd))
        gs, contig = [], True
        for c in (g if out == 'ok' else []):
            q = np.sort(order[np.asarray(c)])
            contig = contig and len(q) > 0 and bool((np.diff(q) == 1).all())
            gs.append([int(q[0]) + 1, len(q)] if len(q) else [0, 0])
        return {'e': 'many', 'n': n, 'r': r, 'jumps': jumps, 'groups': sorted(gs), 'contig': bool(contig), 'out': out,
                'pure': bool(np.array_equal(x, keep))}
    return fn


def cases(ctx):
    xs = [x for n in range(ctx.n(5, 6)) for x in itertools.product(range(5), repeat=n)]
    for i in range(0, len(xs), 40):
        yield f'small/{i // 40}', small_case(xs[i:i + 40], 3)
    for k in range(ctx.n(40, 400)):
        yield f'many/{k}', many_case(ctx.rng(f'm{k}'))
    for k in range(ctx.n(120, 1500)):
        yield f'random/{k}', random_case(ctx.rng(f'r{k}'), ctx.n(120, 400))


if __name__ == '__main__':
    main(cases)
