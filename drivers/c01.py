"""C01: FFA transform"""
import numpy as np
import riptide
from drv import main, iv, poisoned, outcome, BAD


def pos_of_one(row):
    """index of the only 1 in a row of zeros, else -1"""
    nz = np.flatnonzero(row)
    if len(nz) == 1 and row[nz[0]] == 1:
        return int(nz[0])
    return -1


def impulse_case(m, p, c):
    def fn():
        d = [[-1] * m for _ in range(m)]
        for i in range(m):
            x = np.zeros((m, p), np.float32)
            x[i, c] = 1
            y = riptide.ffa2(poisoned(x))
            if y.shape != (m, p):
                return {'e': 'impulse', 'm': m, 'p': p, 'd': []}
            for s in range(m):
                k = pos_of_one(y[s])
                d[s][i] = (c - k) % p if k >= 0 else -1
        return {'e': 'impulse', 'm': m, 'p': p, 'd': d}
    return fn


def sampled_case(m, p, rng, kind='sampled'):
    def fn():
        q = []
        full = {m // 2 - 1, rng.randrange(1, m - 1)} if kind == 'sampled' else set()        # pulses looked for in every row
        for i in sorted(full | {0, m - 1, m // 2, m // 2 - 1, m // 4, *[rng.randrange(m) for _ in range(6 if kind == 'sampled' else 1)]}):
            c = rng.randrange(p)
            x = np.zeros((m, p), np.float32)
            x[i, c] = 1
            y = riptide.ffa2(poisoned(x))
            for s in range(m) if i in full else {0, 1, m - 1, m // 2, (m - 1) // 2, *[rng.randrange(m) for _ in range(15 if kind == 'sampled' else 150)]}:
                k = pos_of_one(y[s])
                q.append([s, i, (c - k) % p if k >= 0 else -1])
        return {'e': kind, 'm': m, 'p': p, 'q': q}
    return fn


def values_case(m, p, rng):
    def fn():
        amp = rng.choice([3, 50, 1000, 1 << 17])
        x = np.array([[rng.randint(-amp, amp) for _ in range(p)] for _ in range(m)], np.float32)
        px = poisoned(x)
        y = riptide.ffa2(px)
        again = bool(np.array_equal(px, x))
        keep = y.copy()
        riptide.ffa2(poisoned(x + 1))
        y2 = riptide.ffa2(x)
        again = again and np.array_equal(y, keep) and np.array_equal(y2, keep)
        return {'e': 'values', 'm': m, 'p': p, 'x': [[iv(v) for v in r] for r in x],
                'y': [[iv(v) for v in r] for r in y], 'dtype': str(y.dtype) == 'float32', 'again': bool(again)}
    return fn


def ffa1_case(n, p, rng):
    def fn():
        x = np.array([rng.randint(-40, 40) for _ in range(n)], np.float32)
        y = riptide.ffa1(poisoned(x), p)
        return {'e': 'ffa1', 'n': n, 'p': p, 'x': [iv(v) for v in x], 'y': [[iv(v) for v in r] for r in y]}
    return fn


def err_case(f, want):
    def fn():
        out, _ = outcome(f)
        return {'e': 'errors', 'out': out, 'want': want}
    return fn


def cases(ctx):
    ms = list(range(1, ctx.n(34, 80)))
    for m in ms:
        rng = ctx.rng(f'imp{m}')
        ps = {1, 2, 3, m, m + 1, max(1, m - 1), rng.randint(1, 2 * m + 8)} if m <= 12 or ctx.thorough \
            else {rng.choice([1, 2, 3]), rng.randint(4, m + 1), 2 * m}
        for p in sorted(ps):
            yield f'impulse/{m}x{p}', impulse_case(m, p, rng.randrange(p))
    for m in (48, 64, 65) + ((96, 127, 128, 129, 181, 256) if ctx.thorough else ()):
        rng = ctx.rng(f'impb{m}')
        p = rng.randint(3, 2 * m)
        yield f'impulse/{m}x{p}b', impulse_case(m, p, rng.randrange(p))
    for k in range(ctx.n(24, 120)):
        rng = ctx.rng(f'samp{k}')
        m = rng.randint(60, 2000)
        p = rng.choice([rng.randint(2, 40), rng.randint(40, 520)])
        yield f'sampled/{k}', sampled_case(m, p, rng)
    for k in range(ctx.n(4, 16)):
        rng = ctx.rng(f'tall{k}')
        yield f'tall/{k}', sampled_case([70000, 140000, 10000, 180000][k % 4] + rng.randint(-3000, 3000), rng.randint(20, 50), rng, 'tall')
    for k in range(ctx.n(80, 400)):
        rng = ctx.rng(f'val{k}')
        m = rng.randint(1, ctx.n(14, 22))
        p = rng.randint(1, ctx.n(14, 22))
        yield f'values/{k}', values_case(m, p, rng)
    for k in range(ctx.n(40, 200)):
        rng = ctx.rng(f'f1{k}')
        p = rng.randint(1, 12)
        n = rng.randint(p, p * 12)
        yield f'ffa1/{k}', ffa1_case(n, p, rng)
    x = np.arange(20, dtype=np.float32)
    yield 'errors/p0', err_case(lambda: riptide.ffa1(x, 0), 'ValueError')
    yield 'errors/pneg', err_case(lambda: riptide.ffa1(x, -3), 'ValueError')
    yield 'errors/plarge', err_case(lambda: riptide.ffa1(x, 21), 'ValueError')
    yield 'errors/pfloat', err_case(lambda: riptide.ffa1(x, 4.0), 'ValueError')
    yield 'errors/2d', err_case(lambda: riptide.ffa1(x.reshape(4, 5), 4), 'ValueError')
    yield 'errors/psize', err_case(lambda: riptide.ffa1(x, 20), 'ok')


if __name__ == '__main__':
    main(cases)
