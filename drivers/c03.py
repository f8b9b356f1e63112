"""C03: real-valued downsampling"""
from fractions import Fraction as Fr
import math
import numpy as np
import riptide
from riptide import TimeSeries
from drv import main, fx, poisoned, outcome, big

INF = float('inf')


def call(via, x, f):
    if via == 'fn':
        return riptide.downsample(poisoned(x, val=INF), f)
    ts = TimeSeries(poisoned(x, val=INF), 0.25)
    return ts.downsample(f).data


def full_case(size, num, den, exact, via, rng):
    def fn():
        x = np.array([rng.randint(-8, 8) for _ in range(size)], np.float32)
        f = num / den
        px = poisoned(x, val=INF)
        y = riptide.downsample(px, f) if via == 'fn' else TimeSeries(px, 0.25).downsample(f).data
        keep = y.copy()
        y2 = call('fn', x, f)
        riptide.downsample(x + 1, f)
        pure = np.array_equal(px, x) and np.array_equal(keep, y) and np.array_equal(y2, y)
        return {'e': 'full', 'size': size, 'num': num, 'den': den, 'exact': exact, 'x': [int(v) for v in x],
                'y': [fx(v, den * 16) for v in y], 'dtype': y.dtype == np.float32, 'pure': bool(pure)}
    return fn


def sampled_case(size, num, den, rng):
    def fn():
        nr = np.random.RandomState(rng.randrange(1 << 30))
        x = nr.randint(-8, 9, size).astype(np.float32)
        y = riptide.downsample(poisoned(x, val=INF), num / den)
        n = len(y)
        q = []
        for k in {0, n - 1, n - 2, n // 2, *[rng.randrange(n) for _ in range(12)]}:
            if 0 <= k < n:
                i0 = k * num // den
                i1 = min(size, ((k + 1) * num) // den + 1)
                q.append({'k': k, 'i0': i0, 'x': [int(v) for v in x[i0:i1]], 'y': fx(y[k], den * 16)})
        return {'e': 'sampled', 'size': size, 'num': num, 'den': den, 'exact': True, 'n': n, 'q': q}
    return fn


def count_case(rng):
    """factors within a tiny distance of a divisor of the size"""
    def fn():
        size = rng.choice([rng.randint(4, 200), rng.randint(1000, 60000)])
        n = rng.randint(1, size // 2)
        f = size / n * (1 + rng.choice([-1, 1]) * 2.0 ** -rng.randint(8, 49))
        if not 1 < f <= size:
            f = size / n
        fr = Fr(f)
        y = call('fn', np.ones(size, np.float32), f)
        return {'e': 'count', 'size': size, 'num': big(fr.numerator), 'den': big(fr.denominator), 'n': len(y)}
    return fn


def args_case(size, num, den, val, via):
    def fn():
        x = np.ones(size, np.float32)
        out, _ = outcome(lambda: call(via, x, val))
        return {'e': 'args', 'size': size, 'num': num, 'den': den, 'nan': bool(math.isnan(val)), 'out': out}
    return fn


def cases(ctx):
    # exhaustive: every size and every dyadic factor k/4 (k/8) up to the size
    den = 4
    for size in range(2, ctx.n(14, 26)):
        for num in range(den + 1, size * den + 1):
            rng = ctx.rng(f'{size}-{num}')
            if size > 7 and not ctx.thorough and rng.random() > 0.5:
                continue
            g = math.gcd(num, den)
            yield f'full/{size}-{num}o{den}', full_case(size, num // g, den // g, True, 'fn' if num % 3 else 'ts', rng)
    for k in range(ctx.n(150, 900)):
        rng = ctx.rng(f'r{k}')
        size = rng.randint(2, 120)
        exact = rng.random() < 0.5
        d = rng.choice([1, 2, 4, 8, 16, 32]) if exact else rng.choice([3, 5, 6, 7, 9, 10, 11, 13])
        c = rng.random()
        if c < 0.2:
            # a factor that divides the data exactly
            n = rng.randint(1, max(1, size // 2))
            fr = Fr(size, n)
        elif c < 0.4:
            fr = Fr(rng.randint(d + 1, 2 * d + 1), d)
        else:
            fr = Fr(rng.randint(d + 1, size * d), d)
        if not 1 < fr <= size:
            continue
        ex = (fr.denominator & (fr.denominator - 1)) == 0
        if fr.denominator > 64:
            continue
        yield f'random/{k}', full_case(size, fr.numerator, fr.denominator, ex, rng.choice(['fn', 'ts']), rng)
    for k in range(ctx.n(24, 120)):
        rng = ctx.rng(f's{k}')
        size = rng.choice([rng.randint(1000, 40000), rng.randint(1 << 18, 1 << 22)])
        d = rng.choice([1, 2, 4, 8, 16])
        f = rng.choice([rng.uniform(1.01, 3), rng.uniform(3, 60)])
        num = max(d + 1, round(f * d))
        g = math.gcd(num, d)
        yield f'long/{k}', sampled_case(size, num // g, d // g, rng)
    for k in range(ctx.n(80, 400)):
        yield f'count/{k}', count_case(ctx.rng(f'c{k}'))
    i = 0
    for size in (1, 2, 3, 10, 64):
        for num, d in ((1, 1), (0, 1), (-3, 1), (1, 2), (3, 4), (2, 1), (3, 2), (size, 1), (size + 1, 1),
                       (4 * size + 1, 4), (4 * size - 1, 4), (1025, 1024), (1023, 1024), (-1, 2), (1 << 20, 1)):
            i += 1
            yield f'args/{i}', args_case(size, num, d, num / d, 'ts' if i % 2 else 'fn')
        for v in (float('nan'),):
            yield f'args/nan{size}', args_case(size, 2, 1, v, 'fn')
        yield f'args/inf{size}', args_case(size, 1 << 20, 1, INF, 'fn')
        yield f'args/ninf{size}', args_case(size, -1, 1, -INF, 'fn')


if __name__ == '__main__':
    main(cases)
