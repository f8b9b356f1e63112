"""C07: folding"""
from fractions import Fraction as Fr
import math
import numpy as np
import riptide
from riptide import TimeSeries
from riptide.folding import fold as ffold
from drv import main, iv, rnd, poisoned, outcome


def fold(ts, P, b, sub, via):
    if via == 'method':
        return ts.fold(P, b, subints=sub)
    if via == 'method-none' and sub is None:
        return ts.fold(P, b)
    return ffold(ts, P, b, subints=sub)


def fold_case(rng, n, tsamp, f, b, subs):
    """tsamp, f: exact rationals (the intended values); one event per number of subints"""
    def fn():
        t, P = float(tsamp), float(tsamp * f * b)
        amp = rng.choice([1, 3, 8])
        x = np.array([rng.randint(-amp, amp) for _ in range(n)], np.float32)
        ts = TimeSeries(poisoned(x), t)
        ts.metadata['note'] = 'original'
        q = ts.length / P
        strict = q == math.floor(q)
        out, y = outcome(lambda: ffold(ts, P, b))
        m = (1 if y.ndim == 1 else len(y)) if out == 'ok' else 0
        evs = []
        for sub in subs(m):
            md0 = dict(ts.metadata)
            via = rng.choice(['method', 'method-none', 'fn'])
            out, y = outcome(lambda: fold(ts, P, b, sub, via))
            ev = {'e': 'fold', 'n': n, 'num': f.numerator, 'den': f.denominator, 'b': b, 'm': m, 'amp': amp,
                  'strict': bool(strict), 'sub': -1 if sub is None else sub, 'out': out, 'x': [int(v) for v in x],
                  'shape': [], 'y': [], 'pure': True}
            if out == 'ok':
                keep = y.copy()
                y2 = fold(ts, P, b, sub, via)
                y *= 2
                ev['pure'] = bool(np.array_equal(ts.data, x) and ts.tsamp == t and dict(ts.metadata) == md0
                                  and np.array_equal(y2, keep) and not np.shares_memory(y, ts.data))
                r = m if sub is None else sub
                s = 16 * f.denominator * r * math.sqrt(m * float(f))
                ev['shape'] = list(keep.shape)
                yy = keep.reshape(-1, keep.shape[-1]) if keep.ndim else []
                if keep.ndim <= 2:
                    ev['y'] = [[rnd(float(v) * s) for v in row] for row in yy]
            evs.append(ev)
        return evs
    return fn


def args_case(n, tsamp, f, b, sub):
    def fn():
        x = np.ones(n, np.float32)
        ts = TimeSeries(x, float(tsamp))
        out, _ = outcome(lambda: ts.fold(float(tsamp * f * b), b, subints=sub))
        return {'e': 'args', 'n': n, 'num': f.numerator, 'den': f.denominator, 'b': b,
                'sub': -1 if sub is None else sub, 'out': out}
    return fn


def cases(ctx):
    dyadic = [Fr(1), Fr(1, 2), Fr(1, 1024), Fr(4)]
    decimal = [Fr(1, 1000), Fr(1, 10), Fr(64, 10**6), Fr(3, 10)]
    # small, exhaustive in the number of subints
    for k in range(ctx.n(220, 2000)):
        rng = ctx.rng(f's{k}')
        c = rng.random()
        tsamp = rng.choice(dyadic if c < 0.5 else decimal)
        den = rng.choice([1, 2, 3, 4, 5, 8, 10, 16])
        f = Fr(rng.randint(den + 1, 5 * den), den)
        b = rng.choice([1, 2, 3, 4, 5, 8, 10, 16])
        mm = rng.randint(1, 12)
        need = f * b * mm
        n = math.ceil(need)
        if rng.random() < 0.5:
            n += rng.randint(0, math.ceil(f * b) - 1) if f * b > 1 else 0
        if n > 400 or f * b > n:
            continue

        def subs(m):
            s = list(range(1, m + 1))
            if len(s) > 5:
                s = sorted(set(rng.sample(s, 4) + [1, m, m - 1]))
            return [None] + s
        yield f'small/{k}', fold_case(rng, n, tsamp, f, b, subs)
    # whole number of periods, inexact factors, many periods
    for k in range(ctx.n(60, 400)):
        rng = ctx.rng(f'w{k}')
        tsamp = rng.choice(decimal + dyadic)
        b = rng.choice([2, 3, 4, 7, 8])
        f = Fr(rng.randint(4, 12), 3) if k % 2 else Fr(rng.randint(11, 40), 10)
        mm = rng.choice([rng.randint(2, 40), 10 * rng.randint(1, 6)])
        n = math.ceil(f * b * mm) + rng.choice([0, 0, 1])
        if n > 1200:
            continue

        def subs(m):
            return [None] + sorted({1, m, max(1, m - 1), rng.randint(1, max(1, m)), rng.randint(1, max(1, m))} - {0})
        yield f'whole/{k}', fold_case(rng, n, tsamp, f, b, subs)
    i = 0
    for n, b, f in ((40, 4, Fr(2)), (41, 4, Fr(5, 2)), (64, 8, Fr(3, 2)), (20, 4, Fr(5)), (20, 4, Fr(4)), (20, 4, Fr(6)),
                    (50, 10, Fr(1)), (50, 10, Fr(3, 4)), (50, 10, Fr(101, 100)), (30, 1, Fr(7)), (30, 1, Fr(1)), (30, 1, Fr(1, 2)),
                    (30, 1, Fr(31)), (100, 200, Fr(1, 2))):
        for t in (Fr(1), Fr(1, 4)):
            m = n // (f * b)
            for sub in (None, -3, 0, 1, 2, int(m), int(m) + 1, 10**6):
                i += 1
                yield f'args/{i}', args_case(n, t, f, b, sub)


if __name__ == '__main__':
    main(cases)
