"""C08: running medians and dereddening"""
from fractions import Fraction as Fr
import itertools
import numpy as np
import riptide
from riptide import TimeSeries
from riptide.running_medians import running_median, fast_running_median
from drv import main, iv, rnd, poisoned, outcome


def exact_event(x, w, cid):
    a = np.array(x, np.float32)
    px = poisoned(a)
    out, y = outcome(lambda: running_median(px, w))
    ev = {'e': 'exact', 'x': list(x), 'w': w, 'out': out, 'y': [], 'pure': True, 'id': cid}
    if out == 'ok':
        ev['y'] = [iv(v) for v in y]
        ev['pure'] = bool(np.array_equal(px, a) and np.array_equal(running_median(a, w), y)
                          and not np.shares_memory(px, y))
    return ev


def exact_case(cid, xs, ws):
    return cid, lambda: [exact_event(x, w, cid) for x in xs for w in ws]


def data(rng, n, amp):
    kind = rng.choice(['noise', 'noise', 'walk', 'ramp', 'down', 'steps', 'few', 'spike'])
    if kind == 'noise':
        return [rng.randint(-amp, amp) for _ in range(n)]
    if kind == 'walk':
        v, x = 0, []
        for _ in range(n):
            v = max(-amp, min(amp, v + rng.randint(-3, 3)))
            x.append(v)
        return x
    if kind == 'ramp':
        return [(i * 2 * amp) // n - amp for i in range(n)]
    if kind == 'down':
        return [amp - (i * 2 * amp) // n for i in range(n)]
    if kind == 'steps':
        return [(i // max(1, n // 5)) % 3 * amp // 3 for i in range(n)]
    if kind == 'few':
        return [rng.choice([0, 1]) for _ in range(n)]
    return [amp if rng.random() < 0.1 else rng.randint(0, 1) for _ in range(n)]


def fast_case(rng, n, w, minpts, mode):
    """mode: fn, or seconds: deredden with a width in seconds"""
    def fn():
        amp = rng.choice([2, 10, 50])
        x = data(rng, n, amp)
        a = np.array(x, np.float32)
        ev = {'e': 'fast', 'x': x, 'w': w, 'minpts': minpts, 'wnum': 0, 'wden': 1, 'sub': mode != 'fn', 'amp': amp,
              'y': [], 'pure': True}
        if mode == 'fn':
            px = poisoned(a)
            out, y = outcome(lambda: fast_running_median(px, w, minpts))
            if out == 'ok':
                ev['pure'] = bool(np.array_equal(px, a) and np.array_equal(fast_running_median(a, w, minpts), y))
        else:
            tsamp = rng.choice([Fr(1), Fr(1, 4), Fr(1, 1000), Fr(3, 10)])
            # width in seconds, within 0.4 samples of a whole number of samples
            q = Fr(w) + Fr(rng.randint(-4, 4), 10)
            if q <= 0:
                q = Fr(w)
            ts = TimeSeries(poisoned(a.copy()), float(tsamp))
            ev['wnum'], ev['wden'] = q.numerator, q.denominator
            sec = float(q * tsamp)
            if mode == 'inplace':
                out, r = outcome(lambda: ts.deredden(sec, minpts=minpts, inplace=True))
                y = ts.data
                ev['pure'] = r is None
            else:
                out, r = outcome(lambda: ts.deredden(sec, minpts=minpts))
                if out == 'ok':
                    y = r.data
                    ev['pure'] = bool(np.array_equal(ts.data, a))
        ev['out'] = out
        if out == 'ok':
            sf = max(1, w // minpts)
            ev['y'] = [rnd(float(v) * 128 * sf * sf) for v in y]
        return ev
    return fn


def cases(ctx):
    # all small data with 2 or 3 values, all windows
    for n in range(1, ctx.n(7, 8)):
        xs = list(itertools.product((0, 5, 2) if n <= ctx.n(5, 6) else (0, 1), repeat=n))
        for c in range(0, len(xs), 64):
            yield exact_case(f'all/{n}-{c}', xs[c:c + 64], [w for w in range(1, n + 2)])
    for k in range(ctx.n(70, 500)):
        rng = ctx.rng(f'e{k}')
        n = rng.choice([rng.randint(2, 20), rng.randint(20, 200)])
        w = rng.choice([rng.randrange(1, n + 2), rng.randrange(1, n + 1) | 1, n - 1, n, 3, 5])
        yield exact_case(f'exact/{k}', [data(rng, n, 60)], [max(w, 1)])
    for k in range(ctx.n(110, 900)):
        rng = ctx.rng(f'f{k}')
        minpts = rng.choice([1, 3, 3, 5, 5, 7, 11, 21, 2, 4])
        sf = rng.randint(1, 9)
        w = rng.choice([sf * minpts, sf * minpts + rng.randint(0, minpts - 1), max(1, sf * minpts - 1), 2 * minpts - 1, 2 * minpts])
        n = rng.choice([w + rng.randint(0, 40), rng.randint(20, 300), sf * (minpts + 1), sf * minpts + rng.randint(0, sf)])
        yield f'fast/{k}', fast_case(rng, max(n, 2), w, minpts, rng.choice(['fn', 'fn', 'out', 'inplace', 'out']))
    # the default number of minimum points
    for k in range(ctx.n(3, 12)):
        rng = ctx.rng(f'd{k}')
        yield f'default/{k}', fast_case(rng, rng.randint(620, 900), rng.choice([202, 303, 404, 250]), 101, rng.choice(['fn', 'out', 'inplace']))


if __name__ == '__main__':
    main(cases)
