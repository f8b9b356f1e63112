"""C04: boxcar S/N"""
import math
import itertools
import numpy as np
import riptide
from drv import main, rnd, poisoned, outcome


def project(snr, std, n, w):
    return rnd(float(snr) * std * math.sqrt(n * w * (n - w)) * 16)


def relayout(x, k):
    """the same array in another memory layout"""
    if k == 1:
        return np.asfortranarray(x)
    if k == 2 and x.ndim > 1:                   # leading axes swapped in memory
        return np.ascontiguousarray(x.swapaxes(0, -2)).swapaxes(0, -2)
    if k == 3:
        b = np.full(x.shape[:-1] + (2 * x.shape[-1],), np.nan, x.dtype)
        b[..., ::2] = x
        return b[..., ::2]
    if k == 4:
        return np.ascontiguousarray(x[..., ::-1])[..., ::-1]
    return x


def block_case(arr, widths, std, wform=None, layout=0):
    """arr: integer-valued ndarray, last axis is phase"""
    def fn():
        x = relayout(poisoned(arr.astype(np.float32)), layout)
        n = arr.shape[-1]
        ws = widths if wform is None else wform(widths)
        out, y = outcome(lambda: riptide.boxcar_snr(x, ws, stdnoise=std) if std is not None else riptide.boxcar_snr(x, ws))
        if layout and out != 'ok':              # unusual layouts may be refused (C25)
            return {'e': 'layout', 'out': out}
        s = 1.0 if std is None else std
        keep = y.copy()
        riptide.boxcar_snr(x + 1, ws, stdnoise=2.0)
        y2 = riptide.boxcar_snr(arr.astype(np.float32), ws, stdnoise=s)
        pure = np.array_equal(x, arr) and np.array_equal(y, keep) and np.array_equal(y, y2)
        flat = arr.reshape(-1, n)
        ok = y.shape == arr.shape[:-1] + (len(widths),)
        q = [[project(v, s, n, w) for v, w in zip(r, widths)] for r in y.reshape(-1, len(widths))] if ok else []
        return {'e': 'block', 'n': n, 'ws': list(widths), 'x': [[int(v) for v in r] for r in flat], 'q': q,
                'ishape': list(arr.shape[:-1]), 'oshape': list(y.shape), 'pure': bool(pure)}
    return fn


def args_case(n, ws, std):
    def fn():
        out, _ = outcome(lambda: riptide.boxcar_snr(np.arange(n, dtype=np.float32), ws, stdnoise=std))
        return {'e': 'args', 'n': n, 'ws': list(ws), 'stdpos': bool(std > 0), 'out': out}
    return fn


FORMS = [None, np.asarray, lambda w: np.asarray(w, dtype=np.uint64), lambda w: np.asarray(w, dtype=np.int32), tuple]


def cases(ctx):
    # exhaustive: all profiles with values in {-1, 0, 2} and n bins, all widths
    for n in range(2, ctx.n(7, 9)):
        prof = np.array(list(itertools.product((-1, 0, 2), repeat=n)), dtype=np.int64)
        for c in range(0, len(prof), 100):
            yield f'all/{n}-{c}', block_case(prof[c:c + 100], list(range(1, n)), None)
    for k in range(ctx.n(160, 900)):
        rng = ctx.rng(f'r{k}')
        n = rng.choice([2, 3, rng.randint(2, 12), rng.randint(10, 64)])
        shape = rng.choice([(), (1,), (3,), (5,), (2, 3), (2, 1, 2), (1, 1, 1, 1)])
        kind = rng.choice(['noise', 'pulse', 'dip', 'wrap', 'offset', 'flat'])
        size = int(np.prod(shape, dtype=int)) * n
        a = np.array([rng.randint(-20, 20) for _ in range(size)], dtype=np.int64).reshape(shape + (n,))
        if kind == 'pulse':
            a[..., rng.randrange(n)] += 100
        elif kind == 'dip':
            a[..., rng.randrange(n)] -= 100
        elif kind == 'wrap':
            a[..., 0] += 60
            a[..., n - 1] += 60
        elif kind == 'offset':
            a += rng.choice([-500, 300])
        elif kind == 'flat':
            a[...] = rng.randint(-5, 5)
        nw = rng.randint(1, 6)
        widths = [rng.randint(1, n - 1) for _ in range(nw)]
        if rng.random() < 0.5:
            widths[rng.randrange(nw)] = n - 1
        std = rng.choice([None, 1.0, 0.5, 2.0, 3.0, 0.1, rng.uniform(0.05, 20), 10 ** rng.uniform(-12, 12), float(np.float32(10 ** rng.uniform(-3, 3)))])
        yield f'random/{k}', block_case(a, widths, std, rng.choice(FORMS), rng.choice([0, 0, 1, 2, 2, 3, 4]))
    for k in range(ctx.n(6, 40)):
        rng = ctx.rng(f'b{k}')
        n = rng.randint(200, 1100)
        a = np.array([rng.randint(-9, 9) for _ in range(n)], dtype=np.int64)
        a[rng.randrange(n)] += 50
        yield f'wide/{k}', block_case(a, [1, 2, rng.randint(3, n // 4), n // 2, n - 1], 1.0)
    i = 0
    for n in (2, 3, 5, 16):
        for ws in ([0], [n], [n + 1], [1, n], [n, 1], [1, 0, 1], [1], [n - 1], [1, 1, n - 1], [10 * n]):
            for std in (1.0, 0.0, -1.0, -1e-300, 0.25):
                i += 1
                yield f'args/{i}', args_case(n, ws, std)


if __name__ == '__main__':
    main(cases)
