"""C13: harmonic test"""
import types
from fractions import Fraction as Fr
from riptide.pipeline.harmonic_testing import htest
from riptide.peak_detection import Peak
from drv import main, outcome


def signal(kind, freq, snr, ducy, dm):
    if kind == 'peak':
        return Peak(period=1 / freq, freq=freq, width=3, ducy=ducy, iw=2, ip=7, snr=snr, dm=dm)
    return types.SimpleNamespace(freq=freq, snr=snr, ducy=ducy, dm=dm)


def call(e, kind, opts):
    F = signal(kind, e['fF'] / e['fu'], e['sF'] / e['su'], e['dF'] / e['du'], e['mF'] / e['mu'])
    H = signal(kind, e['fH'] / e['fu'], e['sH'] / e['su'], e['dH'] / e['du'], e['mH'] / e['mu'])
    kw = {}
    for k, v, d in (('denom_max', e['dmax'], 100), ('phase_distance_max', e['pl'] / e['plu'], 1.0),
                    ('dm_distance_max', e['dl'] / e['dlu'], 3.0), ('snr_distance_max', e['sl'] / e['su'], 3.0)):
        if v != d or opts:
            kw[k] = v
    e['out'], r = outcome(lambda: htest(F, H, float(e['tobs']), float(e['fn']), float(e['fx']), **kw))
    e['related'], e['p'], e['q'] = False, 0, 0
    if e['out'] == 'ok':
        e['related'] = bool(r[0])
        f = Fr(r[1])
        e['p'], e['q'] = f.numerator, f.denominator
        if f.numerator > 10**6 or f.denominator > 10**6:
            e['p'] = e['q'] = 0
    return e


def test_case(rng, n):
    def fn():
        evs = []
        for _ in range(n):
            c = rng.random()
            dyadic = rng.random() < 0.7
            fu = rng.choice([1024, 256, 4096]) if dyadic else rng.choice([1000, 300, 7])
            a = rng.randint(50, 16000)
            if c < 0.75:
                q = rng.choice([1, 1, 1, 2, 2, 3, 4, 5, 8, 9, 32, 40])
                p = rng.choice([1, 1, 2, 2, 3, 4, 4, 8, 9, 16, 27]) if q < 8 else q + rng.randint(1, q)
                b = max(1, round(a * Fr(p, q)) + rng.choice([0, 0, 0, 1, -1, 2, 5, -7, 20]))
                if b > 30000:
                    a, b = a // 8 + 1, b // 8 + 1
            else:
                b = rng.randint(50, 16000)
            if b == 0:
                b = 1
            e = {'e': 'test', 'fF': a, 'fH': b, 'fu': fu, 'du': 64 if dyadic else rng.choice([64, 100, 30]), 'su': 64, 'mu': 8,
                 'dyadic': dyadic, 'tobs': rng.choice([1, 16, 64, 128, 500, 2000]), 'dmax': rng.choice([100, 100, 100, 1, 2, 5, 8, 20])}
            if rng.random() < 0.5:
                e['fF'], e['fH'] = e['fH'], e['fF']
            e['dF'], e['dH'] = rng.choice([1, 2, 4, 8, 16]), rng.choice([1, 2, 4, 8, 16])
            e['dFastEq'] = e['dH']
            lo, hi = min(a, b), max(a, b)
            f = Fr(hi, lo).limit_denominator(e['dmax'])
            dev = abs(f.numerator * lo - f.denominator * hi)
            dfast = e['dF'] if e['fF'] > e['fH'] else e['dH']
            # phase limit: default, exactly at the distance, a bit more, a bit less
            num, den = dev * e['tobs'] * e['du'], f.denominator * fu * dfast
            k = rng.choice(['default', 'default', 'at', 'more', 'less'])
            if k == 'default' or num == 0 or num > 2**26:
                e['pl'], e['plu'] = 1, 1
            else:
                g = Fr(num, den) * {'at': 1, 'more': Fr(65, 64), 'less': Fr(63, 64)}[k]
                e['pl'], e['plu'] = g.numerator, g.denominator
                if max(e['pl'], e['plu']) > 2**30:
                    e['pl'], e['plu'] = 1, 1
            # S/N
            root = (f.numerator * f.denominator) ** 0.5
            e['sF'] = rng.choice([64 * rng.randint(5, 60), rng.randint(300, 8000)])
            want = e['sF'] / root
            e['sl'] = rng.choice([192, 192, 64, 0, 320])
            e['sH'] = max(1, round(want + rng.choice([0, 0, e['sl'], -e['sl'], e['sl'] + 2, -e['sl'] - 2, e['sl'] - 2, 5])))
            # DM
            e['fn'] = rng.choice([1100, 1300, 400, 700])
            e['fx'] = e['fn'] + rng.choice([400, 100, 16, 300])
            e['mF'] = rng.randint(0, 4000)
            e['dl'], e['dlu'] = rng.choice([(3, 1), (3, 1), (1, 1), (0, 1), (1, 4)])
            w = min(Fr(e['dF'] * fu, e['du'] * e['fF']), Fr(e['dH'] * fu, e['du'] * e['fH']))
            unit = 4150 * (Fr(1, e['fn']**2) - Fr(1, e['fx']**2)) / w / e['mu']
            lim = Fr(e['dl'], e['dlu']) / unit
            d = rng.choice([0, 0, 0, int(lim), int(lim) + 1, int(lim * 2), max(0, int(lim) - 1), rng.randint(0, 100)])
            d = min(d, 40000)
            e['mH'] = e['mF'] - d if rng.random() < .5 and e['mF'] >= d else e['mF'] + d
            evs.append(call(e, rng.choice(['peak', 'peak', 'other']), rng.random() < 0.5))
        return evs
    return fn


def args_case():
    evs = []
    F, H = signal('peak', 2.0, 10.0, 0.1, 3.0), signal('peak', 4.0, 8.0, 0.1, 3.0)
    for tobs in (100.0, 0.0, -1.0, 1e-9, 1):
        for fn, fx in ((1200.0, 1500.0), (1500.0, 1200.0), (1200.0, 1200.0), (1200, 1201)):
            for a, b in ((F, H), (H, F), (F, F)):
                out, _ = outcome(lambda: htest(a, b, tobs, fn, fx))
                evs.append({'e': 'args', 'bad': bool(tobs <= 0 or fx <= fn), 'out': out})
    return evs


def cases(ctx):
    yield 'args/0', args_case
    for k in range(ctx.n(160, 1600)):
        yield f'test/{k}', test_case(ctx.rng(f't{k}'), 20)


if __name__ == '__main__':
    main(cases)
