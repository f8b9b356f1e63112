"""Driver framework: runs cases against the real code in forked workers and records trace events.

A driver module defines `cases(ctx)` yielding (case id, function); the function returns one event (dict) or a
list of events.  A worker that dies or hangs, or an unexpected exception raised inside riptide, is recorded as an
event of its own, so that the specification rejects it.
"""
import argparse, json, math, os, random, signal, sys, time, traceback, zlib
from fractions import Fraction
import numpy as np

BAD = 1073741823            # "not an exact/finite integer": never equal to an expected value
LIM = 1 << 30
TIMEOUT = 150


class Ctx:
    def __init__(self, tier, seed, opts):
        self.tier, self.seed, self.opts = tier, seed, opts
        self.thorough = tier == 'thorough'

    def rng(self, name):
        return random.Random(f'{self.seed}/{name}')

    def n(self, quick, thorough):
        return thorough if self.thorough else quick


def iv(x):
    """Exact integer value of a number, or BAD"""
    try:
        x = float(x)
    except Exception:
        return BAD
    if not math.isfinite(x) or x != math.floor(x) or abs(x) >= LIM:
        return BAD
    return int(x)


def fx(x, scale=1):
    """round(x * scale) in exact arithmetic, or BAD"""
    try:
        x = float(x)
    except Exception:
        return BAD
    if not math.isfinite(x):
        return BAD
    v = round(Fraction(x) * Fraction(scale))
    return int(v) if abs(v) < LIM else BAD


def rnd(x):
    x = float(x)
    if not math.isfinite(x) or abs(x) >= LIM:
        return BAD
    return int(round(x))


def big(n):
    """non-negative integer -> little-endian base 2^15 digits (spec: Big.tla)"""
    n = int(n)
    assert n >= 0
    d = []
    while n:
        d.append(n & 32767)
        n >>= 15
    return d


def poisoned(arr, pad=64, val=1e30):
    """Contiguous copy of arr embedded in a larger buffer filled with `val`: reads outside show up in results"""
    arr = np.asarray(arr)
    buf = np.empty(arr.size + 2 * pad, dtype=arr.dtype)
    buf[:] = val if arr.dtype.kind == 'f' else 123
    v = buf[pad:pad + arr.size]
    v[:] = arr.ravel()
    v = v.reshape(arr.shape)
    assert v.flags.c_contiguous and v.base is not None
    return v


def outcome(fn):
    """Run fn; ('ok', result) or (exception class name, None)"""
    try:
        return 'ok', fn()
    except Exception as e:
        return type(e).__name__, None


def in_package(tb):
    pkg = os.environ.get('VERIF_REPO_COPY', '/nonexistent')
    while tb is not None:
        f = tb.tb_frame.f_code.co_filename
        if f.startswith(pkg):
            return True
        tb = tb.tb_next
    return False


def ev_exception(cid, e):
    last = traceback.extract_tb(e.__traceback__)[-1]
    return {'id': cid, 'e': 'exception', 'type': type(e).__name__,
            'what': str(e)[:200].encode('ascii', 'replace').decode(), 'at': f'{os.path.basename(last.filename)}:{last.name}'}


def _worker(cases, start, path, prog, timeout):
    """run cases[start:]; append events; exit code 0 = done, 3 = driver error"""
    with open(path, 'a') as out:
        for k in range(start, len(cases)):
            cid, fn = cases[k]
            with open(prog, 'w') as p:
                p.write(str(k))
            signal.alarm(timeout)
            try:
                evs = fn()
            except Exception as e:
                # an exception raised in riptide, or by the handling of a result that makes no sense, is an observation;
                # trouble of the machine is not
                if in_package(e.__traceback__) or not isinstance(e, (OSError, MemoryError, ImportError)):
                    evs = ev_exception(cid, e)
                else:
                    signal.alarm(0)
                    print(f'driver error in case {cid}')
                    traceback.print_exc(file=sys.stdout)
                    sys.stdout.flush()
                    os._exit(3)
            signal.alarm(0)
            if isinstance(evs, dict):
                evs = [evs]
            for ev in evs or []:
                ev.setdefault('id', cid)
                out.write(json.dumps(ev, separators=(',', ':')) + '\n')
            out.flush()


def main(cases_fn):
    ap = argparse.ArgumentParser()
    ap.add_argument('--out', required=True)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--shards', type=int, default=8)
    ap.add_argument('--only')
    ap.add_argument('--gen', help='file with behaviours generated from the specification')
    a = ap.parse_args()
    ctx = Ctx(a.tier, a.seed, a)
    allc = list(cases_fn(ctx))
    ids = [c for c, _ in allc]
    assert len(set(ids)) == len(ids), 'duplicate case ids'
    if a.only:
        allc = [c for c in allc if c[0] == a.only]
    n = max(1, min(a.shards, len(allc)))
    shards = [allc[i::n] for i in range(n)]
    procs = {}
    state = {}

    def spawn(i, start):
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                _worker(shards[i], start, state[i][0], state[i][1], TIMEOUT)
            except BaseException:
                traceback.print_exc(file=sys.stdout)
                sys.stdout.flush()
                os._exit(3)
            os._exit(0)
        procs[pid] = i

    for i in range(n):
        state[i] = (os.path.join(a.out, f's{i:02d}.ndjson'), os.path.join(a.out, f's{i:02d}.progress'))
        open(state[i][0], 'w').close()
        spawn(i, 0)
    failed, hangs = False, {}
    while procs:
        pid, st = os.wait()
        i = procs.pop(pid)
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0:
            continue
        if os.WIFEXITED(st) and os.WEXITSTATUS(st) == 3:
            failed = True
            continue
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else -os.WEXITSTATUS(st)
        k = int(open(state[i][1]).read())
        cid = shards[i][k][0]
        # drop a partial last line, if any
        data = open(state[i][0]).read()
        data = data[:data.rfind('\n') + 1]
        kind = 'hang' if sig == signal.SIGALRM else 'crash'
        with open(state[i][0], 'w') as f:
            f.write(data + json.dumps({'id': cid, 'e': kind, 'signal': sig}) + '\n')
        hangs[i] = hangs.get(i, 0) + (kind == 'hang')
        if k + 1 < len(shards[i]) and hangs[i] < 2:              # enough is known: the check must end in time
            spawn(i, k + 1)
    if failed:
        sys.exit(3)
    groups, samples = {}, []
    for i in range(n):
        for line in open(state[i][0]):
            ev = json.loads(line)
            g = ev['id'].split('/')[0]
            groups[g] = groups.get(g, 0) + 1
            if groups[g] == 1:
                s = json.dumps(ev)
                samples.append(ev if len(s) < 1500 else {'id': ev['id'], 'event': s[:1500] + '...'})
    json.dump(dict(cases=len(allc), groups=groups, samples=samples), open(os.path.join(a.out, 'meta.json'), 'w'))
