"""Runs the check of one property:

1. builds a scratch copy of /repo's working tree,
2. model checks the property's specification with TLC (exhaustive, small constants),
3. drives the real code, recording one trace event per observed step,
4. lets TLC decide every recorded event / behaviour against the specification.

Exit 0: property held on everything explored.  Exit 1: `VIOLATION property=.. replay=..`.
Exit 2: the machinery itself failed (no answer).
"""
import argparse, concurrent.futures as cf, json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
from registry import CHECKS                                     # noqa: E402

REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
TLA = '/opt/veriftools/tla'
CP = f'{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar'
NCPU = os.cpu_count() or 4


class MachineryError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- build
def build(scratch):
    """Build /repo's working tree in a scratch directory; return that directory."""
    dst = os.path.join(scratch, 'repo')
    os.makedirs(dst)
    shutil.copytree(os.path.join(REPO, 'riptide'), os.path.join(dst, 'riptide'),
                    ignore=shutil.ignore_patterns('*.so', '__pycache__', '*.pyc'))
    for f in ('setup.py', 'pyproject.toml', 'README.md', 'LICENSE', 'MANIFEST.in', 'setup.cfg'):
        p = os.path.join(REPO, f)
        if os.path.exists(p):
            shutil.copy(p, dst)
    env = dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION='0.2.5', PIP_NO_INDEX='1')
    cache = os.environ.get('VERIF_BUILD_CACHE')                  # development only
    key = None
    if cache:
        import hashlib
        h = hashlib.sha256()
        d = os.path.join(dst, 'riptide', 'cpp')
        for f in sorted(os.listdir(d)):
            h.update(f.encode())
            h.update(open(os.path.join(d, f), 'rb').read())
        h.update(open(os.path.join(dst, 'setup.py'), 'rb').read())
        key = os.path.join(cache, h.hexdigest()[:24])
        if os.path.isdir(key):
            for f in os.listdir(key):
                shutil.copy(os.path.join(key, f), os.path.join(dst, 'riptide'))
            return dst
    r = subprocess.run([PY, 'setup.py', '-q', 'build_ext', '--inplace', '--force'], cwd=dst, env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    so = [f for f in os.listdir(os.path.join(dst, 'riptide')) if f.endswith('.so')]
    if r.returncode or not so:
        raise MachineryError('build failed:\n' + r.stdout[-4000:])
    if cache:
        os.makedirs(key, exist_ok=True)
        for f in so + ['_version.py']:
            shutil.copy(os.path.join(dst, 'riptide', f), key)
    return dst


# ---------------------------------------------------------------- TLC
def tlc(scratch, name, module, cfgtext, env=None, workers=1, heap='3g', timeout=850, args=()):
    """Run TLC on spec/<module>.tla with the given configuration text. Returns its output."""
    d = os.path.join(scratch, 'tlc', name)
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(os.path.join(VERIF, 'spec')):
        if f.endswith('.tla'):
            shutil.copy(os.path.join(VERIF, 'spec', f), d)
    cfg = os.path.join(d, 'run.cfg')
    with open(cfg, 'w') as f:
        f.write(cfgtext)
    cmd = ['java', '-XX:+UseParallelGC' if workers > 1 else '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4',
           '-Xss128m', f'-Xmx{heap}', '-cp', CP, 'tlc2.TLC', '-workers', str(workers),
           '-metadir', os.path.join(d, 'states'), '-noGenerateSpecTE', '-deadlock',
           '-config', cfg] + list(args) + [os.path.join(d, module + '.tla')]
    r = subprocess.run(cmd, cwd=d, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return r.returncode, r.stdout


STATS = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def run_mc(scratch, i, mc, tier, workers):
    consts = dict(mc.get('const', {}))
    consts.update(mc.get(tier, {}))
    cfg = mc.get('cfg', 'SPECIFICATION Spec\n')
    for k, v in consts.items():
        cfg += f'CONSTANT {k} = {v}\n'
    for inv in mc.get('inv', []):
        cfg += f'INVARIANT {inv}\n'
    for p in mc.get('prop', []):
        cfg += f'PROPERTY {p}\n'
    cfg += 'CHECK_DEADLOCK FALSE\n'
    t0 = time.time()
    rc, out = tlc(scratch, f'mc{i}', mc['module'], cfg, workers=workers, heap='6g')
    if rc != 0 or 'No error has been found' not in out:
        raise MachineryError(f"model checking of {mc['module']} failed (rc={rc}):\n" + out[-6000:])
    m = STATS.findall(out)
    gen, dist = map(int, m[-1]) if m else (0, 0)
    if dist < mc.get('min_states', 1):
        raise MachineryError(f"model checking of {mc['module']} is vacuous: {dist} states")
    return dict(module=mc['module'], constants=consts, invariants=mc.get('inv', []) + mc.get('prop', []),
                generated=gen, distinct=dist, wall_s=round(time.time() - t0, 1))


TRACE_CFG = 'INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
REJ = re.compile(r'<<"REJECT", (\d+), (.*)>>\s*$')


def validate(scratch, name, module, trace):
    """Check one trace file; returns list of (line number, reason)."""
    n = sum(1 for _ in open(trace))
    if n == 0:
        return 0, [], 0, 0
    rc, out = tlc(scratch, name, module, TRACE_CFG, env={'TRACE': trace})
    if rc != 0 or '"DONE"' not in out:
        raise MachineryError(f'trace validation of {trace} with {module} failed (rc={rc}):\n' + out[-6000:])
    rej = []
    text = out
    # TLC may wrap long tuples over several lines
    for m in re.finditer(r'<<\s*"REJECT",\s*(\d+),\s*(.*?)>>\n', text, re.S):
        rej.append((int(m.group(1)), re.sub(r'\s+', ' ', m.group(2)).strip()))
    m = STATS.findall(out)
    gen, dist = map(int, m[-1]) if m else (0, 0)
    return n, rej, gen, dist


# ---------------------------------------------------------------- driver
def drive(scratch, repo, prop, tier, seed, script, extra=()):
    out = os.path.join(scratch, 'trace')
    os.makedirs(out, exist_ok=True)
    work = os.path.join(scratch, 'work')
    os.makedirs(work, exist_ok=True)
    env = dict(os.environ, PYTHONPATH=repo + os.pathsep + os.path.join(VERIF, 'lib') + os.pathsep
               + os.path.join(VERIF, 'drivers'), PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', PYTHONHASHSEED='0',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', HOME=work, TMPDIR=work,
               MPLCONFIGDIR=os.path.join(work, 'mpl'), VERIF_SCRATCH=scratch, VERIF_REPO_COPY=repo)
    cmd = [PY, '-B', '-W', 'ignore', os.path.join(VERIF, 'drivers', script), '--out', out, '--tier', tier,
           '--seed', str(seed), '--shards', str(NCPU)] + list(extra)
    r = subprocess.run(cmd, cwd=work, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       timeout=3000 if tier == 'thorough' else 850)
    if r.returncode:
        raise MachineryError(f'driver {script} failed (rc={r.returncode}):\n' + r.stdout[-6000:])
    return out


def load_known():
    known = []
    p = os.path.join(VERIF, 'known_findings.txt')
    for line in open(p):
        m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
        if m:
            known.append(m.groups())
    return known


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=('quick', 'thorough'))
    ap.add_argument('--replay')
    ap.add_argument('--keep', action='store_true', help='keep the scratch directory (development)')
    ap.add_argument('--no-mc', action='store_true', help='skip model checking (development)')
    args = ap.parse_args()
    pid, tier = args.property, args.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = None
    if args.replay:
        rp = json.load(open(args.replay))
        pid, tier, seed, only = rp['property'], rp['tier'], rp['seed'], rp['case']
    chk = CHECKS[pid]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f'vchk_{pid}_')
    os.chmod(scratch, 0o755)
    pool = cf.ThreadPoolExecutor(max_workers=NCPU)
    try:
        mcs = [] if (only or args.no_mc) else chk.get('mc', [])
        mcf = [pool.submit(run_mc, scratch, i, mc, tier, max(1, NCPU // 2) if tier == 'thorough' else 2)
               for i, mc in enumerate(mcs)]
        repo = build(scratch)
        extra = ['--only', only] if only else []
        for g in chk.get('gen', []):                       # behaviours generated by TLC for replay in the code
            extra += g(scratch, tier, seed, tlc)
        out = drive(scratch, repo, pid, tier, seed, chk['driver'], extra)
        meta = json.load(open(os.path.join(out, 'meta.json')))
        traces = sorted(f for f in os.listdir(out) if f.endswith('.ndjson'))
        vf = {}
        for f in traces:
            vf[f] = pool.submit(validate, scratch, 'tr_' + f[:-7], chk['trace'], os.path.join(out, f))
        rejects, nev, tstates, tgen = [], 0, 0, 0
        for f in traces:
            n, rej, gen, dist = vf[f].result()
            nev += n
            tstates += dist
            tgen += gen
            if rej:
                lines = open(os.path.join(out, f)).read().splitlines()
                for ln, why in rej:
                    rejects.append((json.loads(lines[ln - 1]), why))
        mcres = [f.result() for f in mcf]

        # ---- report
        known = [k for k in load_known() if k[0] == pid]
        new, seen = [], {}
        for ev, why in rejects:
            hit = next((k for k in known if k[1] == ev.get('id')), None)
            if hit:
                seen[hit] = 1
            else:
                new.append((ev, why))
        for k in known:
            if k in seen:
                print(f'KNOWN-FINDING: property={pid} {k[2]}')
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        for f in os.listdir(rdir) if not only else []:
            if f.startswith(pid + '-'):
                os.remove(os.path.join(rdir, f))
        lines = []
        for i, (ev, why) in enumerate(new[:5]):
            rp = os.path.join(VERIF, 'evidence', 'replay', f'{pid}-{i}.json')
            with open(rp, 'w') as f:
                json.dump(dict(property=pid, tier=tier, seed=seed, case=ev.get('id'), rejected_because=why, event=ev), f)
            lines.append(f'VIOLATION property={pid} replay=evidence/replay/{pid}-{i}.json')
            log(f'rejected: case {ev.get("id")}: {why}')
        if len(new) > 5:
            log(f'... and {len(new) - 5} more rejected events')
        if not only:
            samples = meta.get('samples', [])[:3]
            ev = dict(property=pid, tier=tier, seed=seed, level='model_checking',
                      coverage=dict(states=sum(m['distinct'] for m in mcres) + tstates,
                                    transitions=sum(m['generated'] for m in mcres) + tgen,
                                    traces_validated_against_impl=meta['cases'],
                                    trace_events=nev, model_checking_runs=mcres,
                                    cases_by_group=meta.get('groups', {}), samples=samples),
                      assumptions=chk.get('assumptions', []), wall_s=round(time.time() - t0, 1),
                      violations=len(new))
            with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
                json.dump(ev, f, indent=1)
        if nev == 0:
            raise MachineryError('no trace event recorded')
        log(f'{pid} {tier}: {meta["cases"]} cases, {nev} events, {len(new)} rejected, '
            f'{sum(m["distinct"] for m in mcres)} model states, {time.time() - t0:.1f} s')
        for x in lines:
            print(x)
        return 1 if new else 0
    except subprocess.TimeoutExpired as e:
        log('timeout:', e)
        return 2
    except MachineryError as e:
        log('ERROR:', e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        pool.shutdown(wait=False, cancel_futures=True)
        if args.keep:
            log('scratch:', scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
