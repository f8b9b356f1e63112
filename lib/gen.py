"""Behaviours generated by TLC from a specification, for replay in the real code."""
import json, os, re, zlib


def histories(module, const, num, name='gen'):
    """`num` random behaviours of `module` (TLC simulation mode); num, const = (quick, thorough)"""
    def fn(scratch, tier, seed, tlc):
        t = 1 if tier == 'thorough' else 0
        c = const[t]
        cfg = 'SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n'
        cfg += ''.join(f'CONSTANT {k} = {v}\n' for k, v in c.items())
        rc, out = tlc(scratch, name, module, cfg, workers=1,
                      args=['-simulate', f'num={num[t]}', '-depth', str(int(c['DEPTH']) + 1), '-seed', str(seed)])
        hists = []
        for m in re.finditer(r'<<\s*"HIST",\s*"(.*?)"\s*>>\n', out, re.S):
            hists.append(json.loads(m.group(1).replace('\\"', '"')))
        if rc != 0 or len(hists) < 10:
            raise RuntimeError(f'TLC generated {len(hists)} behaviours (rc={rc}):\n' + out[-3000:])
        # TLC also prints the alternatives to the last step: keep a few of them per history
        uniq, seen = [], {}
        for h in sorted({json.dumps(h) for h in hists}, key=lambda s: zlib.crc32(s.encode())):
            k = json.dumps(json.loads(h)[:-1])
            seen[k] = seen.get(k, 0) + 1
            if seen[k] <= 2:
                uniq.append(h)
        path = os.path.join(scratch, name + '.json')
        with open(path, 'w') as f:
            f.write('[' + ',\n'.join(uniq) + ']')
        return ['--gen', path]
    return fn


def enumerate_and_sample(module, num, depths, name='gen'):
    """every behaviour of length 1 (breadth-first), and `num` random ones of each of the given lengths"""
    def fn(scratch, tier, seed, tlc):
        t = 1 if tier == 'thorough' else 0
        hists = []
        for d in [1] + list(depths):
            cfg = f'SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\nCONSTANT DEPTH = {d}\nCONSTANT GEN = TRUE\n'
            args = [] if d == 1 else ['-simulate', f'num={num[t]}', '-depth', str(d + 1), '-seed', str(seed)]
            rc, out = tlc(scratch, f'{name}{d}', module, cfg, workers=1, args=args)
            got = sorted({m.group(1).replace('\\"', '"') for m in re.finditer(r'<<\s*"HIST",\s*"(.*?)"\s*>>\n', out, re.S)},
                         key=lambda s: zlib.crc32(s.encode()))
            if rc != 0 or len(got) < 10:
                raise RuntimeError(f'TLC generated {len(got)} behaviours (rc={rc}):\n' + out[-3000:])
            hists += got if d == 1 else got[:num[t]]
        path = os.path.join(scratch, name + '.json')
        with open(path, 'w') as f:
            f.write('[' + ',\n'.join(hists) + ']')
        return ['--gen', path]
    return fn
