"""Helpers shared by the pipeline drivers: input files of both formats, configurations, peaks"""
import copy, os, shutil, struct, tempfile
import numpy as np


def key_line(key, val):
    return (' ' + key).ljust(40)[:40] + '=  ' + str(val)


KEYS = ['Data file name without suffix', 'Telescope used', 'Instrument used', 'Object being observed',
        'J2000 Right Ascension (hh:mm:ss.ssss)', 'J2000 Declination     (dd:mm:ss.ssss)', 'Data observed by',
        'Epoch of observation (MJD)', 'Barycentered?           (1 yes, 0 no)', 'Number of bins in the time series',
        'Width of each time series bin (sec)', 'Any breaks in the data? (1 yes, 0 no)']
RADIO = ['Type of observation (EM band)', 'Beam diameter (arcsec)', 'Dispersion measure (cm-3 pc)',
         'Central freq of low channel (Mhz)', 'Total bandwidth (Mhz)', 'Number of channels',
         'Channel bandwidth (Mhz)', 'Data analyzed by']
XRAY = ['Type of observation (EM band)', 'Field-of-view diameter (arcsec)', 'Central energy (kev)',
        'Energy bandpass (kev)', 'Data analyzed by']


def inf_text(basename='x', telescope='Parkes', instrument='Multibeam', source='J0000-0000', raj='10:20:30.5000',
             decj='-20:30:40.2500', observer='Nobody', mjd='59000.125000000000000', bary=0, nsamp=1024, tsamp='0.015625',
             breaks=0, pairs=(), band='Radio', fov='981', dm='0', fbot='1182.1953125', bandwidth='400', nchan=1024,
             cbw='0.390625', kev='1.0', pass_kev='2.0', analyst='me', notes=('    note',)):
    lines = [key_line(k, v) for k, v in zip(KEYS, [basename, telescope, instrument, source, raj, decj, observer, mjd, bary,
                                                   nsamp, tsamp, breaks])]
    for i, (a, b) in enumerate(pairs):
        lines.append(key_line(f'On/Off bin pair #{i + 1:>3}', f'{a:<11}, {b}'))
    if band == 'Radio':
        lines += [key_line(k, v) for k, v in zip(RADIO, [band, fov, dm, fbot, bandwidth, nchan, cbw, analyst])]
    else:
        lines += [key_line(k, v) for k, v in zip(XRAY, [band, fov, kev, pass_kev, analyst])]
    lines.append(' Any additional notes:')
    return '\n'.join(lines + list(notes)) + '\n'


def write_presto(d, base, data=None, **kw):
    """Write base.inf (and base.dat when data are given) in directory d; returns the .inf path"""
    kw.setdefault('basename', base)
    if data is not None:
        kw.setdefault('nsamp', len(data))
        np.asarray(data, dtype=np.float32).tofile(os.path.join(d, base + '.dat'))
    for k in ('tsamp', 'dm', 'fbot', 'cbw'):
        if isinstance(kw.get(k), (float, int)):
            kw[k] = repr(float(kw[k]))
    p = os.path.join(d, base + '.inf')
    with open(p, 'w') as f:
        f.write(inf_text(**kw))
    return p


def sp_str(s):
    return struct.pack('i', len(s)) + s.encode()


def sigproc_bytes(items, data, start='HEADER_START'):
    """items: list of (key, kind, value), kind in str/int/float/bool"""
    out = sp_str(start)
    for k, kind, v in items:
        out += sp_str(k)
        out += {'str': lambda: sp_str(v), 'int': lambda: struct.pack('i', v), 'float': lambda: struct.pack('d', v),
                'bool': lambda: struct.pack('B', v)}[kind]()
    return out + sp_str('HEADER_END') + data


def write_sigproc(path, data, tsamp=0.015625, dm=0.0, raj=102030.5, decj=-203040.25, source='J0000', mjd=59000.125):
    items = [('source_name', 'str', source), ('src_raj', 'float', raj), ('src_dej', 'float', decj), ('tstart', 'float', mjd),
             ('tsamp', 'float', tsamp), ('nbits', 'int', 32), ('nchans', 'int', 1), ('nifs', 'int', 1)] + ([('refdm', 'float', dm)] if dm is not None else [])
    items = [i for i in items if i[2] is not None]
    with open(path, 'wb') as f:
        f.write(sigproc_bytes(items, np.asarray(data, dtype=np.float32).tobytes()))
    return path


def range_conf(pmin, pmax, bins_min=16, bins_max=20, cbins=16, subints=4, name='r', find=None, **search):
    return {'name': name,
            'ffa_search': dict(period_min=pmin, period_max=pmax, bins_min=bins_min, bins_max=bins_max, **search),
            'find_peaks': {'smin': 6.0} if find is None else find,
            'candidates': {'bins': cbins, 'subints': subints}}


def config(ranges=None, processes=2, fmt='presto', band=(None, None, None), dmsel=(None, None, None), dered=(5.0, 101),
           radius=0.25, harm=None, filters=None, plot=False):
    return {'processes': processes,
            'data': {'format': fmt, 'fmin': band[0], 'fmax': band[1], 'nchans': band[2]},
            'dmselect': {'min': dmsel[0], 'max': dmsel[1], 'dmsinb_max': dmsel[2]},
            'dereddening': {'rmed_width': dered[0], 'rmed_minpts': dered[1]},
            'ranges': copy.deepcopy(ranges) if ranges else [range_conf(1.0, 2.0)],
            'clustering': {'radius': radius},
            'harmonic_flagging': dict({'denom_max': 100, 'phase_distance_max': 1.0, 'dm_distance_max': 3.0,
                                       'snr_distance_max': 3.0}, **(harm or {})),
            'candidate_filters': dict({'dm_min': None, 'snr_min': None, 'remove_harmonics': False, 'max_number': None},
                                      **(filters or {})),
            'plot_candidates': plot}


def clobber(path):
    """spoil a file in place, as a later user of its name would; returns the function that restores it"""
    with open(path, 'r+b') as f:
        old = f.read()
        f.seek(0)
        f.write(bytes(255 - b for b in old) if len(old) < 10**6 else b'\xff' * len(old))

    def undo():
        with open(path, 'r+b') as f:
            f.write(old)
    return undo


class Scratch:
    """temporary directory under the check's scratch space"""
    def __enter__(self):
        self.d = os.path.realpath(tempfile.mkdtemp(dir=os.environ['VERIF_SCRATCH']))
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def tree(d):
    """{relative path: size/content hash} of every file below d"""
    import hashlib
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(r, f)
            out[os.path.relpath(p, d)] = hashlib.sha1(open(p, 'rb').read()).hexdigest()
    return out
