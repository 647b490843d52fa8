"C15: ATS files against an independent writer"
import itertools
import os
import struct
import warnings

import numpy as np

from ..engine import Violation, describe_exc, scratch_dir
from ..util import part
from .c14_proxy import attempt

PROPERTY = 'C15'
LEVEL = 'model_checking'
RULE = ('files written field by field at their offsets by an independent writer: (a) each of the 71 header fields at boundary values; (b) loads of 1-3 files in all orders over sample counts, boundary samples, LSB, rates, '
        'starts, header lengths and calibrations; (c) pairs of files differing in each header field or length; (d) truncation at every byte of one or two files; (e) all histories of loads by relative name, directory changes, '
        'rewrites and joint reads; a case is non trivial when something differs from one plain file')
BOUNDS = {'quick': 'folders of up to 40 files and 7 styles of folder names, files up to 40001 samples (and sparse files of up to 2^30 + 7 samples), every truncation point of files of 1-3 samples, histories of length 4 over 2 folders',
          'thorough': 'every truncation point of files up to 8 samples, histories of length 5'}
ASSUMPTIONS = ['a signal loaded before a rewrite of its file is not read after it', 'header lengths from 1024 to 32767']
M = 48

#: place of the fields in the 1024 byte header: (name, offset, struct code)
FIELDS = [
    ('header_length', 0, 'h'), ('header_version', 2, 'h'), ('sample_length', 4, 'i'), ('sampling_rate', 8, 'f'), ('start', 12, 'i'), ('lsbval', 16, 'd'),
    ('GMToffset', 24, 'i'), ('Res1', 28, 'i'), ('serial_number_ADU06', 32, 'H'), ('serial_number_ADC_board', 34, 'h'), ('channel_number', 36, 'b'), ('Res2', 37, 'b'),
    ('channel_type', 38, '2s'), ('sensor_type', 40, '6s'), ('sensor_serial_number', 46, 'h'), ('x1', 48, 'f'), ('y1', 52, 'f'), ('z1', 56, 'f'), ('x2', 60, 'f'), ('y2', 64, 'f'),
    ('z2', 68, 'f'), ('E_field_dipole_length', 72, 'f'), ('angle', 76, 'f'), ('rho_probe', 80, 'f'), ('DC_offset_voltage', 84, 'f'), ('internal_gain_ampli', 88, 'f'), ('Res3', 92, 'i'),
    ('ADU_Lat', 96, 'i'), ('ADU_Long', 100, 'i'), ('ADU_Elev', 104, 'i'), ('Lat_Long_TYPE', 108, '1s'), ('add_coordinates', 109, '1s'), ('ref_meridian', 110, 'h'), ('xcoor', 112, 'd'),
    ('ycoor', 120, 'd'), ('gps_clock_status', 128, '1s'), ('accuracy_GPS', 129, 'b'), ('offset_UTC', 130, 'h'), ('Res4a', 132, 'i'), ('Res4b', 136, 'i'), ('Res4c', 140, 'i'),
    ('survey_header_filename', 144, '12s'), ('type_of_meas', 156, '4s'), ('logfile', 160, '12s'), ('result_selftest', 172, '2s'), ('Res5', 174, 'h'), ('number_of_calib_freq', 176, 'h'),
    ('length_of_freq_entry', 178, 'h'), ('version_calib', 180, 'h'), ('start_addres', 182, 'h'), ('Res6', 184, 'q'), ('cal_filename_ADU06', 192, '12s'), ('datetime_calib', 204, 'i'),
    ('cal_sensor_filename', 208, '12s'), ('datetime_calib_sens', 220, 'i'), ('powerline1', 224, 'f'), ('powerline2', 228, 'f'), ('Res7', 232, 'q'), ('CSAMT_Tx_freq', 240, 'f'),
    ('CSAMT_TS_blocks', 244, 'h'), ('CSAMT_stacks', 246, 'h'), ('CSAMT_blk_length', 248, 'i'), ('Res8', 252, 'i'), ('Client', 256, '16s'), ('Contractor', 272, '16s'), ('Area', 288, '16s'),
    ('SurveyID', 304, '16s'), ('Operator', 320, '16s'), ('Res9', 336, '112s'), ('Weather', 448, '64s'), ('Comments', 512, '512s')]
CODE = {n: c for n, _, c in FIELDS}
SCALE = {'ADU_Lat': 1 / 3600000., 'ADU_Long': 1 / 3600000., 'ADU_Elev': 1 / 100.}
RANGE = {'h': (-2**15, 2**15 - 1), 'H': (0, 2**16 - 1), 'i': (-2**31, 2**31 - 1), 'b': (-128, 127), 'q': (-2**63, 2**63 - 1)}


def boundary(code):
    if code in RANGE:
        lo, hi = RANGE[code]
        return [v for v in (lo, lo + 1, -1, 0, 1, 258, hi - 1, hi) if lo <= v <= hi]
    if code == 'f':
        return [0., -1.5, 1024., float(np.float32(0.1)), float(np.float32(3e38)), float(np.float32(1e-38))]
    if code == 'd':
        return [0., -1.5, 1e-4, 1e300, 5e-324, 0.1]
    n = int(code[:-1])
    return ['', 'A' * n, ('aB %9' * n)[:n], 'x' * (n - 1), '\x00' * (n - 1) + 'z']


def base(i=0):
    "a header where every field has its own value"
    v = {}
    for k, (n, o, c) in enumerate(FIELDS):
        v[n] = (('%c%d' % (97 + k % 26, k)) * 300)[:int(c[:-1])] if c.endswith('s') else (k + 1 + i) % 100 if c in RANGE else k + 1.5
    v.update(header_length=1024, header_version=80, sample_length=4, sampling_rate=512., start=1234567890, lsbval=0.25)
    return v


def header_bytes(v):
    b = bytearray(max(1024, v['header_length']))
    for n, o, c in FIELDS:
        x = v[n]
        if c.endswith('s'):
            x = x.encode('latin1')
        struct.pack_into('<' + c, b, o, x)
    for k in range(1024, len(b)):
        b[k] = (k * 7) % 256
    return bytes(b)


def write(path, v, samples, cut=None):
    b = header_bytes(v) + b''.join(struct.pack('<i', x) for x in samples)
    with open(path, 'wb') as f:
        f.write(b if cut is None else b[:cut])
    return len(b)


SAMPLES = [-2**31, 2**31 - 1, 0, 1, -1, 256, -257, 65536, 7, 2**24 + 1, -(2**30), 12345]

DIRS = ['d', 'meas_[512Hz]', 'a*b?', '[!x]', 'site 1', 'x.ats', "d'"]


def samples(n, k=0):
    return [SAMPLES[(j * (2 * k + 1) + k) % 12] for j in range(n)]


def all_cases(tier):
    quick = tier == 'quick'
    for n, o, c in FIELDS:
        if n != 'header_length':
            yield dict(k='field', name=n)
    for L in (1024, 1025, 1028, 1030, 2048, 32767):
        for n in (1, 4, 12):
            yield dict(k='load', n=n, L=[L, 1024][:2], lsb=[0.25, -1e-4], rate=512., start=1234567890, order=[0, 1])
            yield dict(k='load', n=n, L=[L], lsb=[1 / 3.], rate=512., start=0, order=[0])
    i = 0
    for n in (1, 2, 3, 5, 12):
        for rate in (1., 0.1, 65536., 16000., 1 / 3.):
            for start in (0, -1, 2**31 - 1, 1600000000):
                for nf in (1, 2, 3):
                    for order in itertools.permutations(range(nf)):
                        i += 1
                        if quick and i % 3:
                            continue
                        yield dict(k='load', n=n, L=[1024] * nf, lsb=[0.25, -3.7e-5, 1e3][:nf], rate=rate, start=start, order=list(order), cal=i % 2)
    # longer files, files given several times
    for n in (99, 100, 101, 127, 513, 1025, 4095, 4097, 16385, 40001):
        yield dict(k='load', n=n, L=[1024, 1030], lsb=[.5, -3e-4], rate=256., start=7, order=[1, 0], cal=0)
    for n, L in ((2 ** 24 + 3, 1024), (2 ** 24 + 2, 1030), (2 ** 30 + 7, 1030)):      # sparse files
        yield dict(k='huge', n=n, L=L)
    for lsb in ([0.], [0., 1.], [-0., 0.], [1e-30, 1e30], [1., -1.], [float(2 ** -40)] * 2):
        yield dict(k='load', n=12, L=[1024, 1028][:len(lsb)], lsb=lsb, rate=512., start=7, order=list(range(len(lsb))), cal=0)
    for f in ('sampling_rate', 'start'):       # several files that are not of the same record, all orders of them
        for nf in (2, 3, 4, 5):
            for what in range(2, nf + 1) if nf < 5 else (2, 3, 5):
                for d in (1, 2, 100, 65536):
                    yield dict(k='mixed', field=f, marks=[j % what for j in range(nf)], d=d)
                    yield dict(k='mixed', field=f, marks=[max(0, j - nf + what) for j in range(nf)], d=d)
    for order in ([0, 0], [0, 1, 0], [1, 1, 0], [1, 0, 1, 0], [0, 0, 0]):
        for n in (1, 5):
            for cal in (0, 1):
                yield dict(k='load', n=n, L=[1024, 1028], lsb=[.5, -3e-4], rate=256., start=7, order=order, cal=cal)
    for f in ('sampling_rate', 'start', 'lsbval', 'sample_length', 'header_length', 'channel_number', 'sensor_type', 'x1', 'GMToffset'):
        for nf in (2, 3):
            for who in range(nf):
                yield dict(k='differ', field=f, nf=nf, who=who)
    for n in (1, 2, 3) if quick else range(1, 9):
        for L in (1024, 1026):
            for j in range(8):
                yield dict(k='cut', n=n, L=L, part=[j, 8])
    for nf in (0, 1, 2, 3, 9, 12, 40):
        for name in DIRS if nf in (0, 2, 9) else DIRS[:1]:
            yield dict(k='dir', nf=nf, name=name)
    al = ['c0', 'c1', 'l0', 'l1', 'w0', 'w1', 'r']
    for h in itertools.product(al, repeat=4 if quick else 5):
        if sum(e[0] == 'l' for e in h) and (h[-1][0] != 'w') and any(e[0] == 'l' for e in h[:2]):
            yield dict(k='hist', h=list(h))


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    return part(all_cases(tier), shard, M)


def f32(x):
    return struct.unpack('<f', struct.pack('<f', x))[0]


def quiet(fn):
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter('always')
        st, v = attempt(fn)
    return st, v, [w for w in ws if 'expected' in str(w.message) or issubclass(w.category, UserWarning)]


def check_signal(sig, want, rate, start, where):
    if len(sig.data) != len(want):
        raise Violation('%s: %d channels, expected %d' % (where, len(sig.data), len(want)))
    if sig.sampling_rate != f32(rate) or sig.start != start:
        raise Violation('%s: rate %r start %r, expected %r %r' % (where, sig.sampling_rate, sig.start, f32(rate), start))
    for k, (x, w) in enumerate(zip(sig.data, want)):
        x = np.asarray(x)
        if x.shape != (len(w),) or not np.allclose(x, w, rtol=1e-15, atol=0):
            raise Violation('%s: channel %d holds %r, expected %r' % (where, k, x.tolist(), w))


def folder(name):
    p = os.path.join(scratch_dir(), 'c15_%d' % os.getpid(), name)
    os.makedirs(p, exist_ok=True)
    for f in os.listdir(p):
        os.unlink(os.path.join(p, f))
    return p


def run_case(case, rec):
    from razorback.io import ats
    k = case['k']
    rec.state(repr(case))
    rec.interesting(repr(case))
    d = folder(case.get('name', 'd'))
    path = os.path.join(d, 'a.ats')
    if k == 'field':
        for i in (0, 17):
            for val in boundary(CODE[case['name']]):
                v = base(i)
                v[case['name']] = val
                write(path, v, samples(4))
                rec.step()
                got = ats.read_ats_header(path)
                if set(got) != set(v):
                    raise Violation('%r: fields %r' % (case, sorted(set(got) ^ set(v))))
                for n, _, c in FIELDS:
                    w = v[n]
                    if c.endswith('s'):
                        w = w.encode('latin1').ljust(int(c[:-1]), b'\0')
                        ok = got[n] == w
                    elif n in SCALE:
                        w = w * SCALE[n]
                        ok = abs(got[n] - w) <= 1e-12 * abs(w)
                    else:
                        w = f32(w) if c == 'f' else w
                        ok = got[n] == w and isinstance(got[n], float if c in 'fd' else int)
                    if not ok:
                        raise Violation('%r = %r: field %s is %r, expected %r' % (case, val, n, got[n], w))
                rec.outcome((case['name'], repr(val)))
    elif k == 'load':
        nf = len(case['L'])
        names, want = [], []
        for j in range(nf):
            v = base(j)
            v.update(header_length=case['L'][j], sample_length=case['n'], sampling_rate=case['rate'], start=case['start'], lsbval=case['lsb'][j], channel_number=5 - j)
            names.append(os.path.join(d, 'f%d.ats' % (3 - j)))
            write(names[-1], v, samples(case['n'], j))
            want.append([case['lsb'][j] * x for x in samples(case['n'], j)])
        cals = [(lambda f, j=j: j + f) for j in range(len(case['order']))] if case.get('cal') else None
        rec.step()
        with warnings.catch_warnings():
            warnings.simplefilter('error', UserWarning)
            sig = ats.load_ats([names[j] for j in case['order']], cals)
        check_signal(sig, [want[j] for j in case['order']], case['rate'], case['start'], repr(case))
        for j, c in enumerate(sig.calibrations):
            if c(2.) != (j + 2. if cals else 1):
                raise Violation('%r: calibration %d gives %r' % (case, j, c(2.)))
        st, e = attempt(lambda: ats.load_ats(names[0]))
        if st == 'ok':
            raise Violation('%r: a single name is accepted instead of a list' % case)
        rec.outcome(repr(want)[:200])
    elif k == 'huge':
        n, L = case['n'], case['L']
        v = base(0)
        v.update(header_length=L, sample_length=n, lsbval=.5)
        spots = [0, 1, 2 ** 23, 2 ** 24 - 1, 2 ** 24, 2 ** 24 + 1, 2 ** 28, 2 ** 29 - 1, 2 ** 29, (2 ** 31 - L) // 4, 2 ** 30 - 1, (2 ** 32 - L) // 4, n - 2, n - 1]
        spots = sorted({x for x in spots if x < n})
        try:
            write(path, v, [])
            with open(path, 'r+b') as f:
                for j, x in enumerate(spots):
                    f.seek(L + 4 * x)
                    f.write(struct.pack('<i', 3 + j))
                f.truncate(L + 4 * n)
            rec.step()
            with warnings.catch_warnings():
                warnings.simplefilter('error', UserWarning)
                sig = ats.load_ats([path])
            if len(sig.data) != 1 or sig.data[0].shape != (n,) or abs(sig.stop - (1234567890 + (n - 1) / 512.)) > 1e-6:
                raise Violation('%r: shape %r stop %r' % (case, sig.data[0].shape, sig.stop))
            for j, x in enumerate(spots):
                rec.step()
                got = np.asarray(sig.data[0][x:x + 1]).tolist()
                if got != [.5 * (3 + j)]:
                    raise Violation('%r: sample %d is %r, expected %r' % (case, x, got, .5 * (3 + j)))
            rec.outcome(n)
        finally:
            os.unlink(path)
    elif k == 'differ':
        names, want = [], []
        for j in range(case['nf']):
            v = base(0)
            n = 5
            if j == case['who']:
                v[case['field']] = {'sampling_rate': 513., 'start': 1234567891, 'lsbval': 0.5, 'sample_length': 3, 'header_length': 1100, 'channel_number': 9, 'sensor_type': 'zz', 'x1': 9., 'GMToffset': 77}[case['field']]
                n = 3 if case['field'] == 'sample_length' else 5
            if case['field'] != 'sample_length' or j != case['who']:
                v['sample_length'] = 5
            names.append(os.path.join(d, '%d.ats' % j))
            write(names[-1], v, samples(n, j))
            want.append([v['lsbval'] * x for x in samples(n, j)])
        rec.step()
        st, sig, ws = quiet(lambda: ats.load_ats(names))
        if case['field'] in ('sampling_rate', 'start', 'sample_length'):
            if st == 'ok':
                raise Violation('%r: accepted, must be refused' % case)
            rec.count('refusals')
        elif st != 'ok':
            raise Violation('%r: refused: %s' % (case, describe_exc(sig)))
        else:
            check_signal(sig, want, 512., 1234567890, repr(case))
        rec.outcome((st, case['field']))
    elif k == 'mixed':
        marks, f = case['marks'], case['field']
        names = []
        for j, mark in enumerate(marks):
            v = base(0)
            v['sample_length'] = 5
            if f == 'start':
                v['start'] = 1234567890 + case['d'] * mark
            else:       # a few units in the last place of single precision
                v['sampling_rate'] = struct.unpack('<f', struct.pack('<i', struct.unpack('<i', struct.pack('<f', 512.))[0] + case['d'] * mark))[0]
            names.append(os.path.join(d, '%d.ats' % j))
            write(names[-1], v, samples(5, j))
        for order in itertools.permutations(range(len(names))) if len(names) < 5 else [range(5), range(5)[::-1], [2, 0, 4, 1, 3]]:
            rec.step()
            st, sig, ws = quiet(lambda: ats.load_ats([names[j] for j in order]))
            if st == 'ok':
                raise Violation('%r in order %r: accepted, must be refused' % (case, list(order)))
            rec.count('refusals')
        rec.outcome(('mixed', f))
    elif k == 'cut':
        n, L = case['n'], case['L']
        v = base(0)
        v.update(header_length=L, sample_length=n)
        full = L + 4 * n
        j, m = case['part']
        other = os.path.join(d, 'b.ats')
        write(other, v, samples(n, 1))
        for cut in range(0, full + 1):
            if cut % m != j and not (cut >= L - 2 and cut % m == j):
                continue
            write(path, v, samples(n), cut)
            left = max(0, cut - L) // 4
            rec.step(2)
            rec.state((n, L, cut))
            st, sig, ws = quiet(lambda: ats.load_ats([path]))
            where = '%r cut at byte %d' % (case, cut)
            if left == 0:
                if st == 'ok':
                    raise Violation('%s: accepted without any complete sample' % where)
                rec.count('refusals')
            else:
                if st != 'ok':
                    raise Violation('%s: refused: %s' % (where, describe_exc(sig)))
                check_signal(sig, [[.25 * x for x in samples(n)[:left]]], 512., 1234567890, where)
                if bool(ws) != (left < n):
                    raise Violation('%s: %d warnings with %d of %d samples' % (where, len(ws), left, n))
                rec.count('truncated_loads')
            # with a complete file
            for names in ([path, other], [other, path]):
                st, sig, ws = quiet(lambda: ats.load_ats(names))
                if (st == 'ok') != (left == n):
                    raise Violation('%s: loaded with a complete file: %s' % (where, st))
            rec.outcome((n, left))
    elif k == 'dir':
        want = {}
        for j in range(case['nf']):
            data = samples(3, j) + [j]
            write(os.path.join(d, 'f%d.ats' % j), dict(base(j), sample_length=4), data)
            want[tuple(.25 * x for x in data)] = 1
        for junk in ('f99.atss', 'f99.txt', 'ats'):
            with open(os.path.join(d, junk), 'w') as f:
                f.write('junk')
        rec.step()
        st, sig = attempt(lambda: ats.load_ats_from(d))
        if case['nf'] == 0:
            if st == 'ok':
                raise Violation('%r: an empty folder is accepted' % case)
            rec.count('refusals')
            return
        if st != 'ok':
            raise Violation('%r: refused: %s' % (case, describe_exc(sig)))
        got = sorted(tuple(np.asarray(x).tolist()) for x in sig.data)
        if got != sorted(want):
            raise Violation('%r: channels %r, expected %r' % (case, got, sorted(want)))
        rec.outcome(case['nf'])
    elif k == 'hist':
        import dask
        dirs = [folder('h0'), folder('h1')]
        version = [0, 0]
        home = os.getcwd()

        def put(j):
            v = base(j)
            v.update(sample_length=5, lsbval=1. if version[j] % 2 == 0 else .5, start=1000 + (version[j] % 2) * (3 + j))
            write(os.path.join(dirs[j], 'x.ats'), v, samples(5, version[j] + 4 * j))

        def expected(j, ver):
            return [(1. if ver % 2 == 0 else .5) * x for x in samples(5, ver + 4 * j)], 1000 + (ver % 2) * (3 + j)
        for j in (0, 1):
            put(j)
        loaded, cur = [], 0
        try:
            os.chdir(dirs[0])
            for e in case['h'] + ['r']:
                if e[0] == 'c':
                    cur = int(e[1])
                    os.chdir(dirs[cur])
                elif e[0] == 'w':
                    j = int(e[1])
                    version[j] += 1
                    put(j)
                elif e[0] == 'l':      # l0: by its name in the current folder, l1: by a name from the parent
                    rec.step()
                    if e[1] == '0':
                        loaded.append((cur, version[cur], ats.load_ats(['x.ats'])))
                    else:
                        loaded.append((1 - cur, version[1 - cur], ats.load_ats([os.path.join('..', 'h%d' % (1 - cur), 'x.ats')])))
                else:
                    live = [(j, sig) for j, ver, sig in loaded if ver == version[j]]
                    for joint in (False, True):
                        rec.step()
                        if joint:
                            res = dask.compute(*[sig.data[0] for _, sig in live]) if live else ()
                        else:
                            res = [np.asarray(sig.data[0]) for _, sig in live]
                        for (j, sig), x in zip(live, res):
                            w, start = expected(j, version[j])
                            if np.asarray(x).tolist() != w or sig.start != start:
                                raise Violation('history %r (joint=%r): file of folder %d gives %r start %r, expected %r start %r' % (
                                    case['h'], joint, j, np.asarray(x).tolist(), sig.start, w, start))
                        if len(live) == 2 and live[0][0] != live[1][0] and joint:
                            tot = np.asarray(live[0][1].data[0] + 3 * live[1][1].data[0]).tolist()
                            w = [a + 3 * b for a, b in zip(expected(live[0][0], version[live[0][0]])[0], expected(live[1][0], version[live[1][0]])[0])]
                            if tot != w:
                                raise Violation('history %r: computed together %r, expected %r' % (case['h'], tot, w))
        finally:
            os.chdir(home)
        rec.outcome(repr([(j, v) for j, v, _ in loaded]))
