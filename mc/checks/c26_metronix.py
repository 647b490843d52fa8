"C26: metronix calibration follows the right table and the chopper rule"
import itertools
import os
import shutil

import numpy as np

from ..engine import Violation, describe_exc, scratch_dir
from ..util import part

PROPERTY = 'C26'
LEVEL = 'model_checking'
RULE = ('all sensor files of the bounded family (order of the tables, header, mark and number styles, separators, line ends, tables, missing tables) x sampling rates around the chopper limit x sensor versions and optional arguments, '
        'each calibration evaluated at all tabulated frequencies, between, below and above them; a case is non trivial when both tables are present')
BOUNDS = {'quick': '2 orders x 3 headers x 5 mark styles x 3 separators x 3 line ends x 3 number styles x tables of 2-4 rows, 16-1000 rows on a few layouts, modules scaled by 1e-9 to 1e12, rates at relative distances 1e-3 to 1e-13 of the limit, rotating rates and versions; all rates, limits, versions and maps on 4 layouts',
          'thorough': 'full product of layouts, 9 rates and limits and 4 versions, tables of 2-7 rows'}
ASSUMPTIONS = ['tables have at least two rows of increasing frequencies, directly below their mark, ended by a blank line or the end of the file', 'any exception is a refusal']
M = 64
HEAD = [[], ['Calibration of sensor MFS06'], ['Magnetometer: MFS99  No: 12', 'measured with Chopper On and Chopper Off', '', 'FREQUENCY MAGNITUDE PHASE', '  Hz  V/(nT*Hz) deg']]
MARK = ['Chopper {}', 'chopper {}', '  CHOPPER   {}  ', 'Chopper\t{} :', 'Chopper {} mode table']
SEP = [[''], ['   \t'], ['', '', '']]
EOL = [('\n', 1), ('\n', 0), ('\r\n', 1)]
NUM = ['{:.6e} {:.6e} {:.6e}', '  {:.8g}\t{:.8g}   {:.8g} ', '{:+.6E} {:+.6E} {:+.6E} # comment']
RATES = [(512., None), (511.99, None), (512.01, None), (1e5, None), (1, None), (64, 64), (65, 64), (1., 0), (65536., 1e6)]
CLOSE = [(limit, s, e) for limit in (None, 64, 1000.25, 1e6) for s in (-1, 1) for e in (0, 1e-3, 1e-6, 1e-8, 1e-10, 1e-13)]
SCALES = [1e-9, 1e-3, 1e2, 1e4, 1e6, 1e12]
FILES = [('MFS06_0123.txt', None, None), ('site_MFS07.cal', None, None), ('MFS07_replaces_MFS06.txt', None, None), ('xMFS06x.MFS07', None, None), ('coil_S20_1.txt', '.*_S(\\d+)_.*', {'20': 7.5}), ('MFS11.txt', None, {'MFS11': .125, 'MFS06': 1.}),
         ('MFS06.txt', None, {'MFS06': 100.})]
REFUSED = [('MFS08_1.txt', None, None), ('coil.txt', None, None), ('mfs06.txt', None, None), ('MFS6.txt', None, None), ('MFS06.txt', None, {}), ('MFS06.txt', 'x(..)', None)]
DIRS = ['MFS06_files', 'MFS07', 'x_S20_y', 'MFS11/MFS06', 'mfs06.d']
ALPHA = {'MFS06': 4., 'MFS07': 32.}
VERSION = {'MFS06_0123.txt': 'MFS06', 'site_MFS07.cal': 'MFS07', 'MFS07_replaces_MFS06.txt': 'MFS06', 'xMFS06x.MFS07': 'MFS06', 'coil_S20_1.txt': '20', 'MFS11.txt': 'MFS11', 'MFS06.txt': 'MFS06'}


def all_cases(tier):
    quick = tier == 'quick'
    i = 0
    lays = itertools.product(range(2), range(len(HEAD)), range(len(MARK)), range(len(SEP)), range(len(EOL)), range(len(NUM)), (2, 3, 4) if quick else (2, 3, 4, 7))
    lays = [list(l) for l in lays]
    for l in lays:
        i += 1
        for r in ([i % len(RATES)] if quick else range(len(RATES))):
            for f in ([(i // 3) % len(FILES)] if quick else range(0, len(FILES), 2)):
                yield dict(lay=l, rate=r, file=f, have='both', rel=i % 4)
    # long tables
    for n in (16, 50, 63, 64, 65, 70, 99, 101, 128, 150, 257, 1000):
        for l in lays[7::len(lays) // 5]:
            for r in (0, 2):
                i += 1
                yield dict(lay=l[:-1] + [n], rate=r, file=i % 2, have='both', rel=i % 4)
    # rates next to the limit
    for l in lays[2::len(lays) // 3]:
        for limit, s, e in CLOSE:
            for f in (0, 1, 5):
                yield dict(lay=l, close=[limit, s, e], rate=0, file=f, have='both', rel=i % 4)
    # units of the modules
    for l in lays[4::len(lays) // 12]:
        for n in (2, 3, 4, 7, 16):
            for scale in SCALES:
                for r in (0, 2):
                    i += 1
                    yield dict(lay=l[:-1] + [n], rate=r, file=i % 2, have='both', rel=i % 4, scale=scale)
    # the version comes from the name of the file, not from those of the directories
    for l in lays[3::len(lays) // 3]:
        for d in range(len(DIRS)):
            for r in (0, 2):
                for f in range(-len(REFUSED), len(FILES)):
                    for rel in (1, 4):
                        yield dict(lay=l, rate=r, file=f, have='both', rel=rel, dir=d)
    for l in lays[5::len(lays) // 4]:
        for r in range(len(RATES)):
            for rel in range(4):
                for f in range(len(FILES)):
                    for have in ('both', 'on', 'off', 'none'):
                        yield dict(lay=l, rate=r, file=f, have=have, rel=rel)
                for f in range(len(REFUSED)):
                    yield dict(lay=l, rate=r, file=-1 - f, have='both', rel=rel)


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    return part(all_cases(tier), shard, M)


def tables(n):
    mod_on = {2: [.3, .2], 3: [.3, .1, .4], 4: [.2, .23, .32, .47]}.get(n) or [.2, .25, .1, .3, .15, .4, .35]
    mod_off = {2: [.2, .3], 3: [.1, .3, .2], 4: [.31, .29, .27, .25]}.get(n) or [.3, .5, .1, .4, .2, .35, .45]
    if n > 7:
        return [(.02 * 1.03 ** k, .2 + .05 * ((7 * k) % 11), 89. - (13 * k) % 170) for k in range(n)], [(1.5 + .25 * k, .3 + .04 * ((5 * k) % 13), 70. - (17 * k) % 150) for k in range(n)]
    on = [(.02 * 3 ** k, mod_on[k], 89. - 11 * k) for k in range(n)]
    off = [(1.5 * 2 ** k, mod_off[k], 70. - 17 * k * k) for k in range(n)]
    return on, off


def write(path, case):
    order, head, mark, sep, eol, num, n = case['lay']
    on, off = ([(f, m * case.get('scale', 1), p) for f, m, p in t] for t in tables(n))
    sections = [('On', on), ('Off', off)]
    if case['have'] == 'on':
        sections = sections[:1]
    elif case['have'] == 'off':
        sections = sections[1:]
    elif case['have'] == 'none':
        sections = []
    lines = list(HEAD[head])
    if lines and mark % 2:
        lines.append('')
    for name, t in sections[::-1] if order else sections:
        m = MARK[mark].format(name if mark != 2 else name.upper())
        lines.append(m)
        lines += [NUM[num].format(*row) for row in t]
        lines += SEP[sep]
    e, last = EOL[eol]
    if not last:
        while lines and not lines[-1].strip():
            lines.pop()
    text = e.join(lines) + (e if last else '')
    with open(path, 'w', newline='') as f:
        f.write(text)


def response(f, m, ph):
    return f * m * complex(np.cos(np.radians(ph)), np.sin(np.radians(ph)))


def run_case(case, rec):
    from razorback.calibrations import metronix
    where = repr(case)
    rec.state(where)
    name, pattern, amap = FILES[case['file']] if case['file'] >= 0 else REFUSED[-1 - case['file']]
    rate, limit = RATES[case['rate']]
    if 'close' in case:
        limit, s, e = case['close']
        rate = (512. if limit is None else limit) * (1 + s * e)
    root = os.path.join(scratch_dir(), 'c26_%d' % os.getpid())
    shutil.rmtree(root, ignore_errors=True)
    data = os.path.join(root, 'data', 'metronix_calibration')
    os.makedirs(data)
    fname = name
    if 'dir' in case:
        fname = os.path.join(DIRS[case['dir']], name)
        os.makedirs(os.path.join(data, DIRS[case['dir']]))
    path = os.path.join(data, fname)
    write(path, case)
    cwd = os.getcwd()
    os.chdir(root)
    try:
        kw = {}
        if limit is not None:
            kw['chopper_on_limit'] = limit
        if pattern is not None:
            kw['version_pattern'] = pattern
        if amap is not None:
            kw['alpha_map'] = amap
        chopper = rate <= (512. if limit is None else limit)
        ok = case['file'] >= 0 and case['have'] in ('both', 'on' if chopper else 'off')
        rec.step()
        try:
            cal = metronix(path if case['rel'] == 1 else fname, rate, **kw)
        except RecursionError:
            raise
        except Exception as exc:
            if ok:
                raise Violation('%s: refused: %s' % (where, describe_exc(exc)))
            rec.outcome('refused')
            return
        if not ok:
            raise Violation('%s: accepted although the %s' % (where, 'version is unknown' if case['file'] < 0 else 'table is missing'))
        if case['rel'] == 3:        # nothing is read from the file later
            shutil.rmtree(root)
    finally:
        os.chdir(cwd)
        shutil.rmtree(root, ignore_errors=True)
    n = case['lay'][-1]
    t = tables(n)[0 if chopper else 1]
    t = [[float(x) for x in NUM[case['lay'][5]].format(f, m * case.get('scale', 1), p).split('#')[0].split()] for f, m, p in t]
    alpha = (ALPHA if amap is None else amap)[VERSION[name]]
    fr = [r[0] for r in t]
    probes = list(fr) + [a + (b - a) * x for a, b in zip(fr, fr[1:]) for x in (.5, .25, .9, 1e-6, 1 - 1e-6)] + [fr[0] * x for x in (.5, .1, 1e-4, .999, .9999, 1 - 1e-5, 1 - 1e-7, 1 - 1e-12)] + [fr[-1] * x for x in (1 + 1e-7, 1.0001, 1.001, 2., 100.)]
    out = []
    for f in probes:
        if f < fr[0]:
            want = response(f, t[0][1], np.degrees(np.arctan2(alpha, f))) if chopper else None
        elif f > fr[-1]:
            want = None
        else:
            k = max(j for j in range(n - 1) if fr[j] <= f)
            a, b = (response(*t[j]) for j in (k, k + 1))
            want = a + (b - a) * (f - fr[k]) / (fr[k + 1] - fr[k])
        rec.step()
        try:
            got = cal(f)
        except RecursionError:
            raise
        except Exception as exc:
            got = None
            why = describe_exc(exc)
        if (got is None) != (want is None):
            raise Violation('%s: calibration at %g: %r, expected %r%s' % (where, f, got, want, ' (%s)' % why if got is None else ''))
        if want is not None and not (np.size(got) == 1 and abs(complex(got) - want) <= 1e-9 * abs(want)):
            raise Violation('%s: calibration at %g: %r, expected %r' % (where, f, got, want))
        out.append(None if want is None else np.round(want, 9))
    rec.outcome(out)
    if case['have'] == 'both':
        rec.interesting(where)
