"C36: a survey on disk gives what its samples in memory give"
import itertools
import os
import shutil
from fractions import Fraction as F

import numpy as np

from ..engine import Violation, describe_exc, scratch_dir
from ..model import Cal, MRun, MSet, make, m_by_tag, by_tag, check_by_tag, consistent, expect, m_extract, real_set
from ..survey import noise
from ..util import part
from .c10_pack import reference
from .c15_ats import base, write

PROPERTY = 'C36'
LEVEL = 'model_checking'
RULE = ('all surveys of a local site and a remote one over several run layouts, with every single recording missing, listed in several orders with other files around, loaded with the documented recipe (path pattern, one tagged set per file, inventory), '
        'then packed, filtered, grouped, cut and processed: the sets are compared sample by sample with the model and the impedances with the ones of the same samples held in memory; a case is non trivial when a recording is missing or the layouts differ')
BOUNDS = {'quick': '8 x 8 layouts of 1-3 runs of 60 to 240 samples, each with no or one missing recording (rotating over all of them) in 3 listing orders', 'thorough': 'all missing recordings of all layouts'}
ASSUMPTIONS = ['a recording site has the same channels in all its runs, up to the missing recording', 'start times are whole seconds (ATS format)']
M = 64
U = 30          # samples at 1 Hz
LAYOUTS = [
    [[0, 8]], [[0, 4], [4, 4]], [[0, 4], [5, 3]], [[2, 181 / 30.]], [[0, 3], [3, 3], [6, 2]], [[0, 4, 2], [2, 6]], [[1, 3], [20, 121 / 30.]], [[0, 10, 2], [5, 3, 2], [9, 3]],
]
CHANS = {'A': ['Ex', 'Ey', 'Hx', 'Hy'], 'R': ['Hx', 'Hy']}
ORDERS = ['sorted', 'reversed', 'mixed']


def files(la, lr):
    for site, li in (('A', la), ('R', lr)):
        for k in range(len(LAYOUTS[li])):
            for c in CHANS[site]:
                yield site, k, c


def all_cases(tier):
    quick = tier == 'quick'
    i = 0
    for la, lr in itertools.product(range(len(LAYOUTS)), repeat=2):
        all_ = list(files(la, lr))
        missing = [None] + all_
        if quick:
            missing = [None] + [all_[(i + 5 * k) % len(all_)] for k in range(3)]
        for m in missing:
            i += 1
            yield dict(la=la, lr=lr, missing=m, order=ORDERS[i % 3], lsb=[1., .25, -1e-3][(i // 3) % 3], hash=i)


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    return part(all_cases(tier), shard, M)


def runs_of(li):
    "(start in s, size, rate)"
    for e in LAYOUTS[li]:
        rate = e[2] if len(e) > 2 else 1
        yield 1500000000 + e[0] * U, int(round(e[1] * U)), rate


def counts(site, k, c, start, size, rate):
    "integer samples: electric channels derive from the magnetic ones"
    t = (start - 1500000000) * rate
    h = [[int(1e6 * x) for x in noise(j + 3 * rate, t + size, 2)[t:]] for j in range(2)]
    h = np.array(h)
    if c[0] == 'H':
        x = h['xy'.index(c[1])]
        if site == 'R':
            x = x + (np.array(noise(40 + 'xy'.index(c[1]), t + size, 3)[t:]) * 1e4).astype(int)
    else:
        x = (2 * h[0] - h[1] if c == 'Ex' else 3 * h[1] + h[0]) + (np.array(noise(20 + 'xy'.index(c[1]), t + size, 5)[t:]) * 3e4).astype(int)
        bad = 17 + 40 * k
        x[bad:bad + 8] *= 30
    return [int(v) for v in x]


def cid(site, c):
    return 10 * (site == 'R') + CHANS[site].index(c)


def survey(case, root):
    """ write the files; returns {path: model element} """
    out = {}
    for site, li in (('A', case['la']), ('R', case['lr'])):
        for k, (start, size, rate) in enumerate(runs_of(li)):
            d = os.path.join(root, 'Set%d' % (k + 1), 'site%s' % site, 'ADU', 'meas_%d' % start)
            os.makedirs(d)
            open(os.path.join(d, 'info_THz_BL.xml'), 'w').close()           # not a recording
            open(os.path.join(d, 'readme.ats'), 'w').close()
            for j, c in enumerate(CHANS[site]):
                if case['missing'] is not None and tuple(case['missing']) == (site, k, c):
                    continue
                v = base(j)
                lsb = case['lsb'] * (1 + j)
                v.update(sample_length=size, sampling_rate=float(rate), start=start, lsbval=lsb)
                x = counts(site, k, c, start, size, rate)
                name = os.path.join(d, '086_V01_C00_R000_T%s_BL_%dH.ats' % (c, rate))     # the same names in every folder
                write(name, v, x)
                vals = tuple(float(lsb * np.float64(y)) for y in x)
                out[name] = MSet(1, {'site%s_%s' % (site, c): (0,)}, [MRun(F(rate), F(start), [(vals, cid(site, c))])])
    return out


def run_case(case, rec):
    import razorback as rzb
    from razorback.utils import tags_from_path
    where = repr(case)
    root = os.path.join(scratch_dir(), 'c36_%d' % os.getpid())
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    try:
        els = survey(case, root)
        names = sorted(os.path.join(r, f) for r, _, fs in os.walk(root) for f in fs)
        if case['order'] == 'reversed':
            names = names[::-1]
        elif case['order'] == 'mixed':
            names = names[1::2] + names[::2][::-1]
        pattern = root + '/Set?/site{site}/*/meas*/*_T{channel}_BL*.ats'
        rec.step()
        found = list(tags_from_path(names, pattern, 'site{site}_{channel}'))
        if [n for n, _ in found] != [n for n in names if n in els] or any(t != list(els[n].tags) for n, t in found):
            raise Violation('%s: recordings found: %r' % (where, found))
        try:
            inv = rzb.Inventory(rzb.SignalSet({tag: 0 for tag in tags}, rzb.io.ats.load_ats([name], calibrations=[Cal(els[name].runs[0].chans[0][1])]))
                                for name, tags in found)
        except Exception as exc:
            raise Violation('%s: loading failed: %s' % (where, describe_exc(exc)))
        process(case, rec, where, [els[n] for n, _ in found], inv)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def empty(m):
    return MSet(0, {}, []) if m is None else m


def compare(want, got, where):
    if not want.runs:
        if got.nb_runs:
            raise Violation('%s: %d runs, none expected' % (where, got.nb_runs))
        return
    check_by_tag(m_by_tag(want), by_tag(got), where)
    consistent(got, where)


def process(case, rec, where, els, inv):
    import razorback as rzb
    if case['missing'] is not None or case['la'] != case['lr']:
        rec.interesting(where)
    rec.state((case['la'], case['lr'], repr(case['missing'])))
    rec.step()
    want, got = expect(lambda: empty(reference(els, 'pack')), inv.pack, compare, where + ' pack', rec)
    if want is not None:
        rec.outcome(tuple((r.start, r.size, r.rate) for r in want.runs))
    # the local site alone
    rec.step()
    local = [e for e in els if any(t.startswith('siteA') for t in e.tags)]
    expect(lambda: empty(reference(local, 'pack')), lambda: inv.filter('siteA_*').pack(), compare, where + ' local site', rec)
    # a time interval
    a, b = F(1500000000 + 100), F(1500000000 + 240)
    cut = [m for m in (m_extract(e, a, b) for e in els) if m.runs]
    rec.step()
    expect(lambda: empty(reference(cut, 'pack')), lambda: inv.extract_t(float(a), float(b)).pack(), compare, where + ' interval', rec)
    # the roles of the channels, and the estimation
    if want is None or not want.runs:
        rec.count('no_common_data')
        return
    groups = [('E', ['siteA_Ex', 'siteA_Ey']), ('B', ['siteA_Hx', 'siteA_Hy']), ('Rem', ['siteR_Hx', 'siteR_Hy'])]
    if not {t for _, ts in groups for t in ts} <= set(want.tags):       # the only recording of a channel is missing
        rec.count('no_such_channel')
        return
    rec.step()
    try:
        s = inv.extract_groups(groups).pack()
    except Exception as exc:
        raise Violation('%s: grouping failed: %s' % (where, describe_exc(exc)))
    mem = real_set(MSet(want.n, dict(want.tags, **{g: tuple(want.tags[t][0] for t in ts) for g, ts in groups}), want.runs))
    check_by_tag(by_tag(mem), by_tag(s), where + ' groups')
    fo = dict(Nper=4, overlap=.5, window=None)
    for remote in (None, 'Rem'):
        res = []
        for x in (s, mem):
            rec.step()
            res.append(rzb.utils.impedance(x, [.25, .11], weights=rzb.weights.mest_weights, remote=remote, fourier_opts=fo, keep_invalid_times=True))
        for name in ('impedance', 'error', 'transfer_mag'):
            u, v = (np.asarray(getattr(r, name)) for r in res)
            if u.shape != v.shape or not np.allclose(u, v, rtol=1e-7, atol=1e-12, equal_nan=True):
                raise Violation('%s: remote %s: %s %r from the files, %r from memory' % (where, remote, name, u.tolist(), v.tolist()))
        for u, v in zip(res[0].invalid_time, res[1].invalid_time):
            if len(u) != len(v) or any(len(p) != len(q) or not np.allclose(p, q, rtol=0, atol=1e-3) for p, q in zip(u, v)):
                raise Violation('%s: remote %s: rejected times %r from the files, %r from memory' % (where, remote, u, v))
        rec.outcome((remote, np.round(np.nan_to_num(res[0].impedance), 6).tolist()))
        if np.isnan(res[0].impedance).all():
            rec.count('not_converged')
