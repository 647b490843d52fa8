"C10: packing inventories of small surveys, all element orders, splittings and several hash seeds"
import itertools
import json
import os
import subprocess
import sys

from ..engine import Violation, VERIF, describe_exc
from ..layout import CLOCKS, clock, run
from ..model import (MSet, MRun, Reject, make, m_merge, m_consecutive, m_by_tag, by_tag, check_by_tag, real_set, expect, consistent,
                     m_select_channels, observe)
from ..util import part

PROPERTY = 'C10'
LEVEL = 'model_checking'
RULE = ('all surveys of 1-3 sites whose files follow every combination of run layouts, as one set per file (numbered differently from file to file), as one set per site '
        'or as one set of several sites, in several element orders (all orders up to 4 elements in a subset), packed, merged and grouped, and compared tag by tag with a reference '
        'built from the runs of each tag alone; batches are repeated in processes with other hash seeds; a case is non trivial when some run is cut, dropped or merged')
BOUNDS = {'quick': 'pairs of 18 layouts (all 16 clocks rotating), triples of 11 layouts, sites of 36-210 files alone or with a short one, pairs of 9-14 files, almost equal rates, hash seeds 0, 1, 2, 7',
          'thorough': 'pairs of 18 layouts on 16 clocks, triples of 18 layouts, hash seeds 0..7'}
ASSUMPTIONS = ['all the files of a site have the same tag names', 'overlapping files of one site, misaligned clocks at one rate, and overlapping results at two rates may be refused: '
               'the reference refuses them too']
M = 48

LAYOUTS = [
    [[0, 10]],
    [[0, 5], [5, 5]],
    [[0, 5], [6, 5]],
    [[0, 3], [3, 3], [6, 3]],
    [[2, 4], [6, 4]],
    [[1, 4], [5, 4], [20, 3]],
    [[0, 6], [7, 9, 2]],
    [[0, 12, 2], [6, 5]],
    [[3, 3]],
    [[30, 3]],
    [['1/2', 6]],
    [[0, 4], [4, 3], [10, 3, 2]],
    [[0, 5], [4, 4]],
    [[0, 20, 2]],
    [[0, 5], [3, 5]],
    [[0, 4, 2], [2, 6, 2], [5, 2]],
    [[20, 4], [24, 2]],
    [],
    # many files, almost equal rates
    [[3 * k, 3 - (k % 9 == 4)] for k in range(60)],
    [[5 * k + 1, 5] for k in range(36)],
    [[0, 10, '1000001/1000000']],
    [[0, 10, '1001/1000'], [20, 4]],
    [[4 * k, 4 - (k % 11 == 5)] for k in range(210)],
    [[6 * k + 2, 3] for k in range(140)],
    # short runs at other rates between consecutive ones
    [[0, 5], ['33/8', 3, 8], [5, 5], ['79/8', 2, 16]],
    [[0, 5], ['35/8', 2, 4], [5, 5], ['19/2', 3, 16], [10, 4], ['215/16', 4, 8], [14, 2]],
    [[0, 5, 2], ['5/2', 3, 2], [4, 4], ['57/8', 5, 8], [8, 3], ['161/16', 2, 4]],
    # rates that differ by the last digits
    [[0, 10, '100000001/100000000']],
    [[0, 6, '10000000001/10000000000'], [20, 4]],
    # two sites of many files
    [[3 * k, 3 - (k % 5 == 4)] for k in range(14)],
    [[5 * k + 1, 5] for k in range(9)],
]
NL = 18
TRI = [0, 1, 2, 3, 4, 6, 7, 8, 11, 13, 15]

#: sites: (n, table, renumbered table)
SITES = [
    (2, {'A_Ex': [0], 'A_Ey': [1], 'A_E': [0, 1]}, [1, 0]),
    (2, {'B_Hx': [1], 'B_H': [1, 0], 'B_Hy': [0]}, [1, 0]),
    (3, {'C': [0, 2], 'C_alias': [0, 2], 'C_x': [0], 'C_mid': [1]}, [2, 0, 1]),
]


def permute(n, table, p):
    return {t: [p[i] for i in v] for t, v in table.items()}


def site_runs(ck, site, spec):
    n = SITES[site][0]
    from fractions import Fraction as F
    return [run(ck, F(str(e[0])), e[1], F(str(e[2])) if len(e) > 2 else 1, 1 + 10 * site + i, n) for i, e in enumerate(spec)]


def elements(case):
    "model elements of the inventory"
    out = []
    style = case['style']
    for site, li in enumerate(case['lay']):
        n, table, p = SITES[site]
        runs = site_runs(case['ck'], site, LAYOUTS[li])
        if style == 'site':
            out.append(make({t: tuple(v) for t, v in table.items()}, runs, n))
            continue
        for k, r in enumerate(runs):
            if k % 2:
                inv = [p.index(i) for i in range(n)]
                out.append(MSet(n, permute(n, table, p), [r.select(inv)]))
            else:
                out.append(MSet(n, table, [r]))
    order = case.get('order')
    if order == 'rev':
        out = out[::-1]
    elif order == 'mix':
        out = out[1::2] + out[::2][::-1]
    elif isinstance(order, list):
        out = [out[i] for i in order]
    return out


def reference(els, op, multi=True):
    """ the packed survey seen from each tag alone """
    tags = sorted({t for e in els for t in e.tags})
    if not multi:
        tags = [t for t in tags if any(len(e.tags.get(t, ())) == 1 for e in els)]
    rates = {r.rate for e in els for r in e.runs}
    out = []
    for rate in ([None] if op == 'merge' else sorted(rates)):
        per_tag = []
        for t in tags:
            runs, width = [], 1
            for e in els:
                if t in e.tags:
                    width = len(e.tags[t])
                    runs += [r.select(e.tags[t]) for r in e.runs if rate is None or r.rate == rate]
            per_tag.append(make({t: tuple(range(width))}, runs, width))
        if rate is not None and any(not s.runs for s in per_tag):
            continue
        if not per_tag:
            continue
        out.append(m_merge(*per_tag))
    if op == 'merge':
        return out[0] if out else MSet(0, {}, [])
    runs = [r for s in out for r in s.runs]
    if not runs:
        return None
    s = out[0]
    return m_consecutive(make(s.tags, runs, s.n))


def all_cases(tier):
    i = 0
    for lay in ([22], [23], [23, 1], [22, 0], [2, 0, 23]):
        i += 1
        yield dict(lay=lay, ck=i % len(CLOCKS), style='files', order=['mix', None, 'rev'][i % 3])
        yield dict(lay=lay, ck=(i + 3) % len(CLOCKS), style='site', order=None)
    for lay in ([24], [25], [26], [24, 24], [25, 25], [25, 24], [24, 0], [26, 26], [25, 26], [25, 25, 25], [24, 1, 25]):
        for ck in range(len(CLOCKS)):
            if ck == 7:      # a megahertz at epoch scale
                continue
            for style in ('files', 'site'):
                yield dict(lay=lay, ck=ck, style=style, order=['mix', None, 'rev'][ck % 3])
    for lay in ([18], [19], [29, 30], [30, 29], [0, 18], [18, 1], [29, 0, 30], [29, 30, 0], [19, 13], [29, 29], [30, 19], [20, 0], [0, 20], [0, 21], [21, 20], [21, 0, 16], [21, 21], [20, 20], [27, 0], [0, 27], [27, 20], [28, 0], [0, 28], [28, 27], [28, 28]):
        for style in ('files', 'site'):
            for order in (None, 'rev', 'mix') if style == 'files' else (None,):
                i += 1
                yield dict(lay=lay, ck=i % len(CLOCKS), style=style, order=order)
    for a in range(NL):
        for style in ('files', 'site'):
            for ck in range(len(CLOCKS)):
                yield dict(lay=[a], ck=ck, style=style, order=None)
    for a, b in itertools.product(range(NL), repeat=2):
        i += 1
        for ck in ([i % len(CLOCKS), (i + 5) % len(CLOCKS)] if tier == 'quick' else range(len(CLOCKS))):
            for style, order in (('files', None), ('files', 'rev'), ('files', 'mix'), ('site', None), ('site', 'rev')):
                yield dict(lay=[a, b], ck=ck, style=style, order=order)
    for a, b, c in itertools.product(TRI if tier == 'quick' else range(NL), repeat=3):
        i += 1
        yield dict(lay=[a, b, c], ck=i % len(CLOCKS), style='files', order=[None, 'rev', 'mix'][i % 3])
        if i % 3 == 0 or tier == 'thorough':
            yield dict(lay=[a, b, c], ck=i % len(CLOCKS), style='site', order=[None, 'rev', 'mix'][i % 3])
    for lay in ([1, 2], [3, 0], [2, 4], [3, 8], [6, 7]):
        n = sum(len(LAYOUTS[x]) for x in lay)
        for order in itertools.permutations(range(n)):
            yield dict(lay=lay, ck=i % len(CLOCKS), style='files', order=list(order))
            i += 1
    # several sites in one element
    for a, b in itertools.product([0, 1, 2, 4, 6], [0, 1, 2, 3, 7]):
        yield dict(lay=[a, b], ck=(a + b) % len(CLOCKS), style='both', order=None)
    # hash seeds
    some = [dict(lay=[a, b, c], ck=(a + c) % len(CLOCKS), style='files', order='mix') for a, b, c in
            [(1, 2, 4), (6, 7, 0), (3, 4, 1), (11, 6, 15), (2, 2, 13), (0, 0, 0), (15, 13, 7), (1, 3, 8), (6, 11, 7), (4, 4, 4)]]
    some += [dict(lay=[a, b], ck=a, style='site', order='rev') for a, b in [(6, 6), (11, 7), (2, 3), (7, 13)]]
    for seed in ((1, 2, 7) if tier == 'quick' else range(1, 8)):
        yield dict(seed=seed, batch=some)


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    return part(all_cases(tier), shard, M)


def compare(want, got, where):
    check_by_tag(m_by_tag(want), by_tag(got), where)
    consistent(got, where)


def compare_pack(want, got, where):
    if want is None:
        if got.nb_runs:
            raise Violation('%s: runs %r, expected none' % (where, got.intervals.tolist()))
        return
    compare(want, got, where)


def run_case(case, rec):
    import razorback as rzb
    if 'seed' in case:
        return run_seed(case, rec)
    where = repr(case)
    if case['style'] == 'both':
        sites = [elements(dict(case, lay=[x], style='site'))[0] for x in case['lay'][:1]]
        n, t, _ = SITES[1]
        sites.append(make({k: tuple(v) for k, v in t.items()}, site_runs(case['ck'], 1, LAYOUTS[case['lay'][1]]), n))
        try:
            both = m_merge(*sites)
        except Reject:
            return
        # one element holds both sites on the common part, another one holds more of the second site
        extra = MSet(n, {k: tuple(v) for k, v in t.items()}, [run(case['ck'], 60, 4, 1, 77, n)])
        els = [extra, both]
    else:
        try:
            els = elements(case)
        except Reject:
            return      # overlapping files inside one element
    reals = [real_set(m) for m in els]
    before = [observe(s) for s in reals]
    inv = rzb.Inventory(reals)
    rec.state([e.key() for e in els])
    rec.step()
    want, got = expect(lambda: reference(els, 'pack'), inv.pack, compare_pack, where + ' pack', rec)
    if want is None or sum(r.size for r in want.runs) != sum(r.size for e in els for r in e.runs):
        rec.interesting(where)
    rec.outcome(None if want is None else [(r.start, r.size, r.rate) for r in want.runs])
    rec.step()
    expect(lambda: reference(els, 'pack', False), lambda: inv.pack(keep_multi_tags=False), compare_pack, where + ' pack single tags', rec)
    if els:
        rec.step()
        expect(lambda: reference(els, 'merge'), inv.merge, compare, where + ' merge', rec)
    # groups
    groups = [('G1', ['A_Ey', 'A_Ex'])] + ([('G2', ['B_H', 'A_Ex'])] if len(case['lay']) > 1 else []) + \
        ([('G3', ['C', 'B_Hx', 'A_E'])] if len(case['lay']) > 2 else [])
    for new, old in groups:
        sub = []
        for e in els:
            idx = [i for t in old for i in e.tags.get(t, ())]
            if idx:
                sub.append(m_select_channels(e, idx))
        if any(not any(t in e.tags for e in sub) for t in old):
            continue
        try:
            packed = reference(sub, 'pack')
        except Reject:
            continue
        if packed is None:
            continue
        packed.tags[new] = tuple(i for t in old for i in packed.tags[t])
        rec.step()
        res = inv.extract_groups([(new, old)])
        if len(res) != 1:
            raise Violation('%s: extract_groups gives %d elements' % (where, len(res)))
        compare(packed, res[0], where + ' group %s of %r' % (new, old))
    if [observe(s) for s in reals] != before or len(inv) != len(reals):
        raise Violation('%s: the inventory was modified' % where)


PROG = """import sys, json, warnings; warnings.simplefilter("ignore")
import razorback
from mc import engine
from mc.checks import c10_pack as m
from mc.model import observe, real_set
sys.stdout = sys.stderr
out, seen, rec = [], [], engine.Recorder()
for c in json.load(sys.stdin):
    out.append(engine.run_one(m, c, rec))
    inv = razorback.Inventory(map(real_set, m.elements(c)))
    for fn in (inv.pack, lambda: inv.pack(keep_multi_tags=False), inv.merge, lambda: inv.filter('*E*', 'B_H').pack(), lambda: inv.extract_groups([('G', ['A_Ex', 'B_H'])])[0]):
        try:
            seen.append(repr(observe(fn())))
        except Exception as exc:
            seen.append(type(exc).__name__)
json.dump([out, seen, rec.transitions, razorback.__file__], sys.__stdout__)
"""


def process(seed, batch):
    "run the batch in a process with this hash seed"
    import razorback
    code = os.path.dirname(os.path.dirname(os.path.abspath(razorback.__file__)))
    env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONPATH=os.pathsep.join([code, VERIF]), PYTHONDONTWRITEBYTECODE='1')
    res = subprocess.run([sys.executable, '-c', PROG], input=json.dumps(batch), capture_output=True, text=True, env=env, cwd=VERIF)
    if res.returncode:
        raise Violation('hash seed %d: the process failed: %s' % (seed, res.stderr[-1500:]))
    out, seen, steps, path = json.loads(res.stdout)
    assert os.path.dirname(os.path.dirname(os.path.abspath(path))) == code, path
    return out, seen, steps


def run_seed(case, rec):
    "the same batch in a process with another hash seed"
    seed, batch = case['seed'], case['batch']
    out, seen, steps = process(seed, batch)
    rec.step(steps)
    rec.count('hash_seeds')
    for bad in out:
        if bad:
            raise Violation('with PYTHONHASHSEED=%d: %s: %s' % (seed, json.dumps(bad['case']), bad['message']))
    # the whole result, numbering of the channels included, is the same with every hash seed
    _, ref, steps = process(0, batch)
    rec.step(steps)
    for k, (a, b) in enumerate(zip(ref, seen)):
        if a != b:
            what = ['pack', 'pack single tags', 'merge', 'filter and pack', 'group'][k % 5]
            raise Violation('%s of %s: with PYTHONHASHSEED=0: %s; with %d: %s' % (what, json.dumps(batch[k // 5]), a[:300], seed, b[:300]))
    rec.outcome(seen)
