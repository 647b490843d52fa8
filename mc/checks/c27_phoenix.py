"C27: phoenix calibration returns each channel of the requested level"
import bisect
import itertools
import os

import numpy as np

from ..engine import Violation, describe_exc, scratch_dir
from ..util import part

PROPERTY = 'C27'
LEVEL = 'model_checking'
RULE = ('all line orders of small calibration files (channels x levels x frequencies), header styles and requested levels, each calibration evaluated at all listed frequencies, between them and outside the range of its level; '
        'a case is non trivial when the file has several levels')
BOUNDS = {'quick': '1-5 channels (and up to 100 channels in one file out of 37), up to 3 levels of 2-3 frequencies (and up to 4001); all orders of up to 6 lines, rotations, reversals and exchanges of more', 'thorough': 'all orders of up to 7 lines for all channel counts and headers'}
ASSUMPTIONS = ['at least two frequencies per level', 'any exception is a refusal']
M = 64
LEVELS = [{2: 2}, {3: 3}, {2: 2, 4: 2}, {3: 2, 2: 3}, {2: 2, 3: 2, 4: 2}, {5: 3, 3: 2, 4: 2}, {2: 3, 3: 3, 4: 3}, {4: 4, 10: 2}, {4: 2, 260: 2}, {130: 2, 2: 2, 258: 2}, {65538: 2, 2: 3}, {12: 2, 1: 2, 2: 2}, {1000002: 2, 3: 2}]
HEAD = [['2020/01/01,1234,2,{n}'], ['2020/01/01, 1234 , 2 ,{n},'], ['  2020, 12 ,,2,, {n} ,,'], ['x,y,2,{n}', 'freq,level,values'], ['x,y,2,{n}', 'Frequency, Level, a, b, c, d, e, f, g, h, i, j, k, l']]
#: long tables, by negative numbers
LONG = {-1: {2: 1500, 3: 5}, -2: {3: 600, 4: 1101, 5: 2}, -3: {7: 4001}}
STYLE = ['{:.6e}', ' {:.9g} ', '{:+.7E}']


def all_cases(tier):
    quick = tier == 'quick'
    i = 0
    for lv in LONG:
        n = sum(LONG[lv].values())
        base = list(range(n))
        for o in (base, base[::-1], base[n // 3:] + base[:n // 3], base[::2] + base[1::2], [(7919 * k) % n for k in base]):
            i += 1
            yield dict(lv=lv, o=o, ch=1 + i % 3, head=i % len(HEAD), style=i % 3, extra=(i // 3) % 3, eol=(i // 2) % 3)
    for lv, levels in enumerate(LEVELS):
        n = sum(levels.values())
        if n <= (6 if quick else 7):
            orders = list(itertools.permutations(range(n)))
        else:
            base = list(range(n))
            orders = [base, base[::-1]] + [base[k:] + base[:k] for k in range(1, n)] + [base[k::2] + base[1 - k::2] for k in (0, 1)]
            for a, b in itertools.combinations(base, 2):
                o = list(base)
                o[a], o[b] = o[b], o[a]
                orders.append(o)
        for o in orders:
            i += 1
            for ch in ([1 + i % 5] if quick and len(orders) > 100 else range(1, 6)):
                if i % 37 == 0:
                    ch = [6, 9, 10, 12, 16, 20, 100][i % 7]
                for h in ([(i + ch) % len(HEAD)] if quick or len(orders) > 1000 else range(len(HEAD))):
                    yield dict(lv=lv, o=list(o), ch=ch, head=h, style=i % 3, extra=(i // 3) % 3, eol=(i // 2) % 3)


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    return part(all_cases(tier), shard, M)


def row(level, k, ch, long=False):
    if long:
        return round(.01 * level + .5 * k, 6), [(1.5 + .25 * c * (k % 7) - .125 * level, .5 - .75 * c + .375 * (k % 5) + .0625 * level) for c in range(ch)]
    x = min(level, 20)      # the values stay moderate
    f = round(.01 * x + (.5 + x) * k * (k + 1) / 2, 6)
    return f, [(round(1.5 + .25 * c * k - .125 * x, 6), round(.5 - .75 * c + .375 * k * k + .0625 * x, 6)) for c in range(ch)]


def run_case(case, rec):
    from razorback.calibrations import phoenix
    where = repr(case if case['lv'] >= 0 else dict(case, o='%d lines' % len(case['o'])))
    rec.state(repr(case))
    levels, ch, st = LEVELS[case['lv']] if case['lv'] >= 0 else LONG[case['lv']], case['ch'], STYLE[case['style']]
    rows = [(l,) + row(l, k, ch, case['lv'] < 0) for l, n in levels.items() for k in range(n)]
    lines = [h.replace('{n}', str(ch)) for h in HEAD[case['head']]]
    for j in case['o']:
        l, f, v = rows[j]
        lines.append(','.join([st.format(f), str(l)] + [st.format(x) for c in v for x in c] + ['7.5', '-1'][:case['extra']]))
    eol = '\r\n' if case['eol'] == 2 else '\n'
    path = os.path.join(scratch_dir(), 'c27_%d.cts' % os.getpid())
    with open(path, 'w', newline='') as f:
        f.write(eol.join(lines) + eol * (case['eol'] != 1))
    out = []
    for level in sorted(set(levels) | {1, 2, 3, 4, 5} | {l % m for l in levels for m in (128, 256, 65536)}):
        rec.step()
        try:
            cals = phoenix(path, level)
        except RecursionError:
            raise
        except Exception as exc:
            if level in levels:
                raise Violation('%s: level %d refused: %s' % (where, level, describe_exc(exc)))
            continue
        if level not in levels:
            raise Violation('%s: level %d accepted' % (where, level))
        if len(cals) != ch:
            raise Violation('%s: level %d: %d calibrations' % (where, level, len(cals)))
        sel = sorted((f, v) for l, f, v in rows if l == level)
        fr = [f for f, _ in sel]
        probes = fr + [a + (b - a) * x for a, b in zip(fr, fr[1:]) for x in (.5, .125)] + [fr[0] * .99, fr[0] * .01, fr[-1] * 1.01, fr[-1] * 50]
        for c in range(ch):
            for f in probes:
                want = None
                if fr[0] <= f <= fr[-1]:
                    k = min(bisect.bisect_right(fr, f), len(fr) - 1) - 1
                    a, b = complex(*sel[k][1][c]), complex(*sel[k + 1][1][c])
                    want = a + (b - a) * (f - fr[k]) / (fr[k + 1] - fr[k])
                rec.step()
                try:
                    got = cals[c](f)
                except RecursionError:
                    raise
                except Exception as exc:
                    got = None
                if (got is None) != (want is None) or want is not None and not (np.size(got) == 1 and abs(complex(got) - want) <= 1e-5):
                    raise Violation('%s: level %d, channel %d at %g: %r, expected %r' % (where, level, c, f, got, want))
                out.append(want)
    rec.outcome(out)
    if len(levels) > 1:
        rec.interesting(where)
