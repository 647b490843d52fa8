"C39: what the printed forms say"
import ast
import itertools
import os
import re
import time
from datetime import datetime, timezone, timedelta
from fractions import Fraction as F

from ..engine import Violation, describe_exc
from ..layout import CLOCKS, mset
from ..model import real_set
from ..util import part

PROPERTY = 'C39'
LEVEL = 'model_checking'
RULE = ('all tag tables of an alphabet (names of several lengths, several channels) times all layouts of runs and clocks; what is printed is read back and compared with the content; '
        'a case is non trivial when there is something to list')
BOUNDS = {'quick': '16 clocks x 8 layouts x 5 of 25 tag tables, all tables of up to 3 names over 3 channels, tables of 1-14 long names, up to 300 names and 2000 channels, sets of 99 to 1001 runs; 5 time zones rotating', 'thorough': '12 clocks x 8 layouts x all tag tables'}
ASSUMPTIONS = ['spaces and line breaks are free; dates half way between two seconds may be rounded either way']
M = 48
LAYOUTS = [[[0, 5]], [[0, 3], [4, 3]], [[0, 40, 2], [30, 4]], [[0, 1]], [[0, 3], [3, 3], [6, 3], [10, 3]], [[0, 2, '1/3'], [20, 7, 8]], [['1/2', 4]], []]
MANY = [[[3 * k, 2] for k in range(n)] for n in (99, 101, 260, 1001)]
GROUPS = [(0,), (2,), (1, 0), (0, 2), (2, 1, 0), (1, 1)]
TABLES = [{}, {'E': [0]}, {'Ex': [1], 'E': [1, 0]}, {'B': [2, 0, 1], 'Bx': [2], 'By': [0]}]
TABLES += [{'site%02d_%s' % (k, 'E' * (1 + k % 9)): [k % 3, (k + 1) % 3][:1 + k % 2] for k in range(n)} for n in range(1, 15)]
LARGE = [{'site%02d_%s' % (k, 'E' * (1 + k % 5)): [k % n, (k + 1) % n, (3 * k) % n][:1 + k % 3] for k in range(m)} for n, m in ((12, 12), (30, 30), (130, 70), (300, 300), (5, 40), (2000, 3))]
TABLES += [{'a' * k: [0], 'b' * (50 - k): [1, 2]} for k in (1, 20, 30, 36, 40, 45, 49)]


def all_cases(tier):
    i = 0
    for ck in range(len(CLOCKS)):
        for li in range(len(LAYOUTS)):
            for k in range(len(TABLES)):
                i += 1
                if tier == 'thorough' or i % 5 == 0:
                    yield dict(ck=ck, li=li, tags=TABLES[k])
    for li in range(len(MANY)):
        for k in (0, 3, 8):
            yield dict(ck=(3 * li + k) % len(CLOCKS), many=li, tags=TABLES[k])
    for k, n in enumerate((12, 30, 130, 300, 5, 2000)):
        for li in (0, 1, 5, 7):
            yield dict(ck=(k + li) % len(CLOCKS), li=li, tags=LARGE[k], n=n)
    for combo in itertools.product([None] + GROUPS, repeat=3):
        yield dict(ck=0, li=1, tags={t: list(v) for t, v in zip(('Ex', 'Hxy', 'R'), combo) if v})


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    return part(all_cases(tier), shard, M)


def dates(t):
    "the accepted printed dates of a time"
    lo = t // 1
    near = [lo, lo + 1] if abs(t - lo - F(1, 2)) < F(1, 1000) else [lo if t - lo < F(1, 2) else lo + 1]
    return [(datetime(1970, 1, 1) + timedelta(seconds=int(x))).isoformat(' ') for x in near]


#: time zones of the computer, rotating
ZONES = ['UTC', 'JST-9', 'EST5EDT', 'XXX-5:45', 'NZST-12NZDT,M9.5.0,M4.1.0/3']


def run_case(case, rec):
    old = os.environ.get('TZ')
    os.environ['TZ'] = ZONES[(case['ck'] + len(case['tags']) + case.get('li', 0)) % len(ZONES)]
    time.tzset()
    try:
        check(case, rec)
    finally:
        os.environ.pop('TZ')
        if old is not None:
            os.environ['TZ'] = old
        time.tzset()


def check(case, rec):
    import razorback as rzb
    m = mset(case['ck'], MANY[case['many']] if 'many' in case else LAYOUTS[case['li']], {t: tuple(v) for t, v in case['tags'].items()}, case.get('n', 3))
    s = real_set(m)
    where = repr(case)
    rec.state(where)
    rec.step(5)
    try:
        text, long, tags = str(s), repr(s), repr(s.tags)
        runs = [str(g) for g in s.signals]
        inv = repr(rzb.Inventory([s, s]))
        back = eval(tags, {'Tags': rzb.Tags})
    except Exception as exc:
        raise Violation('%s: failed: %s' % (where, describe_exc(exc)))

    def need(cond, what):
        if not cond:
            raise Violation('%s: %s in\n%s' % (where, what, text))

    need(back == s.tags and dict(back) == m.tags, 'the table printed as %r is another one' % tags)
    lines = text.splitlines()
    plural = lambda n, w: '%d %s%s' % (n, w, 's' if n > 1 else '')
    need(lines[0].split(': ')[1].split(', ') == [plural(m.n, 'channel'), plural(len(m.runs), 'run')], 'numbers of channels and runs')
    listed = re.search(r'tags:\s*(\{.*?\})', text, re.S)
    need(listed, 'no list of tags')
    need(ast.literal_eval(listed.group(1)) == m.tags and text.count("'") == 2 * len(m.tags), 'list of tags')
    rows = text[listed.end():].split('\n')
    rows = [r.split() for r in rows if r.strip() and set(r.strip()) - set('- ')]
    need(rows and rows[0] == ['sampling', 'start', 'stop'] and len(rows) == 1 + len(m.runs), 'table of the runs')
    for row, r, g in zip(rows[1:], m.runs, runs):
        need(row[0] == '%.5g' % float(r.rate), 'rate %r of a run' % row[0])
        need(' '.join(row[1:3]) in dates(r.start) and ' '.join(row[3:5]) in dates(r.stop) and len(row) == 5, 'dates %r of a run, expected %r and %r' % (row[1:], dates(r.start), dates(r.stop)))
        items = dict(re.findall(r'- (.*?) *: +(.*)', g))
        if not (items.get('nb of channels') == str(m.n) and items.get('signal size') == str(r.size) and items.get('sampling rate') == '%s Hz' % float(r.rate)
                and items.get('start') in dates(r.start) and items.get('stop') in dates(r.stop)):
            raise Violation('%s: a run of %d samples from %r is printed as\n%s' % (where, r.size, float(r.start), g))
    shape = re.findall(r'\[(\d+)x(\d+)\]', long)
    need(shape == [(str(m.n), str(r.size)) for r in m.runs], 'shapes of the runs in %r' % long)
    need(inv.count('SignalSet(') == 2 and inv.count(long) == 2, 'elements of %r' % inv)
    rec.outcome((len(lines), len(rows)))
    if m.tags and m.runs:
        rec.interesting(where)
