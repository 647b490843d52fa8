"clocks, run layouts and tag tables shared by the checks on signal sets"
from fractions import Fraction as F

from .model import MRun, MSet, make, value, fr

#: (rate, origin of times): dyadic and not, epoch scale, fast, slow, negative, fractional
CLOCKS = [
    ('1', '0'),
    ('10', '1600000000'),
    ('1024', '1234567890'),
    ('1000', '1500000000.1'),
    ('0.1', '946684800'),
    ('50/3', '-5000.7'),
    ('3', '0.3'),
    ('65536', '1600000000'),
    ('0.7', '1e5'),
    ('512', '0'),
    ('128', '1700000000.5'),
    ('32', '-86400'),
    ('1/60', '1600000000'),
    ('1/86400', '1199145600'),
    ('262144', '86400'),
    ('10000000', '100'),
]


def clock(i):
    r, o = CLOCKS[i % len(CLOCKS)]
    return F(r), F(o)


def run(ck, k, size, mult=1, uid=0, n=1, sub=0):
    """ model run number `uid` of n channels: starts k periods of the clock after its origin, at mult
    times its rate, shifted by sub (a fraction of the period) """
    rate, origin = clock(ck) if isinstance(ck, int) else ck
    rate_ = rate * F(mult)
    return MRun(rate_, origin + (F(k) + F(sub)) / rate,
                [(tuple(value(uid, c, j) for j in range(size)), uid * 10 + c) for c in range(n)])


def mset(ck, spec, tags, n, uid0=0):
    "model set: spec is a list of [k, size, mult] or [k, size]"
    runs = []
    for i, e in enumerate(spec):
        k, size = F(str(e[0])), e[1]
        mult = F(str(e[2])) if len(e) > 2 else F(1)
        runs.append(run(ck, k, size, mult, uid0 + i, n))
    return make({t: tuple(v) for t, v in tags.items()}, runs, n)
