"C28: data files resolve locally first, then in the shipped directory"
import itertools
import os
import shutil
import sys

from ..engine import Violation, describe_exc, scratch_dir
from ..util import part

PROPERTY = 'C28'
LEVEL = 'model_checking'
RULE = ('all file-system configurations of two working directories and of the shipped directory (of a private copy of the package), and all histories of commands, look-ups, directory changes and user file operations up to the depth, '
        'executed on the real file system of a scratch directory; the whole tree is compared with a model after each step; a case is non trivial when the history changes the directory in use')
BOUNDS = {'quick': 'all 144 configurations with all histories of length 1, 14 configurations with all histories of length 3 over 13 operations; other data directories above, beside and at home', 'thorough': 'all configurations with all histories of length 2, 14 configurations with all histories of length 4'}
ASSUMPTIONS = ['any exception or non zero exit status is a refusal', 'paths are compared once symbolic links are resolved']
M = 64
T = 'metronix_calibration'
F = 'MFS06_F.txt'
CONTENT = 'Chopper On\n1. %g 0.\n2. %g 0.\n'

# a configuration: local data directory of A, of B, and shipped data directory, each one of
LOCAL = ['none', 'file', 'empty', 'base', 'tfile', 'target', 'full', 'both', 'link', 'fdir', 'zero', 'zbase']
SHIP = ['none', 'empty', 'base', 'target', 'full', 'both']
OPS = ['show:base', 'show:metronix', 'create:base', 'create:metronix', 'cd:A', 'cd:B', 'get:t', 'get:b', 'get:abs', 'cal', 'put', 'ship', 'rm']


def tree(kind):
    "content of a data directory: relative path -> None (directory), 'F' (data file) or 'x' (other file)"
    d = {'none': {}, 'file': {'data': 'x'}, 'empty': {'data': None}, 'base': {'data': None, 'data/' + F: 'F'}, 'tfile': {'data': None, 'data/' + T: 'x'}, 'target': {'data': None, 'data/' + T: None},
         'full': {'data': None, 'data/' + T: None, 'data/%s/%s' % (T, F): 'F'},
         'both': {'data': None, 'data/' + T: None, 'data/%s/%s' % (T, F): 'F', 'data/' + F: 'F'},
         'fdir': {'data': None, 'data/' + T: None, 'data/%s/sub' % T: None, 'data/%s/sub/%s' % (T, F): 'F'}}
    d['zero'] = {'data': None, 'data/' + T: None, 'data/%s/%s' % (T, F): 'z'}       # empty files are files
    d['zbase'] = {'data': None, 'data/' + F: 'z'}
    d['link'] = dict(d['full'])
    return dict(d[kind])


def all_cases(tier):
    depth = 1 if tier == 'quick' else 2
    for a in LOCAL:
        for s in SHIP:
            for b in ('none', 'full') if tier == 'quick' else ('none', 'target', 'full', 'base'):
                for h in itertools.product(OPS, repeat=depth):
                    yield dict(A=a, B=b, S=s, h=list(h))
    some = [('none', 'none', 'full'), ('none', 'full', 'both'), ('full', 'none', 'full'), ('none', 'base', 'none'), ('target', 'none', 'both'), ('file', 'none', 'full'), ('tfile', 'both', 'full'), ('empty', 'empty', 'empty'),
            ('both', 'both', 'both'), ('link', 'none', 'full'), ('none', 'none', 'none'), ('base', 'target', 'both'), ('fdir', 'none', 'full'), ('zero', 'none', 'full')]
    for a, b, s in some:
        for h in itertools.product(OPS, repeat=3 if tier == 'quick' else 4):
            # a history ends by an observation
            if h[-1].split(':')[0] in ('show', 'get', 'cal', 'create'):
                yield dict(A=a, B=b, S=s, h=list(h))


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    return part(all_cases(tier), shard, M)


PRIVATE = {}


def private():
    "a copy of the package, installed for this process only"
    if os.getpid() not in PRIVATE:
        import razorback
        root = os.path.realpath(os.path.join(scratch_dir(), 'c28_%d' % os.getpid()))
        shutil.copytree(os.path.dirname(razorback.__file__), os.path.join(root, 'site', 'razorback'), ignore=shutil.ignore_patterns('data'))
        if os.path.exists(os.path.join(root, 'site', 'razorback', 'data')):
            shutil.rmtree(os.path.join(root, 'site', 'razorback', 'data'))
        for k in list(sys.modules):
            if k.split('.')[0] == 'razorback':
                del sys.modules[k]
        sys.path.insert(0, os.path.join(root, 'site'))
        import razorback
        import razorback.cli
        assert os.path.realpath(razorback.__file__).startswith(root)
        for d in ('A', 'B', 'link'):
            os.mkdir(os.path.join(root, d))
        # directories of the same name where nothing has to be looked for
        for d in (root, os.path.join(root, 'site'), os.path.join(root, 'home')):
            os.makedirs(os.path.join(d, 'data', T))
            for x in (F, os.path.join(T, F)):
                with open(os.path.join(d, 'data', x), 'w') as f:
                    f.write(CONTENT % (7., 7.))
        os.environ['HOME'] = os.path.join(root, 'home')
        PRIVATE[os.getpid()] = root, razorback
    return PRIVATE[os.getpid()]


VAL = {'A': 2., 'B': 3., 'S': 5.}


def where_is(root, d):
    return os.path.join(root, 'site', 'razorback') if d == 'S' else os.path.join(root, d)


def clean(root):
    for d in 'ABS':
        p = os.path.join(where_is(root, d), 'data')
        if os.path.islink(p) or os.path.isfile(p):
            os.unlink(p)
        elif os.path.isdir(p):
            shutil.rmtree(p)
    p = os.path.join(root, 'link', 'data')
    if os.path.isdir(p):
        shutil.rmtree(p)


def put(root, d, rel, what):
    p = os.path.join(where_is(root, d), rel)
    if what is None:
        os.mkdir(p)
    else:
        with open(p, 'w') as f:
            f.write(CONTENT % (VAL[d], VAL[d]) if what == 'F' else '' if what == 'z' else 'x')


def snapshot(root, ignore):
    out = {}
    for d in ('A', 'B', 'S'):
        top = where_is(root, d)
        for r, ds, fs in os.walk(top, followlinks=True):
            if d == 'S' and r == top:
                ds[:] = [x for x in ds if x == 'data' or x not in ignore]
                fs = [x for x in fs if x not in ignore]
            for x in ds:
                out[d, os.path.relpath(os.path.join(r, x), top)] = None
            for x in fs:
                with open(os.path.join(r, x)) as f:
                    t = f.read()
                out[d, os.path.relpath(os.path.join(r, x), top)] = 'x' if t == 'x' else 'z' if not t else 'F' if t == CONTENT % (VAL[d], VAL[d]) else 'modified: %r' % t[:50]
    return out


def run_case(case, rec):
    where = repr(case)
    root, rzb = private()
    cwd = os.getcwd()
    clean(root)
    ignore = set(os.listdir(where_is(root, 'S')))
    try:
        fs = {}
        for d in 'ABS':
            t = tree(case[d])
            fs.update({(d, k): v for k, v in t.items()})
            if case[d] == 'link':
                os.symlink(os.path.join(root, 'link', 'data'), os.path.join(root, d, 'data'))
                os.mkdir(os.path.join(root, 'link', 'data'))
                t.pop('data')
            for k in sorted(t):
                put(root, d, k, t[k])
        here = 'A'
        os.chdir(os.path.join(root, here))
        rec.state((sorted(fs.items(), key=repr), here))
        for n, op in enumerate(case['h']):
            here = step(case, n, op, root, rzb, fs, here, rec)
            rec.step()
            got = snapshot(root, ignore)
            if got != fs:
                diff = {k: (fs.get(k, 'absent'), got.get(k, 'absent')) for k in set(fs) | set(got) if fs.get(k, 'absent') != got.get(k, 'absent')}
                raise Violation('%s: after %s (step %d): (expected, found) %r' % (where, op, n, diff))
            if os.getcwd() != os.path.join(root, here):
                raise Violation('%s: after %s: the current directory has changed' % (where, op))
            rec.state((sorted(fs.items(), key=repr), here))
        if set(case['h']) & {'cd:B', 'put', 'rm', 'create:base', 'create:metronix'}:
            rec.interesting(where)
    finally:
        os.chdir(cwd)
        clean(root)


def step(case, n, op, root, rzb, fs, here, rec):
    from click.testing import CliRunner
    where = '%r: %s (step %d)' % (case, op, n)
    kind, _, arg = op.partition(':')
    is_dir = lambda d, rel: (d, rel) in fs and fs[d, rel] is None

    def used(target):
        rel = os.path.join('data', target) if target else 'data'
        return (here if is_dir(here, rel) else 'S'), rel

    def real(d, rel):
        return os.path.realpath(os.path.join(where_is(root, d), rel))

    if kind == 'cd':
        os.chdir(os.path.join(root, arg))
        return arg
    if kind == 'put':       # the user adds a data file
        if is_dir(here, 'data/' + T):
            put(root, here, 'data/%s/%s' % (T, F), 'F')
            fs[here, 'data/%s/%s' % (T, F)] = 'F'
        elif is_dir(here, 'data'):
            put(root, here, 'data/' + F, 'F')
            fs[here, 'data/' + F] = 'F'
    elif kind == 'ship':
        if is_dir('S', 'data/' + T):
            put(root, 'S', 'data/%s/%s' % (T, F), 'F')
            fs['S', 'data/%s/%s' % (T, F)] = 'F'
    elif kind == 'rm':      # the user removes the local target directory
        p = os.path.join(root, here, 'data', T)
        if os.path.isdir(p) and case[here] != 'link':
            shutil.rmtree(p)
            for k in [k for k in fs if k[0] == here and (k[1] + '/').startswith('data/%s/' % T)]:
                del fs[k]
    elif kind in ('show', 'create'):
        target = T if arg == 'metronix' else ''
        rel = 'data/' + T if target else 'data'
        r = CliRunner().invoke(rzb.cli.cli, ['path'] + (['--create', '-c'][n % 2:n % 2 + 1] if kind == 'create' else []) + [arg])
        if kind == 'show':
            out = r.output.strip()
            want = real(*used(target))
            if r.exit_code or not os.path.isabs(out) or os.path.realpath(out) != want:
                raise Violation('%s: shows %r (%r), expected %r' % (where, out, r.exception, want))
            rec.outcome((op, os.path.relpath(want, root)))
        else:
            blocked = (here, 'data') in fs and not is_dir(here, 'data')
            said = r.output.strip()
            if not blocked or rel == 'data':     # the answer tells what was done, and where
                want = ('%s already exists' if (here, rel) in fs else '%s created') % os.path.join(here, rel)
                if r.exit_code or not os.path.isabs(said.split(' ')[0]) or not ' '.join([os.path.realpath(said.split(' ')[0])] + said.split(' ')[1:]) == \
                        ' '.join([real(here, rel)] + want.split(' ')[1:]):
                    raise Violation('%s: answers %r (%r), expected %r' % (where, r.output, r.exception, want))
            if (here, rel) not in fs and not blocked:
                if r.exit_code:
                    raise Violation('%s: failed: %r %r' % (where, r.output, r.exception))
                fs[here, 'data'] = None
                fs[here, rel] = None
    elif kind == 'get':
        name = F
        target = '' if arg == 'b' else T
        rel = 'data/' + target if target else 'data'
        if arg == 'abs':
            name = os.path.join(root, 'A', 'data', F)
            want = name if ('A', 'data/' + F) in fs else None
        else:
            holders = [d for d in (here, 'S') if is_dir(d, rel) and (d, rel + '/' + F) in fs]
            want = real(holders[0], rel + '/' + F) if holders else None
        try:
            got = os.path.realpath(str(rzb.data.get_data_file(name, target)))
        except RecursionError:
            raise
        except Exception as exc:
            got = None
        if got != (want and os.path.realpath(want)):
            raise Violation('%s: the file is %r, expected %r' % (where, got, want))
        rec.outcome((op, want and os.path.relpath(want, root)))
    elif kind == 'cal':
        holders = [d for d in (here, 'S') if is_dir(d, 'data/' + T) and (d, 'data/%s/%s' % (T, F)) in fs]
        want = VAL[holders[0]] if holders and fs[holders[0], 'data/%s/%s' % (T, F)] == 'F' else None
        try:
            got = abs(complex(rzb.calibrations.metronix(F, 64.)(1.)))
        except RecursionError:
            raise
        except Exception as exc:
            got = None
        if (got is None) != (want is None) or want is not None and abs(got - want) > 1e-9:
            raise Violation('%s: the calibration is %r, expected %r' % (where, got, want))
        rec.outcome((op, want))
    return here
