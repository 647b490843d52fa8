"C40: the command line with all sets of plugins, in fresh processes"
import itertools
import json
import os
import shutil
import subprocess
import sys
import tempfile

from ..engine import Violation, scratch_dir
from ..util import part

PROPERTY = 'C40'
LEVEL = 'model_checking'
RULE = ('all sets of installed plugins (entry points of scratch distributions), with and without the extension package; in each of them a fresh process lists the commands, asks for help and runs every command, known or not (abbreviations, other cases, other separators); '
        'a case is non trivial when a plugin is installed')
BOUNDS = {'quick': 'all subsets of 4 plugin commands, in one or in two distributions, with or without the extension', 'thorough': 'all subsets of 5 plugin commands'}
ASSUMPTIONS = ['a plugin named as a built-in command replaces it']
M = 48
NAMES = ['hello', 'Zeta_x', 'version', 'path', 'a-b']
#: names that look like a command
NEAR = sorted({v for t in NAMES for v in (t[:-1], t[:-2], t[:1], t.upper(), t.lower(), t.capitalize(), t.replace('-', '_'), t.replace('_', '-'), t + 's', t + '1', 'rzb-' + t)} - set(NAMES))

PROG = '''
import json, sys, warnings
warnings.simplefilter("ignore")
sys.path.insert(0, %(code)r)
from click.testing import CliRunner
import razorback
from razorback.cli import cli
runner = CliRunner()
out = dict(file=razorback.__file__, __version__=razorback.__version__)
for args in %(calls)r:
    r = runner.invoke(cli, args)
    out[" ".join(args)] = [r.exit_code, r.output]
json.dump(out, sys.stdout)
'''


def all_cases(tier):
    names = NAMES[:4] if tier == 'quick' else NAMES
    for k in range(len(names) + 1):
        for sub in itertools.combinations(names, k):
            for dists in (1, 2):
                for plus in (0, 1):
                    if dists == 2 and len(sub) < 2 or (tier == 'quick' and plus and (k + dists) % 2):
                        continue
                    yield dict(plugins=list(sub), dists=dists, plus=plus)


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    return part(all_cases(tier), shard, M)


def commands(text):
    "the commands listed in a help text, in order"
    lines = text.split('Commands:')[1].splitlines()
    return [l.split()[0] for l in lines if l.strip()]


def run_case(case, rec):
    import razorback
    code = os.path.dirname(os.path.dirname(os.path.abspath(razorback.__file__)))
    plugins = case['plugins']
    root = tempfile.mkdtemp(prefix='c40_', dir=scratch_dir())
    try:
        for d in range(case['dists']):
            mine = plugins[d::case['dists']]
            with open(os.path.join(root, 'plug%d.py' % d), 'w') as f:
                f.write('import click\n')
                for i, t in enumerate(mine):
                    f.write('@click.command()\n@click.argument("x", default="none")\ndef c%d(x):\n    "The plugin %s."\n    click.echo("plugin %s of %d got " + x)\n' % (i, t, t, d))
            info = os.path.join(root, 'plug%d-1.0.dist-info' % d)
            os.mkdir(info)
            with open(os.path.join(info, 'METADATA'), 'w') as f:
                f.write('Metadata-Version: 2.1\nName: plug%d\nVersion: 1.0\n' % d)
            with open(os.path.join(info, 'entry_points.txt'), 'w') as f:
                f.write('[rzb.commands]\n' + ''.join('%s = plug%d:c%d\n' % (t, d, i) for i, t in enumerate(mine)))
        if case['plus']:
            with open(os.path.join(root, 'razorback_plus.py'), 'w') as f:
                f.write('')
        work = os.path.join(root, 'work')
        os.mkdir(work)
        calls = [[], ['--help'], ['-h'], ['nope'], ['version'], ['path', 'base'], ['path', '-h'], ['path', 'nope']] + [[t] for t in NAMES] + [[t, 'it'] for t in plugins] + [[t] for t in NEAR] + [['path', t] for t in ('bas', 'BASE', 'metro', 'metronix_', 'b', 'Metronix')]
        env = dict(os.environ, PYTHONPATH=root, PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore')
        res = subprocess.run([sys.executable, '-c', PROG % dict(code=code, calls=calls)], cwd=work, env=env, capture_output=True, text=True, timeout=120)
        where = repr(case)
        if res.returncode:
            raise Violation('%s: the process failed: %s' % (where, res.stderr[-800:]))
        out = json.loads(res.stdout)
        assert os.path.abspath(out['file']).startswith(code), out['file']
        if os.listdir(work):
            raise Violation('%s: the commands created %r' % (where, os.listdir(work)))
    finally:
        shutil.rmtree(root)
    rec.state(where), rec.step(len(calls))

    def need(cond, what, *args):
        if not cond:
            raise Violation('%s: %s: %r' % (where, what, args))

    want = sorted(set(plugins) | {'version', 'path'})
    need(out['-h'] == out['--help'], 'the two help options differ')
    for args in ('--help', ''):
        need(args == '' or out[args][0] == 0, 'help fails', out[args])
        need(commands(out[args][1]) == want, 'commands listed', commands(out[args][1]), want)
    need(out['nope'][0] != 0, 'an unknown command is accepted', out['nope'])
    for t in NEAR:
        need(out[t][0] != 0, 'an unknown command is accepted', t, out[t])
    for t in ('bas', 'BASE', 'metro', 'metronix_', 'b', 'Metronix'):
        need('path' in plugins or out['path ' + t][0] != 0, 'an unknown path command is accepted', t)
    need('path' in plugins or out['path nope'][0] != 0, 'an unknown path command is accepted', out['path nope'])
    for t in plugins:
        d = plugins.index(t) % case['dists']
        for arg, x in ((t, 'none'), (t + ' it', 'it')):
            need(out[arg] == [0, 'plugin %s of %d got %s\n' % (t, d, x)], 'plugin ' + arg, out[arg])
    for t in NAMES:
        if t not in plugins and t not in ('version', 'path'):
            need(out[t][0] != 0, 'a missing plugin runs', t, out[t])
    if 'version' not in plugins:
        need(out['version'] == [0, 'razorback%s %s\n' % ('+' if case['plus'] else '', out["__version__"])], 'version', out['version'])
    if 'path' not in plugins:
        need(out['path base'][0] == 0 and out['path base'][1].strip() == os.path.join(code, 'razorback', 'data'), 'path base', out['path base'])
        need(commands(out['path -h'][1]) == ['base', 'metronix'], 'path commands', out['path -h'])
    rec.outcome((tuple(want), case['plus']))
    if plugins:
        rec.interesting(where)

