""" confirm planted bugs in a scratch copy and store them in /verif/seeded

usage: plant.py SPECS.py [id ...]

SPECS.py defines BUGS, a list of dict(id, property, file, edits=[(old, new), ...], needs, what, demo).
For each bug: the edits are applied in a copy of /repo, the tests of the baseline are run there, the demonstration is run
with and without the change, and the check of the property is run on the copy.
"""
import importlib.util
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
BASE = subprocess.check_output(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], text=True).strip()
HEAD = '''import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
'''
SH = '''#!/bin/bash
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
'''


def run(cmd, cwd, timeout=900, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', **env)
    return subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)


def main(specs, only):
    spec = importlib.util.spec_from_file_location('specs', specs)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    root = tempfile.mkdtemp(prefix='plant_')
    copy = os.path.join(root, 'repo')
    subprocess.check_call(['cp', '-a', '/repo', copy])
    stable = json.load(open('/opt/vp/BASELINE.json'))
    try:
        for bug in mod.BUGS:
            if only and bug['id'] not in only:
                continue
            one(bug, copy)
            subprocess.check_call(['git', '-C', copy, 'checkout', '-q', '--', '.'])
    finally:
        shutil.rmtree(root)


def one(bug, copy):
    say = lambda *a: print(bug['id'], bug['property'], *a, flush=True)
    path = os.path.join(copy, bug['file'])
    text = open(path).read()
    base = subprocess.check_output(['git', '-C', '/repo', 'show', BASE + ':' + bug['file']], text=True).splitlines()
    for old, new in bug['edits']:
        if text.count(old) != 1:
            return say('REJECTED: %d occurrences of %r' % (text.count(old), old))
        text = text.replace(old, new)
    open(path, 'w').write(text)
    diff = subprocess.check_output(['git', '-C', copy, 'diff'], text=True)
    removed = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
    if not any(l in base and l.strip() for l in removed):
        return say('REJECTED: no original line changed', removed)
    fake = [l for l in removed if l.strip() and l not in base]
    if fake:
        say('warning: changes lines of my own commits', fake)
    r = run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-x'], copy, PYTHONPATH=os.path.join(copy, 'src'))
    if r.returncode:
        return say('REJECTED: tests fail', r.stdout[-600:])
    folder = os.path.join(VERIF, 'seeded', bug['id'])
    shutil.rmtree(folder, ignore_errors=True)
    os.makedirs(folder)
    with open(os.path.join(folder, 'patch.diff'), 'w') as f:
        f.write(diff)
    with open(os.path.join(folder, 'demo.sh'), 'w') as f:
        f.write(SH)
    with open(os.path.join(folder, 'demo.py'), 'w') as f:
        f.write(HEAD + bug['demo'].lstrip('\n'))
    with open(os.path.join(folder, 'meta.json'), 'w') as f:
        json.dump(dict(property=bug['property'], needs=bug['needs'], what_it_breaks=bug['what']), f, indent=1)
    demo = ['bash', os.path.join(folder, 'demo.sh')]
    bad = run(demo, copy, 300)
    if not bad.returncode:
        shutil.rmtree(folder)
        return say('REJECTED: demo passes with the bug', bad.stdout[-300:], bad.stderr[-300:])
    good = run(demo, '/repo', 300)
    if good.returncode:
        shutil.rmtree(folder)
        return say('REJECTED: demo fails on the clean tree', good.stdout[-300:], good.stderr[-600:])
    c = run([PY, os.path.join(VERIF, 'mc', 'run.py'), bug['property']], VERIF, MC_REPO=copy)
    caught = c.returncode == 1 and 'VIOLATION property=' + bug['property'] in c.stdout
    say('caught' if caught else '**** MISSED ****', '| demo:', (bad.stderr.strip().splitlines() or ['?'])[-1][:120], '' if caught else c.stdout[-300:] + c.stderr[-300:])


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2:])
