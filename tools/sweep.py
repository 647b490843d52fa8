""" run the quick check of the property of every bug in /verif/seeded on a patched copy of /repo: caught or missed

usage: sweep.py [--jobs N] [id ...]
"""
import concurrent.futures
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def one(bug):
    folder = os.path.join(VERIF, 'seeded', bug)
    meta = json.load(open(os.path.join(folder, 'meta.json')))
    root = tempfile.mkdtemp(prefix='sweep_')
    try:
        copy = os.path.join(root, 'repo')
        subprocess.check_call(['cp', '-a', '/repo', copy])
        subprocess.check_call(['git', '-C', copy, 'apply', os.path.join(folder, 'patch.diff')])
        env = dict(os.environ, MC_REPO=copy, VERIF_TIER='quick', PYTHONDONTWRITEBYTECODE='1')
        r = subprocess.run([PY, os.path.join(VERIF, 'mc', 'run.py'), meta['property']], cwd=VERIF, env=env,
                           capture_output=True, text=True, timeout=900)
        line = next((l for l in r.stdout.splitlines() if l.startswith('VIOLATION')), '')
        ok = r.returncode == 1 and ('property=' + meta['property']) in line
        return bug, meta['property'], 'caught' if ok else 'MISSED rc=%d' % r.returncode, r.stdout[-300:] if not ok else ''
    finally:
        shutil.rmtree(root)


def main(args):
    jobs = 4
    if '--jobs' in args:
        k = args.index('--jobs')
        jobs = int(args[k + 1])
        del args[k:k + 2]
    bugs = args or sorted(os.listdir(os.path.join(VERIF, 'seeded')))
    with concurrent.futures.ThreadPoolExecutor(jobs) as pool:
        for row in pool.map(one, bugs):
            print(*row, flush=True)


if __name__ == '__main__':
    main(sys.argv[1:])
