""" systematic small mutations of the source, to find what the checks do not see

usage: mutate.py FILE [--from N] [--to N] [--func NAME] [--list]

Every mutant is made in a scratch copy of /repo; those that pass the tests are submitted to the checks of the function
until one catches it; the others are printed as SURVIVED (equivalent mutants, or holes in the checks).
"""
import argparse
import ast
import json
import os
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
SKIP = {'__str__', '__repr__', 'time_to_freq_old', 'sliding_window', 'ft', 'm_expexp', 'load_ats_from'}
CHECKS = {
    'TagsBase': 'C01 C02', 'Tags': 'C01 C02', 'SignalSet.__init__': 'C02 C06 C05', 'SignalSet.__getattr__': 'C03 C11', 'SignalSet.__getitem__': 'C03 C04',
    'SignalSet._reorder_data': 'C06 C02', 'SignalSet.tags': 'C02 C11', 'SignalSet.select_channels': 'C03 C09', 'SignalSet.select_runs': 'C04',
    'SignalSet.join': 'C06', 'SignalSet.merge': 'C07 C10', 'SignalSet.extract_t': 'C05', 'SignalSet.fourier_coefficients': 'C12 C13',
    'SignalSet.merge_consecutive_runs': 'C08 C10', '_group_indices': 'C08 C10', 'SignalSet': 'C02 C04 C03', 'SyncSignal.select': 'C03',
    'SyncSignal.__init__': 'C02 C05', 'SyncSignal._time_to_index': 'C05 C07', 'SyncSignal._index_to_time': 'C02 C05', 'SyncSignal.extract_i': 'C05 C07', 'SyncSignal.extract_t': 'C05 C07',
    'SyncSignal.fourier_coefficients': 'C12', 'SyncSignal': 'C02 C05', 'Inventory.extract_groups': 'C10 C30', 'Inventory._join_merge': 'C10', 'Inventory.pack': 'C10', 'Inventory': 'C09 C10 C11',
    '_time_tol': 'C05 C07 C08 C02', '_tupleit': 'C01 C03',
    'fourier_transform.py': 'C12 C13', 'binary_file_array.py': 'C14 C16 C15', 'ats.py': 'C15', 'prefilters.py': 'C25', 'calibrations.py:metronix': 'C26', 'calibrations.py:phoenix': 'C27', 'calibrations.py': 'C26 C27', 'data.py': 'C28', 'cli.py': 'C28',
    'weights.py': 'C34 C20 C21 C19 C23 C17 C22 C18', 'mestimator.py:transfer_error': 'C31', 'mestimator.py': 'C33 C17 C19 C23 C20 C18 C31 C21',
    'utils.py:impedance_mass_proc': 'C30', 'utils.py:impedance': 'C32 C18 C24 C19 C30', 'utils.py:_impedance': 'C32 C18 C24 C19 C30 C25', 'utils.py:prefilter_values': 'C25', 'utils.py:prefilter_values_mass_proc': 'C30',
    'utils.py:apply_prefilter': 'C32 C25 C24 C18', 'utils.py:transfer_function_real_prob': 'C32 C19 C17 C24 C23', 'utils.py:compute_prefilter': 'C25', 'utils.py:tags_from_path': 'C29', 'utils.py:_prepare_pattern': 'C29', 'utils.py:_get_fields': 'C29',
}
SWAP = {'starts': 'stops', 'stops': 'starts', 'start': 'stop', 'stop': 'start', 'min': 'max', 'max': 'min', 'floor': 'ceil', 'ceil': 'floor', 'real': 'imag', 'imag': 'real', 'union': 'intersection', 'append': 'extend',
        'left': 'right', 'right': 'left', 'issubset': 'issuperset', 'issuperset': 'issubset', 'union1d': 'intersect1d', 'filter': 'fnmatch', 'nanmedian': 'nanmean', 'conj': 'copy', 'conjugate': 'copy', 'zeros': 'ones', 'ones': 'zeros',
        'signals': 'data', 'is_dir': 'exists', 'exists': 'is_dir', 'inputs': 'outputs', 'outputs': 'inputs', 'hstack': 'vstack', 'pop': 'copy'}
UNWRAP = {'sorted', 'list', 'tuple', 'set', 'abs', 'float', 'int', 'dict', 'sqrt', 'unique', 'array', 'isalpha', 'strip', 'lower', 'normpath', 'escape', 'abspath', 'resolve', 'absolute', 'transpose', 'str', 'map', 'nonzero', 'log', 'exp',
          'rechunk', 'frozenset', 'cumsum', 'conjugate', 'conj', 'expexp', 'vnorm'}
CMP = {ast.Lt: ['<=', '>'], ast.LtE: ['<', '>='], ast.Gt: ['>=', '<'], ast.GtE: ['>', '<='], ast.Eq: ['!='], ast.NotEq: ['=='], ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}
BIN = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*', '//'], ast.FloorDiv: ['/'], ast.Mod: ['//'], ast.Pow: ['*'], ast.BitOr: ['&'], ast.BitAnd: ['|']}


def mutants(text):
    tree = ast.parse(text)
    lines = text.splitlines(keepends=True)
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()))
    raw = text.encode()

    def pos(n, end=False):
        return starts[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)

    def src(n):
        return raw[pos(n):pos(n, True)].decode()

    out = []

    def add(n, new, what, scope):
        a, b = pos(n), pos(n, True)
        t = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            ast.parse(t)
        except SyntaxError:
            return
        out.append((n.lineno, '.'.join(scope), '%s: %s -> %s' % (what, src(n)[:70].replace('\n', ' '), new[:70].replace('\n', ' ')), t))

    def visit(n, scope):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            if n.name in SKIP:
                return
            scope = scope + [n.name]
            body = n.body
            if isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
                body = body[1:]
            if isinstance(n, ast.FunctionDef):
                for d in n.args.defaults + [d for d in n.args.kw_defaults if d is not None]:
                    visit(d, scope)
            for b in body:
                visit(b, scope)
            return
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Raise, ast.Assert, ast.Expr)) and scope:
            if not (isinstance(n, ast.Expr) and isinstance(n.value, (ast.Constant, ast.Yield))):
                add(n, 'pass', 'delete', scope)
        if isinstance(n, ast.Continue):
            add(n, 'break', 'jump', scope)
            add(n, 'pass', 'jump', scope)
        if isinstance(n, ast.Break):
            add(n, 'continue', 'jump', scope)
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            add(n.test, 'True', 'cond', scope)
            add(n.test, 'False', 'cond', scope)
        if isinstance(n, ast.comprehension):
            for i in n.ifs:
                add(i, 'True', 'cond', scope)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in CMP[type(n.ops[0])]:
                add(n, '%s %s %s' % (src(n.left), o, src(n.comparators[0])), 'cmp', scope)
        elif isinstance(n, ast.Compare):
            for k in range(len(n.ops)):
                for o in CMP[type(n.ops[k])][:1]:
                    parts = [src(n.left)]
                    for j, (p, c) in enumerate(zip(n.ops, n.comparators)):
                        parts += [o if j == k else {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}.get(type(p), '=='), src(c)]
                    add(n, ' '.join(parts), 'cmp', scope)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.Constant) or isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(getattr(n.left, 'value', None), str):
            for o in BIN[type(n.op)]:
                add(n, '(%s) %s (%s)' % (src(n.left), o, src(n.right)), 'op', scope)
            add(n, '(%s)' % src(n.left), 'op', scope)
            add(n, '(%s)' % src(n.right), 'op', scope)
        if isinstance(n, ast.BoolOp):
            add(n, ' '.join(('or ' if isinstance(n.op, ast.And) else 'and ').join('(%s) ' % src(v) for v in n.values).split()), 'bool', scope)
            for v in n.values:
                add(n, ' and '.join('(%s)' % src(w) for w in n.values if w is not v) if isinstance(n.op, ast.And) else ' or '.join('(%s)' % src(w) for w in n.values if w is not v), 'bool', scope)
        if isinstance(n, ast.UnaryOp):
            add(n, src(n.operand), 'unary', scope)
        if isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                add(n, str(not v), 'const', scope)
            elif isinstance(v, int):
                add(n, str(v + 1), 'const', scope)
                add(n, str(v - 1), 'const', scope)
            elif isinstance(v, (float, complex)):
                add(n, repr(v * 2 if v else 1.), 'const', scope)
                add(n, repr(v * 1.01 if v else -1.), 'const', scope)
            elif v is None:
                pass
            elif isinstance(v, str) and v and len(v) < 12 and scope:
                add(n, repr(v + '_') if not v.startswith('.') else repr(v), 'const', scope)
        if isinstance(n, ast.Attribute) and n.attr in SWAP:
            add(n, src(n.value) + '.' + SWAP[n.attr], 'attr', scope)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in SWAP:
            add(n, SWAP[n.id], 'name', scope)
        if isinstance(n, ast.Call):
            f = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', None)
            if f in UNWRAP and n.args:
                add(n, src(n.args[-1]), 'unwrap', scope)
            elif f in UNWRAP and isinstance(n.func, ast.Attribute):
                add(n, src(n.func.value), 'unwrap', scope)
            if len(n.args) == 2 and not n.keywords:
                add(n, '%s(%s, %s)' % (src(n.func), src(n.args[1]), src(n.args[0])), 'swap', scope)
            for k in n.keywords:
                others = [src(a) for a in n.args] + ['%s=%s' % (q.arg, src(q.value)) if q.arg else '**' + src(q.value) for q in n.keywords if q is not k]
                add(n, '%s(%s)' % (src(n.func), ', '.join(others)), 'drop arg', scope)
            if len(n.args) > 1:
                add(n, '%s(%s)' % (src(n.func), ', '.join([src(a) for a in n.args[:-1]] + ['%s=%s' % (q.arg, src(q.value)) if q.arg else '**' + src(q.value) for q in n.keywords])), 'drop arg', scope)
        if isinstance(n, ast.Slice):
            if n.lower is not None and n.upper is not None:
                pass
        if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
            add(n, src(n.value), 'unslice', scope)
        if isinstance(n, ast.Starred):
            pass
        for c in ast.iter_child_nodes(n):
            visit(c, scope)

    for b in tree.body:
        visit(b, [])
    seen, res = set(), []
    for m in out:
        if m[3] not in seen and m[3] != text:
            seen.add(m[3])
            res.append(m)
    return res


def checks_of(name, scope):
    parts = scope.split('.')
    for key in ['.'.join(parts[:2]), parts[0], name + ':' + parts[0], name]:
        if key in CHECKS:
            return CHECKS[key].split()
    return []


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('file')
    ap.add_argument('--from', dest='a', type=int, default=0)
    ap.add_argument('--to', dest='b', type=int, default=10**9)
    ap.add_argument('--func', default='')
    ap.add_argument('--list', action='store_true')
    o = ap.parse_args()
    rel = 'src/razorback/' + o.file
    text = open('/repo/' + rel).read()
    muts = mutants(text)
    print(len(muts), 'mutants', flush=True)
    root = tempfile.mkdtemp(prefix='mut_')
    copy = os.path.join(root, 'repo')
    subprocess.check_call(['cp', '-a', '/repo', copy])
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=os.path.join(copy, 'src'), OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    tot = dict(tests=0, caught=0, survived=0)
    try:
        for k, (line, scope, what, t) in enumerate(muts):
            if not o.a <= k < o.b or o.func not in scope:
                continue
            if o.list:
                print(k, line, scope, what)
                continue
            with open(os.path.join(copy, rel), 'w') as f:
                f.write(t)
            try:
                r = subprocess.run([PY, '-m', 'pytest', '-q', '-x', '-p', 'no:cacheprovider'], cwd=copy, env=env, capture_output=True, timeout=100)
                if r.returncode:
                    tot['tests'] += 1
                    continue
            except subprocess.TimeoutExpired:
                tot['tests'] += 1
                continue
            by = None
            for c in checks_of(os.path.basename(o.file), scope):
                e = dict(env, MC_REPO=copy)
                e.pop('PYTHONPATH')
                try:
                    r = subprocess.run([PY, VERIF + '/mc/run.py', c], cwd=VERIF, env=e, capture_output=True, text=True, timeout=300)
                except subprocess.TimeoutExpired:
                    by = c + ' (timeout)'
                    break
                if r.returncode == 1 and 'VIOLATION' in r.stdout:
                    by = c
                    break
                if r.returncode:
                    print('???', k, line, scope, what, c, r.stderr[-300:], flush=True)
                    by = c + ' (broken)'
            if by:
                tot['caught'] += 1
                if '(' in by:
                    print('-- %d line %d %s | %s | %s' % (k, line, scope, what, by), flush=True)
            else:
                tot['survived'] += 1
                print('SURVIVED %d line %d %s | %s' % (k, line, scope, what), flush=True)
    finally:
        shutil.rmtree(root)
    print(o.file, tot, flush=True)


if __name__ == '__main__':
    main()
