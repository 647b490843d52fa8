""" writes DESIGN.md from design_head.md, the catalog, the check modules, the evidence, the planted bugs

    /opt/venv/bin/python tools/design.py      (after: tools/sweep.py --jobs 3 > tools/sweep_results.txt)
"""
import importlib
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)


def module(pid):
    (name,) = [f[:-3] for f in os.listdir(os.path.join(VERIF, 'mc', 'checks')) if f.startswith(pid.lower() + '_')]
    return importlib.import_module('mc.checks.' + name), name


def main():
    import mc.catalog as cat
    out = [open(os.path.join(HERE, 'design_head.md')).read()]
    known = json.load(open(os.path.join(VERIF, 'known_findings.json')))
    out.append('## 3. Genuine defects found and repaired\n\nEach one is a `fix:` commit of /repo and an entry of `known_findings.json`; the check reports it again if it comes back.\n')
    for f in known['fixed']:
        m = re.match(r'fixed: property=(C\d+) (\w+) (.*)', f)
        out.append('* %s (%s): %s' % m.groups())
    out.append('\nRecorded findings that are not repaired: %s.\n' % (', '.join(e['key'] for e in known['findings']) or 'none'))
    times = {}
    path = os.path.join(HERE, 'thorough_results.txt')
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'(C\d+) thorough: .*?states=(\d+) transitions=(\d+) .*?wall=([\d.]+)s', line)
            if m:
                times[m.group(1)] = m.groups()[1:]
    out.append('## 4. The properties\n\nFor each property: what is enumerated, the bounds of the two tiers, what is assumed, and what a run on this machine covered (states, transitions = steps of the real code compared with the reference, seconds with 8 processes).\n')
    for p in cat.PROPS:
        pid = p['id']
        if not p['claimed']:
            out.append('### %s %s\n\nNot claimed: %s\n' % (pid, p['title'], p['na']))
            continue
        mod, name = module(pid)
        b = mod.BOUNDS if isinstance(mod.BOUNDS, dict) else dict(quick=mod.BOUNDS, thorough=mod.BOUNDS)
        out.append('### %s %s\n' % (pid, p['title']))
        out.append('* *decided by* (`mc/checks/%s.py`, %s): %s' % (name, mod.LEVEL, p['technique']))
        out.append('* *explored*: %s.' % mod.RULE)
        out.append('* *quick*: %s. *thorough*: %s.' % (b['quick'], b['thorough']))
        ass = [a for a in mod.ASSUMPTIONS if a]
        if ass:
            out.append('* *assumed*: %s.' % '; '.join(ass))
        out.append('* *beyond the tests*: %s' % p['why'])
        ev = os.path.join(VERIF, 'evidence', pid + '.json')
        if os.path.exists(ev):
            e = json.load(open(ev))
            c = e['coverage']
            if e['tier'] == 'quick':
                s = '* *measured*: quick %d states, %d transitions, %d cases, %.0f s' % (c['states'], c['transitions'], c['traces_validated_against_impl'], e['wall_s'])
                if pid in times:
                    s += '; thorough %s states, %s transitions, %.0f s' % (times[pid][0], times[pid][1], float(times[pid][2]))
                out.append(s + '.')
        out.append('')
    out.append(open(os.path.join(HERE, 'design_tail.md')).read())
    res = {}
    path = os.path.join(HERE, 'sweep_results.txt')
    if os.path.exists(path):
        for line in open(path):
            w = line.split()
            if len(w) > 2:
                res[w[0]] = w[2]
    out.append('| bug | property | what it breaks | needs | quick check |\n|---|---|---|---|---|')
    for b in sorted(os.listdir(os.path.join(VERIF, 'seeded'))):
        m = json.load(open(os.path.join(VERIF, 'seeded', b, 'meta.json')))
        out.append('| %s | %s | %s | %s | %s |' % (b, m['property'], m['what_it_breaks'], m['needs'], res.get(b, '-')))
    with open(os.path.join(VERIF, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out) + '\n')


if __name__ == '__main__':
    main()
