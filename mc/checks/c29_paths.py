"C29: path patterns match and label exactly the intended files"
import functools
import itertools
import os

from ..engine import Violation, describe_exc
from ..util import part, shell_match

PROPERTY = 'C29'
LEVEL = 'model_checking'
RULE = ('all patterns of tokens of the alphabet {a, b, ., -, /, *, **, ?, [ab], [!a], [*], [, {x}, {y}} matched against all paths over the alphabet {a, b, ., -, /, *, [}, compared (matches, order, labels) with an independent backtracking matcher; all patterns of 3 or 4 fields separated by nothing, - or / against all paths over {a, b, -, /}, with one label per field and combined ones; patterns and paths of capitals, digits, spaces, line feeds, letters and digits out of ASCII and characters that are special in regular expressions; '
        'all illegal fields in all positions of patterns and templates; a case is non trivial when some paths match and some do not')
BOUNDS = {'quick': 'patterns of up to 2 tokens x all paths of up to 5 characters, 3 tokens x 4 characters, 4 tokens x 3 characters, up to 5 tokens with 3 or 4 fields x 6 characters; special characters: 2 tokens x 3 characters, 3 tokens x 2 characters; classes holding a separator: 3 tokens x 4 characters, 4 tokens x 3 characters', 'thorough': 'patterns of up to 3 tokens x 6 characters, 4 tokens x 4 characters, 5 tokens x 3 characters, up to 7 tokens with 3 or 4 fields x 7 characters'}
ASSUMPTIONS = ['patterns and names are normalised as os.path.normpath does before matching', 'when several texts fit, fields and stars take the shortest ones from left to right', 'patterns using a field twice, or losing a field by normalisation, are not covered', 'POSIX separators']
M = 64
TOKENS = ['a', 'b', '.', '-', '/', '*', '**', '?', '[ab]', '[!a]', '[*]', '[', '{x}', '{y}']
CHARS = ['a', 'b', '.', '-', '/', '*', '[']
#: characters that mean something in regular expressions, capitals, spaces, others than ASCII
RICH_TOKENS = ['a', 'A', '0', '+', '(', ')', '$', '^', '\\', '\n', '\u00e9', ' ', '|', '*', '?', '{x}', '[A-Z]', '[!a]', '[^a]', '[\\]', '[a-\u00e9]', '[|&]', '[ABCDEFGHIJ]', '[!A-Za-z0-9 ]']
RICH = ['a', 'A', 'Z', '0', '_', '+', '(', ')', '$', '^', '\\', '\n', '\u00e9', '\u0661', ' ', '|']
#: classes with a separator
SLASH_TOKENS = ['[/a]', '[!/]', '[a/b]', '[!a/]', 'a', '/', '*', '**', '{x}']
MANY = ['{x}', '{y}', '{z}', '{w}', '-', '/']
BAD = ['{}', '{0}', '{1a}', '{a!r}', '{a:d}', '{a:}x{:3}', '{a-b}', '{a.b}', '{a[0]}', '{a b}', '{ a}', '{a', 'a}', '{a\u00e9}', '{x!s}', '{x:s}', '{-}']
TEMPLATES = [['{x}', '{y}', '{x}', '{y}_{x}', 'lab'], ['t{x}'], ['{x}_{x}', '{x}'], []]


def all_cases(tier):
    for n, L in ((1, 5), (2, 5), (3, 4), (4, 3)) if tier == 'quick' else ((1, 7), (2, 6), (3, 6), (4, 4), (5, 3)):
        for toks in itertools.product(TOKENS, repeat=n):
            if toks.count('{x}') > 1 or toks.count('{y}') > 1:
                continue
            yield dict(k='match', p=''.join(toks), L=L)
    for n, L in ((1, 3), (2, 3), (3, 2)) if tier == 'quick' else ((1, 4), (2, 3), (3, 3)):
        for toks in itertools.product(RICH_TOKENS, repeat=n):
            if toks.count('{x}') <= 1:
                yield dict(k='match', p=''.join(toks), L=L, rich=1)
    for n, L in ((1, 4), (2, 4), (3, 4), (4, 3)) if tier == 'quick' else ((1, 6), (2, 6), (3, 5), (4, 5)):
        for toks in itertools.product(SLASH_TOKENS, repeat=n):
            if toks.count('{x}') <= 1:
                yield dict(k='match', p=''.join(toks), L=L, slash=1)
    # three or four fields: every label uses the fields of its own name
    for n in range(3, 6 if tier == 'quick' else 8):
        for toks in itertools.product(MANY, repeat=n):
            f = [t for t in toks if t[0] == '{']
            if len(f) < 3 or len(set(f)) < len(f) or f != [t for t in MANY[:4] if t in f] or toks[-1] == '/' or '//' in ''.join(toks):
                continue
            yield dict(k='many', p=''.join(toks), L=6 if tier == 'quick' else 7)
    for bad in BAD:
        for pos in itertools.product(('', 'a', '/', '*', '{x}', '[ab]'), repeat=2):
            if 'x' in bad and '{x}' in pos or pos == ('{x}', '{x}'):
                continue
            yield dict(k='bad', p=pos[0] + bad + pos[1], t=['{x}'][:'{x}' in pos])
        for pos in ('', 'a', '{x}', '{y}'):
            for n in range(3):
                yield dict(k='bad', p='{x}-{y}', t=['{x}', '{y}'][:n] + [pos + bad] + ['{x}'][:1 - n % 2])
    for f in itertools.product(('{x}', '{y}', '{z}', 'a'), repeat=2):
        for t in itertools.product(('{x}', '{y}', '{z}', 'a', '{x}{y}', '{z}{x}'), repeat=2):
            if f[0] != f[1]:
                yield dict(k='missing', p='-'.join(f), t=list(t))


def shards(tier):
    return list(range(M))


def cases(shard, tier):
    return part(all_cases(tier), shard, M)


@functools.lru_cache(None)
def names(L, chars=None):
    out = ['']
    for n in range(1, L + 1):
        out += [''.join(c) for c in itertools.product(chars or CHARS, repeat=n)]
    return [(x, os.path.normpath(x)) for x in out + out[::-7]]      # some names are given twice


def word(s):
    return all(c in 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_' for c in s)


def parse(p):
    out, i = [], 0
    while i < len(p):
        c = p[i]
        if c == '{':
            j = p.index('}', i)
            out.append(('f', p[i + 1:j]))
        elif p.startswith('**', i):
            j = i + 1
            out.append(('**',))
        elif c in '*?':
            j = i
            out.append((c,))
        elif c == '[' and p.find(']', i + (3 if p[i + 1:i + 2] == '!' else 2)) > 0:
            j = p.find(']', i + (3 if p[i + 1:i + 2] == '!' else 2))
            out.append(('c', p[i:j + 1]))
        else:
            j = i
            out.append(('l', c))
        i = j + 1
    return tuple(out)


@functools.lru_cache(1 << 20)
def match(toks, s):
    "texts of the fields, None when the path does not fit"
    if not toks:
        return None if s else ()
    t, rest = toks[0], toks[1:]
    if t[0] in ('l', '?', 'c'):
        ok = s and (t[0] == '?' or t[0] == 'l' and s[0] == t[1] or t[0] == 'c' and shell_match(t[1], s[0]))
        return match(rest, s[1:]) if ok else None
    for i in range(1 if t[0] == 'f' else 0, len(s) + 1):
        if t[0] == 'f' and not word(s[:i]) or t[0] == '*' and '/' in s[:i]:
            break
        r = match(rest, s[i:])
        if r is not None:
            return ((s[:i],) if t[0] == 'f' else ()) + r
    return None


def fill(tpl, d):
    for f, text in d.items():
        tpl = tpl.replace('{%s}' % f, text)
    return tpl


def run_case(case, rec):
    from razorback.utils import tags_from_path
    where = repr(case)
    rec.state(where)
    p = case['p']
    if case['k'] in ('match', 'many'):
        toks, full = parse(os.path.normpath(p)), parse(p)
        fields = [t[1] for t in toks if t[0] == 'f']
        if fields != [t[1] for t in full if t[0] == 'f'] or any(t[0] == 'c' and ('{' in t[1] or '[' in t[1][1:]) for t in toks + full):
            rec.count('not_covered')
            return
        if case['k'] == 'many':
            l = names(case['L'], 'ab-/')
            tpls = ['{%s}' % f for f in fields] + ['_'.join('{%s}' % f for f in fields[::-1]), 'l{%s}' % fields[2]]
        else:
            l = names(case['L'], ''.join(RICH) if 'rich' in case else 'ab/-' if 'slash' in case else None)
            tpls = next(t for t in TEMPLATES if all(f in fields for x in t for f in 'xy' if '{%s}' % f in x))
        want = []
        for name, norm in l:
            m = match(toks, norm)
            if m is not None:
                d = dict(zip(fields, m))
                want.append((name, [fill(t, d) for t in tpls]))
        rec.step(len(l))
        try:
            got = [(a, list(b)) for a, b in tags_from_path([x for x, _ in l], p, *tpls)]
        except Exception as exc:
            raise Violation('%s: failed: %s' % (where, describe_exc(exc)))
        if got != want:
            diff = [x for x in got + want if x not in got or x not in want]
            raise Violation('%s templates %r: %d matches instead of %d, first difference: %r %s' % (
                where, tpls, len(got), len(want), diff[0] if diff else 'order', 'found' if diff and diff[0] in got else 'not found'))
        rec.outcome(want)
        if 0 < len(want) < len(l):
            rec.interesting(p)
        return
    fields = {f for f in 'xyz' if '{%s}' % f in p}
    ok = case['k'] == 'missing' and all(f in fields for t in case['t'] for f in 'xyz' if '{%s}' % f in t)
    rec.step()
    try:
        got = list(tags_from_path(['a-b', 'a', 'b', '/a', 'ab-a', 'x'], p, *case['t']))
        st = 'accepted'
    except RecursionError:
        raise
    except Exception as exc:
        got, st = describe_exc(exc), 'refused'
    rec.outcome(st)
    rec.interesting(where)
    if (st == 'accepted') != ok:
        raise Violation('%s: %s, expected to be %s: %r' % (where, st, 'accepted' if ok else 'refused', got))
