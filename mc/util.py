"small helpers shared by the checks"
import itertools


def shell_match(pat, name):
    "independent matcher of shell patterns on a single string: * ? [seq] [!seq]"
    if not pat:
        return not name
    c = pat[0]
    if c == '*':
        return any(shell_match(pat[1:], name[i:]) for i in range(len(name) + 1))
    if not name:
        return False
    if c == '?':
        return shell_match(pat[1:], name[1:])
    if c == '[':
        j = pat.find(']', 2 if pat[1:2] != '!' else 3)
        if j > 0:
            body = pat[1:j]
            neg = body.startswith('!')
            body = body[neg:]
            ok, k = False, 0
            while k < len(body):
                if k + 2 < len(body) and body[k + 1] == '-':
                    ok |= body[k] <= name[0] <= body[k + 2]
                    k += 3
                else:
                    ok |= body[k] == name[0]
                    k += 1
            return ok != neg and shell_match(pat[j + 1:], name[1:])
    return c == name[0] and shell_match(pat[1:], name[1:])


def subsets(seq, lo=0, hi=None):
    seq = list(seq)
    for k in range(lo, (len(seq) if hi is None else hi) + 1):
        yield from itertools.combinations(seq, k)


def tag_tables(names, n, groups):
    "all tables giving to each name nothing or one of the groups"
    for combo in itertools.product([None] + list(groups), repeat=len(names)):
        yield {t: g for t, g in zip(names, combo) if g is not None}


def mod(i, k, m):
    "deterministic partition of an enumeration in m shards"
    return i % m == k


def part(it, k, m):
    for i, x in enumerate(it):
        if i % m == k:
            yield x


def grouped(it, key, k, m):
    "the part k of m, keeping together the items with the same key"
    groups, rank = {}, {}
    for x in it:
        y = key(x)
        if rank.setdefault(y, len(rank)) % m == k:
            groups.setdefault(y, []).append(x)
    for g in groups.values():
        yield from g
