"""
Programs of the exhaustive families of spec/Families.tla: TLC makes them, this
module chooses which numbers, and how each is spelled in Python.
"""
import concurrent.futures
import json
import math
import os
import random

import drive

# at most so many programs of one run of TLC
CHUNK = 700


def _tlc(work, **env):
    text = drive.tlc('Families.tla', 'Families.cfg', work, env=dict({'PILO_LIST': '', 'PILO_FAMILY': 'values', 'PILO_FROM': '0',
                                                                     'PILO_STEP': '1', 'PILO_COUNT': '0'}, **env))
    out, dims = [], None
    for line in text.splitlines():
        if line.startswith('"@P '):
            _, n, fam, rest = json.loads(line).split(' ', 3)
            out.append((int(n), fam, json.loads(rest)))
        elif line.startswith('"@N '):
            dims = dict(json.loads(json.loads(line)[3:]))
    if dims is None or 'Error' in text:
        raise drive.ToolError('families %s: %s' % (env, '\n'.join(l for l in text.splitlines() if not l.startswith('"@'))[-2500:]))
    return out, dims


def _gen(args):
    fam, first, step, count, work = args
    return _tlc(work, PILO_FAMILY=fam, PILO_FROM=str(first), PILO_STEP=str(step), PILO_COUNT=str(count))[0]


def dims(work):
    """The dimensions of each family."""
    return _tlc(work)[1]


def sizes(work):
    """How many numbers each family has."""
    return dict((fam, math.prod(d)) for fam, d in dims(work).items())


def listed(pairs, work):
    """The programs with these (family, number)s: a dict."""
    size = max(60, -(-len(pairs) // drive.JOBS))

    def go(a):
        path = os.path.join(work, 'list%d.json' % a)
        with open(path, 'w') as fo:
            json.dump(pairs[a:a + size], fo)
        return _tlc(work, PILO_LIST=path, PILO_COUNT=str(len(pairs[a:a + size])))[0]
    with concurrent.futures.ThreadPoolExecutor(drive.JOBS) as ex:
        return dict(((fam, n), dress(p, n)) for got in ex.map(go, range(0, len(pairs), size)) for n, fam, p in got)


def dress(prog, n):
    """Spelling choices, which the meaning does not depend on."""
    rnd = random.Random(n)

    def go(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if k == 'style':
                    x[k] = rnd.getrandbits(24 if 'kind' in x else 8 if 'o' in x else 4)
                else:
                    go(v)
        elif isinstance(x, list):
            for v in x:
                go(v)
    go(prog)
    return prog


def coprime(step, total):
    step = max(1, step)
    while math.gcd(step, total) != 1:
        step += 1
    return step


def spread(total):
    """A step that visits all numbers, any stretch of them evenly spread."""
    return coprime(int(total * 0.6180339887), total)


def wanted(fam, total, seed, done, n):
    """The next n numbers of a family, after the first `done`: (family, first, step, how many, total)."""
    step = spread(total)
    return fam, (seed * 7919 + done * step) % total, step, min(n, total - done), total


def make(wants, work):
    """The programs of each of the wants; not every number has one."""
    jobs, whose = [], []
    whole = sum(w[3] for w in wants)
    per = max(120, min(CHUNK, -(-whole // drive.JOBS)))
    for j, (fam, start, step, count, total) in enumerate(wants):
        for a in range(0, count, per):
            jobs.append((fam, (start + a * step) % total, step, min(per, count - a), work))
            whose.append(j)
    out = [[] for _ in wants]
    with concurrent.futures.ThreadPoolExecutor(drive.JOBS) as ex:
        for j, progs in zip(whose, ex.map(_gen, jobs)):
            out[j] += [dress(p, i) for i, _, p in progs]
    return out


def crews(fams, n, seed, work, first=0):
    """
    Groups of programs over the same declarations: a number of a family, and
    numbers that differ from it in one digit.
    """
    every = dims(work)
    rnd = random.Random('famcrew/%d/%d' % (seed, first))
    bases = []
    for i in range(n):
        fam = fams[(i + first) % len(fams)]
        num = rnd.randrange(math.prod(every[fam]))
        near, place = [], 1
        for d in every[fam]:
            own = num // place % d
            others = [v for v in range(d) if v != own]
            near += [num + (v - own) * place for v in rnd.sample(others, min(3, len(others)))]
            place *= d
        bases.append((fam, num, near))
    made = listed([(fam, k) for fam, num, near in bases for k in [num] + near], work)
    out = []
    for fam, num, near in bases:
        p = made.get((fam, num))
        if p is None or any(o['o'] in ('declare', 'alter', 'render') for o in p['ops']):
            continue
        decl = [p['flds'], p['classes'], p['hooks']]
        same = [plain(x) for x in decl]
        mates = [made[fam, k] for k in near if (fam, k) in made]
        mates = [q for q in mates if [plain(q[x]) for x in ('flds', 'classes', 'hooks')] == same]
        longest = max(len(q['ops']) for q in mates + [p])
        if longest > 20:
            continue        # too many interleavings
        mates = rnd.sample(mates, min(len(mates), 1 if longest > 5 else rnd.choice([1, 1, 2]))) or [p]
        out.append((fam, [p] + [dict(q, flds=p['flds'], classes=p['classes'], hooks=p['hooks']) for q in mates]))
    return out


def plain(x):
    """Without the spelling."""
    if isinstance(x, dict):
        return dict((k, plain(v)) for k, v in x.items() if k != 'style')
    if isinstance(x, list):
        return [plain(v) for v in x]
    return x
