"""
Which programs decide which property, and the verdict on them.
"""
import json
import os
import random
import re
import shutil
import sys
import time
import traceback

import crews
import drive
import families
import profiles

VERIF = drive.VERIF
EVID = os.path.join(VERIF, 'evidence')
REPLAYS = os.path.join(EVID, 'replays')
FINDINGS = os.path.join(VERIF, 'KNOWN_FINDINGS.txt')

# profile -> programs in the quick tier
PLAN = {
    'C01': {'scalars': 900, 'nested': 450},
    'C02': {'scalars': 900, 'nested': 450},
    'C03': {'defaults': 1000},
    'C04': {'staging': 1000},
    'C05': {'errors': 900},
    'C06': {'verdicts': 900},
    'C07': {'junk': 900},
    'C08': {'crash': 700},
    'C09': {'crew': 60},
    'C10': {'reads': 500},
    'C11': {'scopes': 500, 'rewinds': 600},
    'C12': {'walks': 800, 'sources': 250},
    'C13': {'sources': 700},
    'C14': {'unions': 900},
    'C15': {'collections': 900},
    'C16': {'poly': 700},
    'C17': {'remap': 800},
    'C18': {'unmapped': 900},
    'C19': {'history': 900},
    'C20': {'declarations': 700},
    'C21': {'primitives': 500},
    'C22': {'derived': 800},
    'C23': {'config': 900},
}
for _p, _more in {'C01': {'staging': 120, 'verdicts': 120}, 'C03': {'derived': 100}, 'C05': {'nested': 100, 'junk': 100, 'sources': 150, 'unions': 80}, 'C06': {'nested': 100}, 'C08': {'reads': 80},
                  'C13': {'nested': 100}, 'C15': {'nested': 150}, 'C16': {'declarations': 80}, 'C17': {'history': 150},
                  'C18': {'nested': 100}, 'C20': {'poly': 150, 'unmapped': 100}, 'C21': {'scalars': 200},
                  'C22': {'declarations': 100}}.items():
    PLAN[_p].update(_more)

# exhaustive family (spec/Families.tla) -> numbers tried in the quick tier
FAMILIES = {
    'C01': {'values': 600, 'places': 80, 'strings': 250},
    'C02': {'values': 600, 'texts': 200},
    'C03': {'absences': 600},
    'C04': {'stages': 600},
    'C05': {'places': 400, 'junk': 150},
    'C06': {'modes': 150, 'places': 150},
    'C07': {'junk': 600},
    'C08': {'raises': 600},
    'C10': {'orders': 500},
    'C11': {'stacks': 600},
    'C12': {'tours': 400},
    'C13': {'kinds': 150, 'rows': 300},
    'C14': {'pairs': 700},
    'C15': {'sizes': 400, 'tuples': 400, 'keys': 250, 'groups': 250},
    'C16': {'kin': 400},
    'C17': {'again': 400},
    'C18': {'strays': 400},
    'C19': {'moves': 400},
    'C20': {'diamonds': 700},
    'C21': {'texts': 600, 'readings': 240},
    'C22': {'derivations': 250},
    'C23': {'inis': 600},
}
# families whose programs are run in threads
CREWS = ['values', 'absences', 'stages', 'places', 'raises', 'orders', 'stacks', 'pairs', 'diamonds', 'junk', 'tours', 'sizes', 'tuples', 'rows',
         'keys', 'groups', 'kin', 'again', 'strays', 'moves', 'derivations', 'inis', 'modes', 'readings']
# so many programs of a family or a profile have the laws of the specification checked in the quick tier
LAWFUL = 300


WHY_NOT = {}


def claims(prop):
    return bool(PLAN.get(prop))


def technique(prop):
    if prop == 'C09':
        return ('TLA+ specification of threads as composed mapping machines: TLC explores all interleavings and enumerates the '
                'schedules the real threads are made to follow; TLC validates what each thread showed')
    return ('TLA+ specification; TLC enumerates a small-scope family of programs, checks the laws of the specification on it, and '
            'validates what the real code showed on it and on randomly generated programs')


def note(prop):
    return ''


def findings():
    """Lines 'finding: property=<id> key=<key> ...' of the known-findings file."""
    out = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line.strip())
            if m:
                out.append(m.groups())
    return out


def programs(profile, n, seed, first=0):
    fn = profiles.ALL[profile]
    return [fn(random.Random('%s/%d/%d' % (profile, seed, first + i))) for i in range(n)]


def nontrivial(prog):
    return len(prog['ops']) > 1 and len(prog['flds']) > 0


def save(prop, i, rec):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, '%s-%d.json' % (prop, i))
    with open(path, 'w') as fo:
        json.dump(rec, fo, indent=1)
    return os.path.relpath(path, VERIF)


def describe(v, obs):
    n = v[1] if len(v) > 1 and isinstance(v[1], int) else 0
    want = v[2] if len(v) > 2 else None
    got = obs[n - 1] if 0 < n <= len(obs) else None
    return 'clause=%s event=%d expected=%s observed=%s' % (
        v[0], n, json.dumps(want)[:400], json.dumps(got)[:400])


class Tally(object):

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.fails = []
        self.states = self.transitions = self.traces = self.events = 0
        self.distinct = set()
        self.parts = {}
        self.samples = []
        self.cases = []
        self.extra = {}

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def add(self, name, progs, fails, st):
        self.states += st['distinct']
        self.transitions += st['generated']
        self.traces += st['programs']
        self.events += st['events']
        part = self.parts.setdefault(name, {'programs': 0, 'events': 0, 'disagreements': 0, 'states': 0})
        part['programs'] += st['programs']
        part['events'] += st['events']
        part['states'] += st['distinct']
        part['disagreements'] += len(fails)
        for p in progs:
            if nontrivial(p):
                self.distinct.add(hash(json.dumps([p['flds'], p['classes'], p['ops'], p['srcs']], sort_keys=True)))
        if progs and not any(s['part'] == name for s in self.samples):
            p = progs[0]
            self.samples.append({'part': name, 'ops': p['ops'][:4],
                                 'fields': [[f['kind'], f['name']] for f in p['flds'][:6]], 'sources': p['srcs'][:1]})
        for i, v, o in fails:
            self.fails.append((name, progs[i], v, o))

    def finish(self, level='model_checking', extra=None):
        known = dict(((p, k), t) for p, k, t in findings())
        bad = []
        for f in self.fails:
            name, prog, v, o = f
            key = '%s:%s' % (name, v[0])
            if (self.prop, key) in known:
                print('KNOWN-FINDING: property=%s %s' % (self.prop, known[(self.prop, key)]))
            else:
                bad.append(f)
        cases = dict((id(f), c) for f, c in zip((f for f in self.fails if f[0].startswith('crew')), self.cases))
        for i, f in enumerate(bad[:5]):
            name, prog, v, o = f
            rec = {'property': self.prop, 'part': name, 'verdict': v, 'program': prog, 'observed': o}
            if name.startswith('crew'):
                del rec['program']
                rec.update(cases[id(f)])
            path = save(self.prop, i, rec)
            print('%s: %s' % (name, describe(v, o)))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
        cov = {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': self.traces,
               'events_compared': self.events, 'distinct_nontrivial': len(self.distinct), 'parts': self.parts,
               'rule': 'a program counts when it declares a field and runs more than one operation; distinct by its '
                       'declarations, sources and operations',
               'samples': self.samples}
        cov.update(self.extra)
        cov.update(extra or {})
        os.makedirs(EVID, exist_ok=True)
        with open(os.path.join(EVID, self.prop + '.json'), 'w') as fo:
            json.dump({'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
                       'assumptions': ['the specification in spec/ says what the property demands',
                                       'inputs outside the domains named in DESIGN.md are not explored'],
                       'wall_s': round(time.time() - self.t0, 1), 'violations': len(bad)}, fo, indent=1)
        print('%s %s: %d programs, %d events, %d states, %d disagreements, %.1fs' % (
            self.prop, self.tier, self.traces, self.events, self.states, len(bad), time.time() - self.t0))
        return 1 if bad else 0


def threads(t, todo, seed, work, first, deep=False):
    """Groups of programs in threads: some random, some of families."""
    gs, names, ways = [], [], []
    for name, n, way in todo:
        if name == 'crew':
            got = crews.groups(n, seed, first)
        else:
            made = families.crews(CREWS, n, seed, work, first)
            got = [g for _, g in made]
            rec = t.extra.setdefault('crews_of_families', {})
            for fam, _ in made:
                rec[fam] = rec.get(fam, 0) + 1
        gs += got
        names += [name] * len(got)
        ways += [(g,) + way for g in got]
    gs = crews.mixed(gs, '%d/%d' % (seed, first))
    ways = [(g,) + way[1:] for g, way in zip(gs, ways)]
    fails, c = crews.check(ways, seed, work, first, deep=deep)
    every = dict((k, c[k]) for k in ('generated', 'distinct', 'events'))
    for name in sorted(set(names)):
        mine = [i for i, x in enumerate(names) if x == name]
        progs, at = [], {}
        for i in mine:
            at[i] = len(progs)
            progs += gs[i]
        share = dict((k, v * len(mine) // len(names)) for k, v in every.items())
        t.add(name, progs, [(at[f[0]], f[1], f[2]) for f in fails if f[0] in at], dict(share, programs=len(progs)))
        t.cases += [f[3] for f in fails if f[0] in at]
    for k in ('schedules_enumerated', 'schedules_run'):
        t.extra[k] = t.extra.get(k, 0) + c[k]


def laws(t, parts, work):
    """The laws of spec/Laws.tla on these programs: about the specification, not the code."""
    every = [p for _, ps in parts for p in ps]
    if not every:
        return
    bad, c = drive.laws(every, work)
    if bad:
        raise drive.ToolError('a law of the specification fails: %s' % json.dumps(bad[0])[:800])
    t.states += c['distinct']
    t.transitions += c['generated']
    for name, ps in parts:
        done = t.extra.setdefault('laws_checked_on', {})
        done[name] = done.get(name, 0) + len(ps)


def spanned(t, wants, work):
    """Programs of families, recorded as tried."""
    made = families.make(wants, work)
    for (fam, _, _, count, total), ps in zip(wants, made):
        rec = t.extra.setdefault('families', {}).setdefault(fam, {'programs_run': 0})
        rec['numbers_in_family'] = total
        rec['programs_run'] += len(ps)
        rec['numbers_tried'] = rec.get('numbers_tried', 0) + count
    return [(w[0], ps) for w, ps in zip(wants, made)]


def together(t, parts, work):
    """Check all parts in one go."""
    every = [p for _, ps in parts for p in ps]
    fails, c = drive.check(every, work)
    at = 0
    for name, ps in parts:
        mine = [(i - at, v, o) for i, v, o in fails if at <= i < at + len(ps)]
        share = dict((k, n * len(ps) // max(1, len(every))) for k, n in c.items())
        share['programs'] = len(ps)
        t.add(name, ps, mine, share)
        at += len(ps)


def decide(prop, tier, seed, scale=1.0):
    work = drive.scratch()
    t = Tally(prop, tier, seed)
    try:
        fams = FAMILIES.get(prop, {})
        sizes = families.sizes(work) if fams else {}
        done = dict((fam, min(sizes[fam], max(1, int(n * scale)))) for fam, n in fams.items())
        parts = spanned(t, [families.wanted(fam, sizes[fam], seed, 0, done[fam]) for fam in fams], work)
        for name, n in PLAN[prop].items():
            n = max(1, int(n * scale))
            if name == 'crew':
                threads(t, [('crew', n, (30, 6, 50)), ('crew of a family', n * 2 // 3, (12, 2, 40))], seed, work, 0)
                continue
            parts.append((name, programs(name, n, seed)))
        together(t, parts, work)
        laws(t, [(name, ps[:LAWFUL]) for name, ps in parts], work)
        if tier == 'thorough':
            # the whole families, as far as half the time goes; then more random programs
            while t.left(420) > 0 and len(t.fails) < 20 and any(done[f] < sizes[f] for f in fams):
                parts = spanned(t, [families.wanted(f, sizes[f], seed, done[f], 1600) for f in fams if done[f] < sizes[f]], work)
                for f in fams:
                    done[f] = min(sizes[f], done[f] + 1600)
                together(t, parts, work)
                laws(t, [(fam, ps[::3]) for fam, ps in parts], work)
            first, step = 10 ** 6, 1200
            while t.left(600) > 0 and len(t.fails) < 20 and PLAN[prop]:
                for name in PLAN[prop]:
                    if name == 'crew':
                        threads(t, [('crew', 80, (300, 60, 100)), ('crew of a family', 100, (100, 20, 50))], seed, work, first, True)
                        continue
                    ps = programs(name, step, seed, first)
                    t.add(name, ps, *drive.check(ps, work))
                    laws(t, [(name, ps[::6])], work)
                first += step
        return t.finish()
    except drive.ToolError as ex:
        print('the check itself failed: %s' % ex)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(path):
    with open(path) as fo:
        rec = json.load(fo)
    work = drive.scratch()
    try:
        if rec['part'].startswith('crew'):
            v, o = crews.replay(rec, work)
            fails = [(0, v, o)] if v is not None else []
        else:
            fails, _ = drive.check([rec['program']], work)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if fails:
        _, v, o = fails[0]
        print(describe(v, o))
        print('VIOLATION property=%s replay=%s' % (rec['property'], path))
        return 1
    print('agrees with the specification now')
    return 0
