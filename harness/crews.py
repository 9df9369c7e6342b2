"""
C09: threads over shared declarations, made to follow schedules.

TLC explores every interleaving of the threads' gates in the specification
(spec/Threads.tla) and prints the schedules with few switches; the real threads
follow them (and random ones that switch at any line of pilo), and TLC checks
what each of them showed against the machine running alone (spec/Trace.tla).
"""
import concurrent.futures
import json
import os
import random

import drive
import profiles


def groups(n, seed, first=0):
    out = []
    for i in range(n):
        out.append(profiles.crew(random.Random('crew/%d/%d' % (seed, first + i))))
    return out


def mixed(gs, seed, share=0.3):
    """Some of the groups with a program of another group, with its own declarations, in place of the rest."""
    r = random.Random('mixed/%s' % seed)
    out = []
    for g in gs:
        h = r.choice(gs)
        if r.random() < share and len(h[0]['ops']) <= 12:
            g = [g[0], h[0]]
        out.append(g)
    return out


def schedules(gs, work, name, switches=2, deep=False):
    """What TLC says about the threads of each group, and the schedules."""
    flat, idx = [], []
    for g in gs:
        idx.append([len(flat) + i + 1 for i in range(len(g))])
        flat += [drive.slim(p) for p in g]
    a, b = os.path.join(work, name + '.p.json'), os.path.join(work, name + '.g.json')
    with open(a, 'w') as fo:
        json.dump(flat, fo)
    with open(b, 'w') as fo:
        json.dump(idx, fo)
    text = drive.tlc('Threads.tla', 'Threads.cfg', work,
                     env={'PILO_PROGS': a, 'PILO_GROUPS': b, 'PILO_SWITCHES': str(switches), 'PILO_DEEP': str(int(deep))})
    if 'No error has been found' not in text:
        raise drive.ToolError('the specification of threads: ' + text[-2500:])
    out = [[] for _ in gs]
    for line in text.splitlines():
        line = line.strip()
        if line.startswith('"@S '):
            g, seq = json.loads(json.loads(line)[3:])
            out[g - 1].append(seq)
    return [sorted(o) for o in out], drive.stats(text)


def lines(r, g, n):
    """Schedules that switch anywhere."""
    out = []
    for _ in range(n):
        seq = []
        for _ in range(r.randint(1, 5)):
            t = r.randint(1, len(g))
            # short, in the middle, or after much of what a mapping takes
            seq.append([t, r.choice([r.randint(1, 40), r.randint(20, 300), r.randint(200, 1500)])])
        out.append({'grain': 'line', 'seq': seq})
    return out


def batch(args):
    todo, name, work, seed, switches, share, deep = args
    gs = [d[0] for d in todo]
    r = random.Random('sched/%d/%s' % (seed, name))
    seqs, st = schedules(gs, work, name, switches, deep)
    cases, total = [], 0
    for (g, cap, nlines, cover), ss in zip(todo, seqs):
        total += len(ss)
        if len(ss) > cap:
            ss = r.sample(ss, cap)
        cases.append({'progs': g, 'scheds': [{'grain': 'hook', 'seq': s} for s in ss] + lines(r, g, nlines),
                      'cover': cover, 'seed': r.getrandbits(30), 'share': share})
    obs, text = drive.run_real(cases, work, name, script='threads.py')
    if obs is None:
        return [(0, ['interpreter-died', 0, text[-300:]], [], cases[0])], st, 0, total, 0, 0
    for case, rec in zip(cases, obs):
        case['scheds'] = rec['scheds']
    obs = [rec['obs'] for rec in obs]
    # the same recording is judged once
    seen, progs, where, runs = {}, [], [], 0
    for i, case in enumerate(cases):
        for j, per in enumerate(obs[i]):
            runs += 1
            for t, o in enumerate(per):
                key = (i, t, json.dumps(o, sort_keys=True))
                if key not in seen:
                    seen[key] = True
                    progs.append(dict(drive.slim(case['progs'][t]), obs=o))
                    where.append((i, j, t))
    fails, events = [], sum(len(p['obs']) for p in progs)
    parts = [list(range(len(progs)))]
    outside, gen, dist = 0, st[0], st[1]
    while parts:
        part = parts.pop()
        if not part:
            continue
        verdict, s2, text = drive.judge([progs[k] for k in part], work, name + 'j')
        gen, dist = gen + s2[0], dist + s2[1]
        if any(k + 1 not in verdict for k in range(len(part))):
            if len(part) == 1:
                i, j, t = where[part[0]]
                fails.append((i, ['not-comparable', 0, text[-300:]], progs[part[0]]['obs'],
                              {'progs': cases[i]['progs'], 'scheds': [cases[i]['scheds'][j]], 'thread': t}))
            else:
                parts += [part[:len(part) // 2], part[len(part) // 2:]]
            continue
        for k, n in enumerate(part):
            v = verdict[k + 1]
            if v is drive.OUTSIDE:
                outside += 1
            elif v is not None:
                i, j, t = where[n]
                fails.append((i, v, progs[n]['obs'],
                              {'progs': cases[i]['progs'], 'scheds': [cases[i]['scheds'][j]], 'thread': t}))
    return fails, (gen, dist), events, total, runs, outside


def check(todo, seed, work, first=0, switches=3, deep=False):
    """Each of `todo` is (group, most schedules of TLC's, random line schedules, covering ones)."""
    n = len(todo)
    jobs = []
    for i in range(drive.JOBS):
        mine = list(range(i, n, drive.JOBS))        # dealt out, so that the parts take about as long
        if mine:
            jobs.append((mine, ([todo[k] for k in mine], 'c%d_%d' % (first, i), work, seed, switches, [i, drive.JOBS], deep)))
    fails, c = [], {'generated': 0, 'distinct': 0, 'events': 0, 'programs': sum(len(d[0]) for d in todo), 'outside': 0,
                    'schedules_enumerated': 0, 'schedules_run': 0}
    with concurrent.futures.ThreadPoolExecutor(drive.JOBS) as ex:
        for (mine, _), (f, st, ev, total, runs, out) in zip(jobs, ex.map(batch, [j for _, j in jobs])):
            fails += [(mine[i], v, o, case) for i, v, o, case in f]
            c['generated'] += st[0]
            c['distinct'] += st[1]
            c['events'] += ev
            c['schedules_enumerated'] += total
            c['schedules_run'] += runs
            c['outside'] += out
    return sorted(fails, key=lambda x: x[0]), c


def replay(rec, work):
    """The recorded case, once more."""
    case = dict((k, rec[k]) for k in ('progs', 'scheds'))
    obs, text = drive.run_real([case], work, 'replay', script='threads.py')
    if obs is None:
        return ['interpreter-died', 0, text], []
    for per in obs[0]['obs']:
        full = [dict(drive.slim(p), obs=o) for p, o in zip(case['progs'], per)]
        verdict, _, text = drive.judge(full, work, 'replayj')
        for t in range(len(full)):
            v = verdict.get(t + 1, ['not-comparable', 0])
            if v is not None and v is not drive.OUTSIDE:
                return v, per[t]
    return None, []
