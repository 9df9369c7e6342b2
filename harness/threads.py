"""
Runs groups of programs in threads that are made to follow a schedule: exactly
one of them runs at a time, and it gives way at the gates the schedule says.

    threads.py CASES.json OUT.json      [{"progs": [...], "scheds": [{"grain": "hook"|"line", "seq": [[thread, n]..]}],
                                         "cover": how many more, "seed": ..}]

A gate is the start of an operation or of a user hook ("hook"), or any line of
pilo itself ("line").  The schedules that are added switch right before a line
of pilo that has been switched at least often so far.
"""
from __future__ import absolute_import, print_function

import collections
import json
import os
import random
import sys
import threading
import warnings

import runner
from runner import Run, Decl, SCRATCH, ctx, pilo

HERE = os.path.dirname(os.path.abspath(pilo.__file__))
PATIENCE = 1.0      # a thread waiting for something another one holds lets the others go on


class Baton(object):

    def __init__(self, n, seq):
        self.seq = [(t - 1, k) for t, k in seq]
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.over = threading.Event()
        self.lock = threading.Lock()
        self.current = None
        self.budget = 0
        self.moves = 0

    def next(self):
        while self.seq:
            t, k = self.seq.pop(0)
            if not self.done[t]:
                return t, k
        for t, d in enumerate(self.done):
            if not d:
                return t, FOREVER
        return None, 0

    def hand(self):
        self.current, self.budget = self.next()
        self.moves += 1
        if self.current is None:
            self.over.set()
        else:
            self.sem[self.current].release()

    def gate(self, i):
        if self.current != i:
            self.sem[i].acquire()
            return
        self.moves += 1
        self.budget -= 1
        if self.budget > FOREVER // 2:
            sys.settrace(None)      # nobody else's turn before it ends
        if self.budget <= 0:
            self.hand()
            self.sem[i].acquire()

    def finish(self, i):
        self.done[i] = True
        if self.current == i:
            self.hand()
        elif all(self.done):
            self.over.set()

    def wait(self, limit):
        """Until all are done; False when they never get there."""
        seen, waited = None, 0.0
        while not self.over.wait(PATIENCE):
            waited += PATIENCE
            if waited > limit:
                return False
            if self.moves == seen:
                # the one that runs is stuck on something a suspended one holds
                others = [t for t, d in enumerate(self.done) if not d and t != self.current]
                if others:
                    stuck = self.current
                    self.current = others[0]
                    self.budget = FOREVER
                    self.seq.append((stuck, FOREVER))
                    self.sem[others[0]].release()
            seen = self.moves
        return True


FOREVER = 1 << 60


def tracer_to(see):
    """A trace function that calls see(frame) at every line of pilo."""
    def local(frame, event, arg):
        if event == 'line':
            see(frame)
        return local if sys.gettrace() is not None else None

    def tracer(frame, event, arg):
        if frame.f_code.co_filename.startswith(HERE):
            see(frame)
            return local if sys.gettrace() is not None else None
        return None
    return tracer


def declare(progs):
    """The declarations of each program, the very same where they are equal."""
    out = []
    for i, p in enumerate(progs):
        same = [out[j] for j in range(i) if all(progs[j][k] == p[k] for k in ('flds', 'classes', 'hooks'))]
        out.append(same[0] if same else Decl(p))
    return out


def lines_of(prog, decl):
    """The lines of pilo that a program comes by when it runs alone."""
    out = []
    run = Run(prog, decl=decl)

    def body():
        sys.settrace(tracer_to(lambda frame: out.append((frame.f_code.co_filename, frame.f_lineno))))
        try:
            run.go()
        finally:
            sys.settrace(None)
    th = threading.Thread(target=body)
    th.daemon = True
    th.start()
    th.join(runner.LIMIT)
    return out


def covering(progs, n, seed, share, seen):
    """Schedules that switch before lines switched at least often (`seen` counts)."""
    rnd = random.Random(seed)
    at = []
    for p, decl in zip(progs, declare(progs)):
        where = collections.defaultdict(list)
        for i, l in enumerate(lines_of(p, decl)):
            where[l].append(i)
        at.append(where)
    out = []
    for _ in range(n):
        t = rnd.randrange(len(progs))
        if not at[t]:
            continue
        # of those this process is to see to first
        l = min(sorted(at[t]), key=lambda x: (seen[x], x[1] % share[1] != share[0], rnd.random()))
        # better when another one comes by there meanwhile
        seen[l] += 2 if any(l in at[o] for o in range(len(progs)) if o != t) else 1
        # gates are counted from 1: the line is the next to run
        seq = [[t + 1, rnd.choice(at[t][l]) + 1]]
        others = [o for o in range(len(progs)) if o != t]
        rnd.shuffle(others)
        for o in others:
            if l in at[o] and rnd.random() < 0.35:
                seq.append([o + 1, rnd.choice(at[o][l]) + rnd.randint(1, 4)])
            else:
                seq.append([o + 1, FOREVER])
        seq.append([t + 1, FOREVER])
        out.append({'grain': 'line', 'seq': seq})
    return out


def case(progs, sched):
    decls = declare(progs)
    n = len(progs)
    baton = Baton(n, sched['seq'])
    line = sched['grain'] == 'line'
    runs = []

    def gate_for(i):
        if line:
            return None
        return lambda run: baton.gate(i) if run.started else setattr(run, 'started', True)

    def body(i):
        baton.sem[i].acquire()
        if line:
            sys.settrace(tracer_to(lambda frame: baton.gate(i)))
        try:
            runs[i].go()
        finally:
            sys.settrace(None)
            baton.finish(i)
    for i, p in enumerate(progs):
        run = Run(p, decl=decls[i], gate=gate_for(i))
        run.started = False
        runs.append(run)
    before = (list(warnings.filters), sys.getrecursionlimit())
    ths = [threading.Thread(target=body, args=(i,)) for i in range(n)]
    with ctx(u=77, w=78, tags=['g1'], src=pilo.source.DefaultSource({'a': 'main', 'b': 'main'})):
        for th in ths:
            th.daemon = True
            th.start()
        baton.hand()
        ok = baton.wait(runner.LIMIT * n)
        if ok:
            for th in ths:
                th.join(5)
        main = [ctx.values_for('u'), ctx.values_for('form')]
    if not ok:
        return [[{'e': 'no-termination'}] for _ in progs], False
    world = before == (list(warnings.filters), sys.getrecursionlimit()) and main == [[77], []]
    out = []
    for run in runs:
        log = run.result()
        if log and log[-1].get('e') == 'end':
            log[-1]['world'] = world
        out.append(log)
    return out, True


def main(inp, out):
    threading.stack_size(64 << 20)
    with open(inp) as fo:
        cases = json.load(fo)
    res, hung = [], 0
    seen = collections.Counter()
    for c in cases:
        got = []
        scheds = c['scheds'] + covering(c['progs'], c.get('cover', 0), c.get('seed'), c.get('share'), seen)
        for s in scheds:
            if hung >= 2:
                break
            o, ok = case(c['progs'], s)
            hung += not ok
            got.append(o)
        res.append({'scheds': scheds[:len(got)], 'obs': got})
    with open(out, 'w') as fo:
        json.dump(res, fo)
    SCRATCH.clean()
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2])
