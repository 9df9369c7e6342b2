"""
Runs programs on the real pilo and checks what they showed against the
specification with TLC.
"""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
REPO = os.environ.get('PILO_REPO', '/repo')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
JOBS = int(os.environ.get('VERIF_JOBS', '0')) or max(1, min(8, (os.cpu_count() or 2)))


class ToolError(Exception):
    """A tool of the check failed: no verdict."""


def python():
    """The interpreter pilo runs on."""
    for p in ('/opt/venv/bin/python',):
        if os.path.exists(p):
            return p
    return 'python3'


def scratch(prefix='pilo-'):
    return tempfile.mkdtemp(prefix=prefix)


def run_real(progs, work, name, script='runner.py', timeout=600, extra=()):
    inp, out = os.path.join(work, name + '.in.json'), os.path.join(work, name + '.out.json')
    with open(inp, 'w') as fo:
        json.dump(progs, fo)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PILO_REPO=REPO, PYTHONHASHSEED='0', TMPDIR=work)
    try:
        p = subprocess.run([python(), '-B', os.path.join(HARNESS, script), inp, out] + list(extra), env=env, cwd=work,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('the runner did not finish in %ss' % timeout)
    if not os.path.exists(out):
        return None, p.stdout.decode('utf-8', 'replace')[-3000:]
    with open(out) as fo:
        return json.load(fo), p.stdout.decode('utf-8', 'replace')[-3000:]


def tlc(module, cfg, work, env=None, args=(), timeout=800, heap='3g', workers='1'):
    """One TLC run; returns its output."""
    meta = tempfile.mkdtemp(prefix='tlc-', dir=work)
    cmd = ['java', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=1', '-Xmx' + heap, '-Xss32m', '-Djava.io.tmpdir=' + work, '-cp', JARS, 'tlc2.TLC',
           '-workers', workers, '-metadir', meta, '-nowarning', '-noGenerateSpecTE', '-config', os.path.join(SPEC, cfg)]
    cmd += list(args) + [os.path.join(SPEC, module)]
    try:
        p = subprocess.run(cmd, env=dict(os.environ, **(env or {})), cwd=SPEC,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC did not finish in %ss (%s)' % (timeout, module))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.stdout.decode('utf-8', 'replace')


def stats(text):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', text)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def judge(progs, work, name, timeout=800, module='Trace.tla', cfg='Trace.cfg'):
    """TLC's verdict on each program that carries its observations."""
    path = os.path.join(work, name + '.tlc.json')
    with open(path, 'w') as fo:
        json.dump(progs, fo)
    text = tlc(module, cfg, work, env={'PILO_PROGS': path}, timeout=timeout)
    verdict = {}
    for line in text.splitlines():
        line = line.strip()
        if line.startswith('"@'):
            line = json.loads('"' + line[1:-1] + '"') if '\\' in line else line[1:-1]
        if line.startswith('@OK '):
            verdict.setdefault(int(line[4:]), None)
        elif line.startswith('@OUT '):
            verdict.setdefault(int(line[5:]), OUTSIDE)
        elif line.startswith('@V '):
            _, n, rest = line.split(' ', 2)
            try:
                verdict[int(n)] = json.loads(rest)
            except ValueError:
                verdict[int(n)] = [rest]
    return verdict, stats(text), text


# the specification says nothing about this program (it leaves the modelled domain)
OUTSIDE = ('outside',)
# the runner records at most this many events; what came before was compared
MAX_EVENTS = 600


def slim(p):
    """Without what only the runner needs (TLC parses less)."""
    if isinstance(p, dict):
        return dict((k, slim(v)) for k, v in p.items() if k not in ('style', 'how', 'clone', 'tstyle', 'plain', 'bare',
                                                                    'kw', 'real_loc', 'sep', 'note', 'same'))
    if isinstance(p, list):
        return [slim(v) for v in p]
    return p


def bisect(progs, name, work, timeout):
    res, st, n, out = [], [0, 0], 0, 0
    half = len(progs) // 2
    for off, part in ((0, progs[:half]), (half, progs[half:])):
        r, s, k, x = batch((part, name + '_%d' % off, work, timeout))
        res += [(i + off, v, o) for i, v, o in r]
        st[0] += s[0]
        st[1] += s[1]
        n += k
        out += x
    return res, tuple(st), n, out


def batch(args):
    progs, name, work, timeout = args
    obs, text = run_real(progs, work, name, timeout=timeout)
    if obs is None:
        # the interpreter died: find out on which program
        if len(progs) == 1:
            return [(0, ['interpreter-died', 0, text[-300:]], [])], (0, 0), 0, 0
        return bisect(progs, name, work, timeout)
    full = [dict(slim(p), obs=o) for p, o in zip(progs, obs)]
    verdict, st, text = judge(full, work, name, timeout=timeout)
    if any(i + 1 not in verdict for i in range(len(progs))):
        # TLC stopped: on which recording, and is it the recording's fault?
        if len(progs) > 1:
            return bisect(progs, name, work, timeout)
        alone, st, _ = judge([dict(full[0], obs=[], unbound=True)], work, name + 'u', timeout=timeout)
        if 1 not in alone:
            raise ToolError('TLC gave no verdict on a program of %s:\n%s' % (name, text[-3000:]))
        return [(0, ['not-comparable', 0, text[-600:]], obs[0])], st, len(obs[0]), 0
    out, outside = [], 0
    for i in range(len(progs)):
        v = verdict[i + 1]
        if v is OUTSIDE or (v is not None and len(obs[i]) > MAX_EVENTS and v[1] > MAX_EVENTS):
            outside += 1
        elif v is not None:
            out.append((i, v, obs[i]))
    return out, st, sum(len(o) for o in obs), outside


def laws(progs, work):
    """The laws of the specification on programs; returns (failures, counts)."""
    size = max(15, min(100, -(-len(progs) // JOBS)))

    def go(a):
        part = [slim(p) for p in progs[a:a + size]]
        v, st, text = judge(part, work, 'laws%d' % a, module='LawsRun.tla', cfg='LawsRun.cfg')
        if any(i + 1 not in v for i in range(len(part))):
            raise ToolError('TLC did not get through the laws:\n%s' % text[-2500:])
        return [v[i + 1] for i in range(len(part)) if v[i + 1] is not None], st
    bad, c = [], {'generated': 0, 'distinct': 0}
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for b, st in ex.map(go, range(0, len(progs), size)):
            bad += b
            c['generated'] += st[0]
            c['distinct'] += st[1]
    return bad, c


def check(progs, work, size=None, timeout=700):
    """Run and judge all programs; returns (failures, counts)."""
    if size is None:
        rounds = max(1, -(-len(progs) // (JOBS * 230)))
        size = max(20, -(-len(progs) // (JOBS * rounds)))
    jobs = [(progs[i:i + size], 'b%d' % (i // size), work, timeout) for i in range(0, len(progs), size)]
    fails, c = [], {'generated': 0, 'distinct': 0, 'events': 0, 'programs': len(progs), 'outside': 0}
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        for j, (res, st, n, out) in enumerate(ex.map(batch, jobs)):
            for i, v, o in res:
                fails.append((j * size + i, v, o))
            c['generated'] += st[0]
            c['distinct'] += st[1]
            c['events'] += n
            c['outside'] += out
    return fails, c
