"""
Runs programs (see spec/Pilo.tla) on the real pilo, through its public API
alone, and records what it shows: the events Trace.tla checks.

    runner.py PROGRAMS.json OUT.json        (under the interpreter pilo runs on)
"""
from __future__ import absolute_import, print_function

import contextlib
import datetime
import decimal
import json
import os
import re
import sys
import threading
import time
import uuid

sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get('PILO_REPO', '/repo'))

import pilo                                                    # noqa: E402
from pilo import fields as F                                   # noqa: E402
from pilo import source as S                                   # noqa: E402

try:
    import iso8601
    UTC = iso8601.UTC
except Exception:                                              # pragma: no cover
    UTC = None

ctx = pilo.ctx
MARKS = {'NONE': pilo.NONE, 'ERROR': pilo.ERROR, 'NOTSET': pilo.NOT_SET}
BIG = 10 ** 400
LIMIT = float(os.environ.get('PILO_PROGRAM_TIMEOUT', '20'))


class HookError(Exception):
    """Thrown by user hooks."""


class HookValueError(ValueError):
    """Thrown by user hooks."""


class Obj(object):
    """An object with attributes and methods, as found in native documents."""

    def __init__(self, attrs, methods):
        for k, v in attrs:
            setattr(self, k, v)
        for k, v in methods:
            setattr(self, k, (lambda v: lambda: v)(v))
        self.__dict__['_spec'] = (attrs, methods)


class Known(object):
    """What code references of documents may name."""

    @staticmethod
    def install():
        import types
        mod, pkg, inner = [types.ModuleType(n) for n in ('vmod', 'vpkg', 'vpkg.inner')]
        exec('def f():\n    pass\nclass K(object):\n    def g(self):\n        pass\n', mod.__dict__)
        exec('def f():\n    pass\n', inner.__dict__)
        pkg.inner = inner
        pkg.__path__ = []
        for m in (mod, pkg, inner):
            sys.modules[m.__name__] = m
        return {'vmod:f': mod.f, 'vmod:K': mod.K, 'vmod:K.g': mod.K.g, 'vpkg.inner:f': inner.f}


CODE = Known.install()


# ------------------------------------------------------------------ values --

def dec_key(k):
    return k['k'] if 'k' in k else k['n']


def dec(v):
    t = v['t']
    if t == 'null':
        return None
    if t == 'bool':
        return v['b']
    if t == 'int':
        return v['i']
    if t == 'flt':
        return v['m'] / 1000.0
    if t == 'dec':
        return decimal.Decimal(v['m']) / 1000
    if t == 'nan':
        return float('nan') if v['k'] == 'flt' else decimal.Decimal('NaN')
    if t == 'inf':
        return float('inf') * v['s'] if v['k'] == 'flt' else decimal.Decimal('Infinity') * v['s']
    if t == 'big':
        return BIG * v['s'] if v['k'] == 'int' else decimal.Decimal(BIG * v['s'])
    if t == 'wide':
        return {'int': int, 'flt': float, 'dec': decimal.Decimal}[v['k']](v['s'])
    if t == 'str':
        return v['s']
    if t == 'list':
        return [dec(x) for x in v['l']]
    if t == 'tup':
        return tuple(dec(x) for x in v['l'])
    if t == 'dict':
        return dict((dec_key(k), dec(x)) for k, x in v['d'])
    if t == 'uuid':
        return uuid.UUID(v['s'])
    if t == 'date':
        return datetime.date(v['y'], v['mo'], v['d'])
    if t == 'dt':
        tz = None
        if v['z'] != -9999:
            tz = datetime.timezone(datetime.timedelta(minutes=v['z']))
        return datetime.datetime(v['y'], v['mo'], v['d'], v['h'], v['mi'], v['s'], tzinfo=tz)
    if t == 'time':
        return datetime.time(v['h'], v['mi'], v['s'])
    if t == 'st':
        return datetime.datetime(v['y'], v['mo'], v['d'], v['h'], v['mi'], v['s']).timetuple()
    if t == 'obj':
        return Obj([(dec_key(k), dec(x)) for k, x in v['a']], [(dec_key(k), dec(x)) for k, x in v['ms']])
    if t == 'code':
        return CODE[v['s']]
    return MARKS[t]


def other(v):
    return {'t': 'other', 'r': type(v).__name__}


def enc_key(k):
    if isinstance(k, str):
        return {'k': k}
    if type(k) is int and abs(k) < 2 ** 31:
        return {'n': k}
    try:
        return {'k': '?' + repr(k)}
    except Exception:
        return {'k': '?'}


def enc(v, depth=0):
    if depth > 40:
        return {'t': 'other', 'r': 'deep'}
    for name, mark in MARKS.items():
        if v is mark:
            return {'t': name}
    if v is None:
        return {'t': 'null'}
    t = type(v)
    if t is bool:
        return {'t': 'bool', 'b': v}
    if t is int:
        if abs(v) == BIG:
            return {'t': 'big', 'k': 'int', 's': 1 if v > 0 else -1}
        return {'t': 'int', 'i': v} if abs(v) < 10 ** 6 else {'t': 'wide', 'k': 'int', 's': str(v)}
    if t is float:
        if v != v:
            return {'t': 'nan', 'k': 'flt'}
        if v in (float('inf'), float('-inf')):
            return {'t': 'inf', 'k': 'flt', 's': 1 if v > 0 else -1}
        if abs(v) >= 10 ** 6:
            return {'t': 'wide', 'k': 'flt', 's': str(int(v))} if v == int(v) and abs(v) < 10 ** 16 else other(v)
        m = int(round(v * 1000))
        return {'t': 'flt', 'm': m} if m / 1000.0 == v else other(v)
    if t is decimal.Decimal:
        if v.is_nan():
            return {'t': 'nan', 'k': 'dec'}
        if v.is_infinite():
            return {'t': 'inf', 'k': 'dec', 's': 1 if v > 0 else -1}
        if abs(v) == BIG:
            return {'t': 'big', 'k': 'dec', 's': 1 if v > 0 else -1}
        if abs(v) >= 10 ** 6:
            return {'t': 'wide', 'k': 'dec', 's': str(int(v))} if v == int(v) and abs(v) < 10 ** 16 else other(v)
        m = int((v * 1000).to_integral_value())
        return {'t': 'dec', 'm': m} if decimal.Decimal(m) / 1000 == v else other(v)
    if isinstance(v, str):
        return {'t': 'str', 's': str(v)} if t is str else other(v)
    if isinstance(v, F.Form):
        return {'t': 'form', 'c': t.__name__, 'd': [[enc_key(k), enc(x, depth + 1)] for k, x in dict.items(v)]}
    if t is list:
        return {'t': 'list', 'l': [enc(x, depth + 1) for x in v]}
    if t is tuple:
        return {'t': 'tup', 'l': [enc(x, depth + 1) for x in v]}
    if t is dict:
        return {'t': 'dict', 'd': [[enc_key(k), enc(x, depth + 1)] for k, x in v.items()]}
    if t is uuid.UUID:
        return {'t': 'uuid', 's': str(v)}
    if isinstance(v, datetime.datetime):
        if v.microsecond:
            return other(v)
        off = v.utcoffset()
        z = -9999 if off is None else int(off.total_seconds() // 60)
        return {'t': 'dt', 'y': v.year, 'mo': v.month, 'd': v.day, 'h': v.hour, 'mi': v.minute, 's': v.second, 'z': z}
    if isinstance(v, datetime.date):
        return {'t': 'date', 'y': v.year, 'mo': v.month, 'd': v.day}
    if isinstance(v, datetime.time):
        return {'t': 'time', 'h': v.hour, 'mi': v.minute, 's': v.second}
    if isinstance(v, time.struct_time):
        return {'t': 'st', 'y': v.tm_year, 'mo': v.tm_mon, 'd': v.tm_mday,
                'h': v.tm_hour, 'mi': v.tm_min, 's': v.tm_sec}
    if isinstance(v, Obj):
        a, ms = v.__dict__['_spec']
        return {'t': 'obj', 'a': [[enc_key(k), enc(x, depth + 1)] for k, x in a],
                'ms': [[enc_key(k), enc(x, depth + 1)] for k, x in ms]}
    for name, obj in CODE.items():
        if v is obj:
            return {'t': 'code', 's': name}
    if t is type(sys):
        return {'t': 'code', 's': 'inline %r' % (v.__dict__.get('x'),)}
    if hasattr(v, 'group') and hasattr(v, 're'):
        return {'t': 'match', 'a': v.group(0), 'g': v.group(1)}
    return other(v)


def add(v):
    if type(v) is int and abs(v) < 10 ** 6:
        return v + 1
    if type(v) is float and v == v and abs(v) < 1e6:
        return v + 1.0
    if type(v) is str:
        return v + '+'
    return v


def is_num(v):
    return isinstance(v, (bool, int, float, decimal.Decimal))


def less(a, b):
    if a != a or b != b:
        return False
    return a < b


# ----------------------------------------------------------------- results --

class Absent(F.Missing):
    pass


class Broken(F.Invalid):
    pass


NAMED = {'Absent': Absent, 'Broken': Broken}    # what the context can name instead


def enc_err(e):
    """One reported error: what it is and the place it names."""
    k = type(e).__name__
    try:
        p = str(e.path)
    except Exception as ex:
        return {'k': k, 'p': '!' + type(ex).__name__}
    if isinstance(e, F.FieldError) and not str(e).startswith(p + ' - '):
        k += '!message'
    return {'k': k, 'p': p, 'f': blamed(e)}


def blamed(e):
    """The field an error is about: its name and kind."""
    f = getattr(e, 'field', None)
    for c in type(f).__mro__:
        if c.__module__ == F.__name__:
            return '%s|%s' % (f.name or '', {'PolymorphicSubForm': 'Poly'}.get(c.__name__, c.__name__))
    return '!' + type(f).__name__


def enc_errs(l):
    return [enc_err(e) for e in l]


def enc_exc(e, full=False):
    l = []
    if isinstance(e, F.FormError):
        x, l = 'FormError', list(e.field_errors)
    elif isinstance(e, F.FieldError):
        x = type(e).__name__
    elif isinstance(e, pilo.SourceError):
        x = 'SourceError'
    elif type(e) in (HookError, HookValueError):
        x = type(e).__name__
    elif isinstance(e, AttributeError):
        x = 'AttributeError'
    elif isinstance(e, KeyError):
        x = 'KeyError'
    elif isinstance(e, UnicodeError):
        x = type(e).__name__
    elif isinstance(e, ValueError):
        x = 'ValueError'
    else:
        x = type(e).__name__
    return {'k': 'exc', 'x': x, 'l': Lazy(enc_errs, l), 'all': full}


def stopper(c):
    if c['k'] == 'var':
        return lambda fr: c['v'] in fr
    if c['k'] == 'is':
        return lambda fr: c['v'] in fr and enc(fr[c['v']]) == c['x']
    if c['k'] == 'src':
        return lambda fr: 'src_path' in fr
    return lambda fr: c['k'] == 'any'


def answer(q):
    """What the context says about itself and its location."""
    k = q['q']
    path = ctx.src_path
    try:
        if k == 'var':
            return enc(getattr(ctx, q['v']))
        if k == 'vars':
            return {'t': 'list', 'l': [enc(v) for v in ctx.values_for(q['v'])]}
        if k == 'path':
            return enc('None' if path is None else str(path))
        if path is None:
            return enc(pilo.NONE)
        if k == 'depth':
            return enc(len(path))
        if k == 'exists':
            return enc(bool(path.exists))
        if k == 'null':
            return enc(bool(path.is_null))
        if not path.exists:
            return enc(pilo.NONE)
        if k == 'prim':
            return enc(path.primitive(TYPES[q['ty']]))
        if k == 'len':
            return enc(path.sequence())
        keys = list(path.mapping())
        return {'t': 'list', 'l': [enc(len(keys)), enc(dict((x, None) for x in keys))]}
    except Exception as ex:
        if isinstance(ex, (pilo.SourceError, AttributeError)) and (k in ('var', 'prim', 'len', 'keys')):
            return {'t': 'ERR'}
        return {'t': 'ERR', 'x': type(ex).__name__}


class Lazy(object):
    """Encoded when the program is over: errors must keep what they say."""

    def __init__(self, func, arg):
        self.func, self.arg = func, list(arg)


def settle(x):
    if isinstance(x, Lazy):
        return x.func(x.arg)
    if isinstance(x, dict):
        return dict((k, settle(v)) for k, v in x.items())
    if isinstance(x, list):
        return [settle(v) for v in x]
    return x


# ------------------------------------------------------------------ sources --

TYPES = {'auto': None, 'str': str, 'int': int, 'float': float, 'bool': bool}


def to_json(v, ascii=True):
    """Text of a tagged value, as any JSON encoder could write it."""
    t = v['t']
    if t in ('list', 'tup'):
        return '[' + ', '.join(to_json(x, ascii) for x in v['l']) + ']'
    if t == 'dict':
        return '{' + ', '.join(json.dumps(k['k'], ensure_ascii=ascii) + ': ' + to_json(x, ascii) for k, x in v['d']) + '}'
    if t == 'flt':
        return repr(v['m'] / 1000.0)
    if t == 'nan':
        return 'NaN'
    if t == 'inf':
        return 'Infinity' if v['s'] > 0 else '-Infinity'
    return json.dumps(dec(v), ensure_ascii=ascii)


def config_text(src):
    out = []
    secs = list(src['secs'])
    if src.get('base'):
        secs.insert([0, len(secs)][src.get('style', 0) & 1], ['DEFAULT', src['base']])
    for sec, opts in secs:
        out.append('[%s]' % sec)
        for opt, lines in opts:
            sep = src.get('sep', ' = ')
            out.append((opt + sep + lines[0]['s']).rstrip() if not lines[0]['s'] else opt + sep + lines[0]['s'])
            for ln in lines[1:]:
                out.append(' ' * ln['i'] + ln['s'] if ln['s'] else '')
        out.append('')
    return '\n'.join(out) + '\n'


class Scratch(object):

    def __init__(self):
        self.dir = None
        self.n = 0
        self.lock = threading.Lock()

    def path(self):
        with self.lock:
            if self.dir is None:
                import tempfile
                self.dir = tempfile.mkdtemp(prefix='pilo-cfg-')
            self.n += 1
            return os.path.join(self.dir, '%d.ini' % self.n)

    def clean(self):
        if self.dir is not None:
            import shutil
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = None


SCRATCH = Scratch()


def make_source(s, keep):
    """A real source for a source record; documents go to `keep`."""
    k = s['k']
    if k == 'native':
        v = dec(s['v'])
        keep.append((v, enc(v)))
        kw = {}
        if s['al']:
            kw['aliases'] = dict((dec_key(a), dec_key(b)) for a, b in s['al'])
        if s.get('ig'):
            kw['ignores'] = ['.'.join(names) for names in s['ig']]
        if s.get('loc'):
            kw['location'] = s['loc']
        return S.DefaultSource(v, **kw)
    if k == 'json':
        text = to_json(s['v'], bool(s.get('style', 0) & 2))
        kw = {}
        if s.get('style', 0) & 12 == 4:
            text = text.encode('utf-8')
        elif s.get('style', 0) & 12 == 8:
            text = text.encode('utf-16')
            kw['encoding'] = 'utf-16'
        if s['strict'] or s.get('style', 0) & 1:
            kw['strict'] = s['strict']
        if s.get('loc'):
            kw['location'] = s['loc']
        return S.JsonSource(text, **kw)
    if k == 'config':
        text = config_text(s)
        kw = {}
        if s['section']:
            kw['section'] = s['section']
        if s['dflt']:
            kw['defaults'] = dict((dec_key(a), dec(b)) for a, b in s['dflt'])
        if s['case']:
            kw['preserve_case'] = True
        if s['raw']:
            kw['preserve_whitespace'] = True
        if s['loc']:
            path = SCRATCH.path()
            with open(path, 'w') as fo:
                fo.write(text)
            s['real_loc'] = path
            src = S.ConfigSource.from_file(path, **kw)
            return src
        if s.get('style', 0) & 1 and not s['case']:
            from six.moves import configparser
            cp = configparser.ConfigParser()
            cp.read_string(text)
            text = cp
        return S.ConfigSource(text, **kw)
    if k == 'union':
        kw = {}
        if s['mm'] == s['sm'] and s.get('style', 0) & 1:
            kw['merge'] = s['mm']
        else:
            kw['mapping_merge'] = s['mm']
            kw['sequence_merge'] = s['sm']
        if s.get('style', 0) & 4:       # what is not said is what is said of both, or the first
            if s['mm'] == s['sm']:
                kw = {'merge': s['mm']} if s['mm'] != 'first' else {}
            elif s.get('style', 0) & 8:
                kw = {'merge': s['mm'], 'sequence_merge': s['sm']}
            else:
                kw = {'merge': s['sm'], 'mapping_merge': s['mm']}
            if kw.get('merge') == 'first':
                del kw['merge']
        if s['depth'] >= 0:
            kw['merge_depth'] = s['depth']
        ms = []
        for x in s['ms']:
            if x['k'] == 'native' and not x['al'] and not x.get('ig') and x['v']['t'] == 'dict' and s.get('style', 0) & 2:
                v = dec(x['v'])
                keep.append((v, enc(v)))
                ms.append(v)
            else:
                ms.append(make_source(x, keep))
        if s.get('style', 0) & 32:
            return S.UnionSource(tuple(ms), **kw)
        was = list(ms)
        made = S.UnionSource(ms, **kw)
        if [id(x) for x in ms] != [id(x) for x in was]:
            raise AssertionError('the list of sources was changed')
        return made
    if k == 'mount':
        es = {}
        for key, x in s['es']:
            if x['k'] == 'native' and not x['al'] and not x.get('ig') and x['v']['t'] in ('dict', 'null') and s.get('style', 0) & 1:
                v = dec(x['v'])
                keep.append((v, enc(v)))
                es[key['k']] = v
            else:
                es[key['k']] = make_source(x, keep)
        return S.MountSource(**es)
    raise Exception('source kind %r' % k)


def real_locs(s, out):
    if s['k'] == 'config' and s.get('real_loc'):
        out.append((s['real_loc'], s['loc']))
    for x in s.get('ms', []):
        real_locs(x, out)
    for _, x in s.get('es', []):
        real_locs(x, out)


# ------------------------------------------------------------- declarations --

def regex(p, group=True, name=None, decoy=False):
    cls = '[' + ''.join(re.escape(c) for c in p['cls']) + ']{%d,%d}' % (p['mn'], p['mx'])
    pre = re.escape(p['pre'])
    if name is not None:
        body = '(?P<%s>%s)' % (name, cls)
        if decoy:
            pre = '(' + pre + ')'
    elif group:
        body = '(' + cls + ')'
    else:
        body = '(?:' + cls + ')'
    return pre + body + re.escape(p['suf']) + ('$' if p['end'] else '')


STATE = threading.local()


class Decl(object):
    """The real classes, fields and hooks of a program."""

    def __init__(self, prog):
        self.prog = prog
        self.flds = {}
        self.classes = {}
        self.made = {}      # sources used more than once
        self.options = {}   # option objects, given to several fields
        # what the last fields to be declared are clones of may have been there first
        self.early = dict((i + 1, self.build(i + 1, r)) for i, r in enumerate(prog['flds']) if r.get('clone') == 3)
        for c in range(1, len(prog['classes']) + 1):
            self.cls(c)

    def cls(self, c):
        if c in self.classes:
            return self.classes[c]
        k = self.prog['classes'][c - 1]
        bases = tuple(self.cls(b) for b in k['bases']) or (F.Form,)
        body = {}
        for f in k['own']:
            body[self.prog['flds'][f - 1]['name']] = self.fld(f)
        for nm in k['hide']:
            body[nm] = None
        if k.get('anon') and not k['bases']:
            made = F.SubForm.from_fields(**body).form_type if c % 2 else F.Form.from_fields(**body)
            made.__name__ = str(k['name'])
        else:
            made = type(bases[0])(str(k['name']), bases, body)
        for f in k['own']:
            self.flds[f] = made.__dict__[self.prog['flds'][f - 1]['name']]
        self.classes[c] = made
        return made

    def fld(self, f):
        if f not in self.flds:
            early = self.early.get(f)
            self.flds[f] = self.build(f, self.prog['flds'][f - 1]) if early is None else early.clone()
        return self.flds[f]

    def option(self, obj):
        """One object for equal options; it has to stay as it is."""
        key = type(obj).__name__ + repr(obj)
        return self.options.setdefault(key, (obj, repr(obj)))[0]

    def untouched(self):
        return all(repr(obj) == r for obj, r in self.options.values())

    def unmapped(self, u):
        if u['k'] == 'ignore':
            return ['ignore', None, ''][u.get('style', 0) % 3]
        d = self.prog['flds'][u['df'] - 1]
        how = u.get('how', 'str')
        if how == 'str':
            return 'capture'
        if how == 'field':
            return self.fld(d['fs'][1])
        return (self.fld(d['fs'][0]), self.fld(d['fs'][1]))

    def build(self, fid, r):
        kind, st = r['kind'], r.get('style', 0)
        kw, after = {}, []
        pos = []
        if r['null'] != 'unset':
            if not (r['dflt']['k'] == 'lit' and r['dflt']['v']['t'] == 'null' and r['null'] == 'yes'):
                kw['nullable'] = r['null'] == 'yes'
            elif st & (1 << 18):
                kw['nullable'] = False      # (a null default allows nulls)
        d = r['dflt']
        if d['k'] == 'optional':
            if st & 1:
                kw['default'] = pilo.NONE
            else:
                kw['optional'] = True
        elif d['k'] == 'lit':
            kw['default'] = dec(d['v'])
        elif d['k'] == 'list':
            kw['default'] = list
        elif d['k'] == 'call':
            kw['default'] = lambda: STATE.run.count()
        if r['ign']:
            vals = [dec(v) for v in r['ign']]
            if len(vals) == 1 and st & 2:
                kw['ignore'] = vals[0]
            elif len(vals) > 1 and st & 2:
                after.append(lambda f: f.ignore(vals[0]))
                after.append(lambda f: f.ignore(*vals[1:]))
            else:
                after.append(lambda f: f.ignore(*vals))
        if r['tr']:
            pairs = [(dec(a), dec(b)) for a, b in r['tr']]
            if len(pairs) > 1 and st & (1 << 17):
                more = self.option(dict(pairs[1:]))
                after.append(lambda f: f.translate(more))
                pairs = pairs[:1]
            table = self.option(dict(pairs))
            if st & 4:
                kw['translate'] = table
            else:
                after.insert(0, lambda f: f.translate(table))
        if r['tags']:
            tags = list(r['tags'])
            if len(tags) == 1 and st & 8:
                kw['tags'] = tags[0]
            elif st & 16:
                after.append(lambda f: f.tag(**dict((t, 'x') for t in tags)))
            else:
                after.append(lambda f: f.tag(*tags))
        if 'k' in r['src'] and (r['src']['k'] != r['name'] or st & 32) and not r['fromctx']:
            pos.append(r['src']['k'])
        elif 'n' in r['src']:
            kw['src'] = r['src']['n']
        elif r.get('bare'):
            kw['src'] = r['bare']['k']
        elif 'x' in r['src'] and r['name'] and kind != 'Group':
            if kind == 'SubForm' and st & 64:
                kw['flat'] = True
            else:
                kw['src'] = None

        if kind in ('String', 'Type'):
            if r['minl'] >= 0 and r['minl'] == r['maxl'] and st & 128:
                kw['length'] = r['minl']
            elif r['minl'] >= 0 and r['maxl'] >= 0 and st & 256:
                kw['length'] = (r['minl'], r['maxl'])
            else:
                if r['minl'] >= 0:
                    kw['min_length'] = r['minl']
                if r['maxl'] >= 0:
                    kw['max_length'] = r['maxl']
            if r['pat']['k'] != 'none':
                pat = regex(r['pat'])
                kw['pattern'] = re.compile(pat) if st & 512 else pat
            if r['alpha']:
                kw['alphabet'] = r['alpha']
            if r['ch']:
                ch = [dec(v) for v in r['ch']]
                kw['choices'] = self.option([ch, ch, tuple(ch), set(ch)][(st // 1024) % 2 * 2 + (st // 64) % 2])
        if kind in ('Integer', 'Float', 'Decimal'):
            lo = None if r['lo']['t'] == 'NONE' else dec(r['lo'])
            hi = None if r['hi']['t'] == 'NONE' else dec(r['hi'])
            if lo is not None and hi is not None and st & 128:
                if st & 256:
                    kw['range'] = (lo, hi)
                else:
                    after.append(lambda f: f.range(lo, hi))
            else:
                if lo is not None:
                    if st & 512:
                        kw['min_value'] = lo
                    else:
                        after.append(lambda f: f.min(lo))
                if hi is not None:
                    if st & 1024:
                        kw['max_value'] = hi
                    else:
                        after.append(lambda f: f.max(hi))
            if r['ipat']['k'] != 'none':
                ipat = regex(r['ipat'])
                after.append(lambda f: f.pattern(re.compile(ipat) if st & 2048 else ipat))
        if kind in ('Date', 'Datetime', 'Time'):
            lo = None if r['after']['t'] == 'NONE' else dec(r['after'])
            hi = None if r['before']['t'] == 'NONE' else dec(r['before'])
            if lo is not None and hi is not None and st & 128:
                after.append(lambda f: f.between(lo, hi))
            else:
                if lo is not None:
                    if st & 256:
                        kw['after'] = lo
                    else:
                        after.append(lambda f: f.after(lo))
                if hi is not None:
                    if st & 512:
                        kw['before'] = hi
                    else:
                        after.append(lambda f: f.before(hi))
            if r['fmts']:
                fmt = r['fmts'][0] if len(r['fmts']) == 1 and not (kind == 'Date' and st & 1024) else self.option(list(r['fmts']))
                if st & 2048:
                    kw['format'] = fmt
                else:
                    after.append(lambda f: f.format(fmt))

        late = {}
        if st & (3 << 20) == 3 << 20 and kind not in ('Type', 'Group'):    # said afterwards
            late = dict((o, kw.pop(o)) for o in ('nullable', 'default', 'optional', 'ignore', 'translate', 'tags') if o in kw)
        if kind in ('Field', 'String', 'Float', 'Decimal', 'Date', 'Datetime', 'Time', 'UUID', 'Integer', 'Boolean', 'Code'):
            mk = {'Field': F.Field, 'String': F.String, 'Integer': F.Int if st & 4096 else F.Integer,
                  'Float': F.Float, 'Boolean': F.Bool if st & 4096 else F.Boolean,
                  'Decimal': F.Decimal, 'Date': F.Date, 'Datetime': F.Datetime, 'Time': F.Time,
                  'UUID': F.UUID, 'Code': F.Code}[kind]
            fld = mk(*pos, **kw)
        elif kind == 'Type':
            if r['bc']['k'] == 'const':
                fld = F.Type.constant(dec(r['bc']['v']))
            elif r.get('tstyle') == 'instance':
                kw.pop('choices', None)
                kw.pop('default', None)
                kw.pop('optional', None)
                if pos:
                    kw['src'] = pos[0]
                fld = F.Type.instance(*[dec(v) for v in r['ch']], **kw)
            elif r.get('tstyle') == 'abstract':
                fld = F.Type.abstract(*pos, **kw)
            else:
                fld = F.Type(*pos, **kw)
        elif kind == 'Tuple':
            items = [self.fld(i) for i in r['fs']]
            if st & 128 or len(items) == 1:
                args = pos + [items]
            else:
                args = pos + items
            fld = F.Tuple(*args, **kw)
        elif kind == 'List':
            item = self.fld(r['fs'][0])
            irec = self.prog['flds'][r['fs'][0] - 1]
            if st & 128 and r['minl'] >= 0 and r['maxl'] >= 0:
                kw['length'] = (r['minl'], r['maxl'])
            else:
                lo, hi = r['minl'], r['maxl']
                if lo >= 0 and hi >= 0 and st & 256:
                    after.append(lambda f: f.range(lo, hi))
                else:
                    if lo >= 0:
                        if st & 512:
                            kw['min_length'] = lo
                        else:
                            after.append(lambda f: f.min(lo))
                    if hi >= 0:
                        if st & 1024:
                            kw['max_length'] = hi
                        else:
                            after.append(lambda f: f.max(hi))
            if r['allow']:
                kw['allow_field'] = True
            if irec['kind'] == 'SubForm' and irec.get('plain') and st & 2048:
                item = self.cls(irec['cls'])
            if st & 4096 and isinstance(item, F.Field):
                fld = F.List(*pos, field=item, **kw)
            elif st & 8192:
                fld = F.List(*(pos + [item]), **kw)
            else:
                fld = F.List(*([item] + pos), **kw)
        elif kind == 'Dict':
            if r['req']:
                req = [dec_key(k) for k in r['req']]
                kw['required_keys'] = self.option([req, tuple(req), set(req)][st // 128 % 3])
            if r['maxk'] >= 0:
                kw['max_keys'] = r['maxk']
            fld = F.Dict(self.fld(r['fs'][0]), self.fld(r['fs'][1]), *pos, **kw)
        elif kind == 'SubForm':
            if r['reset']:
                kw['reset'] = True
            if r['unm']['k'] != 'ignore' or st & 128:
                kw['unmapped'] = self.unmapped(r['unm'])
            c = self.cls(r['cls'])
            if st & (3 << 22) == 3 << 22:
                late.update((o, kw.pop(o)) for o in ('reset', 'unmapped', 'flat') if o in kw)
            fld = F.SubForm(*(pos + [c] if st & 256 else [c] + pos), **kw)
        elif kind == 'Poly':
            if r['reset']:
                kw['reset'] = True
            if r['unm']['k'] != 'ignore' or st & 128:
                kw['unmapped'] = self.unmapped(r['unm'])
            self.cls(self.prog['flds'][r['tf'] - 1]['owner'])
            fld = F.PolymorphicSubForm(self.fld(r['tf']), *pos, **kw)
        elif kind == 'Group':
            entries = []
            for g in r['gs']:
                if g['k'] == 'key':
                    if g.get('bare'):
                        entries.append(self.fld(g['f']))
                    else:
                        entries.append((g['key']['k'], self.fld(g['f'])))
                else:
                    entries.append((re.compile(regex(g['pat'])), self.fld(g['f'])))
            if r['dflt']['k'] == 'list':
                kw.pop('default', None)
            if st & 128:
                fld = F.Group(entries, **kw)
            else:
                fld = F.Group(*entries, **kw)
        else:
            raise Exception('field kind %r' % kind)

        if late:
            fld = fld.options(**late)
        for step in after:
            fld = step(fld)
        if r['bc']['k'] == 'const' and kind != 'Type':
            fld = fld.constant(dec(r['bc']['v']))
        elif r['bc']['k'] == 'format':
            fmt, names = '', {}
            for i, lit in enumerate(r['bc']['lits']):
                fmt += lit
                if i < len(r['bc']['names']):
                    fmt += '{v%d}' % i
                    names['v%d' % i] = '.'.join(r['bc']['names'][i])
            fld = fld.format(fmt, **names)
        if r['cap']['k'] != 'none':
            if r['cap']['g'] and st & 16384:
                nm = r['name'] if st & 32768 else 'grp'
                pat = regex(r['cap'], name=nm, decoy=bool(st & 65536))
                fld = fld.capture(pat) if st & 32768 else fld.capture(re.compile(pat), 'grp')
            else:
                fld = fld.capture(regex(r['cap'], group=r['cap']['g']))
        if r['fromctx']:
            fld = fld.from_context()
        for hk in ('resolve', 'compute', 'parse', 'munge', 'filter', 'validate'):
            if r['hooks'][hk]:
                fld = getattr(fld, hk)(self.hook(hk, r['hooks'][hk], fid))
        if r['hooks'].get('keyf'):
            fld = fld.key_filter(self.hook('keyf', r['hooks']['keyf'], fid))
        if d['k'] == 'hook':
            fld = fld.default(self.hook('default', d['h'], fid))
        if r.get('clone') in (1, 2):
            fld = fld.clone()
            if r['clone'] == 2:
                fld = fld.clone()
        return fld

    def hook(self, hk, h, fid):
        rec = self.prog['hooks'][h - 1]

        def go(owner, value):
            return STATE.run.hook(self, rec, hk, h, fid, owner, value)

        if hk in ('munge', 'filter', 'validate'):
            def func(self, value):
                return go(self, value)
        elif hk == 'parse':
            def func(self, path):
                return go(self, pilo.NONE)
        elif hk == 'keyf':
            def func(self, key):
                return go(self, key)
        else:
            def func(self):
                return go(self, pilo.NONE)
        return func


# -------------------------------------------------------------- a program --

class Run(object):

    def __init__(self, prog, decl=None, gate=None):
        self.prog = prog
        self.decl = decl
        self.gate = gate
        self.log = []
        self.keep = []
        self.n = 0
        self.dead = False

    def count(self):
        self.n += 1
        return self.n

    def emit(self, **ev):
        if not self.dead:
            self.log.append(ev)
            if len(self.log) > 600:
                self.dead = True
                raise HookError('too many events')

    def where(self):
        p = ctx.src_path
        return 'None' if p is None else str(p)

    # hooks

    def hook(self, decl, rec, hk, h, fid, owner, value):
        forms = ctx.values_for('form')
        self.emit(e='hook', h=hk, f=fid, p=self.where(), v=enc(value),
                  c='-' if not isinstance(owner, F.Form) else type(owner).__name__ if forms and owner is forms[-1] else 'another form')
        if self.gate is not None:
            self.gate(self)
        last = pilo.NONE
        for r in rec['reads']:
            if r['k'] == 'get':
                forms = ctx.values_for('form')
                if len(forms) <= r['up']:
                    continue
                try:
                    v = forms[-1 - r['up']]
                    for nm in r['ch']:
                        v = getattr(v, nm)
                except AttributeError:
                    if not r['catch']:
                        raise
                    self.emit(e='read', ok=False, v=enc(pilo.NONE), p=self.where())
                else:
                    last = v
                    self.emit(e='read', ok=True, v=enc(v), p=self.where())
            elif r['k'] == 'var':
                self.emit(e='var', l=[enc(v) for v in ctx.values_for(r['v'])])
            else:
                form = decl.classes[r['c']]()
                src = make_source(self.prog['srcs'][r['s'] - 1], self.keep)
                res = form.map(src, error=r['mode'])
                if r['mode'] == 'collect':
                    self.emit(e='sub', r={'k': 'errs', 'l': Lazy(enc_errs, res)})
                else:
                    self.emit(e='sub', r={'k': 'val', 'v': enc(res)})
        op, arg = rec['op'], rec['arg']
        if op == 'raise':
            raise HookError('hook')
        if op == 'raisev':
            raise HookValueError('hook')
        if op == 'invalid':
            ctx.errors.invalid('rejected by a hook')
            return False if hk in ('validate', 'filter', 'keyf') else pilo.ERROR
        if op == 'prim':
            return ctx.src_path.primitive(TYPES[arg['s']])
        if hk == 'resolve':
            if op == 'dflt':
                src = ctx.field.src
                return None if src is None or src is pilo.NONE else ctx(src=src)
            if op == 'at':
                return ctx(src=dec_key(arg))
            return None
        if op == 'call':
            return self.count()
        if op == 'id':
            return value
        if op == 'const':
            return dec(arg)
        if op == 'add':
            return add(value)
        if op == 'last':
            return dec(arg) if last is pilo.NONE else last
        if op in MARKS:
            return MARKS[op]
        if op == 'true':
            return (True, True, 1, 'yes')[h % 4]
        if op == 'false':
            return (False, False, None, 0, '')[h % 5]
        if op == 'lt':
            return less(value, dec(arg)) if is_num(value) else True
        if op == 'notnull':
            return value is not None
        if op == 'key':
            return ctx.src_path.name if len(ctx.src_path) else ''
        raise Exception('hook op %r' % op)

    # operations

    def src_arg(self, a):
        same = a.get('same')
        if same:
            if same not in self.decl.made:
                self.decl.made[same] = self.make_arg(a)
            return self.decl.made[same]
        return self.make_arg(a)

    def make_arg(self, a):
        if a['a'] == 'raw':
            v = dec(a['v'])
            self.keep.append((v, enc(v)))
            return v
        if a['a'] == 'src':
            return make_source(self.prog['srcs'][a['i'] - 1], self.keep)
        return None

    def munge_func(self, fn):
        if fn['k'] == 'drop':
            return lambda form, field, value: pilo.NONE if field.name == fn['n'] else value
        if fn['k'] == 'add':
            return lambda form, field, value: add(value)
        return lambda form, field, value: value

    def op(self, op):
        o, slots, decl = op['o'], self.slots, self.decl
        x = op.get('x', 0)
        form = slots[x - 1] if x else None
        nil = {'k': 'nil'}
        if o == 'new':
            slots[x - 1] = decl.classes[op['c']]()
        elif o == 'make':
            c = decl.classes[op['c']]
            a = self.src_arg(op['src'])
            slots[x - 1] = c(**a) if op.get('kw') else c(a)
        elif o == 'map':
            kw = {}
            if op['src']['a'] != 'none' or op.get('style', 0) & 1:
                kw['src'] = self.src_arg(op['src'])
            if op['tags'] or op.get('style', 0) & 2:
                kw['tags'] = list(op['tags']) if op.get('style', 0) & 4 else set(op['tags'])
            if op['reset'] or op.get('style', 0) & 8:
                kw['reset'] = op['reset']
            if op['unm']['k'] != 'ignore' or op.get('style', 0) & 16:
                kw['unmapped'] = decl.unmapped(op['unm'])
            if op['mode'] != 'collect' or op.get('style', 0) & 32:
                kw['error'] = op['mode']
            if op['src']['a'] != 'none' and op.get('style', 0) & 64:
                res = form.map(kw.pop('src'), **kw)
            else:
                res = form.map(**kw)
            if op['mode'] == 'collect':
                return {'k': 'errs', 'l': Lazy(enc_errs, res)}
            return {'k': 'self'} if res is form else {'k': 'val', 'v': enc(res)}
        elif o == 'enter':
            c = op['c']
            if c['k'] == 'vars':
                cm = ctx(**dict((k, v if isinstance(v, bool) else NAMED[v] if k in ('Missing', 'Invalid') else dec(v))
                                for k, v in c['vars'].items()))
            elif c['k'] == 'tags':
                cm = ctx(tags=list(c['tags']) if op.get('style', 0) & 1 else set(c['tags']))
            elif c['k'] == 'src':
                cm = ctx(src=make_source(self.prog['srcs'][c['s'] - 1], self.keep))
            elif c['k'] == 'reset':
                cm = ctx.reset()
            else:
                cm = ctx(src=dec_key(c['key']))
            cm.__enter__()
            self.scopes.append(cm)
        elif o == 'rewind':
            cm = ctx.rewind(stopper(op['c']))
            cm.__enter__()
            self.scopes.append(cm)
        elif o == 'ask':
            return {'k': 'val', 'v': {'t': 'list', 'l': [answer(q) for q in op['qs']]}}
        elif o == 'leave':
            self.scopes.pop().__exit__(None, None, None)
        elif o == 'get':
            return {'k': 'val', 'v': enc(getattr(form, op['n']))}
        elif o == 'has':
            what = op['n']
            if op['byfield']:
                what = getattr(type(form), op['n'])
            return {'k': 'val', 'v': enc(form.has(what))}
        elif o == 'item':
            return {'k': 'val', 'v': enc(form[op['n']])}
        elif o == 'in':
            return {'k': 'val', 'v': enc(op['n'] in form)}
        elif o == 'set':
            if op.get('attr'):
                setattr(form, op['n'], dec(op['v']))
            else:
                form[op['n']] = dec(op['v'])
        elif o == 'del':
            if op['attr']:
                delattr(form, op['n'])
            else:
                del form[op['n']]
        elif o == 'grow':
            v = form.get(op['n'])
            if isinstance(v, list):
                v.append(7)
            elif isinstance(v, dict):
                v['zz'] = 7
        elif o == 'link':
            form[op['n']] = slots[op['y'] - 1]
        elif o == 'flatten':
            return {'k': 'flat', 'l': [[[f.name for f in path], enc(v)] for path, v in form.flatten()]}
        elif o == 'munge':
            fn = op['fn']
            if fn['k'] == 'tags':
                kw = {'inv': fn['inv']} if fn['inv'] or op.get('style', 0) & 1 else {}
                res = form.filter(*fn['tags'], **kw)
            else:
                res = form.munge(self.munge_func(fn))
            slots[op['y'] - 1] = res
        elif o == 'copy':
            slots[op['y'] - 1] = form.copy()
        elif o == 'cast':
            c = decl.flds[op['f']].cast(self.src_arg(op['src']))
            return {'k': 'cls', 'c': c.__name__}
        elif o == 'fields':
            return {'k': 'val', 'v': enc([f.name for f in decl.classes[op['c']].fields])}
        elif o == 'declare':
            self.declare(op)
        elif o == 'alter':
            n, log, self.log = self.n, self.log, []
            try:
                self.alter(op, decl.classes[op['c']])
            finally:
                self.n, self.log = n, log
        elif o == 'render':
            fmt = op['fmts'][0] if len(op['fmts']) == 1 else list(op['fmts'])
            return {'k': 'val', 'v': enc(getattr(F, op['kind'])(format=fmt).format(dec(op['v'])))}
        elif o == 'fmap':
            path = make_source(self.prog['srcs'][op['s'] - 1], self.keep).path()
            for key in op['ks']:
                path.append(dec_key(key))
            ts = [TYPES[op['ty']]]
            if op.get('how') == 1 and ts[0] not in (None, bool):
                ts = [type('Sub', (ts[0],), {})]
            elif op.get('how') == 2:
                ts.append(dict)
            return {'k': 'val', 'v': enc(path.primitive(*ts))}
        else:
            raise Exception('op %r' % o)
        return nil

    def declare(self, op):
        """Give a field a hook with some signature."""
        func = eval('lambda %s: None' % op['sig'])
        if op['on'] == 'new':
            args = {'List': (F.Field(),), 'Dict': (F.String(), F.Field()), 'SubForm': (F.Form,),
                    'Tuple': ([F.Field()],)}.get(op['kind'], ())
            fld = getattr(F, op['kind'])(*args)
        else:
            fld = self.decl.flds[op['f']]
            if op['on'] == 'clone':
                fld = fld.clone()
        hook = fld.key_filter if op['hk'] == 'keyf' else getattr(fld, op['hk'])
        hook(func)

    def alter(self, op, cls):
        """Use a class to declare other things; it stays as it is."""
        how, st = op['how'], op['style']
        old = dict((f.name, f) for f in cls.fields)
        name = op['n'] if op['n'] in old else sorted(old)[0] if old else None
        if how == 'sub':
            body = {'zz1': F.Integer(default=None)}
            if name and st & 1:
                body[name] = F.String('zz2', default='zz').tag('blue')
            if name and st & 2:
                body[name] = None
            made = type(cls)('Derived', (cls,), body)
            if st & 4:
                self.quietly(made, {'zz1': 7, 'zz2': 'q'})
        elif how == 'clone' and name:
            made = old[name].clone()
            self.spoil(made, st)
            if st & 64 and not made.compute:
                made = made.constant(7)
            if st & 128:
                made = type(cls)('Cloned', (F.Form,), {'q1': made})
                self.quietly(made, {'q1': 'ab', name: 'ab'})
        elif how == 'anon':
            made = F.Form.from_fields(**dict((n, f.clone()) for n, f in old.items()))
            sub = F.SubForm.from_fields(q1=F.SubForm(made, default=None), q2=F.Integer())
            if st & 1:
                self.quietly(F.Form.from_fields(q=sub), {'q': {'q1': {}, 'q2': 5}})
        elif how == 'const' and name and not old[name].compute:
            made = old[name].constant(7)
            self.spoil(made, st)
            if st & 64:
                self.quietly(type(cls)('Fixed', (cls,), {name: made}), {})
        elif how == 'inst':
            form = cls()
            for n in old:
                dict.__setitem__(form, n, [7])
            form.copy().clear()

    def spoil(self, made, st):
        """Change a field in every way there is."""
        if st & 1:
            made.ignore(7, 'ab').translate({1: 2, 'v1': 'zz'}).tag('red', 'blue')
        if st & 2:
            made.options(nullable=False, default=7, ignore='xyz', translate={'c': 'd'}, tags='x1')
        if st & 4:
            for attr, v in (('min_value', 3), ('max_value', 4), ('min_length', 1), ('max_length', 2), ('choices', ['q']),
                            ('src', 'zz'), ('before_value', None), ('after_value', None), ('pattern_re', None),
                            ('alphabet', 'q'), ('reset', True), ('unmapped', 'capture'), ('required_keys', ['q'])):
                if hasattr(made, attr):
                    setattr(made, attr, v)
        if st & 8 and not made.munge:
            made.munge(lambda self, value: None)
        if st & 16 and not made.validate:
            made.validate(lambda self, value: False)
        if st & 32 and not made.parse:
            made.parse(lambda self, path: 7)

    def quietly(self, cls, doc):
        try:
            cls().map(doc)
        except Exception:   # the derived declarations need not make sense
            pass

    def ctx_obs(self):
        try:
            return {'p': self.where(),
                    'n': [len(ctx.values_for(k)) for k in ('src', 'field', 'form', 'errors', 'parent', 'u')]}
        except Exception as ex:
            return {'p': '!' + type(ex).__name__, 'n': []}

    def go(self):
        STATE.run = self
        try:
            if self.decl is None:
                self.decl = Decl(self.prog)
        except Exception as ex:
            if os.environ.get('PILO_DEBUG'):
                import traceback
                traceback.print_exc()
            self.emit(e='declaration-failed', x=type(ex).__name__, m=str(ex)[:200])
            return
        self.slots = [None] * self.prog['nslots']
        self.scopes = []
        for op in self.prog['ops']:
            if self.gate is not None:
                self.gate(self)
            try:
                r = self.op(op)
            except Exception as ex:
                r = enc_exc(ex, full=op['o'] == 'make')
                if os.environ.get('PILO_DEBUG'):
                    import traceback
                    traceback.print_exc()
            self.emit(e='op', r=r, s=[enc(pilo.NONE) if s is None else enc(s) for s in self.slots],
                      ctx=self.ctx_obs())
        self.emit(e='end', docs=self.decl.untouched() and all(same(enc(v), e) for v, e in self.keep))

    def result(self):
        log = settle(self.log)
        locs = []
        for s in self.prog['srcs']:
            real_locs(s, locs)
        if locs:
            text = json.dumps(log)
            for real, name in locs:
                text = text.replace(real, name)
            log = json.loads(text)
        return log


def same(a, b):
    return json.dumps(a) == json.dumps(b)


def run_one(prog):
    run = Run(prog)
    th = threading.Thread(target=run.go)
    th.daemon = True
    th.start()
    th.join(LIMIT)
    if th.is_alive():
        run.dead = True
        return [{'e': 'no-termination'}], True
    return run.result(), False


# The specification's texts are ASCII; these stand for other characters.
TOKENS = (('~', '\u00e9'), ('^', '\U0001f600'))


def wide_text(text):
    for a, b in TOKENS:
        text = text.replace(a, b)
    return text


def narrow_text(text):
    for a, b in TOKENS:
        text = text.replace(b, a)
    return text.encode('ascii', 'replace').decode('ascii')


def main(inp, out):
    threading.stack_size(64 << 20)
    with open(inp) as fo:
        progs = json.loads(wide_text(fo.read()))
    obs, hung = [], 0
    for prog in progs:
        if hung >= 3:
            obs.append([{'e': 'no-termination'}])
            continue
        o, h = run_one(prog)
        hung += h
        obs.append(o)
    with open(out, 'w') as fo:
        fo.write(narrow_text(json.dumps(obs, ensure_ascii=False)))
    SCRATCH.clean()
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2])
