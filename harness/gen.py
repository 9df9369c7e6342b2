"""
Generates programs for the mapping machine of spec/Pilo.tla: form classes,
documents, sources, user hooks and histories of operations.  Seeded; what a
program is about is chosen by a profile (see profiles.py).
"""
import copy
import random

NONE = {'t': 'NONE'}
NULL = {'t': 'null'}


def S(s):
    return {'t': 'str', 's': s}


def I(i):
    return {'t': 'int', 'i': i}


def B(b):
    return {'t': 'bool', 'b': b}


def FL(m):
    return {'t': 'flt', 'm': m}


def DE(m):
    return {'t': 'dec', 'm': m}


def L(l):
    return {'t': 'list', 'l': list(l)}


def D(pairs):
    out = []
    for k, v in pairs:
        out = [e for e in out if e[0] != k] + [[k, v]]
    return {'t': 'dict', 'd': out}


def K(s):
    return {'k': s}


def N(n):
    return {'n': n}


X = {'x': 0}
BIGI = {'t': 'big', 'k': 'int', 's': 1}
WIDE = ('9007199254740993', '9007199254740995', '4503599627370497', '123456789012', '1234567')
NANF = {'t': 'nan', 'k': 'flt'}


def INF(s):
    return {'t': 'inf', 'k': 'flt', 's': s}


def date(y, mo, d):
    return {'t': 'date', 'y': y, 'mo': mo, 'd': d}


def dt(y, mo, d, h, mi, s, z=-9999):
    return {'t': 'dt', 'y': y, 'mo': mo, 'd': d, 'h': h, 'mi': mi, 's': s, 'z': z}


def tm(h, mi, s):
    return {'t': 'time', 'h': h, 'mi': mi, 's': s}


def st(h, mi, s, y=1900, mo=1, d=1):
    return {'t': 'st', 'y': y, 'mo': mo, 'd': d, 'h': h, 'mi': mi, 's': s}


NOPAT = {'k': 'none'}
HK = ('compute', 'resolve', 'parse', 'munge', 'filter', 'validate', 'keyf')
SCALARS = ('Field', 'String', 'Type', 'Integer', 'Float', 'Boolean', 'Decimal', 'Date', 'Datetime', 'Time', 'UUID', 'Code')
NAMES = list('abcdefghijkmnopq')
ODD = ('src', 'form', 'field', 'errors', 'tags', 'type', 'name', 'key', 'value', 'id', 'parent', 'data', 'self', 'path')
CODES = ['vmod:f', 'vmod:K', 'vmod:K.g', 'vpkg.inner:f', 'vpkg:inner.f', 'vmod:f!', 'x = 7\n', 'x = 12\n']
BADCODES = ['vmod:nope', 'nosuch:f', 'vmod', 'vmod:', 'f', 'x ==\n', '-', 'vmod:K.h', ':f', 'vmod: f', 'vmod:f~', 'vmod:f.', 'vmod.f:f']
TAGS = ['red', 'blue', 'x1']

DEFAULTS = dict(
    scalars={'Field': 2, 'String': 4, 'Integer': 4, 'Float': 2, 'Boolean': 2, 'Decimal': 2,
             'Date': 1, 'Datetime': 1, 'Time': 1, 'UUID': 1, 'Code': 0.5, 'Type': 0.4},
    containers={'Tuple': 1, 'List': 3, 'Dict': 2, 'SubForm': 3, 'Group': 1, 'Poly': 1},
    p_container=0.35, depth=2, nfields=(1, 4),
    p_con=0.5, p_null=0.3, p_dflt=0.35, dflts=('optional', 'lit', 'call', 'hook', 'list'),
    p_ign=0.15, p_tr=0.15, p_src=0.25, p_dot=0.0, p_tags=0.0, p_flat=0.1, p_intsrc=0.0,
    p_hook=0.0, hooks={}, p_read=0.0, reads=('get', 'var'), p_bc=0.0, p_cap=0.0, p_fromctx=0.0,
    p_inherit=0.0, p_clone=0.1, p_unm=0.1, p_reset=0.1, p_grow=0.05,
    p_bad=0.25, p_absent=0.15, p_nullv=0.1, p_extra=0.2, p_shuffle=0.3,
    json=False, native_typed=0.25, p_odd=0.05,
)
HOOK_OPS = {
    'compute': ('const', 'const', 'last', 'NONE', 'ERROR', 'call', 'invalid'),
    'resolve': ('dflt', 'at', 'none'),
    'parse': ('prim', 'prim', 'const', 'NONE', 'ERROR', 'raisev', 'invalid'),
    'munge': ('id', 'add', 'add', 'const', 'NONE', 'ERROR', 'raisev0', 'invalid', 'last'),
    'filter': ('true', 'false', 'lt', 'notnull', 'invalid'),
    'validate': ('true', 'false', 'lt', 'notnull', 'invalid'),
    'default': ('const', 'call', 'NONE', 'NOTSET', 'last'),
    'keyf': ('true', 'false'),
}
PRIMS = {'Type': 'str', 'Field': 'auto', 'String': 'str', 'Integer': 'int', 'Float': 'float', 'Boolean': 'bool'}


class Gen(object):

    def __init__(self, rng, **knobs):
        self.r = rng
        self.o = dict(DEFAULTS)
        self.o.update(knobs)
        self.flds, self.classes, self.hooks, self.srcs, self.ops = [], [], [], [], []
        self.level = set()    # classes whose own fields do not read others
        self.ranks = {}       # class -> {name: rank}, for acyclic reads
        self.outer = []       # [(class names being declared, rank of the containing field)]
        self.nslots = 1
        self.ord = True
        self.families = []
        self.fresh = 0

    # -------------------------------------------------------------- tools --

    def p(self, x):
        return self.r.random() < x

    def wpick(self, w):
        tot = sum(w.values())
        x = self.r.random() * tot
        for k, v in w.items():
            x -= v
            if x < 0:
                return k
        return list(w)[-1]

    def pick(self, seq):
        return self.r.choice(list(seq))

    # ------------------------------------------------------------- fields --

    def rec(self, kind, name, owner, **kw):
        f = dict(kind=kind, name=name, owner=owner, src=K(name) if name else dict(X), null='unset',
                 dflt={'k': 'unset', 'v': NONE, 'h': 0}, ign=[], tr=[], tags=[],
                 hooks=dict((h, 0) for h in HK), bc={'k': 'none'}, cap=dict(NOPAT), fromctx=False,
                 style=self.r.getrandbits(24))
        if kind in ('String', 'Type'):
            f.update(minl=-1, maxl=-1, pat=dict(NOPAT), alpha='', ch=[])
        if kind in ('Integer', 'Float', 'Decimal'):
            f.update(lo=NONE, hi=NONE, ipat=dict(NOPAT))
        if kind in ('Date', 'Datetime', 'Time'):
            f.update(after=NONE, before=NONE, fmts=[])
        if kind in ('Tuple', 'List', 'Dict'):
            f.update(fs=[])
        if kind == 'List':
            f.update(minl=-1, maxl=-1, allow=False)
        if kind == 'Dict':
            f.update(req=[], maxk=-1)
        if kind in ('SubForm', 'Poly'):
            f.update(reset=False, unm={'k': 'ignore'})
        if kind == 'SubForm':
            f.update(cls=0)
        if kind == 'Poly':
            f.update(tf=0)
        if kind == 'Group':
            f.update(gs=[], src=dict(X), dflt={'k': 'list', 'v': NONE, 'h': 0})
        f.update(kw)
        return f

    def put(self, f):
        self.flds.append(f)
        return len(self.flds)

    def pattern(self, cls=None):
        r = self.r
        cls = cls or self.pick(['0123456789', 'abc', 'xyz'])
        mn = r.randint(0, 2)
        return {'k': 'pat', 'pre': self.pick(['', '', 'v', 'id-']), 'cls': cls, 'mn': mn,
                'mx': mn + r.randint(0, 3), 'suf': self.pick(['', '', ':', 'z']), 'end': self.p(0.5), 'g': self.p(0.85)}

    def num(self, kind):
        if kind == 'Integer':
            return I(self.r.randint(-3, 12))
        m = self.r.randint(-16, 80) * 125
        if kind == 'Float':
            return self.pick([FL(m), I(m // 1000)])
        return self.pick([DE(m), I(m // 1000), DE(m)])

    def bounds(self, f):
        a, b = self.num(f['kind']), self.num(f['kind'])

        def m(v):
            return v['i'] * 1000 if v['t'] == 'int' else v['m']
        if m(a) > m(b):
            a, b = b, a
        c = self.r.randint(0, 2)
        if c != 1:
            f['lo'] = a
        if c != 0:
            f['hi'] = b

    def constrain(self, f):
        k = f['kind']
        if k in ('String', 'Type'):
            c = self.r.randint(0, 5)
            if c == 0:
                f['minl'] = self.r.randint(0, 3)
            if c in (1, 2):
                f['maxl'] = self.r.randint(0, 4)
            if c == 2:
                f['minl'] = self.r.randint(0, max(0, f['maxl']))
            if c == 3:
                f['pat'] = self.pattern()
            if c == 4:
                f['alpha'] = self.pick(['abc', '0123456789', 'abcxyz-:'])
                if self.p(0.5):
                    f['maxl'] = self.r.randint(1, 4)
            if c == 5:
                f['ch'] = [S(x) for x in self.r.sample(['ab', 'xyz', 'v1', '', 'c'], self.r.randint(1, 3))]
        elif k in ('Integer', 'Float', 'Decimal'):
            if k != 'Decimal' and self.p(0.15):
                f['ipat'] = {'k': 'pat', 'pre': self.pick(['', '', '-']), 'cls': '0123456789', 'mn': 1,
                             'mx': self.r.randint(1, 4), 'suf': self.pick(['', '', '.5']) if k == 'Float' else '',
                             'end': self.p(0.4), 'g': True}
                f['hooks_parse_used'] = True
            if self.p(0.85):
                self.bounds(f)
        elif k == 'Date':
            a, b = sorted([self.r.randint(1, 28), self.r.randint(1, 28)])
            c = self.r.randint(0, 2)
            if c != 1:
                f['after'] = date(2020, 2, a)
            if c != 0:
                f['before'] = date(2020, 2, b)
        elif k == 'Datetime':
            z = self.pick([0, 0, 0, 120, -330]) if f['fmts'] == ['iso8601'] else -9999
            if self.p(0.08):
                z = -9999 if z != -9999 else 0       # bounds the values have no order against
            a, b = sorted([self.r.randint(0, 23), self.r.randint(0, 23)])
            c = self.r.randint(0, 2)
            if c != 1:
                f['after'] = dt(2020, 2, 28, a, 0, 0, z)
            if c != 0:
                f['before'] = dt(2020, 2, 28, b, 30, 0, z)
        elif k == 'Time':
            a, b = sorted([self.r.randint(0, 23), self.r.randint(0, 23)])
            c = self.r.randint(0, 2)
            t = tm if self.p(0.25) else st
            if c != 1:
                f['after'] = t(a, 0, 0)
            if c != 0:
                f['before'] = t(b, 30, 0)
        elif k == 'List':
            c = self.r.randint(0, 2)
            if c != 1:
                f['minl'] = self.r.randint(0, 3)
            if c != 0:
                f['maxl'] = max(f['minl'], 0) + self.r.randint(0, 2)
        elif k == 'Dict':
            if self.p(0.6):
                f['req'] = [K(x) for x in self.r.sample(['a', 'b', 'zz', 'id-1'], self.r.randint(1, 2))]
                if self.p(0.12) and not self.constrained(self.flds[f['fs'][0] - 1]):
                    f['req'] = [N(x) for x in self.r.sample([1, 2, 3], self.r.randint(1, 2))]
            if self.p(0.5):
                f['maxk'] = self.r.randint(0, 3)

    def formats(self, f):
        k = f['kind']
        if k == 'Date':
            f['fmts'] = self.pick([['%Y-%m-%d'], ['%d/%m/%Y'], ['iso8601'], ['%d/%m/%Y', '%Y-%m-%d'],
                                   ['iso8601', '%d.%m.%Y'], ['%d.%m.%Y', 'iso8601'], ['%Y-%m-%d']])
        elif k == 'Datetime':
            f['fmts'] = self.pick([['iso8601'], ['%Y-%m-%d %H:%M:%S'], ['%Y-%m-%dT%H:%M'], ['%d/%m/%Y %H:%M']])
        elif k == 'Time':
            f['fmts'] = self.pick([['%H:%M:%S'], ['%H:%M'], ['%H.%M']])
        if self.p(0.05):
            f['fmts'] = []

    def constrained(self, f):
        k = f['kind']
        if k in ('String', 'Type'):
            return bool(f['minl'] >= 0 or f['maxl'] >= 0 or f['pat']['k'] != 'none' or f['alpha'])
        if k in ('Integer', 'Float', 'Decimal'):
            return f['lo'] is not NONE or f['hi'] is not NONE
        if k in ('Date', 'Datetime', 'Time'):
            return f['after'] is not NONE or f['before'] is not NONE
        if k == 'List':
            return f['minl'] >= 0 or f['maxl'] >= 0
        if k == 'Dict':
            return bool(f['req'] or f['maxk'] >= 0)
        return False

    def const(self, f):
        """A value of the field's own type (not necessarily within bounds)."""
        k = f['kind']
        r = self.r
        if k in ('String', 'Type'):
            return S(self.pick(['ab', '', 'xyz', 'v1', '12', 'v12', 'id-1']))
        if k in ('Integer', 'Float', 'Decimal'):
            return self.num(k)
        if k == 'Boolean':
            return B(self.p(0.5))
        if k == 'Date':
            return date(2020, 2, r.randint(1, 28))
        if k == 'Datetime':
            return dt(2020, 2, 28, r.randint(0, 23), 15, 0, 0 if f['fmts'] == ['iso8601'] else -9999)
        if k == 'Time':
            return st(r.randint(0, 23), 15, 0)
        if k == 'UUID':
            return {'t': 'uuid', 's': 'a2345678-1234-5678-1234-567812345678'}
        if k == 'Code':
            return self.pick([I(3), S('vmod:f')])       # (a callable default is called)
        if k == 'List':
            return L([I(1), I(2)][:r.randint(0, 2)])
        if k == 'Dict':
            return D([(K('a'), I(1))][:r.randint(0, 1)])
        if k == 'Tuple':
            return {'t': 'tup', 'l': [I(7)]}
        return self.pick([I(3), S('ab'), B(True), L([I(1)])])

    def field(self, name, owner, depth, kind=None, item=False, **force):
        """Declare a field (items: no name, no own source key)."""
        o = self.o
        if kind is None:
            if depth > 0 and self.p(o['p_container']):
                w = dict(o['containers'])
                if item:
                    w.pop('Group', None)
                if not w:
                    w = {'List': 1}
                kind = self.wpick(w)
            else:
                kind = self.wpick(o['scalars'])
        f = self.rec(kind, name, owner)
        if kind in ('Date', 'Datetime', 'Time'):
            self.formats(f)
        if kind == 'Tuple':
            f['fs'] = [self.field('', 0, depth - 1, item=True) for _ in range(self.r.randint(1, 3))]
        elif kind == 'List':
            f['fs'] = [self.field('', 0, depth - 1, item=True)]
            f['allow'] = self.p(0.25)
        elif kind == 'Dict':
            f['fs'] = [self.keyfield(), self.field('', 0, depth - 1, item=True)]
        elif kind == 'SubForm':
            f['cls'] = self.klass(depth - 1, (name, owner))
            f['reset'] = self.p(o['p_reset'])
            if self.p(o['p_unm']):
                f['unm'] = self.unm()
            if name and self.p(o['p_flat']):
                f['src'] = dict(X)
        elif kind == 'Poly':
            if not self.families or self.p(0.3):
                self.family(depth - 1, (name, owner))
            f['tf'] = self.pick(self.families)['tf']
            f['reset'] = self.p(o['p_reset'])
            if self.p(o['p_unm']):
                f['unm'] = self.unm()
        elif kind == 'Group':
            for _ in range(self.r.randint(1, 3)):
                i = self.field('', 0, min(depth - 1, 0), item=True)
                if self.p(0.5):
                    g = {'k': 'key', 'key': K(self.pick(['a', 'b', 'v1', 'k', 'zz'])), 'f': i, 'bare': self.p(0.4)}
                    if g['bare']:
                        self.flds[i - 1]['src'] = g['key']
                        self.flds[i - 1]['name'] = ''
                        self.flds[i - 1]['bare_src'] = True
                else:
                    g = {'k': 'pat', 'pat': dict(self.pattern(), g=True), 'f': i}
                f['gs'].append(g)
        if self.p(o['p_con']):
            self.constrain(f)
        if self.p(o['p_null']):
            f['null'] = self.pick(['yes', 'no'])
        if self.p(o['p_dflt']) and not (kind == 'Group' and self.p(0.7)):
            self.default(f)
        if self.p(o['p_ign']) and kind in SCALARS:
            f['ign'] = [self.pick([self.const(f), self.const(f), NULL]) for _ in range(self.r.randint(1, 2))]
        if self.p(o['p_tr']) and kind in SCALARS and kind not in ('Time',):
            f['tr'] = self.table(f)
        if name and self.p(o['p_src']) and kind != 'Group' and 'x' not in f['src']:
            f['src'] = K(self.pick([name + '2', name + '_src', name.upper()]))
            if self.p(o['p_dot']):
                f['src'] = K(self.pick(['n.', 'n.m.', 'u.']) + name)
        if name and self.p(o['p_tags']):
            f['tags'] = self.r.sample(TAGS, self.r.randint(1, 2))
        f.update(force)
        fid = self.put(f)
        return fid

    def table(self, f):
        out = []
        alike = [x for x in self.flds if x['kind'] == f['kind'] and x['tr']
                 and (f['kind'] != 'Datetime' or x['fmts'] == f['fmts'])]
        if alike and self.p(0.5):       # starts as another one does
            first = copy.deepcopy(self.pick(alike)['tr'][0])
            if first[0]['t'] == 'str' and self.p(0.7):
                extra = [S(self.pick(['ab', 'xyz', 'v1', '12'])), self.const(f)]
                return [first] + ([extra] if extra[0] != first[0] else [])
            return [first]
        for _ in range(self.r.randint(1, 2)):
            a = self.const(f)
            if a['t'] in ('list', 'dict'):
                a = I(3)
            b = self.const(f)
            if not any(x[0] == a for x in out):
                out.append([a, b])
        ks = [x[0] for x in out]
        # equal keys (1 and 1.0) would be one entry
        nums = [k for k in ks if k['t'] in ('int', 'flt', 'dec', 'bool')]
        if len(nums) > 1:
            out = [x for x in out if x[0] not in nums] + [x for x in out if x[0] == nums[0]][:1]
        return out

    def default(self, f):
        k = self.pick(self.o['dflts'])
        if k == 'optional' and f['kind'] == 'Group':      # its own default is an empty list
            k = 'list'
        if k == 'lit':
            v = self.pick([NULL, self.const(f), self.const(f)])
            if v['t'] == 'null':
                f['null'] = 'yes'
            f['dflt'] = {'k': 'lit', 'v': v, 'h': 0}
        elif k == 'hook':
            if f['kind'] == 'Group':      # has a default of its own, so takes no default hook
                return
            f['dflt'] = {'k': 'hook', 'v': NONE, 'h': self.hook('default', f)}
        else:
            f['dflt'] = {'k': k, 'v': NONE, 'h': 0}

    def keyfield(self):
        f = self.rec('String', '', 0)
        if self.p(0.3):
            if self.p(0.5):
                f['minl'] = 1
                f['maxl'] = self.r.randint(2, 4)
            else:
                f['pat'] = self.pattern()
        if self.p(0.15):
            f['tr'] = [[S('a'), S('zz')]]
        if self.p(0.15):
            f['ign'] = [S('b')]
        return self.put(f)

    def unm(self):
        kf = self.put(self.rec('String', '', 0))
        how = self.pick(['str', 'field', 'pair'])
        vf = self.rec('Field', '', 0)
        if how != 'str':
            k = self.pick(['Integer', 'String', 'Field'])
            vf = self.rec(k, '', 0)
            if self.p(0.5):
                self.constrain(vf)
        if how == 'pair' and self.p(0.5):
            self.flds[kf - 1]['pat'] = self.pattern()
        if how == 'pair' and self.p(0.4):   # towards the names of declared fields, too
            to = [S(x['name']) for x in self.flds if x['name']] + [x['src']['k'] and S(x['src']['k']) for x in self.flds if x['src'].get('k')]
            fr = self.r.sample(['zz', 'v1', 'a', 'b', 'q2'], self.r.randint(1, 3))
            self.flds[kf - 1]['tr'] = [[S(x), self.pick(to)] for x in fr]
        vf = self.put(vf)
        df = self.put(self.rec('Dict', '', 0, fs=[kf, vf]))
        return {'k': 'capture', 'df': df, 'how': how}

    # -------------------------------------------------------------- hooks --

    def hook(self, hk, f, reads=(), ops=None):
        ops = list(ops or self.o['hooks'].get(hk) or HOOK_OPS[hk])
        op = self.pick(ops)
        arg = NONE
        if op == 'raisev0':
            op = 'id'
        if op == 'last' and (not reads or self.constrained(f) or f['kind'] not in ('Field', 'String', 'Integer')):
            op = 'const'
        if op == 'last' and f['kind'] != 'Field':
            op = 'const'
        if op in ('const', 'last'):
            arg = self.const(f)
            if hk == 'compute' and self.p(0.15):
                arg = NULL
        if op == 'lt':
            arg = self.num('Integer')
        if op == 'prim':
            if f['kind'] not in PRIMS:
                op, arg = 'const', self.const(f)
            else:
                arg = S(PRIMS[f['kind']])
        if op == 'call' and f['kind'] not in ('Field', 'Integer'):
            op, arg = 'const', self.const(f)
        if op == 'at':
            arg = K(self.pick(['a', 'b', 'zz', 'n']))
        if op == 'key' and f['kind'] not in ('Field',):
            op = 'id'
        self.hooks.append({'reads': list(reads), 'op': op, 'arg': arg})
        return len(self.hooks)

    # ------------------------------------------------------------ classes --

    def names(self, n, off=0):
        out = self.r.sample(NAMES, n)
        if out and self.p(self.o['p_odd']):
            out[self.r.randrange(n)] = self.pick(ODD)
        return out

    def klass(self, depth, inside=None, bases=(), names=None, family=None, **kw):
        """Declare a class; returns its number."""
        o = self.o
        if not bases and family is None and self.p(o['p_inherit']):
            self.o = dict(o, p_inherit=o['p_inherit'] * 0.5)
            bases = (self.klass(depth, inside),)
            if self.p(0.25):
                bases = bases + (self.klass(depth, inside),)
            self.o = o
        self.classes.append(None)
        c = len(self.classes)
        rec = {'name': 'K%d' % c, 'bases': list(bases), 'own': [], 'hide': [], 'anon': self.p(0.1)}
        nm = names or self.names(self.r.randint(*o['nfields']))
        inherited = []
        for b in bases:
            inherited += [self.flds[f - 1]['name'] for f in self.fields_of(b)]
        if bases and inherited and self.p(0.5) and not names:
            nm = list(dict.fromkeys([self.pick(inherited)] + nm))
        for n in nm:
            rec['own'].append(self.field(n, c, depth))
        if bases and self.p(0.15):
            left = [x for x in inherited if x not in nm and x != 'src']
            if left:
                rec['hide'] = [self.pick(left)]
        rec.update(kw)
        self.classes[c - 1] = rec
        self.rank(c)
        if o['p_bc'] or o['p_cap'] or o['p_fromctx']:
            self.derive(c)
        if o['p_hook']:
            self.hook_up(c)
        return c

    def mro(self, c):
        out = [c]
        for b in self.classes[c - 1]['bases']:
            out += self.mro(b)
        return [x for i, x in enumerate(out) if x not in out[i + 1:]]

    def fields_of(self, c):
        """Visible fields (any order)."""
        seen, out = set(), []
        for k in self.mro(c):
            rec = self.classes[k - 1]
            for f in rec['own']:
                n = self.flds[f - 1]['name']
                if n not in seen:
                    seen.add(n)
                    out.append(f)
            for n in rec['hide']:
                seen.add(n)
        return out

    def hook_up(self, c):
        """Give the fields of a class user hooks; reads follow the ranks."""
        for fid in self.classes[c - 1]['own']:
            self.hook_field(fid, c)

    def rank(self, c):
        names = [self.flds[f - 1]['name'] for f in self.fields_of(c)]
        rank = self.ranks.setdefault(c, {})
        order = list(names)
        self.r.shuffle(order)
        top = 0
        odd = False
        for b in self.mro(c)[1:]:
            odd = odd or b in self.level
            for n, x in self.ranks.get(b, {}).items():
                odd = odd or rank.get(n, x) != x
                rank[n] = x
                top = max(top, x + 1)
        for i, n in enumerate(order):
            rank.setdefault(n, top * self.r.randint(0, 1) + i)
        if odd:     # two bases order their names differently: what is added here reads none
            self.level.add(c)
            for n in rank:
                rank[n] = 0

    def derive(self, c):
        """Make some fields of a class derived ones."""
        o = self.o
        rank = self.ranks[c]
        for fid in self.classes[c - 1]['own']:
            f = self.flds[fid - 1]
            if f['kind'] == 'Group':
                continue
            if f['kind'] in SCALARS and self.p(o['p_bc']):
                low = [n for n, x in rank.items() if x < rank[f['name']]]
                if f['kind'] in ('String', 'Type') and self.p(0.75):
                    names = []
                    for _ in range(self.r.randint(1, 3)):
                        if low:
                            names.append(self.chain(c, self.pick(low)))
                    if self.p(0.05):
                        names.append(['nosuch'])
                    f['bc'] = {'k': 'format', 'names': names,
                               'lits': [self.pick(['', '', '-', 'a ', ':']) for _ in range(len(names) + 1)]}
                elif f['kind'] != 'Type':      # there `constant` makes another field
                    v = self.const(f)
                    if v['t'] not in ('list', 'dict'):
                        f['bc'] = {'k': 'const', 'v': v}
            elif f['kind'] in ('String', 'Type') and self.p(o['p_cap']):
                f['cap'] = self.pattern()
            elif f['kind'] in SCALARS and self.p(o['p_fromctx']):
                old, new = f['name'], self.pick(['u', 'w'])
                taken = [self.flds[x - 1]['name'] for x in self.fields_of(c)]
                if new in taken or len(self.classes[c - 1]['bases']):
                    continue
                f['fromctx'] = True
                f['name'] = new
                f['src'] = K(new)
                rank[new] = rank.pop(old)

    def chain(self, c, name):
        """A field name, or a way down into a sub-form from it."""
        out = [name]
        f = [self.flds[x - 1] for x in self.fields_of(c) if self.flds[x - 1]['name'] == name]
        if f and f[0]['kind'] == 'SubForm' and self.p(0.8):
            sub = self.fields_of(f[0]['cls'])
            if sub:
                out += self.chain(f[0]['cls'], self.flds[self.pick(sub) - 1]['name'])
        return out

    def outer_reads(self, p=0.5):
        """Let hooks inside sub-forms read the enclosing forms."""
        place = {}
        for f in self.flds:
            for g in [f] + [self.flds[i - 1] for i in f.get('fs', [])]:
                if g['kind'] == 'SubForm' and f['owner']:
                    place.setdefault(g['cls'], []).append((f['name'], f['owner']))
        for f in self.flds:
            if not f['owner'] or f['kind'] == 'Type':
                continue
            for h in list(f['hooks'].values()) + ([f['dflt']['h']] if f['dflt']['k'] == 'hook' else []):
                if not h or not self.p(p):
                    continue
                c, up = f['owner'], 0
                while len(place.get(c, [])) == 1 and up < 3:
                    name, c = place[c][0]
                    up += 1
                    rank = self.ranks.get(c, {})
                    if name not in rank:
                        break
                    low = [n for n, x in rank.items() if x < rank[name]]
                    if low and self.p(0.6):
                        n = self.pick(low)
                        self.hooks[h - 1]['reads'].append({'k': 'get', 'up': up, 'ch': self.chain(c, n), 'catch': self.p(0.9)})
                        break

    def reads_for(self, f, c):
        """What a hook of field f of class c may read without ending up in itself."""
        out = []
        if not self.p(self.o['p_read']):
            return out
        rank = self.ranks.get(c, {})
        me = rank.get(f['name'], 0)
        for _ in range(self.r.randint(1, 2)):
            k = self.pick(self.o['reads'])
            if k == 'var':
                out.append({'k': 'var', 'v': self.pick(['u', 'w'])})
                continue
            low = [n for n, x in rank.items() if x < me]
            if k == 'get' and low:
                out.append({'k': 'get', 'up': 0, 'ch': self.chain(c, self.pick(low)), 'catch': self.p(0.9)})
            if k == 'sub':
                o, self.o = self.o, dict(self.o, p_hook=0.0, p_read=0.0, nfields=(1, 2))
                sc = self.klass(0)
                js = self.p(0.4)
                d = self.doc(sc, self.q(json=js))
                if self.p(0.1):
                    d = self.junk(self.q(json=js))
                self.o = o
                out.append({'k': 'map', 'c': sc, 's': self.src(self.json(d) if js else self.native(d)),
                            'mode': self.pick(['collect', 'collect', 'raise'])})
        return out

    def hook_field(self, fid, c, force=None):
        f = self.flds[fid - 1]
        o = self.o
        allowed = [h for h in ('compute', 'resolve', 'parse', 'munge', 'filter', 'validate') if h in o['hooks']]
        if f['kind'] == 'Group' or f['fromctx']:
            allowed = [h for h in allowed if h not in ('resolve',)]
        if f['kind'] == 'Group':
            allowed = [h for h in allowed if h not in ('parse', 'compute')]
        if f['kind'] in ('Tuple', 'SubForm', 'Poly') and 'munge' in allowed:
            pass
        for h in allowed:
            if not self.p(o['p_hook']):
                continue
            if h == 'parse' and f.get('ipat', NOPAT)['k'] != 'none':
                continue
            if h == 'compute' and f['bc']['k'] != 'none':
                continue
            if h == 'munge' and f['cap']['k'] != 'none':
                continue
            ops = o['hooks'].get(h)
            f['hooks'][h] = self.hook(h, f, self.reads_for(f, c), ops)
        if f['dflt']['k'] == 'hook':
            self.hooks[f['dflt']['h'] - 1]['reads'] = self.reads_for(f, c)
        if f['kind'] == 'Dict' and 'keyf' in o['hooks'] and self.p(o['p_hook']):
            f['hooks']['keyf'] = self.hook('keyf', f, self.reads_for(f, c))

    def family(self, depth, inside=None):
        """A polymorphic family: a base with a type field, and its sub-classes."""
        self.classes.append(None)
        c = len(self.classes)
        base = {'name': 'K%d' % c, 'bases': [], 'own': [], 'hide': []}
        pre = []
        if self.p(0.4):
            pre = [self.field('a', c, 0)]
        tf = self.rec('Type', 't', c, tstyle='abstract')
        if self.p(0.3):
            tf['src'] = K('kind')
        x = self.r.random()
        if x < 0.15:
            tf['dflt'] = {'k': 'lit', 'v': S('v1'), 'h': 0}
        elif x < 0.3:
            tf['dflt'] = {'k': 'lit', 'v': NULL, 'h': 0}
            tf['null'] = 'yes'
        elif x < 0.4:
            tf['dflt'] = {'k': 'optional', 'v': NONE, 'h': 0}
        if self.p(0.2):
            tf['tr'] = [[S('one'), S('v1')]]
        tfid = self.put(tf)
        base['own'] = pre + [tfid] + ([self.field('b', c, 0)] if self.p(0.4) else [])
        self.classes[c - 1] = base
        vals = ['v1', 'v2', 'v3', 'v4', 'v5']
        parents = [c]
        for _ in range(self.r.randint(1, 3)):
            par = self.pick(parents)
            self.classes.append(None)
            k = len(self.classes)
            rec = {'name': 'K%d' % k, 'bases': [par], 'own': [], 'hide': []}
            n = 2 if self.p(0.2) and len(vals) > 1 else 1
            ch, vals = vals[:n], vals[n:]
            if not ch:
                ch = ['w%d' % k]
            f = self.rec('Type', 't', k, tstyle='instance', ch=[S(x) for x in ch], src=dict(tf['src']))
            f['dflt'] = {'k': 'lit', 'v': S(ch[0]), 'h': 0} if n == 1 else {'k': 'optional', 'v': NONE, 'h': 0}
            if tf['tr']:
                f['tr'] = copy.deepcopy(tf['tr'])
            if n == 1 and self.p(0.2) and f['src'] == K('t') and not f['tr']:
                f['bc'] = {'k': 'const', 'v': S(ch[0])}
                f['tstyle'] = 'constant'
            rec['own'] = [self.put(f)]
            for nm in self.r.sample(['c', 'd', 'e'], self.r.randint(0, 2)):
                rec['own'].append(self.field(nm, k, max(depth - 1, 0)))
            self.classes[k - 1] = rec
            parents.append(k)
        if self.o['p_hook']:
            for k in parents:
                self.rank(k)
                self.hook_up(k)
        fam = {'tf': tfid, 'base': c, 'all': parents}
        self.families.append(fam)
        return fam

    # ---------------------------------------------------------- documents --

    def junk(self, q, depth=1):
        r = self.r
        c = r.randint(0, 13)
        if c == 0:
            return NULL
        if c == 1:
            return B(self.p(0.5))
        if c == 2:
            return I(r.randint(-3, 12))
        if c == 3:
            return FL(r.randint(-16, 80) * 125)
        if c in (4, 5, 6):
            return S(self.pick(['', 'ab', 'xyz', 'v1', '12', ' 7 ', '1.5', 'true', '2020-02-30', 'nope', 'a b', '-', '1_0', 'a~', '^']))
        if c == 7:
            return self.pick([NANF, INF(1), INF(-1), BIGI, dict(BIGI, s=-1), self.wide()])
        if c in (8, 9, 10):
            if depth <= 0:
                return L([])
            return L([self.junk(q, depth - 1) for _ in range(r.randint(0, 3))])
        if depth <= 0:
            return D([])
        return D([(K(self.pick(['a', 'b', 'v1', 'k', 'zz', 't'])), self.junk(q, depth - 1)) for _ in range(r.randint(0, 3))])

    def wide(self):
        """A whole number of many digits."""
        s = self.pick(['', '-']) + self.pick(WIDE)
        x = self.r.randint(0, 4)
        if x < 2:
            return {'t': 'wide', 'k': 'int', 's': s}
        if x == 2 and s[-3:] not in ('993', '995'):
            return {'t': 'wide', 'k': 'flt', 's': s}
        return S(self.pick([s, '0' + s if s[0] != '-' else s, s + ' ']))

    def rstr(self, f):
        r = self.r
        chars = f['alpha'] or self.pick(['abcxyz0123'] * 5 + ['ab~^'])
        if f['pat']['k'] != 'none' and self.p(0.85):
            p = f['pat']
            n = r.randint(max(0, p['mn'] - 1), p['mx'] + 1)
            return p['pre'] + ''.join(self.pick(p['cls']) for _ in range(n)) + p['suf'] + self.pick(['', '', '', 'q'])
        if f['ch'] and self.p(0.8):
            return self.pick(f['ch'])['s']
        n = r.randint(0, 4) if not self.p(0.05) else r.randint(8, 40)
        edges = [e for e in (f['minl'], f['maxl']) if e >= 0]
        if edges and self.p(0.8):
            n = max(0, self.pick(edges) + r.randint(-1, 1))
        s = ''.join(self.pick(chars) for _ in range(n))
        if f['alpha'] and self.p(0.2):
            s += self.pick('!Q')
        if edges and self.p(0.15):
            s = self.pick([' ' + s, s + ' ', ' ' * len(s)])
        return s

    def rnum(self, f, q):
        """A number near the bounds, in one of its representations."""
        k = f['kind']
        r = self.r
        if f['ipat']['k'] != 'none':
            p = f['ipat']
            n = r.randint(max(0, p['mn'] - 1), p['mx'] + 1)
            s = p['pre'] + ''.join(self.pick(p['cls']) for _ in range(n)) + p['suf'] + self.pick(['', '', 'x'])
            return S(s)

        def m(v):
            return v['i'] * 1000 if v['t'] == 'int' else v['m']
        edges = [m(v) for v in (f['lo'], f['hi']) if v is not NONE and v['t'] != 'NONE']
        if edges and self.p(0.8):
            x = self.pick(edges) + self.pick([0, 0, 125, -125, 1000, -1000])
        else:
            x = r.randint(-16, 80) * 125 if not self.p(0.08) else r.randint(-99999, 99999) * 1000
        if k == 'Integer':
            i = x // 1000
            if self.p(0.08):
                return self.pick([FL(x), S('%d.0' % i), S(''), B(True), BIGI, self.wide(), self.wide(), self.wide()])
            return self.pick([I(i), I(i), S(str(i)), FL(i * 1000), S(' %d ' % i), S('+%d' % abs(i)), S('0%d' % abs(i))])
        txt = ('-' if x < 0 else '') + '%d.%03d' % (abs(x) // 1000, abs(x) % 1000)
        if self.p(0.08):
            return self.pick([S('nan'), S('inf'), S('-Infinity'), S('1e400'), NANF, INF(1), BIGI, S('.5'), S('5.'), S('1e2'), S(' 2.5 '),
                              self.wide(), self.wide(), self.wide()])
        short = txt.rstrip('0').rstrip('.') or '0'
        opts = [FL(x), FL(x), S(txt), S(short), I(x // 1000), S(short + ' ')]
        if k == 'Decimal' and not q['json'] and self.p(q['native_typed']):
            opts = [DE(x)]
        return self.pick(opts)

    def rdate(self, f, q):
        r = self.r
        d, mo, y = r.randint(1, 28), 2, 2020
        if self.p(0.15):
            mo, y = r.randint(1, 12), self.pick([1999, 2020, 2021, 2100])
            d = self.pick([1, 28, 29, 30, 31]) if mo in (1, 3, 5, 7, 8, 10, 12) else self.pick([1, 28])
        edges = [v for v in (f['after'], f['before']) if v['t'] != 'NONE']
        if edges and self.p(0.7):
            d = max(1, min(28, self.pick(edges).get('d', 1) + self.pick([0, 0, 1, -1])))
        h, mi, s = r.randint(0, 23), self.pick([0, 15, 30]), self.pick([0, 0, 59])
        if edges and f['kind'] != 'Date' and self.p(0.7):
            e = self.pick(edges)
            h, mi, s = e['h'], e['mi'], e['s']
            s = self.pick([s, s, 1])
        if f['kind'] == 'Datetime' and edges:
            d = 28
        k = f['kind']
        if not q['json'] and self.p(q['native_typed']):
            if k == 'Date':
                return self.pick([date(y, mo, d), dt(y, mo, d, h, mi, s)])
            if k == 'Datetime':
                z = 0 if f['fmts'] == ['iso8601'] else -9999
                zones = [e['z'] for e in edges] or [z]
                return dt(y, mo, d, h, mi, s, self.pick(zones + [z, self.pick([-9999, 0, 60, -330])]))
            if edges and self.p(0.6):
                return tm(h, mi, s) if edges[0]['t'] == 'time' else st(h, mi, s)
            return tm(h, mi, s) if self.p(0.3) else st(h, mi, s)
        if self.p(0.12):
            return S(self.pick(['2020-02-30', '2019-02-29', '', 'soon', '1/2', '24:00', '2020-13-01', '2020-02-28T25:00']))
        fmt = self.pick(f['fmts']) if f['fmts'] else '%Y-%m-%d'
        if fmt == 'iso8601':
            base = '%04d-%02d-%02d' % (y, mo, d)
            z = self.pick(['Z', '+00:00', 'Z', '+02:00', '-05:30', ''])
            return S(base + self.pick(['', 'T%02d:%02d:%02d%s' % (h, mi, s, z), 'T%02d:%02d%s' % (h, mi, z),
                                       ' %02d:%02d:%02d' % (h, mi, s)]))
        t = fmt
        for a, b in (('%Y', '%04d' % y), ('%m', '%02d' % mo), ('%d', self.pick(['%02d', '%d']) % d),
                     ('%H', '%02d' % h), ('%M', '%02d' % mi), ('%S', '%02d' % s)):
            t = t.replace(a, b)
        return S(t)

    def value(self, fid, q, depth=0):
        """A document value for a field (None: leave it out)."""
        f = self.flds[fid - 1]
        r = self.r
        k = f['kind']
        if self.p(q['p_absent']):
            return None
        if self.p(q['p_nullv']):
            return NULL
        if f['ign'] and self.p(0.3):
            return self.plain(self.pick(f['ign']), q)
        if f['tr'] and self.p(0.4):
            return self.plain(self.pick(f['tr'])[0], q)
        if self.p(q['p_bad']):
            return self.junk(q)
        if f['cap']['k'] != 'none':
            g = dict(f, pat=f['cap'])
            return S(self.rstr(g))
        if k == 'Field':
            return self.junk(q)
        if k in ('String', 'Type'):
            return S(self.rstr(f))
        if k in ('Integer', 'Float', 'Decimal'):
            return self.rnum(f, q)
        if k == 'Boolean':
            if q['json'] and self.p(0.7):
                return self.pick([B(True), B(False), I(1), I(0)])
            return self.pick([B(True), B(False), I(1), I(0), S('true'), S('F'), S('0'), S('yes'), S('T'), S('False'), FL(0)])
        if k in ('Date', 'Datetime', 'Time'):
            return self.rdate(f, q)
        if k == 'Code':
            return S(self.pick(CODES if self.p(0.75) else BADCODES))
        if k == 'UUID':
            u = 'a2345678-1234-5678-1234-56781234567%d' % r.randint(0, 9)
            if not q['json'] and self.p(q['native_typed']):
                return {'t': 'uuid', 's': u}
            return S(self.pick([u, u.replace('-', ''), '{%s}' % u, u.upper() if False else u, u[:-1]]))
        if k == 'Tuple':
            vs = [self.value(i, q) or NULL for i in f['fs']]
            if self.p(0.12):
                vs = vs[:-1] if self.p(0.5) else vs + [I(1)]
            return {'t': 'tup', 'l': vs} if not q['json'] and self.p(0.4) else L(vs)
        if k == 'List':
            n = r.randint(0, 3)
            edges = [e for e in (f['minl'], f['maxl']) if e >= 0]
            if edges and self.p(0.8):
                n = max(0, self.pick(edges) + r.randint(-1, 1))
            if depth == 0 and self.p(0.04):
                n = r.randint(9, 13)
            if f['allow'] and self.p(0.4):
                return self.value(f['fs'][0], q) or NULL
            return L([self.value(f['fs'][0], q) or NULL for _ in range(n)])
        if k == 'Dict':
            ks = self.r.sample(['a', 'b', 'zz', 'id-1', 'v12', 'abc', '', 'x y', 'k~'], r.randint(0, 4))
            if f['req'] and self.p(0.7):
                ks = list(dict.fromkeys(ks + [x['k'] for x in f['req'] if 'k' in x]))
            ns = [x for x in f['req'] if 'n' in x and self.p(0.7)]
            if ns and not q['json']:
                return D([(x, self.value(f['fs'][1], q) or NULL) for x in ns] + [(K(x), self.value(f['fs'][1], q) or NULL) for x in ks[:1]])
            if self.p(0.04):
                ks += ['k%d' % i for i in range(r.randint(6, 12))]
            return D([(K(x), self.value(f['fs'][1], q) or NULL) for x in ks])
        if k == 'SubForm':
            return self.doc(f['cls'], q)
        if k == 'Poly':
            fam = [x for x in self.families if x['tf'] == f['tf']][0]
            return self.polydoc(fam, q)
        return self.junk(q)

    def alike(self, d):
        """Beside nested keys, one key that looks like them."""
        if d['t'] != 'dict':
            return
        for k, v in list(d['d']):
            if self.p(0.5):
                self.alike(v)
            if v['t'] != 'dict' or not v['d'] or '.' in k.get('k', '.'):
                continue
            k2, w = self.pick(v['d'])
            name = K(k['k'] + '.' + k2.get('k', '.'))
            if '.' in k2.get('k', '.') or any(e[0] == name for e in d['d']) or not self.p(0.6):
                continue
            w = copy.deepcopy(w)
            if w['t'] == 'dict' and w['d']:
                i = self.r.randrange(len(w['d']))
                w['d'][i][1] = I(77) if self.p(0.5) else S('other')
            else:
                w = I(78)
            d['d'].insert(self.pick([0, len(d['d'])]), [name, w])

    def plain(self, v, q):
        """A value as a document can carry it."""
        if v['t'] == 'code':
            return S(v['s'])
        if v['t'] in ('date', 'dt', 'st', 'uuid', 'dec', 'time') and q['json']:
            return self.pick([NULL, S('ab')])
        return v

    def polydoc(self, fam, q):
        c = self.pick(fam['all'])
        doc = self.doc(c, q)
        tf = [f for f in self.fields_of(c) if self.flds[f - 1]['name'] == 't'][0]
        base = self.flds[fam['tf'] - 1]
        key = base['src']
        doc['d'] = [e for e in doc['d'] if e[0] != key]
        x = self.r.random()
        if x < 0.75:
            ch = self.flds[tf - 1]['ch']
            v = self.pick(ch) if ch else S('v1')
            if base['tr'] and self.p(0.3):
                v = S('one')
            doc['d'].insert(self.r.randint(0, len(doc['d'])), [key, v])
        elif x < 0.9:
            doc['d'].append([key, self.junk(q, 0)])
        return doc

    def doc(self, c, q):
        """A document for a class."""
        out = []
        nested = []
        for fid in self.fields_of(c):
            f = self.flds[fid - 1]
            if f['kind'] == 'Group':
                for g in f['gs']:
                    if self.p(0.3):
                        continue
                    v = self.value(g['f'], q)
                    if v is None:
                        continue
                    if g['k'] == 'key':
                        key = g['key']
                    else:
                        p = g['pat']
                        n = self.r.randint(p['mn'], p['mx'])
                        key = K(p['pre'] + ''.join(self.pick(p['cls']) for _ in range(n)) + p['suf'])
                    out.append((key, v))
                continue
            v = self.value(fid, q)
            if v is None:
                continue
            if 'x' in f['src']:
                if v['t'] == 'dict':
                    out += [tuple(e) for e in v['d']]
                continue
            key = f['src']
            if 'k' in key and '.' in key['k'] and not self.p(0.1):
                nested.append((key['k'].split('.'), v))
                continue
            if self.p(0.04) and f['name']:
                key = K(f['name'])
            out.append((key, v))
        if self.p(q['p_extra']):
            out.append((K(self.pick(['zz', 'extra', 'v1', 'a', 'b'])), self.junk(q)))
        if self.p(q['p_shuffle']):
            self.r.shuffle(out)
        d = D(out)
        for parts, v in nested:
            cur = d
            for x in parts[:-1]:
                nxt = [e for e in cur['d'] if e[0] == K(x)]
                if nxt and nxt[0][1]['t'] == 'dict':
                    cur = nxt[0][1]
                else:
                    cur['d'] = [e for e in cur['d'] if e[0] != K(x)] + [[K(x), D([])]]
                    cur = cur['d'][-1][1]
            cur['d'] = [e for e in cur['d'] if e[0] != K(parts[-1])] + [[K(parts[-1]), v]]
        return d

    def q(self, **kw):
        q = dict((k, self.o[k]) for k in ('p_bad', 'p_absent', 'p_nullv', 'p_extra', 'p_shuffle', 'json', 'native_typed'))
        q.update(kw)
        return q

    # ------------------------------------------------------------ sources --

    def native(self, v, al=(), **kw):
        return dict({'k': 'native', 'v': v, 'al': list(al), 'style': self.r.getrandbits(4)}, **kw)

    def partial(self, v, p=1.0):
        """A native source told to leave some of its locations out."""
        s = self.native(v)
        ig = []
        while v['t'] == 'dict' and self.p(p) and len(ig) < 2:
            names, at = [], v
            while at is not None and at['t'] == 'dict' and len(names) < 3:
                keys = [e for e in at['d'] if e[0].get('k', '.').replace('_', 'a').isalnum()]
                if not keys:
                    break
                e = self.pick(keys)
                names.append(e[0]['k'])
                at = e[1]
                if self.p(0.5):
                    break
            if not names:
                break
            ig.append(names)
            p *= 0.5
        if ig:
            s['ig'] = ig
        return s

    def aliased(self, v):
        """A native source with other names for some keys or items of its root."""
        ks = [e[0] for e in v['d']] if v['t'] == 'dict' else [N(i) for i in range(len(v['l']))]
        s = self.native(v)
        names = self.r.sample(['a', 'b', 'k', 'v1', 'zz', 'nope', 'count'], self.r.randint(1, 3))
        if ks:
            s['al'] = [[K(n), self.pick(ks) if self.p(0.8) else N(7)] for n in names]
        return s

    def json(self, v, strict=False, **kw):
        return dict({'k': 'json', 'v': v, 'strict': strict, 'style': self.r.getrandbits(4)}, **kw)

    def union(self, ms, mm='first', sm='first', depth=-1):
        self.ord = False
        return {'k': 'union', 'ms': ms, 'mm': mm, 'sm': sm, 'depth': depth, 'style': self.r.getrandbits(6)}

    def mount(self, es):
        self.ord = False
        return {'k': 'mount', 'es': [[K(k), s] for k, s in es], 'style': self.r.getrandbits(4)}

    def src(self, s):
        self.srcs.append(s)
        return len(self.srcs)

    # --------------------------------------------------------- operations --

    def op(self, o, **kw):
        self.ops.append(dict({'o': o, 'style': self.r.getrandbits(8)}, **kw))

    def map(self, x, src, tags=(), reset=False, unm=None, mode='collect'):
        self.op('map', x=x, src=src, tags=list(tags), reset=reset, unm=unm or {'k': 'ignore'}, mode=mode)

    def raw(self, v):
        return {'a': 'none'} if v['t'] == 'null' else {'a': 'raw', 'v': v}

    def asrc(self, s):
        return {'a': 'src', 'i': self.src(s)}

    def grow(self, x, c, p=1.0):
        """Add to a container a form was given."""
        fs = [f for f in self.fields_of(c) if self.flds[f - 1]['kind'] in ('List', 'Dict', 'Group', 'SubForm', 'Poly')
              and self.flds[f - 1]['dflt']['v']['t'] not in ('list', 'dict')]
        if fs and self.p(p):
            self.op('grow', x=x, n=self.flds[self.pick(fs) - 1]['name'])

    def again(self):
        """Map one of the sources (the same object) once more into a new form."""
        made = {}
        cands = []
        for op in self.ops:
            if op['o'] == 'new':
                made[op['x']] = op
            elif op['o'] == 'map' and op['x'] in made and op['src']['a'] != 'none':
                cands.append((made[op['x']], op))
        if cands:
            new, op = self.pick(cands)
            op['src']['same'] = len(self.ops)
            self.ops += [dict(new), dict(op)]

    def program(self):
        if self.p(0.2):
            self.again()
        for f in self.flds:
            f.pop('hooks_parse_used', None)
            if f.pop('bare_src', None):
                f['bare'] = f['src']
                f['src'] = dict(X)
        return {'flds': self.flds, 'classes': self.classes, 'hooks': self.hooks, 'srcs': self.srcs,
                'ops': self.ops, 'nslots': self.nslots, 'ord': self.ord}
