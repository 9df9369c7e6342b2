"""
Random families of programs, one or more per property: what a program is about,
and the history of operations it runs.  Every profile is a function of a random
generator; all of them produce programs of the machine in spec/Pilo.tla.
"""
import copy

from gen import (Gen, K, N, S, I, B, FL, L, D, X, NONE, NULL, SCALARS, TAGS, date, dt, st)

ALLHOOKS = {'compute': None, 'resolve': None, 'parse': None, 'munge': None, 'filter': None, 'validate': None}


def hooks(*names):
    return dict((n, None) for n in (names or ALLHOOKS))


# ---------------------------------------------------------------- documents --

def arg(g, d, js=None, strict=None):
    """A source argument for a document."""
    if js is None:
        js = plain(d) and g.p(0.3)
    if js:
        return g.asrc(g.json(d, strict=g.p(0.3) if strict is None else strict))
    return g.raw(d) if g.p(0.6) else g.asrc(g.native(d))


def entries(g, d, js):
    """A document whose entries are sources of their own."""
    es = {}
    for k, v in d['d']:
        if 'k' in k and k['k'] != 'self':      # the name of the constructor's own argument
            es[k['k']] = g.json(v) if js and g.p(0.6) else g.native(v)
    if g.p(0.2):
        es.setdefault('zz', g.native(NULL))
    return g.asrc(g.mount(list(es.items())))


def anyarg(g, d, js):
    """A source argument for a document, of any kind of source that is fit for it."""
    if d['t'] == 'dict' and g.p(0.35):
        c = g.r.randint(0, 3)
        if c == 0:
            return entries(g, d, js)
        if c == 1:
            return g.asrc(g.partial(d, 0.2))
        return g.asrc(g.union([g.json(d) if js else g.native(d)] + ([g.native(D([]))] if g.p(0.5) else []),
                              g.pick(['first', 'combine']), g.pick(['first', 'combine'])))
    return arg(g, d, js)


def plain(v):
    """Can JSON carry it?"""
    t = v['t']
    if t in ('null', 'bool', 'int', 'flt', 'str'):
        return True
    if t in ('nan', 'inf', 'big', 'wide'):
        return v['k'] in ('flt', 'int')
    if t == 'list':
        return all(plain(x) for x in v['l'])
    if t == 'dict':
        return all('k' in k and plain(x) for k, x in v['d'])
    return False


def mapping(g, c, n=2, js=None, **kw):
    for _ in range(n):
        j = g.p(0.4) if js is None else js
        d = g.doc(c, g.q(json=j))
        if g.p(0.08):
            g.alike(d)
        a = arg(g, d, j)
        g.op('new', x=1, c=c)
        g.map(1, a, mode=g.pick(['collect', 'collect', 'collect', 'raise']), **kw)
        g.grow(1, c, g.o['p_grow'])


# ----------------------------------------------------------------- profiles --

def scalars(r):
    """Scalar fields with all their constraints, values around their limits."""
    g = Gen(r, p_container=0.0, p_con=0.85, p_bad=0.1, p_absent=0.08, p_nullv=0.08, nfields=(2, 6), depth=0,
            p_dflt=0.25, p_ign=0.1, p_tr=0.2)
    c = g.klass(0)
    mapping(g, c, 3)
    for _ in range(r.randint(0, 2)):
        render(g)
    return g.program()


def render(g):
    """A date or time written in a format."""
    f = {'kind': g.pick(['Date', 'Datetime', 'Time'])}
    g.formats(f)
    f['fmts'] = [x for x in f['fmts'] if x != 'iso8601'] or [g.pick(['%Y/%m/%d', '%d.%m.%Y'] if f['kind'] != 'Time' else ['%H.%M.%S'])]
    r = g.r
    d = (r.randint(1000, 2100), r.randint(1, 12), r.randint(1, 28))
    t = (r.randint(0, 23), r.randint(0, 59), r.randint(0, 59))
    v = st(*t) if f['kind'] == 'Time' else dt(*(d + t + (-9999,))) if f['kind'] == 'Datetime' or g.p(0.3) else date(*d)
    g.op('render', kind=f['kind'], fmts=f['fmts'], v=v)


def nested(r):
    g = Gen(r, p_container=0.7, depth=3, nfields=(1, 3), p_con=0.6, p_bad=0.15, p_absent=0.1)
    c = g.klass(3)
    mapping(g, c, 2)
    return g.program()


def junk(r):
    g = Gen(r, p_container=0.5, depth=2, p_con=0.6, p_bad=0.8, nfields=(2, 5), p_unm=0.4, p_dot=0.2,
            p_bc=0.05, p_cap=0.15, p_ign=0.25, p_tr=0.3, p_flat=0.2)
    c = g.klass(2)
    mapping(g, c, 2)
    g.op('new', x=1, c=c)
    g.map(1, g.raw(g.junk(g.q(), 2)), unm=g.unm() if g.p(0.3) else None)
    return g.program()


def named(g):
    """Classes of errors the context names instead of the usual ones."""
    more = {}
    if g.p(0.4):
        more[g.pick(['ignore_missing', 'ignore_default'])] = g.p(0.8)
    return dict(g.pick([{'Missing': 'Absent'}, {'Invalid': 'Broken'}, {'Missing': 'Absent', 'Invalid': 'Broken'}]), **more)


def defaults(r):
    g = Gen(r, p_dflt=0.75, p_ign=0.4, p_null=0.5, p_absent=0.45, p_nullv=0.2, p_bad=0.1, p_container=0.3, depth=1, p_grow=0.5,
            nfields=(2, 5), p_hook=0.25, hooks={'munge': ('id', 'NONE', 'const'), 'filter': ('true', 'false', 'lt')})
    c = g.klass(1)
    for _ in range(2):
        sc = g.pick([None, None, ('ignore_default',), ('ignore_missing',), ('ignore_default', 'ignore_missing')])
        if sc:
            g.op('enter', x=1, c={'k': 'vars', 'vars': dict((v, g.p(0.85)) for v in sc)})
        mapping(g, c, 1)
        if sc:
            g.op('leave', x=1)
    mapping(g, c, 1)
    return g.program()


def staging(r):
    g = Gen(r, p_hook=0.6, hooks=hooks(), p_container=0.3, depth=1, nfields=(1, 4), p_con=0.3, p_dflt=0.4, p_null=0.3,
            p_bad=0.2, p_absent=0.2, p_nullv=0.15, p_ign=0.15, p_tr=0.15, p_inherit=0.1, p_clone=0.2)
    c = g.klass(1)
    mapping(g, c, 2)
    return g.program()


def reads(r):
    g = Gen(r, p_hook=0.5, hooks={'compute': ('const', 'last', 'last', 'call', 'NONE'), 'munge': ('id', 'add', 'last'),
                                  'filter': ('true', 'notnull', 'false'), 'validate': ('true', 'notnull', 'false'),
                                  'resolve': ('dflt', 'at'), 'parse': ('prim', 'const')},
            p_read=0.8, reads=('get', 'get', 'get', 'get', 'var', 'sub'), p_container=0.4, depth=2, nfields=(2, 4),
            p_con=0.2, p_bad=0.1, p_absent=0.15, p_dflt=0.4, p_null=0.2, p_ign=0.05, p_tr=0.1,
            p_bc=0.08, p_inherit=0.1, p_dot=0.05)
    c = g.klass(2)
    g.outer_reads()
    for _ in range(2):
        j = g.p(0.4)
        d = g.doc(c, g.q(json=j))
        a = anyarg(g, d, j)
        g.op('new', x=1, c=c)
        g.map(1, a, mode=g.pick(['collect', 'collect', 'raise']))
        for n in [g.flds[f - 1]['name'] for f in g.fields_of(c)]:
            if g.p(0.2):
                g.op('get', x=1, n=n)
    return g.program()


def crash(r):
    """Exceptions from any hook, and what is left of the context afterwards."""
    ops = dict((h, None) for h in ALLHOOKS)
    g = Gen(r, p_hook=0.25, hooks=dict(compute=('const', 'raise', 'raisev', 'last'), resolve=('dflt', 'at', 'raise', 'raisev'),
                                       parse=('prim', 'raise', 'raisev', 'invalid'), munge=('id', 'raise', 'raisev', 'ERROR'),
                                       filter=('true', 'raise', 'raisev'), validate=('true', 'raise', 'raisev', 'invalid')),
            p_read=0.3, reads=('get', 'get', 'var', 'sub'), p_container=0.55, depth=3, nfields=(1, 3), p_con=0.3,
            p_bad=0.15, p_absent=0.1, p_unm=0.3, p_flat=0.2, dflts=('optional', 'lit', 'hook'))
    del ops
    c = g.klass(3)
    g.outer_reads(0.3)
    js = g.p(0.4)
    d = g.doc(c, g.q(json=js))
    d2 = g.doc(c, g.q(json=js))
    scoped = g.p(0.4)
    g.nslots = 2
    g.op('new', x=1, c=c)
    g.op('new', x=2, c=c)
    if scoped:
        g.op('enter', x=1, c={'k': 'vars', 'vars': {'u': I(g.r.randint(0, 9))}})
    mode = g.pick(['collect', 'raise'])
    g.map(1, arg(g, d, js), mode=mode)
    g.map(2, arg(g, d2, js), mode=g.pick(['collect', 'raise']))
    if g.families and g.p(0.6):
        fam = g.pick(g.families)
        g.op('cast', x=1, f=fam['tf'], src=arg(g, g.polydoc(fam, g.q(json=js)), js))
    names = [g.flds[f - 1]['name'] for f in g.fields_of(c)]
    g.op('get', x=1, n=g.pick(names))
    g.op('new', x=2, c=c)
    g.map(2, arg(g, d, js), mode=mode)
    if scoped:
        g.op('leave', x=1)
    return g.program()


def verdicts(r):
    """The same document collected, raised, and given to the constructor."""
    g = Gen(r, p_container=0.5, depth=2, nfields=(1, 4), p_con=0.6, p_bad=0.2, p_absent=0.1,
            p_hook=0.08, hooks={'validate': ('true', 'false', 'lt', 'invalid'), 'munge': ('id', 'ERROR', 'invalid'),
                                'compute': ('const', 'ERROR', 'invalid')}, p_unm=0.2)
    if g.p(0.5):
        g.o.update(p_bad=0.03, p_absent=0.02, p_con=0.3)
    c = g.klass(2)
    js = g.p(0.4)
    d = g.doc(c, g.q(json=js))
    if g.p(0.05):
        d = g.junk(g.q(json=js), 1)
    a = arg(g, d, js)
    g.nslots = 3
    if g.p(0.25):
        g.op('enter', x=1, c={'k': 'vars', 'vars': named(g)})
    for x, mode in ((1, 'collect'), (2, 'raise')):
        g.op('new', x=x, c=c)
        g.map(x, copy.deepcopy(a), mode=mode)
    g.op('new', x=3, c=c)
    g.op('make', x=3, c=c, src=copy.deepcopy(a), kw=False)
    return g.program()


def errors(r):
    g = Gen(r, p_container=0.65, depth=3, nfields=(1, 4), p_con=0.7, p_bad=0.25, p_absent=0.15, p_nullv=0.1,
            p_dflt=0.1, p_null=0.5, p_src=0.3, p_dot=0.1, p_flat=0.15, p_unm=0.3)
    c = g.klass(3)
    js = g.p(0.4)
    d = g.doc(c, g.q(json=js))
    a = arg(g, d, js)
    if a['a'] == 'src' and g.p(0.3):
        g.srcs[a['i'] - 1]['loc'] = g.pick(['doc', 'f.json'])
    g.op('new', x=1, c=c)
    g.map(1, a)
    g.op('new', x=1, c=c)
    g.op('make', x=1, c=c, src=copy.deepcopy(a), kw=False)
    if g.p(0.3):
        g.op('enter', x=1, c={'k': 'vars', 'vars': named(g)})
        g.op('new', x=1, c=c)
        g.map(1, copy.deepcopy(a), mode=g.pick(['collect', 'raise']))
        g.op('leave', x=1)
        g.op('new', x=1, c=c)
        g.map(1, copy.deepcopy(a))
    return g.program()


def sources(r):
    """One document through every kind of source."""
    g = Gen(r, p_container=0.45, depth=2, nfields=(1, 4), p_con=0.4, p_bad=0.12, p_absent=0.1, p_src=0.3,
            native_typed=0.0, p_flat=0.1, p_unm=0.1)
    c = g.klass(2)
    q = g.q(json=True)
    d = g.doc(c, q)
    if g.p(0.3):          # what is native in one is read from text in another
        g.o['scalars'] = {'Field': 1, 'String': 1, 'Float': 1}
    alts = [g.raw(d), g.asrc(g.partial(d, 0.4)), g.asrc(g.json(d)), g.asrc(g.json(d, strict=True)),
            g.asrc(g.union([g.native(d)])), g.asrc(g.union([g.json(d)], 'combine', 'combine'))]
    g.r.shuffle(alts)
    for a in alts[:g.r.randint(2, 4)]:
        g.op('new', x=1, c=c)
        g.map(1, a)
    # mounted below a key
    m = g.mount([('m', g.partial(d, 0.2) if g.p(0.5) else g.json(d))] + ([('o', g.native(D([])))] if g.p(0.3) else []))
    sub = g.put(g.rec('SubForm', 'm', 0, cls=c))
    g.classes.append({'name': 'K%d' % (len(g.classes) + 1), 'bases': [], 'own': [sub], 'hide': []})
    g.flds[sub - 1]['owner'] = len(g.classes)
    if g.p(0.3):
        g.flds[sub - 1]['src'] = K(g.pick(['o', 'nokey']))
    g.op('new', x=1, c=len(g.classes))
    g.map(1, g.asrc(m))
    # each entry a source of its own
    if d['d'] and g.p(0.6):
        g.op('new', x=1, c=c)
        g.map(1, entries(g, d, True))
    # items of a sequence, in declaration order
    fs = [f for f in order(g, c)]
    if all('k' in g.flds[f - 1]['src'] and g.flds[f - 1]['kind'] != 'Group' for f in fs):
        vals = []
        for f in fs:
            v = g.value(f, q)
            if v is None:
                break
            vals.append(v)
        seq = L(vals + ([I(1)] if g.p(0.1) else []))
        if g.p(0.5):
            seq['t'] = 'tup'
        g.op('new', x=1, c=c)
        if g.p(0.5):
            g.map(1, g.raw(seq))
        else:
            g.op('make', x=1, c=c, src=g.raw(seq), kw=False)
    return g.program()


def order(g, c):
    """Fields of a class without bases, in declaration order."""
    return list(g.classes[c - 1]['own'])


def unions(r):
    g = Gen(r, p_container=0.6, depth=2, nfields=(1, 4), p_con=0.2, p_bad=0.08, p_absent=0.25, p_nullv=0.15, p_flat=0.05,
            scalars={'Field': 3, 'String': 3, 'Integer': 3, 'Boolean': 1, 'Float': 1}, p_src=0.2, p_unm=0.15,
            containers={'Tuple': 1, 'List': 4, 'Dict': 4, 'SubForm': 3, 'Poly': 0.5}, native_typed=0.0)
    c = g.klass(2)
    for _ in range(2):
        ms = []
        for _ in range(g.r.randint(1, 3)):
            d = g.doc(c, g.q(json=True))
            ms.append(g.json(d) if g.p(0.4) else g.native(d))
        if g.p(0.1):
            ms.append(g.native(g.junk(g.q(json=True), 1)))
        mm, sm = g.pick(['first', 'last', 'combine']), g.pick(['first', 'last', 'combine'])
        u = g.union(ms, mm, sm, g.pick([-1, -1, -1, 0, 1, 2, 3]))
        if g.p(0.12):
            u = g.union([u, g.native(g.doc(c, g.q(json=True)))], g.pick(['first', 'last', 'combine']), g.pick(['first', 'combine']))
        g.op('new', x=1, c=c)
        g.map(1, g.asrc(u))
    return g.program()


def collections(r):
    g = Gen(r, p_container=0.9, depth=2, nfields=(1, 3), p_con=0.6, p_bad=0.12, p_absent=0.08, p_nullv=0.08, p_ign=0.2,
            containers={'Tuple': 2, 'List': 4, 'Dict': 4, 'Group': 3, 'SubForm': 1}, p_hook=0.1,
            hooks={'keyf': ('true', 'false'), 'munge': ('id', 'NONE'), 'filter': ('true', 'false', 'lt')}, p_tr=0.1)
    c = g.klass(2)
    mapping(g, c, 2)
    return g.program()


def poly(r):
    g = Gen(r, p_container=0.8, depth=2, nfields=(1, 3), containers={'Poly': 4, 'List': 1, 'Dict': 1, 'SubForm': 1},
            p_bad=0.08, p_absent=0.08, p_con=0.3, p_dflt=0.2)
    fam = g.family(1)
    if g.p(0.3):
        g.family(1)
    c = g.klass(2)
    if not any(f['kind'] == 'Poly' for f in g.flds):
        taken = [g.flds[f - 1]['name'] for f in g.fields_of(c)]
        f = g.field('p' if 'p' not in taken else 'pp', c, 1, kind='Poly')
        g.classes[c - 1]['own'].append(f)
    mapping(g, c, 2)
    for _ in range(g.r.randint(0, 2)):
        js = g.p(0.4)
        d = g.polydoc(fam, g.q(json=js))
        g.op('cast', x=1, f=fam['tf'], src=arg(g, d, js))
    if g.p(0.5):          # a class of the family, whatever the document says it is
        for _ in range(2):
            js = g.p(0.4)
            d = g.polydoc(fam, g.q(json=js))
            g.op('new', x=1, c=g.pick(fam['all']))
            g.map(1, arg(g, d, js))
    mapping(g, c, 1)
    return g.program()


def remap(r):
    """A form mapped again: tags, reset, and what the form held before."""
    g = Gen(r, p_tags=0.6, p_container=0.35, depth=2, nfields=(2, 4), p_con=0.2, p_bad=0.15, p_absent=0.25, p_dflt=0.3,
            p_reset=0.4, containers={'SubForm': 3, 'List': 1, 'Dict': 1, 'Poly': 0.5}, p_inherit=0.1)
    c = g.klass(2)
    g.op('new', x=1, c=c)
    names = [g.flds[f - 1]['name'] for f in g.fields_of(c)]
    for i in range(g.r.randint(2, 4)):
        js = g.p(0.4)
        d = g.doc(c, g.q(json=js))
        sc = i > 0 and g.p(0.25)
        if sc:
            g.op('enter', x=1, c={'k': 'tags', 'tags': g.r.sample(['red', 'blue', 'x1'], g.r.randint(1, 2))})
        g.map(1, arg(g, d, js), tags=g.r.sample(['red', 'blue', 'x1'], g.pick([0, 1, 1, 2])) if i or g.p(0.3) else (),
              reset=g.p(0.4), mode=g.pick(['collect', 'collect', 'raise']))
        if sc:
            g.op('leave', x=1)
        if g.p(0.2):
            g.op('set', x=1, n=g.pick(['zz', 'extra'] + names), v=I(g.r.randint(0, 5)), attr=False)
        if g.p(0.2):
            g.op('del', x=1, n=g.pick(names), attr=g.p(0.5))
        g.grow(1, c, 0.3)
    return g.program()


def unmapped(r):
    g = Gen(r, p_container=0.35, depth=2, nfields=(1, 3), p_unm=0.7, p_extra=0.9, p_bad=0.2, p_absent=0.15, p_src=0.5,
            p_con=0.4, containers={'SubForm': 4, 'List': 1, 'Group': 1, 'Poly': 1.5}, p_flat=0.1, p_tags=0.3)
    c = g.klass(2)
    again = g.p(0.4)
    for i in range(2):
        js = g.p(0.4)
        d = g.doc(c, g.q(json=js))
        more = ['zz', 'v1', 'v12', 'id-1', 'x y', '', 'a', 'b', 'q2']
        if again:
            more = ['zz', 'v1', 'a']
        for k in g.r.sample(more, g.r.randint(again, 3)):
            if not any(e[0] == K(k) for e in d['d']):
                d['d'].append([K(k), g.junk(g.q(json=js))])
        if i == 0 or not again:
            g.op('new', x=1, c=c)
        if g.p(0.1):
            u = {'k': 'ignore', 'style': g.r.randint(0, 2)}
        else:
            u = g.unm()
        g.map(1, arg(g, d, js), unm=u, mode=g.pick(['collect', 'collect', 'raise']),
              tags=g.r.sample(['red', 'blue', 'x1'], g.pick([0, 0, 1, 2])))
    return g.program()


def history(r):
    """Attribute and item accesses, deletions, flattening, filtering, copying."""
    g = Gen(r, p_container=0.45, depth=2, nfields=(2, 4), p_tags=0.6, p_con=0.1, p_bad=0.08, p_absent=0.15, p_dflt=0.4,
            containers={'SubForm': 4, 'List': 2, 'Dict': 1, 'Tuple': 1}, p_bc=0.1, p_inherit=0.15, p_hook=0.1,
            hooks={'compute': ('const', 'NONE', 'call', 'ERROR')}, p_reset=0)
    c = g.klass(2)
    names = [g.flds[f - 1]['name'] for f in g.fields_of(c)]
    kinds = dict((g.flds[f - 1]['name'], g.flds[f - 1]) for f in g.fields_of(c))
    g.nslots = 3
    for x in (1, 2, 3):
        g.op('new', x=x, c=c)
    if g.p(0.8):
        js = g.p(0.4)
        g.map(1, arg(g, g.doc(c, g.q(json=js)), js))
    for _ in range(g.r.randint(3, 9)):
        x = g.r.randint(1, 3)
        o = g.pick(['get', 'get', 'has', 'item', 'in', 'set', 'set', 'del', 'flatten', 'munge', 'munge', 'copy', 'link', 'map'])
        n = g.pick(names)
        if o == 'get':
            g.op('get', x=x, n=n)
        elif o == 'has':
            byf = g.p(0.4)
            g.op('has', x=x, n=n if byf or g.p(0.8) else 'zz', byfield=byf)
        elif o in ('item', 'in'):
            g.op(o, x=x, n=n if g.p(0.9) else 'zz')
        elif o == 'set':
            v = g.const(kinds[n]) if kinds[n]['kind'] not in ('SubForm', 'Poly') else g.pick([NULL, I(1)])
            g.op('set', x=x, n=n, v=v, attr=g.p(0.5))
        elif o == 'del':
            g.op('del', x=x, n=n, attr=g.p(0.5))
        elif o == 'flatten':
            g.op('flatten', x=x)
        elif o == 'munge':
            y = g.r.randint(1, 3)
            k = g.pick(['tags', 'tags', 'tags', 'drop', 'add', 'id'])
            fn = {'k': k}
            if k == 'tags':
                fn = {'k': 'tags', 'tags': g.r.sample(['red', 'blue', 'x1'], g.r.randint(1, 2)), 'inv': g.p(0.4)}
            if k == 'drop':
                fn = {'k': 'drop', 'n': n}
            g.op('munge', x=x, y=y, fn=fn)
        elif o == 'copy':
            g.op('copy', x=x, y=g.r.randint(1, 3))
        elif o == 'map' and g.p(0.4):
            js = g.p(0.4)
            g.map(x, arg(g, g.doc(c, g.q(json=js)), js))
    g.op('flatten', x=1)
    return g.program()


SIGS = ('self', 'self, value', 'self, path', 'self, key')
ODDSIGS = ('', 'value', 'self, val', 'self, value=None', 'self, *value', 'self, value, x', 'self, value, **kw', '*args', 'this', 'value, self',
           'self, *, value', 'self, form', 'self, src')


def redeclare(g, cs):
    """Other things declared on the basis of these classes, or rejected."""
    inside = set()
    for fam in g.families:
        inside.update(fam['all'])
    for _ in range(g.r.randint(1, 2)):
        c = g.pick(cs)
        if g.p(0.6):
            names = [g.flds[f - 1]['name'] for f in g.fields_of(c)]
            hows = ['clone', 'clone', 'anon', 'const', 'inst'] + ([] if c in inside else ['sub', 'sub'])
            g.op('alter', x=1, c=c, how=g.pick(hows), n=g.pick(names) if names else '')
            continue
        hk = g.pick(['munge', 'filter', 'validate', 'parse', 'compute', 'resolve', 'default', 'keyf'])
        kind = 'Dict' if hk == 'keyf' else g.pick(['Field', 'String', 'Integer', 'Date', 'List', 'Dict', 'SubForm', 'Group', 'Code', 'Tuple'])
        sig = g.pick(SIGS) if g.p(0.6) else g.pick(ODDSIGS)
        on, f = 'new', 0
        own = [i + 1 for i, x in enumerate(g.flds) if x['owner'] in cs and x['kind'] == kind and x['bc']['k'] == 'none'
               and x['cap']['k'] == 'none' and not x['fromctx'] and x.get('ipat', {'k': 'none'})['k'] == 'none'
               and x['dflt']['k'] == 'unset' and not x['hooks'].get(hk)]
        if kind == 'Group' and hk == 'default':
            continue
        if own:
            f = g.pick(own)
            good = sig == {'parse': 'self, path', 'keyf': 'self, key'}.get(
                hk, 'self, value' if hk in ('munge', 'filter', 'validate') else 'self')
            on = 'clone' if good or g.p(0.5) else 'own'
        g.op('declare', x=1, f=f, hk=hk, kind=kind, sig=sig, on=on)


def declarations(r):
    """Inheritance, overriding, hiding, clones; the same document again."""
    g = Gen(r, p_inherit=0.7, p_container=0.3, depth=2, nfields=(1, 4), p_clone=0.4, p_tags=0.3, p_con=0.4, p_bad=0.15, p_absent=0.15,
            p_hook=0.1, hooks={'munge': ('id', 'add', 'NONE'), 'validate': ('true', 'false')}, p_unm=0.2, p_tr=0.35,
            dflts=('optional', 'lit', 'list', 'call'))
    cs = [g.klass(2)]
    if g.p(0.5):
        cs.append(g.klass(1, bases=(cs[0],)))
    if g.p(0.3):
        cs.append(g.klass(1, bases=(g.pick(cs),)))
    for f in g.flds:
        # a clone is declared after what it is a clone of (only for plain owners)
        if f['kind'] in SCALARS + ('List', 'Dict', 'Tuple', 'SubForm') and g.p(g.o['p_clone']):
            f['clone'] = g.pick([1, 2, 3] if f['kind'] in SCALARS else [1, 1, 2])
    for c in cs:
        g.op('fields', x=1, c=c)
    c = g.pick(cs)
    js = g.p(0.4)
    d = g.doc(c, g.q(json=js))
    a = arg(g, d, js)
    g.nslots = 2
    g.op('new', x=1, c=c)
    g.map(1, copy.deepcopy(a))
    g.grow(1, c, 0.5)
    c2 = g.pick(cs)
    g.op('new', x=2, c=c2)
    js2 = g.p(0.4)
    g.map(2, arg(g, g.junk(g.q(json=js2), 2) if g.p(0.3) else g.doc(c2, g.q(json=js2)), js2), unm=g.unm() if g.p(0.2) else None,
          mode=g.pick(['collect', 'raise']))
    if g.p(0.5):
        names = [g.flds[f - 1]['name'] for f in g.fields_of(c2)]
        g.op(g.pick(['get', 'del']), x=2, n=g.pick(names), attr=True)
        g.op('munge', x=2, y=2, fn={'k': 'tags', 'tags': ['red'], 'inv': g.p(0.5)})
    if g.p(0.7):
        redeclare(g, cs)
    g.op('new', x=2, c=c)
    g.map(2, copy.deepcopy(a))
    for k in cs:
        g.op('fields', x=1, c=k)
    if g.p(0.4):
        g.op('munge', x=2, y=2, fn={'k': 'tags', 'tags': g.r.sample(TAGS, 2), 'inv': g.p(0.5)})
    elif g.p(0.5):
        g.map(2, copy.deepcopy(a), tags=[g.pick(TAGS)])
    return g.program()


def primitives(r):
    """Reading one location of a source as a type."""
    g = Gen(r, scalars={'Field': 2, 'String': 3, 'Integer': 4, 'Float': 4, 'Boolean': 3})  # (float -> Decimal is inexact)
    vals = ['', '1', '-3', ' 7 ', '+4', '1_0', '012', '1.5', '2.0', '1e2', '.5', '5.', 'nan', 'inf', '-Infinity', '1e400',
            'true', 'True', 'FALSE', 't', 'f', 'T', '0', 'yes', 'no', 'None', 'x', '0x1', '1,0', 'tRuE', ' true', '~', '1^']
    q = g.q(json=True)
    v = D([(K('a'), g.pick([S(g.pick(vals)), I(g.r.randint(-5, 1200)), FL(g.r.randint(-40, 90) * 125), B(g.p(0.5)), NULL,
                            g.wide(), g.wide(), FL(g.r.randint(-4000, 9000)), S('%.3f' % (g.r.randint(-9999, 9999) / 1000)),
                            g.junk(q, 1), FL(g.r.randint(-4, 9) * 1000)])) for _ in range(1)]
          + [(K('l'), L([S(g.pick(vals)), g.junk(q, 0), I(1), I(0)])), (K('d'), D([(K('x'), S(g.pick(vals)))]))])
    for _ in range(4):
        src = g.pick([g.native(v), g.json(v), g.json(v, strict=True)])
        i = g.src(src)
        ks = g.pick([[K('a')], [K('a')], [K('a')], [K('l'), N(0)], [K('l'), N(1)], [K('l'), N(2)], [K('d'), K('x')]])
        for ty in ['str', 'int', 'float', 'bool', 'auto']:
            g.op('fmap', x=1, s=i, ks=ks, ty=ty, how=g.pick([0, 0, 0, 1, 2]))
    c = g.klass(0, names=['a'])
    g.op('new', x=1, c=c)
    g.map(1, g.asrc(g.json(v, strict=g.p(0.5))))
    g.ops = g.ops[-2:-1] + g.ops[:-2] + g.ops[-1:]
    return g.program()


def derived(r):
    g = Gen(r, p_bc=0.3, p_cap=0.3, p_fromctx=0.25, p_tr=0.4, p_container=0.25, depth=2, nfields=(2, 5), p_con=0.2,
            p_bad=0.1, p_absent=0.12, p_nullv=0.1, p_dflt=0.3, p_inherit=0.1,
            scalars={'String': 6, 'Integer': 3, 'Boolean': 1, 'Field': 1, 'Float': 1}, containers={'SubForm': 3, 'List': 1})
    c = g.klass(g.pick([2, 2, 2, 3]))
    for _ in range(2):
        n = g.r.randint(0, 2)
        for _ in range(n):
            v = g.pick(['u', 'w'])
            g.op('enter', x=1, c={'k': 'vars', 'vars': {v: g.pick([I(g.r.randint(0, 9)), S('ab'), S('7'), NULL, B(True)])}})
        mapping(g, c, 1)
        for nme in [g.flds[f - 1]['name'] for f in g.fields_of(c)]:
            if g.p(0.15):
                g.op('get', x=1, n=nme)
        if g.p(0.3):
            g.op('new', x=1, c=c)
            g.op('get', x=1, n=g.pick([g.flds[f - 1]['name'] for f in g.fields_of(c)]))
        for _ in range(n):
            g.op('leave', x=1)
    return g.program()


def scopes(r):
    """Context scopes around mappings: variables, tags, sources and keys."""
    g = Gen(r, p_container=0.4, depth=2, nfields=(1, 3), p_con=0.2, p_bad=0.1, p_absent=0.15, p_tags=0.3, p_dflt=0.4,
            p_hook=0.5, hooks={'compute': ('const', 'last', 'NONE'), 'munge': ('id',), 'validate': ('true', 'raise')},
            p_read=0.7, reads=('var', 'var', 'get'), p_fromctx=0.2,
            containers={'SubForm': 3, 'List': 1, 'Dict': 1})
    c = g.klass(2)
    g.outer_reads(0.4)
    g.op('new', x=1, c=c)
    open_, insrc = [], 0
    for _ in range(g.r.randint(3, 9)):
        k = g.r.randint(0, 9)
        if k <= 1:
            g.op('enter', x=1, c={'k': 'vars', 'vars': {g.pick(['u', 'w']): I(g.r.randint(0, 9))}})
            open_.append(None)
        elif k == 2:
            g.op('enter', x=1, c={'k': 'vars', 'vars': g.pick([{'ignore_default': g.p(0.7)}, {'ignore_missing': g.p(0.7)}, named(g)])})
            open_.append(None)
        elif k == 3:
            js = g.p(0.4)
            d = g.doc(c, g.q(json=js))
            d = D([(K('k'), d), (K('l'), L([copy.deepcopy(d), I(1)]))])
            g.op('enter', x=1, c={'k': 'src', 's': g.src(g.json(d) if js else g.native(d))})
            open_.append('src')
        elif k in (4, 5) and 'src' in open_:
            g.op('enter', x=1, c={'k': 'key', 'key': g.pick([K('k'), K('l'), N(0), K('zz')])})
            open_.append('key')
        elif k == 6 and open_:
            g.op('leave', x=1)
            open_.pop()
        else:
            js = g.p(0.4)
            d = g.doc(c, g.q(json=js))
            amb = False
            g.map(1, {'a': 'none'} if amb else arg(g, d, js), mode=g.pick(['collect', 'raise']), reset=g.p(0.3))
    while open_:
        g.op('leave', x=1)
        open_.pop()
    return g.program()


# ---------------------------------------------------- locations and contexts --

QS = [{'q': 'exists'}, {'q': 'null'}, {'q': 'len'}, {'q': 'keys'}, {'q': 'path'}, {'q': 'depth'}] + \
    [{'q': 'prim', 'ty': t} for t in ('auto', 'str', 'int', 'float', 'bool')]
WORDS = ['a', 'b', 'v1', 'k', 'zz', 't']


def tree(g, depth, objs=0.0):
    """A document to walk about in."""
    c = g.r.random()
    if depth <= 0 or c < 0.15:
        return g.junk(g.q(json=True), 0)
    if c < 0.4:
        return L([tree(g, depth - 1, objs) for _ in range(g.r.randint(0, 3))])
    if c < 0.4 + objs:
        return {'t': 'obj', 'a': [[K(k), tree(g, depth - 1, objs)] for k in g.r.sample(WORDS, g.r.randint(0, 2))],
                'ms': [[K(k), tree(g, depth - 1, objs)] for k in g.r.sample(['m1', 'm2'], g.r.randint(0, 2))]}
    return D([(K(k), tree(g, depth - 1, objs)) for k in g.r.sample(WORDS, g.r.randint(0, 3))])


def root(g, objs=0.0):
    d = D([(K(k), tree(g, 2, objs)) for k in g.r.sample(WORDS, g.r.randint(1, 4))])
    if g.p(0.25):
        d['d'].append([K(g.pick(['a.b', 'k.', 'm1()', 'a.v1', '.x', '()'])), g.junk(g.q(json=True), 1)])
    if g.p(0.4):
        g.alike(d)
    return d


def steps_from(v):
    """Keys that lead somewhere from a value."""
    if v['t'] == 'dict':
        return [k for k, _ in v['d']]
    if v['t'] == 'obj':
        return [k for k, _ in v['a']] + [K(k['k'] + '()') for k, _ in v['ms']]
    if v['t'] in ('list', 'tup'):
        return [N(i) for i in range(len(v['l']))]
    return []


def step(v, key):
    if v is None:
        return None
    if v['t'] == 'dict':
        for k, x in v['d']:
            if k == key:
                return x
    if v['t'] == 'obj':
        for k, x in v['a'] + [[K(k['k'] + '()'), x] for k, x in v['ms']]:
            if k == key:
                return x
    if v['t'] in ('list', 'tup') and 'n' in key and 0 <= key['n'] < len(v['l']):
        return v['l'][key['n']]
    return None


def some_source(g, depth=1):
    """A source and the documents behind it."""
    k = g.pick(['native', 'native', 'json', 'json', 'strict', 'union', 'union', 'union', 'mount', 'seq'] if depth
               else ['native', 'json', 'strict'])
    if k == 'native':
        d = root(g, 0.12)
        if g.p(0.2):
            s = g.aliased(d)
            return s, [d] + [D([(a, step(d, b))]) for a, b in s.get('al', ()) if step(d, b)]
        return g.partial(d, 0.3), [d]
    if k == 'seq':
        d = L([tree(g, 2) for _ in range(g.r.randint(0, 3))])
        if g.p(0.4):
            s = g.aliased(d)
            return s, [d] + [D([(a, step(d, b))]) for a, b in s.get('al', ()) if step(d, b)]
        return g.native(d), [d]
    if k in ('json', 'strict'):
        d = root(g)
        return g.json(d, strict=k == 'strict'), [d]
    if k == 'union':
        ms, ds = [], []
        for _ in range(g.r.randint(1, 3)):
            d = D([(K(w), tree(g, 2)) for w in g.r.sample(WORDS, g.r.randint(1, 4))])
            ms.append(g.json(d) if g.p(0.4) else g.native(d))
            ds.append(d)
        return g.union(ms, g.pick(['first', 'last', 'combine']), g.pick(['first', 'last', 'combine']),
                       g.pick([-1, -1, 0, 1, 2])), ds
    es, all_ = [], []
    for w in g.r.sample(WORDS, g.r.randint(1, 2)):
        s, ds = some_source(g, 0)
        while any('.' in e[0].get('k', '') or '(' in e[0].get('k', '') for d in ds for e in d.get('d', [])):
            s, ds = some_source(g, 0)
        es.append((w, s))
        all_ += [D([(K(w), d)]) for d in ds]
    return g.mount(es), all_


def tour(g, s, here, left, depth):
    """Visit everything below here, in some order."""
    opts = []
    for v in here:
        for k in (steps_from(v) if v is not None else []):
            if k not in opts:
                opts.append(k)
    g.r.shuffle(opts)
    for key in opts:
        if left[0] <= 0:
            return
        left[0] -= 1
        if s['k'] == 'union' and depth:
            g.op('ask', x=1, qs=[{'q': 'keys' if 'k' in key else 'len'}])
        g.op('enter', x=1, c={'k': 'key', 'key': key})
        g.op('ask', x=1, qs=[g.pick(QS), {'q': 'prim', 'ty': 'auto'}])
        tour(g, s, [step(v, key) for v in here], left, depth + 1)
        g.op('leave', x=1)


def dotted_in(g, v):
    """A dotted name that leads down a document, or on from where it ends."""
    names = []
    while v is not None and v['t'] == 'dict' and len(names) < 4:
        keys = [e for e in v['d'] if e[0].get('k', '.').isalnum()]
        if not keys:
            break
        e = g.pick(keys)
        names.append(e[0]['k'])
        v = e[1]
    if len(names) < 2 or g.p(0.4):
        names.append(g.pick(['a', 'b', 'k', 'v1']))
    return '.'.join(names)


def walks(r):
    """Entering and leaving locations of a source, asking about them on the way."""
    g = Gen(r)
    for _ in range(g.r.randint(1, 2)):
        s, docs = some_source(g)
        dotted = s['k'] == 'native' and docs[0]['t'] == 'dict' or s['k'] == 'json'
        g.op('enter', x=1, c={'k': 'src', 's': g.src(s)})
        here = [docs]
        if g.p(0.35):
            left = [14]
            tour(g, s, docs, left, 0)
            if g.p(0.5):
                tour(g, s, docs, left, 0)
        for _ in range(g.r.randint(6, 22) if g.p(0.7) else 2):
            c = g.r.random()
            if c < 0.42 and len(here) < 6:
                opts = [k for v in here[-1] if v is not None for k in steps_from(v)]
                if opts and g.p(0.85):
                    key = g.pick(opts)
                else:
                    key = g.pick([K(g.pick(WORDS)), N(g.r.randint(0, 2)), K('nope')])
                    if dotted and g.p(0.4):
                        key = K(dotted_in(g, docs[0] if g.p(0.5) else here[-1][0])) if g.p(0.5) else K(g.pick(['a.b', 'b.a', 'k.v1', 'a.m1()', 'm1()', 'a.b.k', 'k.', '.x', '()', 'keys', 'count', 'zz.t']))
                if s['k'] == 'union' and len(here) > 1:
                    # merging happens when the keys or the length are asked for
                    g.op('ask', x=1, qs=[{'q': 'keys' if 'k' in key else 'len'}])
                g.op('enter', x=1, c={'k': 'key', 'key': key})
                here.append([step(v, key) for v in here[-1]])
            elif c < 0.62 and len(here) > 1:
                g.op('leave', x=1)
                here.pop()
            else:
                g.op('ask', x=1, qs=[g.pick(QS) for _ in range(g.r.randint(1, 4))])
        g.op('ask', x=1, qs=QS)
        while len(here) > 1:
            g.op('leave', x=1)
            here.pop()
            g.op('ask', x=1, qs=[g.pick(QS) for _ in range(g.r.randint(1, 3))])
        g.op('leave', x=1)
    g.nslots = 1
    return g.program()


def rewinds(r):
    """Scopes of variables, sources and keys; rewinding to any of them."""
    g = Gen(r)
    qs = [{'q': k, 'v': v} for k in ('var', 'vars') for v in ('u', 'w')] + [{'q': 'path'}, {'q': 'exists'}, {'q': 'depth'},
                                                                            {'q': 'prim', 'ty': 'auto'}]
    open_, nvar = [], 0
    merged = False      # has there been a union
    insrc = []          # is there a source here (per open scope)
    for _ in range(g.r.randint(6, 26)):
        src = insrc[-1] if insrc else False
        c = g.r.random()
        if c < 0.22:
            nvar += 1
            g.op('enter', x=1, c={'k': 'vars', 'vars': dict((v, I(nvar % 7)) for v in g.r.sample(['u', 'w'], g.pick([1, 1, 1, 2])))})
            insrc.append(src)
        elif c < 0.34:
            s, _ = some_source(g)
            merged = merged or s['k'] == 'union'
            g.op('enter', x=1, c={'k': 'src', 's': g.src(s)})
            insrc.append(True)
        elif c < 0.36:
            g.op('enter', x=1, c={'k': 'reset'})
            insrc.append(False)
        elif c < 0.56:
            key = g.pick([K(g.pick(WORDS)), K('a'), N(0), N(1)])
            if merged:
                g.op('ask', x=1, qs=[{'q': 'keys' if 'k' in key else 'len'}])
            g.op('enter', x=1, c={'k': 'key', 'key': key})
            if not src:     # no source: refused, nothing entered
                g.op('ask', x=1, qs=qs)
                continue
            insrc.append(True)
        elif c < 0.72:
            w = g.pick(['var', 'var', 'is', 'is', 'src', 'any', 'never'])
            cc = {'k': w, 'v': g.pick(['u', 'u', 'w', 'nope'])}
            if w == 'is':
                cc['x'] = I(g.r.randint(0, 6))
            g.op('rewind', x=1, c=cc)
            insrc.append(None)
        elif c < 0.9 and insrc:
            g.op('leave', x=1)
            insrc.pop()
        else:
            g.op('ask', x=1, qs=qs)
    g.ops = settle(g.ops)
    g.op('ask', x=1, qs=qs)
    g.nslots = 1
    return g.program()


def settle(ops):
    """
    Drops the leaves of what was not entered (a refused key or rewind), and
    leaves everything still open.  Keeps its own account of the scopes, so
    which rewinds stop, and where a key has a source, is known here as well.
    """
    out, opens, scopes = [], [], [{'ignore_default', 'ignore_missing', 'base'}]
    vals = [{}]

    def has_source():
        for sc in reversed(scopes):
            if 'source' in sc:
                return True
            if 'base' in sc:
                return False
        return False
    for op in ops:
        if op['o'] == 'leave':
            if not opens:
                continue
            kind, saved = opens.pop()
            if kind == 'pop':
                scopes.pop()
                vals.pop()
            else:
                scopes += saved[0]
                vals += saved[1]
        elif op['o'] == 'enter':
            c = op['c']
            if c['k'] == 'key' and not has_source():
                out.append(op)
                continue
            opens.append(('pop', None))
            scopes.append({'vars': set(c.get('vars', ())), 'src': {'source'}, 'reset': {'base'}, 'key': {'key'}}[c['k']])
            vals.append(c.get('vars', {}))
        elif op['o'] == 'rewind':
            c = op['c']
            at = None
            for i in range(len(scopes) - 1, -1, -1):
                ok = {'var': c['v'] in scopes[i], 'is': c['v'] in scopes[i] and vals[i].get(c['v']) == c.get('x'),
                      'src': bool({'source', 'base'} & scopes[i]), 'any': True, 'never': False}[c['k']]
                if ok:
                    at = i
                    break
            if at is not None:
                opens.append(('back', (scopes[at + 1:], vals[at + 1:])))
                del scopes[at + 1:], vals[at + 1:]
        out.append(op)
    while opens:
        out.append({'o': 'leave', 'x': 1, 'style': 0})
        opens.pop()
    return out


# ------------------------------------------------------------------ threads --

def crew(r):
    """Programs of several threads over one set of declarations."""
    g = Gen(r, p_hook=0.35, hooks={'compute': ('const', 'last', 'NONE', 'call'), 'munge': ('id', 'add', 'last', 'raise'),
                                   'filter': ('true', 'notnull', 'false'), 'validate': ('true', 'lt', 'raise', 'invalid'),
                                   'resolve': ('dflt', 'at'), 'parse': ('prim', 'const'), 'default': ('const', 'call')},
            p_read=0.5, reads=('get', 'get', 'var', 'sub'), p_container=0.45, depth=2, nfields=(1, 3), p_con=0.4, p_bad=0.15,
            p_absent=0.12, p_nullv=0.1, p_dflt=0.4, p_fromctx=0.12, p_cap=0.1, p_bc=0.05, p_unm=0.2, p_tags=0.2, p_inherit=0.15,
            p_clone=0.1, p_tr=0.15)
    fam = g.family(1) if g.p(0.3) else None
    c = g.klass(2)
    g.outer_reads(0.3)
    n = g.pick([2, 2, 2, 3])
    crews, same = [], g.p(0.3)
    first = None
    for t in range(n):
        g.ops = []
        sc = g.pick([None, 'vars', 'vars', 'tags', 'flag'])
        if sc == 'vars':
            g.op('enter', x=1, c={'k': 'vars', 'vars': {g.pick(['u', 'w']): I(10 + t)}})
        elif sc == 'tags':
            g.op('enter', x=1, c={'k': 'tags', 'tags': g.r.sample(['red', 'blue', 'x1'], 1)})
        elif sc == 'flag':
            g.op('enter', x=1, c={'k': 'vars', 'vars': {g.pick(['ignore_default', 'ignore_missing']): True}})
        if first is not None and same:
            a = copy.deepcopy(first)
        else:
            js = g.p(0.4)
            a = arg(g, g.doc(c, g.q(json=js)), js)
            if same and a['a'] != 'none':
                a['same'] = 1
            first = a
        g.op('new', x=1, c=c)
        g.map(1, a, mode=g.pick(['collect', 'collect', 'raise']), reset=g.p(0.2))
        if fam and g.p(0.5):
            js = g.p(0.4)
            g.op('cast', x=1, f=fam['tf'], src=arg(g, g.polydoc(fam, g.q(json=js)), js))
        elif g.p(0.4):
            g.op('get', x=1, n=g.pick([g.flds[f - 1]['name'] for f in g.fields_of(c)]))
        if sc:
            g.op('leave', x=1)
        crews.append(g.ops)
    g.ops = []
    p = g.program()
    return [dict(p, ops=ops) for ops in crews]


# ------------------------------------------------------------ configuration --

def cfg_lines(g, multi=0.3):
    w = ['ab', '12', '1.5', 'true', 'x y', 'a  b', 'v1', '', 'one two three', 'A:b', 'x=y', '7', '-3', "it's" if False else 'its',
         'a;b', 'end.']
    if not g.p(multi):
        t = g.pick(w)
        if g.p(0.12):
            t = g.pick(['"a b" c', "'q r'", 'a "b'])
        return [{'i': 0, 's': t}]
    ls = [{'i': 0, 's': g.pick(['', '', '', 'first'])}]
    base = g.r.randint(1, 4)
    for _ in range(g.r.randint(1, 4)):
        if g.p(0.08):
            ls.append({'i': g.pick([0, base, base + 1]), 's': g.pick(['# note', ';a = 1', '#'])})
        ls.append({'i': base + g.pick([0, 0, 0, 2, 3]), 's': g.pick(['ab', '12', 'x y', 'v1', 'k: v', 'last', '[s1]'])})
    return ls


def config(r):
    g = Gen(r, p_con=0.2, p_src=0.2, p_flat=0.0, p_dflt=0.3, native_typed=0, p_bad=0.05, p_null=0.2)
    # classes for sections: scalars, lists of scalars and dicts of scalars
    nsec = g.r.randint(1, 3)
    secn = g.r.sample(['s1', 'main', 'Sec', 'x y'], nsec)
    case = g.p(0.3)
    raw = g.p(0.35)
    secs, subs = [], []
    optn = ['a', 'b', 'm', 'Opt', 'opt2', 'lname', 'UP', 'm_', '_m', 'mm', 'a1', 'l_name']
    for sn in secn:
        opts, seen = [], set()
        for o in g.r.sample(optn, g.r.randint(1, 4)):
            if g.p(0.25):
                for k in g.r.sample(['k1', 'K2', 'k3', 'k', 'k-1', 'k.1', '_k', '1'], g.r.randint(1, 3)):
                    opts.append([o + '[' + k + ']', cfg_lines(g)])
            else:
                opts.append([o, cfg_lines(g)])
        if g.p(0.3):
            g.r.shuffle(opts)
        out = []
        for o, ls in opts:
            if o.lower() not in seen:
                seen.add(o.lower())
                out.append([o, ls])
        secs.append([sn, out])
    for sn, opts in secs:
        own = []
        g.classes.append(None)
        c = len(g.classes)
        for n in g.r.sample(list(dict.fromkeys([o.split('[')[0] for o, _ in opts] * 2 + ['a', 'b', 'm', 'Opt', 'opt2', 'lname', 'UP', 'none', 'opt'])),
                            g.r.randint(1, 4)):
            has = [o for o, _ in opts if o.split('[')[0].lower() == n.lower()]
            kind = g.pick(['String', 'String', 'Integer', 'Boolean', 'Float', 'List', 'Field'])
            if has and '[' in has[0] and g.p(0.85):
                kind = 'Dict'
            elif g.p(0.1):
                kind = 'Dict'
            f = g.rec(kind, n, c)
            if kind == 'List':
                f['fs'] = [g.put(g.rec(g.pick(['String', 'String', 'Integer']), '', 0))]
            if kind == 'Dict':
                f['fs'] = [g.put(g.rec('String', '', 0)), g.put(g.rec(g.pick(['String', 'String', 'Integer']), '', 0))]
                if g.p(0.2):
                    it = g.put(g.rec('List', '', 0, fs=[g.put(g.rec('String', '', 0))]))
                    f['fs'][1] = it
            if g.p(0.3):
                g.default(f)
            own.append(g.put(f))
        g.classes[c - 1] = {'name': 'K%d' % c, 'bases': [], 'own': own, 'hide': []}
        subs.append(c)
    dfl = []
    if g.p(0.4):
        dfl = [[K(n), g.pick([S('dflt'), S('5'), I(4), L([S('p'), I(2)]), L([]), D([(K('k1'), S('v'))]), NULL, B(True), S('u w')])]
               for n in g.r.sample(['a', 'none', 'opt', 'b'], g.r.randint(1, 2))]
    loc = g.pick(['', 'f.ini']) if not raw else 'f.ini'
    base = {'k': 'config', 'secs': secs, 'case': case, 'raw': raw, 'loc': loc, 'style': g.r.getrandbits(4),
            'sep': g.pick([' = ', '=', ': '])}
    if g.p(0.25):       # options of every section
        base['base'] = [[o, cfg_lines(g)] for o in g.r.sample(['a', 'b', 'opt2', 'every', 'm[k9]', 'a[k8]'], g.r.randint(1, 3))]
    for i, (sn, _) in enumerate(secs):
        src = dict(copy.deepcopy(base), section=sn, dflt=copy.deepcopy(dfl))
        g.op('new', x=1, c=subs[i])
        g.map(1, g.asrc(src), mode='collect', unm=g.unm() if g.p(0.15) else None)
    g.classes.append(None)
    c = len(g.classes)
    own = [g.put(g.rec('SubForm', 's%d' % i, c, cls=subs[i], src=K(sn))) for i, (sn, _) in enumerate(secs)]
    g.classes[c - 1] = {'name': 'K%d' % c, 'bases': [], 'own': own, 'hide': []}
    src = dict(copy.deepcopy(base), section='', dflt=[[K(secs[0][0]), D([tuple(e) for e in dfl])]] if dfl else [])
    g.op('new', x=1, c=c)
    g.map(1, g.asrc(src), mode='collect')
    return g.program()


ALL = dict((k, v) for k, v in list(globals().items())
           if callable(v) and k in ('scalars nested junk defaults staging reads crash verdicts errors sources unions collections poly '
                                    'remap unmapped history declarations primitives derived scopes config walks rewinds').split())
