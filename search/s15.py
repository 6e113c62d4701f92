"""C15: XigtPath against an evaluator of abstract paths."""
from gen import *
from xigt import xigtpath as xp
from s12 import parts
import s13

NS = {'x': 'http://x.org/', 'y': 'http://y.org/', 'dc': 'urn:z'}
RA = ('alignment', 'content', 'segmentation')


def build(rng, size):
    def at():
        d = {}
        for _ in range(rng.choice([0, 0, 1, 2])):
            k = rng.choice(['a', 'lang', 'x-y', 'type2', '{http://x.org/}a', '{http://x.org/}lang', '{urn:z}a'])
            d[k] = rng.choice(['v', '', 'w', 'a b', 'a"b', 'a/b', 'x]', '\\'])
        return d
    def own():
        return rng.choice([None, None, None, dict(NS)])
    def ns():
        return rng.choice([None, None, NS['x'], NS['dc'], 'q'])
    def kid(s):
        return MetaChild(rng.choice(['subject', 'item', 'n', 'meta', 'text', 'value', 'igt', 'b-1', 'metadata']),
                         attributes=at(),
                         text=rng.choice([None, '', 't', 'v', 'a"b']), namespace=ns(), nsmap=own(),
                         children=[kid(s // 2) for _ in range(rng.randint(0, min(2, s)))])
    def met(j, s):
        return Meta(id=optid(rng, 'm', j), type=rng.choice([None, 't', 'v']), attributes=at(), nsmap=own(),
                    text=rng.choice([None, '', 'v', 'w']), namespace=rng.choice([None, None, ns()]),
                    children=[kid(s) for _ in range(rng.randint(0, 2))])
    def mdl(s):
        return [Metadata(id=optid(rng, 'd', j), type=rng.choice([None, 'v']), attributes=at(), nsmap=own(),
                         namespace=rng.choice([None, None, ns()]),
                         metas=[met(i, s) for i in range(rng.randint(0, 2))])
                for j in range(rng.choice([0, 0, 1, 2]))]
    igts = []
    for g in range(rng.randint(1, 2)):
        tiers, ids, tids = [], {}, []
        for k in range(rng.randint(0, 3)):
            tid = 'abc'[k]
            ta = at()
            link = {}
            for ra in RA:
                if tids and rng.random() < .4:
                    link[ra] = rng.choice(tids)
            ta.update(link)
            items = []
            for j in range(rng.randint(0, 3)):
                ia = at()
                text = rng.choice([None, '', 'dog', 'v', 'w'])
                for ra, tr in link.items():
                    if ids[tr] and rng.random() < .7:
                        ia[ra] = ' '.join(rng.sample(ids[tr], rng.randint(1, min(2, len(ids[tr]))))) \
                            if rng.random() < .7 else rng.choice(ids[tr]) + '[0:1]'
                items.append(Item(id='%s%d' % (tid, j + 1), type=rng.choice([None, 't', 'v']), attributes=ia, text=text,
                                  namespace=rng.choice([None, None, None, ns()]), nsmap=own()))
            tiers.append(Tier(id=tid, type=rng.choice([None, 'words', 'v']), attributes=ta, items=items,
                              metadata=mdl(size // 2), namespace=rng.choice([None, None, None, ns()]), nsmap=own()))
            tids.append(tid)
            ids[tid] = [i.id for i in items]
        igts.append(Igt(id='i%d' % g, type=rng.choice([None, 'v']), attributes=at(), tiers=tiers, metadata=mdl(size // 2),
                        namespace=rng.choice([None, None, ns()]), nsmap=own()))
    return XigtCorpus(id=rng.choice([None, 'c']), attributes=at(), igts=igts, metadata=mdl(size // 2), nsmap=dict(NS))


# ---- evaluator

def kids(o, pre=None):
    mds = raw_members(getattr(o, '_md', []))
    ms = raw_members(o) if isinstance(o, list) else []
    out = mds + ms
    if pre is not None:
        out = [x for x in out if x.namespace == NS.get(pre, pre)]
    return out


def elname(o):
    return o.name if isinstance(o, MetaChild) else type(o).__name__.lower()


def child(o, pre, name):
    if name == '*':
        return kids(o, pre)
    return [k for k in kids(o, pre) if elname(k) == name]


def desc(o, pre, name):
    out = []
    if name in ('*', elname(o)) and (pre is None or o.namespace == NS.get(pre, pre)):
        out.append(o)
    for k in kids(o):
        out += desc(k, pre, name)
    return out


def attr(o, pre, name):
    if pre is None and name in ('id', 'type', 'name'):
        v = {'id': o._id, 'type': o.type, 'name': getattr(o, 'name', None)}[name]
        return [] if v is None else [v]
    if name == '*':
        return list(o.attributes.values())
    key = name if pre is None else '{%s}%s' % (NS.get(pre, pre), name)
    return [o.attributes.get(key)]


def text(o):
    if isinstance(o, Metadata):
        raise AttributeError('text')
    return o.text


def value(o):
    return o.value()


def refd(o, ras, back):
    if not isinstance(o, (Tier, Item)):
        raise AttributeError('no references')
    g = o.igt
    tiers = raw_members(g)
    pool = tiers if isinstance(o, Tier) else [i for t in tiers for i in raw_members(t)]
    by = {x._id: x for x in pool}
    out = []
    def ids(x, ra):
        import re
        return re.findall('[a-z]\\d*', re.sub(r'\[[^\]]*\]', '', x.attributes.get(ra, '')))
    for ra in sorted(set(ras or RA)):
        if back:
            out += [p for p in pool if o._id in ids(p, ra)]
        else:
            out += [by[i] for i in ids(o, ra)]
    return out


def run(path, objs):
    for step in path['steps']:
        objs = apply(step, objs)
    return objs


def root(o):
    while not isinstance(o, XigtCorpus):
        o = o._parent
    return o


def ev(path, o):
    start = [root(o)] if path['abs'] else [o]
    return run(path, start)


def apply(step, objs):
    k = step[0]
    if k == 'child':
        out = [r for o in objs for r in child(o, step[1], step[2])]
    elif k == 'desc':
        out = [r for o in objs for r in desc(o, step[1], step[2])]
    elif k == 'attr':
        out = [r for o in objs for r in attr(o, step[1], step[2])]
    elif k == 'text':
        out = [text(o) for o in objs]
    elif k == 'value':
        out = [value(o) for o in objs]
    elif k == 'self':
        out = list(objs)
    elif k == 'parent':
        out = [o._parent for o in objs if getattr(o, '_parent', None) is not None]
    elif k in ('referent', 'referrer'):
        out = [r for o in objs for r in refd(o, step[1], k == 'referrer')]
    elif k == 'group':
        out = [r for o in objs for p in step[1] for r in run({'steps': p}, [o])]
    for pr in step[-1]:
        out = [o for o in out if pred(pr, o)]
    return out


def pred(p, o):
    rs = ev(p[1], o)
    if p[0] == 'has':
        return any(r is not None for r in rs)
    hit = any(isinstance(r, str) and r == p[2] for r in rs)
    return hit if p[0] == '=' else not hit


# ---- generator: abstract path following the types of the results

def gname(pre, name):
    return name if pre is None else pre + ':' + name


def gpred(rng, typ, depth=2):
    def lit():
        return rng.choice(['v', 'v', 'w', '', 't', 'dog', 'words', 'a"b', 'a b', 'a/b', 'x]', '\\', 'i0', 'nosuch'])
    steps = []
    opts = ['attr', 'attr', 'attr']
    if typ in ('item', 'meta', 'child'):
        opts += ['text', 'text']
    if typ == 'item':
        opts += ['value', 'parent']
    if typ in ('tier', 'igt', 'corpus', 'metadata', 'meta', 'child'):
        opts += ['kid', 'kid', 'desc']
    if typ in ('tier', 'item'):
        opts += ['referent', 'referrer']
    o = rng.choice(opts)
    nodes = False
    if o == 'attr':
        steps = [gattr(rng)]
    elif o in ('text', 'value'):
        steps = [(o, [])]
    elif o == 'parent':
        steps = [('parent', []), gattr(rng)]
    elif o in ('referent', 'referrer'):
        steps = [gref(rng, o)]
        nodes = True
        if rng.random() < .4:
            steps.append(gattr(rng))
            nodes = False
    elif o == 'kid':
        name = {'corpus': 'igt', 'igt': 'tier', 'tier': 'item', 'metadata': 'meta'}.get(typ) or \
            rng.choice(['subject', 'n', '*'])
        steps = [('child', None, rng.choice([name, '*', 'metadata', 'nosuch']), [])]
        nodes = True
        if rng.random() < .4:
            steps.append(gattr(rng))
            nodes = False
    else:
        steps = [('self', []), ('desc', None, rng.choice(['item', 'meta', 'subject', '*']), [])]
        nodes = True
        if rng.random() < .5:
            steps.append(gattr(rng))
            nodes = False
    if depth and o in ('kid', 'desc', 'referent', 'referrer') and rng.random() < .35:
        # a predicate within the predicate
        t2 = typ if o == 'desc' else 'any'
        if o == 'kid':
            t2 = {('corpus', 'igt'): 'igt', ('igt', 'tier'): 'tier', ('tier', 'item'): 'item', ('metadata', 'meta'): 'meta',
                  ('meta', 'subject'): 'child', ('meta', 'n'): 'child', ('child', 'n'): 'child',
                  ('child', 'subject'): 'child'}.get((typ, steps[0][2]), 'any')
        steps[0] = steps[0][:-1] + ([gpred(rng, t2, depth - 1)],)
    path = {'abs': False, 'steps': steps}
    r = rng.random()
    if nodes or r < .34:
        return ('has', path)
    return ('=' if r < .67 else '!=', path, lit())


def gpreds(rng, typ):
    return [gpred(rng, typ) for _ in range(rng.choice([0, 0, 0, 1, 1, 2]))]


def gattr(rng):
    if rng.random() < .08:
        return ('attr', None, '*', [])
    return ('attr',) + rng.choice([(None, 'a'), (None, 'lang'), (None, 'id'), (None, 'type'), (None, 'x-y'), (None, 'name'),
                                   (None, 'alignment'), ('x', 'a'), ('x', 'lang'), ('dc', 'a'), ('q', 'a'),
                                   (None, 'nosuch'), (None, 'type2')]) + ([],)


def gref(rng, k):
    return (k, rng.choice([None, None, ['alignment'], ['content'], ['segmentation', 'alignment']]), [])


def gpath(rng, typ, n):
    """-> steps; typ: type of the context objects"""
    steps = []
    while True:
        pre = rng.choice([None] * 6 + ['x', 'dc', 'q'])
        opts = ['child'] * 4 + ['desc', 'desc', 'attr', 'self', 'group']
        if typ != 'corpus':
            opts.append('parent')
        if typ in ('item', 'meta', 'child'):
            opts += ['text', 'text']
        if typ == 'item':
            opts += ['value', 'value']
        if typ in ('item', 'tier'):
            opts += ['referent', 'referrer'] * 3
        k = rng.choice(opts)
        if k == 'attr':
            steps.append(gattr(rng))
            return steps
        if k in ('text', 'value'):
            steps.append((k, []))
            return steps
        if k == 'self':
            steps.append(('self', gpreds(rng, typ)))
        elif k == 'parent':
            typ = {'item': 'tier', 'tier': 'igt', 'igt': 'corpus', 'meta': 'metadata'}.get(typ, 'any')
            steps.append(('parent', gpreds(rng, typ)))
        elif k in ('referent', 'referrer'):
            s = gref(rng, k)
            steps.append(s[:-1] + (gpreds(rng, typ),))
        elif k == 'group':
            a, b = child_step(rng, typ), child_step(rng, typ)
            steps.append(('group', [[a[0]], [b[0]]] + ([[('self', [])]] if rng.random() < .2 else []), []))
            typ = 'any'
        elif k == 'desc':
            name, t2 = rng.choice([('item', 'item'), ('tier', 'tier'), ('igt', 'igt'), ('meta', 'any'), ('metadata', 'any'),
                                   ('subject', 'child'), ('n', 'child'), ('*', 'any'), ('xigtcorpus', 'corpus'),
                                   ('nosuch', 'any'), ('text', 'child'), ('value', 'child')])
            if name in ('item', 'igt'):
                t2 = 'any'    # may be metadata children of that name
            steps.append(('desc', pre, name, gpreds(rng, t2)))
            typ = t2
        else:
            s, typ = child_step(rng, typ)
            steps.append(s)
        if len(steps) >= n:
            return steps


def child_step(rng, typ):
    pre = rng.choice([None] * 6 + ['x', 'dc', 'q'])
    own = {'corpus': ('igt', 'igt'), 'igt': ('tier', 'tier'), 'tier': ('item', 'item'), 'metadata': ('meta', 'meta'),
           'meta': ('subject', 'child'), 'child': ('n', 'child')}.get(typ, ('*', 'any'))
    if typ in ('meta', 'child'):
        name, t2 = rng.choice([('subject', 'child'), ('n', 'child'), ('item', 'child'), ('*', 'child'), ('text', 'child'),
                               ('b-1', 'child'), ('meta', 'child')])
    elif typ == 'any':
        name, t2 = rng.choice([('*', 'any'), ('nosuch', 'any'), ('subject', 'child')])
    else:
        name, t2 = rng.choice([own, own, own, ('metadata', 'metadata'), ('*', 'any'), ('nosuch', 'any'), ('item', 'any')])
        if name == 'item' and typ == 'tier':
            t2 = 'item'
    return ('child', pre, name, gpreds(rng, t2)), t2


def quote(s):
    return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'


def pstep(step, toks, first, isabs):
    """append the tokens of a step"""
    k = step[0]
    if k == 'desc':
        toks.append('//')
        toks.append(gname(step[1], step[2]))
    else:
        if not first or isabs:
            toks.append('/')
        if k == 'child':
            toks.append(gname(step[1], step[2]))
        elif k == 'attr':
            toks += ['@', gname(step[1], step[2])]
        elif k in ('text', 'value'):
            toks += [k, '(', ')']
        elif k == 'self':
            toks.append('.')
        elif k == 'parent':
            toks.append('..')
        elif k in ('referent', 'referrer'):
            toks += [k, '(']
            for j, ra in enumerate(step[1] or []):
                toks += [','] * bool(j) + [quote(ra)]
            toks.append(')')
        elif k == 'group':
            toks.append('(')
            for j, p in enumerate(step[1]):
                toks += ['|'] * bool(j)
                for i, s in enumerate(p):
                    pstep(s, toks, i == 0, False)
            toks.append(')')
    for p in step[-1]:
        toks.append('[')
        for i, s in enumerate(p[1]['steps']):
            pstep(s, toks, i == 0, False)
        if p[0] != 'has':
            toks += [p[0], quote(p[2])]
        toks.append(']')


def show_path(rng, path):
    toks = []
    for i, s in enumerate(path['steps']):
        pstep(s, toks, i == 0, path['abs'])
    sp = rng.random() < .3
    return toks, ''.join((rng.choice(['', ' ', '  ', '\n']) if sp and j else '') + t for j, t in enumerate(toks))


def typ_of(o):
    return {'XigtCorpus': 'corpus', 'Igt': 'igt', 'Tier': 'tier', 'Item': 'item', 'Metadata': 'metadata', 'Meta': 'meta',
            'MetaChild': 'child'}[type(o).__name__]


def same(a, b):
    return len(a) == len(b) and all(x is y or (isinstance(x, str) and x == y) for x, y in zip(a, b))


def sh(xs):
    return [(type(x).__name__, x._id, getattr(x, 'name', '')) if hasattr(x, '_id') else x for x in xs]


def guided(rng, o, isabs, n):
    """A path whose steps mostly select something; -> path, expected results"""
    objs = [root(o)] if isabs else [o]
    steps = []
    while len(steps) < n:
        nodes = [x for x in objs if hasattr(x, 'attributes')]
        if len(nodes) != len(objs):
            break       # strings
        best = None
        for _ in range(8):
            t = typ_of(rng.choice(nodes)) if nodes else 'any'
            st = gpath(rng, t, 1)[0]
            if not steps and st[0] == 'desc' and not isabs:
                continue
            try:
                res = apply(st, objs)
            except (AttributeError, KeyError, XigtError):
                continue           # such a step does not apply to these objects
            if best is None or (res and not best[1]):
                best = (st, res)
            if best[1] and any(r is not None for r in best[1]):
                break
            if rng.random() < .1:
                break
        if best is None:
            break
        steps.append(best[0])
        objs = best[1]
        if best[0][0] in ('attr', 'text', 'value'):
            break
    return {'abs': isabs, 'steps': steps}, objs


def rnd(rng, size):
    c = build(rng, size)
    log(show(c))
    ps = list(parts(c))
    for _ in range(8):
        o = c if rng.random() < .4 else rng.choice(ps)
        isabs = rng.random() < .25
        path, want = guided(rng, o, isabs, rng.randint(1, 4))
        if not path['steps'] or isabs and path['steps'][0][0] == 'parent':
            continue
        toks, s = show_path(rng, path)
        log('on', type(o).__name__, o._id, ':', s)
        check_eq(xp.tokenize(s), toks, 'tokenize(%r)' % s)
        got = outcome(lambda: xp.findall(o, s))
        check(got[0] == 'return', 'findall(%r) raised' % s, got[1])
        check(same(got[1], want), 'findall(%r) gave' % s, sh(got[1]), 'expected', sh(want))
        f = outcome(lambda: xp.find(o, s))
        check(f[0] == 'return' and same([f[1]], want[:1] or [None]), 'find(%r) gave' % s, f)
        it = list(xp.iterfind(o, s))
        check(same(it, want), 'iterfind(%r)' % s)
        COUNT.append((bool(want), [t[0] for t in path['steps']]))
    return True


COUNT = []


def tokens(rng, size):
    """tokenizing names, operators and quoted strings"""
    toks = []
    names = ['igt', 'dc:subject', 'b-1', 'textual', 'text', 'value', 'a.b'[:1], 'x y', '*', 'referentx', 'text-x']
    for _ in range(rng.randint(1, 6)):
        toks.append(rng.choice(names + ['"q"', '"a\\"b"', '"]/"', '""', '" s "', '"\n"']))
        toks.append(rng.choice(['/', '//', '[', ']', '(', ')', '|', '=', '!=', '@', ',', '..', '.']))
    out = []
    for t in toks:
        if out and ((out[-1] == '.' and t in ('.', '..')) or (out[-1] == '/' and t in ('/', '//')) or
                    (out[-1] == '..' and t.startswith('.') and False)):
            out.append('@')
        if out and out[-1] not in '/ // [ ] ( ) | = != @ , .. .'.split() and not out[-1].startswith('"') and \
                t not in '/ // [ ] ( ) | = != @ , .. .'.split() and not t.startswith('"') and t != '*':
            continue
        out.append(t)
    ws = lambda: rng.choice(['', '', ' ', '\t', '\n '])
    s = ws()
    for i, t in enumerate(out):
        s += t + ws()
    log(repr(s))
    check_eq(xp.tokenize(s), out, 'tokenize(%r)' % s)


CASES = [('paths', rnd), ('tokens', tokens)]
