"""C03: indexing, get and select."""
from gen import *
import s01

KEYS = ['0', '1', '2', '-1', '-2', '-3', '9', ' 1', '1 ', '+1', '01', '1.0', '', 'a', 'b', 'c', 'a1',
        'x', '\u0661', '1_0', '0x1', '-', 'one', '1a', 'w-1']


def access(rng, size):
    kind = rng.choice(s01.KINDNAMES)
    M = s01.make(rng, kind)
    c = M.c
    used = set()
    for _ in range(rng.randint(0, 3 + size)):
        i = rng.choice(['a', 'b', 'c', 'a1', 'w-1', 'x', 'y1', None, None])
        if i is not None and i in used:
            continue
        used.add(i)
        o = M.mk(i)
        c.append(o)
        M.m.append(o)
    if rng.random() < .5 and M.m:
        i = rng.randrange(len(M.m))
        del M.m[i]
        c.pop(i)
    m = M.m
    log(kind, [o._id for o in m])
    n = len(m)
    for key in KEYS + list(range(-n - 2, n + 2)):
        if isinstance(key, int):
            exp = outcome(lambda: m[key])
        else:
            hit = [o for o in m if o._id == key]
            try:
                exp = ('return', hit[0]) if hit else outcome(lambda: m[int(key)])
            except ValueError:
                exp = None
            if not hit:
                try:
                    int(key)
                except ValueError:
                    exp = ('raise', 'KeyError')
        got = outcome(lambda: c[key])
        check(got[0] == exp[0] and got[1] is exp[1] or got == exp and got[0] == 'raise',
              'c[%r]' % (key,), 'gave', got, 'expected', exp)
        d = rng.choice([object(), None])
        want = exp[1] if exp[0] == 'return' else d
        got = c.get(key, d)
        check(got is want, 'get(%r)' % (key,))
        if d is None:
            check(c.get(key) is want, 'get(%r)' % (key,))
    for _ in range(4):
        s = slice(*[rng.choice([None, -3, -1, 0, 1, 2, 9]) for _ in 'ab'] + [rng.choice([None, 1, 2, -1])])
        got = c[s]
        exp = m[s]
        check(len(got) == len(exp) and all(a is b for a, b in zip(got, exp)), 'c[%r]' % s)
    return n > 0


def select(rng, size):
    nm = {'x': 'http://x', 'y': 'http://y', 'http://w': 'http://v'}
    kind = rng.choice(['meta', 'metachild', 'tier', 'igt', 'metadata', 'corpus'])
    def kid(i):
        kw = dict(namespace=rng.choice([None, 'http://x', 'http://y', 'q', 'x', 'http://v', 'http://w']),
                  attributes={'a': 'v'} if rng.random() < .5 else None)
        if kind in ('meta', 'metachild'):
            o = MetaChild(rng.choice('nm'), text=rng.choice([None, '', 't']), **kw)
        elif kind == 'tier':
            o = Item(id=i, type=rng.choice([None, 't', 's']), text=rng.choice([None, '', 't']),
                     alignment=rng.choice([None, 'a1']), **kw)
        else:
            o = {'igt': Tier, 'metadata': Meta, 'corpus': Igt}[kind](id=i, type=rng.choice([None, 't', 's']), **kw)
        return o
    kids = [kid('i%d' % i if rng.random() < .7 else None) for i in range(rng.randint(0, 3 + size))]
    mk = {'meta': lambda **k: Meta(children=kids, **k), 'metachild': lambda **k: MetaChild('p', children=kids, **k),
          'tier': lambda **k: Tier(items=kids, **k), 'igt': lambda **k: Igt(tiers=kids, **k),
          'metadata': lambda **k: Metadata(metas=kids, **k), 'corpus': lambda **k: XigtCorpus(igts=kids, **k)}[kind]
    inh = rng.random() < .3 and kind in ('meta', 'metadata', 'tier', 'igt', 'metachild')
    c = mk(nsmap=None if inh else nm)
    if inh:
        {'meta': lambda: Metadata(metas=[c], nsmap=nm), 'metadata': lambda: Igt(metadata=[c], nsmap=nm),
         'tier': lambda: Igt(tiers=[c], nsmap=nm), 'igt': lambda: XigtCorpus(igts=[c], nsmap=nm),
         'metachild': lambda: MetaChild('up', children=[c], nsmap=nm)}[kind]()
        keep.append(c._parent)
        keep[:] = keep[-3:]
    crit = {}
    for k, vs in [('id', ['i0', 'i1', None]), ('type', [None, 't', 's']), ('name', ['n', 'm', None]),
                  ('text', [None, '', 't']), ('namespace', [None, 'x', 'y', 'http://x', 'http://w', 'q', 'z']),
                  ('alignment', ['a1', None]), ('nosuch', [None, 1])]:
        if rng.random() < .3:
            crit[k] = rng.choice(vs)
    log(kind, [canon(k) for k in kids], 'criteria', crit)
    want = dict(crit)
    if 'namespace' in want and want['namespace'] in nm:
        want['namespace'] = nm[want['namespace']]
    exp = [o for o in kids if all(getattr(o, k, None) == v for k, v in want.items())]
    got = list(c.select(**crit))
    check(len(got) == len(exp) and all(a is b for a, b in zip(got, exp)), 'select(%r)' % crit, 'gave',
          [canon(g) for g in got], 'expected', [canon(g) for g in exp])
    check(raw_members(c) == kids, 'select changed the members')
    return bool(crit)


keep = []
CASES = [('access', access), ('select', select)]
