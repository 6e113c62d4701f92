"""C04: get_attribute and nsmap along chains of enclosing objects."""
from gen import *

KEYN = ['a', 'b', 'lang']
PFX = ['x', 'y', 'z']
UR = ['http://x', 'http://y', 'q', 'x']


def chain(rng, size):
    """list of objects from the innermost to the outermost"""
    def kw():
        nm = None
        r = rng.random()
        if r < .2:
            nm = {}
        elif r < .6:
            nm = {p: rng.choice(UR) for p in rng.sample(PFX, rng.randint(1, 3))}
        at = {}
        for k in KEYN:
            for f in [k] + ['{%s}%s' % (u, k) for u in UR] + ['x:' + k]:
                if rng.random() < .15:
                    at[f] = rng.choice(['v%d' % rng.randint(0, 99), '', 'v'])
        return dict(nsmap=nm, attributes=at)
    form = rng.choice(['item', 'meta', 'child'])
    if form == 'item':
        i = Item(**kw())
        t = Tier(items=[i], **kw())
        g = Igt(tiers=[t], **kw())
        c = XigtCorpus(igts=[g], **kw())
        return [i, t, g, c][:rng.randint(1, 4)] if rng.random() < .5 else [i, t, g, c]
    x = MetaChild('n', **kw())
    xs = [x]
    for _ in range(rng.randint(0, min(size, 5))):
        p = MetaChild('n', children=[xs[-1]], **kw())
        xs.append(p)
    m = Meta(children=[xs[-1]], **kw())
    d = Metadata(metas=[m], **kw())
    H = rng.choice([Tier, Igt, XigtCorpus])
    h = H(metadata=[d], **kw())
    xs += [m, d, h]
    if H is Tier:
        g = Igt(tiers=[h], **kw())
        xs.append(g)
        h = g
    if H in (Tier, Igt):
        xs.append(XigtCorpus(igts=[h], **kw()))
    return xs


def trim(xs, n):
    """the first n objects of the chain, the outermost without parent"""
    return xs[:n]


def lookup(rng, size):
    xs = chain(rng, size)
    # the real chain of parents
    real = [xs[0]]
    while getattr(real[-1], '_parent', None) is not None:
        real.append(real[-1]._parent)
    start = rng.randrange(len(real))
    real = real[start:]
    o = real[0]
    log([(type(y).__name__, y._nsmap, y.attributes) for y in real])

    def nsmap(ys):
        for y in ys:
            if y._nsmap is not None:
                return y._nsmap
        return {}
    for i in range(len(real)):
        check_eq(real[i].nsmap, nsmap(real[i:]), 'nsmap')
    own = nsmap(real)
    for _ in range(12):
        k = rng.choice(KEYN + ['nosuch'])
        form = rng.choice(['plain', 'prefix', 'expanded', 'ns'])
        kw, exp = {}, k
        if form == 'prefix':
            p = rng.choice(PFX)
            if p not in own:
                continue
            key, exp = '%s:%s' % (p, k), '{%s}%s' % (own[p], k)
        elif form == 'expanded':
            key = exp = '{%s}%s' % (rng.choice(UR), k)
            if rng.random() < .3:
                kw['namespace'] = rng.choice(PFX + UR)
        elif form == 'ns':
            key = k
            ns = rng.choice(PFX + UR + [None])
            kw['namespace'] = ns
            if ns in own:
                exp = '{%s}%s' % (own[ns], k)
            elif ns:
                exp = '{%s}%s' % (ns, k)
        else:
            key = k
        d = rng.choice([None, 'dflt', ''])
        kw['default'] = d
        inherit = rng.random() < .6
        want = d
        for y in (real if inherit else real[:1]):
            if exp in y.attributes:
                want = y.attributes[exp]
                break
        snap = [dict(y.attributes) for y in real]
        got = outcome(lambda: o.get_attribute(key, inherit=inherit, **kw) if rng.random() < .7 else
                      o.get_attribute(key, d, inherit, kw.get('namespace')))
        check_eq(got, ('return', want), 'get_attribute(%r, inherit=%r, %r)' % (key, inherit, kw))
        check_eq(snap, [dict(y.attributes) for y in real], 'attributes changed')
    check_eq(outcome(lambda: o.get_attribute(None)), ('raise', 'ValueError'), 'key None')
    return len(real) > 1


def nsmapset(rng, size):
    """A namespace map is copied; assigning None makes the object inherit again."""
    d = {'x': 'u'}
    c = XigtCorpus(nsmap={'y': 'w'})
    for mk in (lambda: Igt(nsmap=d), lambda: Igt()):
        g = mk()
        c.append(g)
        check_eq(g.nsmap, d if g._nsmap is not None else {'y': 'w'}, 'nsmap')
        g.nsmap = {'z': 'q'}
        check_eq(g.nsmap, {'z': 'q'}, 'nsmap after assignment')
        g.nsmap = {}
        check_eq(g.nsmap, {}, 'empty nsmap of its own')
        g.nsmap = None
        check_eq(g.nsmap, {'y': 'w'}, 'inherited nsmap')
        g.nsmap = d
        d2 = dict(d)
        g.nsmap['new'] = 'n'
        check_eq(d, d2, 'the map given to the object changed')
        c.remove(g)
    log('nsmap assignment')


CASES = [('lookup', lookup)]
ENUMS = [('nsmap', lambda: [lambda: nsmapset(None, 1)])]
