"""C10: ancestors and descendants."""
from gen import *
from xigt import query, ref
import itertools

RA = ('alignment', 'content', 'segmentation', 'x')


def build(rng, size, cyc=None):
    nt = rng.randint(1, 2 + min(5, size))
    tiers = []
    cyc = rng.random() < .4 if cyc is None else cyc
    for k in range(nt):
        at = {}
        for ra in RA:
            if rng.random() < .4:
                cand = range(nt) if cyc else range(k)
                if cand:
                    at[ra] = 't%d' % rng.choice(list(cand))
        tiers.append((at, rng.randint(0, 3)))
    pool = ['i%d_%d' % (k, j) for k in range(nt) for j in range(tiers[k][1])]
    objs = []
    order = list(range(nt))
    if rng.random() < .5:
        rng.shuffle(order)
    for k in range(nt):
        at, n = tiers[k]
        items = []
        for j in range(n):
            ia = {}
            for ra in RA:
                if ra in at and rng.random() < .8:
                    tk = int(at[ra][1:])
                    cand = ['i%d_%d' % (tk, m) for m in range(tiers[tk][1])] or ['zz']
                    if rng.random() < .05 and pool:
                        cand = pool
                    ia[ra] = estr(algnexpr(rng, 2, cand))
            items.append(Item(id='i%d_%d' % (k, j), attributes=ia))
        objs.append(Tier(id='t%d' % k, attributes=at, items=items))
    g = Igt(tiers=[objs[k] for k in order])
    for t in raw_members(g):
        log('tier', t.id, t.attributes, [(i.id, i.attributes) for i in raw_members(t)])
    return g


def ids_of(e):
    # independent reading of an expression: drop brackets, split on delimiters
    out, cur, depth = [], '', 0
    for c in e:
        if c == '[':
            depth = 1
        elif c == ']':
            depth = 0
        elif not depth:
            cur = cur + c if c not in '+,' and not c.isspace() else cur + ' '
    return cur.split()


def anc(obj, refattrs):
    tier = obj.tier if isinstance(obj, Item) else obj
    items = [obj] if isinstance(obj, Item) else raw_members(tier)
    seen = [tier.id]
    out = []
    tiers = {t.id: t for t in raw_members(tier.igt)}
    while True:
        ra = [r for r in refattrs if r in tier.attributes]
        if not ra:
            return out
        ra = ra[0]
        rt = tiers[ids_of(tier.attributes[ra])[0]]
        refd = {i for it in items for i in ids_of(it.attributes.get(ra, ''))}
        ri = [i for i in raw_members(rt) if i.id in refd]
        out.append((tier, ra, rt, ri))
        if rt.id in seen:
            return out
        seen.append(rt.id)
        tier, items = rt, ri


def desc(obj, refattrs, follow):
    tier = obj.tier if isinstance(obj, Item) else obj
    items = [obj] if isinstance(obj, Item) else raw_members(tier)
    agenda, seen, out = [(tier, items)], set(), []
    all_ = raw_members(tier.igt)
    while agenda:
        tier, items = agenda.pop(0)
        ids = {i.id for i in items}
        ras = [(ra, [t for t in all_ if tier.id in ids_of(t.attributes.get(ra, ''))]) for ra in refattrs]
        ras = [x for x in ras if x[1]]
        if follow == 'first':
            ras = ras[:1]
        for ra, ts in ras:
            if (tier.id, ra) in seen:
                continue
            seen.add((tier.id, ra))
            for t in ts:
                ri = [i for i in raw_members(t) if ids & set(ids_of(i.attributes.get(ra, '')))]
                out.append((tier, ra, t, ri))
                agenda.append((t, ri))
    return out


def same(a, b):
    return len(a) == len(b) and all(
        x[0] is y[0] and x[1] == y[1] and x[2] is y[2] and len(x[3]) == len(y[3]) and
        all(p is q for p, q in zip(x[3], y[3])) for x, y in zip(a, b))


def sh(steps):
    return [(s[0].id, s[1], s[2].id, [i.id for i in s[3]]) for s in steps]


def take(it, n=5000):
    out = list(itertools.islice(it, n))
    check(len(out) < n, 'the query does not end')
    return out


def rnd(rng, size):
    g = build(rng, size)
    g.refresh_indices()
    ts = raw_members(g)
    objs = ts + [i for t in ts for i in raw_members(t)]
    for o in rng.sample(objs, min(len(objs), 5)):
        ras = tuple(rng.sample(RA, rng.randint(1, 4)))
        for f, args, want in ((query.ancestors, (ras,), lambda: anc(o, ras)),
                              (query.descendants, (ras,), lambda: desc(o, ras, 'first')),
                              (query.descendants, (ras, 'all'), lambda: desc(o, ras, 'all'))):
            w = want()
            r = outcome(lambda: take(f(o, *args)))
            check(r[0] == 'return', f.__name__, o.id, args, 'raised', r[1])
            check(same(r[1], w), f.__name__, o.id, args, 'gave', sh(r[1]), 'expected', sh(w))
        if rng.random() < .3:
            check(same(take(query.ancestors(o)), anc(o, ('alignment', 'segmentation'))), 'ancestors', o.id)
            check(same(take(query.descendants(o)), desc(o, ('segmentation', 'alignment'), 'first')),
                  'descendants', o.id)
    return len(ts) > 1


CASES = [('random', rnd)]
