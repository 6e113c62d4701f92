"""C09: referents, referrers, dereferencing and the IGT index."""
from gen import *
from xigt import ref

RA = ('alignment', 'content', 'segmentation')


def build(rng, size):
    """IGT with unique ids; tiers refer to tiers, items to items. returns igt, refs {obj: {ra: [ids]}}"""
    nt = rng.randint(1, 2 + min(4, size))
    tids = ['t%d' % k if rng.random() < .9 else None for k in range(nt)]
    named = [t for t in tids if t]
    iids = []
    tiers = []
    exp = {}
    for k in range(nt):
        its = [('%s%d' % ('abcdefgh'[k], j + 1)) if rng.random() < .9 else None for j in range(rng.randint(0, 3))]
        iids.append(its)
    pool = [i for its in iids for i in its if i]
    def refs(rng, cand, n):
        at, ex = {}, {}
        for ra in RA:
            r = rng.random()
            if r < .5 and cand:
                if n == 1:
                    sels = [Sel('', rng.choice(cand), [])]
                else:
                    sels = algnexpr(rng, 3, cand)
                at[ra] = estr(sels)
                ex[ra] = [s.id for s in sels]
            elif r < .6:
                at[ra] = ''
        return at, ex
    for k in range(nt):
        at, ex = refs(rng, named + ['gone'], 1 if rng.random() < .7 else 2)
        items = []
        for i in iids[k]:
            a2, e2 = refs(rng, pool + ['lost'], 2)
            it = Item(id=i, attributes=a2, type=rng.choice([None, 'q']), text=rng.choice([None, 'x']))
            exp[id(it)] = e2
            items.append(it)
        t = Tier(id=tids[k], type=rng.choice(TYPES), attributes=at, items=items)
        exp[id(t)] = ex
        tiers.append(t)
        log('tier', t.id, at, 'items', [(i.id, i.attributes) for i in items])
    g = Igt(tiers=tiers)
    return g, exp


def rnd(rng, size):
    g, exp = build(rng, size)
    tiers = raw_members(g)
    items = [i for t in tiers for i in raw_members(t)]
    if rng.random() < .5:
        # edit after construction, then refresh
        t = rng.choice(tiers)
        k = rng.random()
        if k < .4:
            new = Item(id='new1', attributes={'alignment': t._id or 'zz'})
            exp[id(new)] = {'alignment': ['lost']}
            new.attributes['alignment'] = 'lost'
            t.append(new)
            log('append item new1')
        elif k < .8 and raw_members(t):
            old = t.pop(rng.randrange(len(raw_members(t))))
            log('drop item', old.id)
        elif raw_members(t):
            o = rng.choice(raw_members(t))
            log('rename', o.id)
            o.id = rng.choice([None, 'renamed'])
            t.refresh_index()
        g.refresh_indices()
        items = [i for t in tiers for i in raw_members(t)]
    g.refresh_indices(tiers=rng.random() < .5)
    judge_index(g, tiers, items, rng)
    for objs, kind in ((tiers, 'tier'), (items, 'item')):
        for a in objs:
            if a.id is None:
                continue
            # direct
            got = ref.referents(g, a.id)
            want = {ra: exp[id(a)].get(ra, []) for ra in RA}
            check_eq(got, want, 'referents(%s)' % a.id)
            check_eq(dict(g.referents(a.id)), want, 'indexed referents(%s)' % a.id)
            check_eq(dict(a.referents()), want, '%s.referents()' % a.id)
            sub = rng.sample(RA, rng.randint(1, 3))
            check_eq(g.referents(a.id, refattrs=sub), {ra: want[ra] for ra in sub}, 'referents(%s, %s)' % (a.id, sub))
            rr = {ra: [b.id for b in objs if b.id is not None and a.id in exp[id(b)].get(ra, [])] for ra in RA}
            got = ref.referrers(g, a.id)
            check_eq({ra: got.get(ra, []) for ra in RA}, rr, 'referrers(%s)' % a.id)
            check(set(got) <= set(RA), 'referrers keys', got)
            got = ref.referrers(g, a.id, refattrs=sub)
            check_eq(got, {ra: rr[ra] for ra in sub}, 'referrers(%s, %s)' % (a.id, sub))
            check_eq(a.referrers(sub), {ra: rr[ra] for ra in sub}, '%s.referrers(%s)' % (a.id, sub))
            ix = g.referrers(a.id)
            check_eq({ra: sorted(ix.get(ra, [])) for ra in RA}, {ra: sorted(rr[ra]) for ra in RA},
                     'indexed referrers(%s)' % a.id)
            check(set(ix) <= set(RA), 'indexed referrers keys', dict(ix))
            for ra in RA:
                ex = exp[id(a)].get(ra, [])
                if ex:
                    anyobj = lambda i: next((x for x in tiers + items if x.id == i), None)
                    check(ref.dereference(a, ra) is anyobj(ex[0]), 'dereference', a.id, ra)
                    got = ref.dereference_all(a, ra)
                    check(len(got) == len(ex) and all(x is anyobj(i) for x, i in zip(got, ex)),
                          'dereference_all', a.id, ra, got)
    check_eq(outcome(lambda: ref.referents(g, 'nosuch')), ('raise', 'XigtLookupError'), 'referents of nothing')
    check_eq(outcome(lambda: ref.referrers(g, 'nosuch')), ('raise', 'XigtLookupError'), 'referrers of nothing')
    return len(items) > 1


def judge_index(g, tiers, items, rng):
    d = object()
    for i in [x.id for x in items + tiers if x.id] + ['nosuch', 'lost', 'gone', 'a1', 'a2', 'b1', 'new1', 'renamed']:
        it = next((x for x in items if x.id == i), d)
        check(g.get_item(i, d) is it, 'get_item(%r)' % i)
        if it is d:
            check(g.get_item(i) is None, 'get_item(%r)' % i)
        t = next((x for x in tiers if x.id == i), it)
        check(g.get_any(i, d) is t, 'get_any(%r)' % i)
    check(g.get_item(None, d) is d, 'get_item(None)')


def prefer(rng, size):
    """a tier and an item with one id: get_any prefers the tier"""
    x = Item(id='q')
    g = Igt(tiers=[Tier(id='p', items=[x]), Tier(id='q')])
    check(g.get_any('q') is raw_members(g)[1], 'get_any prefers the tier')
    check(g.get_item('q') is x, 'get_item finds the item')
    log('tier and item of one id')


def incremental(rng, size):
    """any order of edits followed by refreshes"""
    g = Igt(id='g')
    for step in range(3 + size):
        k = rng.choice(['tier', 'item', 'droptier', 'dropitem', 'setref', 'move'])
        ts = raw_members(g)
        if k == 'tier':
            t = Tier(id='t%d' % step)
            for j in range(rng.randint(0, 2)):
                t.append(Item(id='i%d_%d' % (step, j)))
            g.append(t)
        elif k == 'item' and ts:
            rng.choice(ts).append(Item(id='i%d' % step))
        elif k == 'droptier' and ts:
            g.remove(rng.choice(ts))
        elif k == 'dropitem' and ts:
            t = rng.choice(ts)
            if raw_members(t):
                t.pop()
        elif k == 'setref' and ts:
            its = [i for t in ts for i in raw_members(t)]
            if its:
                rng.choice(its).attributes[rng.choice(RA)] = ' '.join(rng.choice(its).id for _ in range(rng.randint(1, 3)))
        elif k == 'move' and len(ts) > 1:
            a, b = rng.sample(ts, 2)
            if raw_members(a):
                b.append(a.pop())
        log(k)
        if rng.random() < .5:
            g.refresh_indices()
            ts = raw_members(g)
            its = [i for t in ts for i in raw_members(t)]
            judge_index(g, ts, its, rng)
            for i in its + ts:
                same = its if i in its else ts
                rr = {}
                for ra in RA:
                    l = sorted(b.id for b in same if i.id in ref.ids(b.attributes.get(ra, '')))
                    if l:
                        rr[ra] = l
                got = {ra: sorted(l) for ra, l in g.referrers(i.id).items() if l}
                check_eq(got, rr, 'indexed referrers(%s)' % i.id)
                check_eq({k: v for k, v in g.referents(i.id).items() if v},
                         {ra: ref.ids(i.attributes[ra]) for ra in RA if ref.ids(i.attributes.get(ra, ''))},
                         'indexed referents(%s)' % i.id)
    return True


CASES = [('random', rnd), ('edits', incremental)]
ENUMS = [('prefer', lambda: [lambda: prefer(None, 1)])]
