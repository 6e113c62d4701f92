"""C11: sort_tiers."""
from gen import *
import itertools

DEF = ('segmentation', 'alignment', 'content')


def judge(g, refattrs):
    ts = raw_members(g)
    log([(t.id, t.attributes) for t in ts], refattrs)
    attrs = [dict(t.attributes) for t in ts]
    r = outcome(lambda: g.sort_tiers() if refattrs is None else g.sort_tiers(refattrs=refattrs))
    check(r[0] == 'return', 'sort_tiers raised', r[1])
    new = raw_members(g)
    check(sorted(map(id, new)) == sorted(map(id, ts)), 'not a permutation', [t.id for t in new])
    check_eq([dict(t.attributes) for t in ts], attrs, 'attributes')
    for t in ts:
        if t.id is not None:
            check(g.get(t.id) is t, 'lookup after sorting')
    refattrs = DEF if refattrs is None else refattrs
    ids = {t.id: t for t in ts if t.id is not None}
    link, acyclic = {}, True
    for t in ts:
        ra = [(p, a) for p, a in enumerate(refattrs) if a in t.attributes]
        if ra:
            v = t.attributes[ra[0][1]]
            if v not in ids:
                return False
            link[id(t)] = (ids[v], ra[0][1])
    for t in ts:
        x, n = t, 0
        while id(x) in link:
            x = link[id(x)][0]
            n += 1
            if n > len(ts):
                return False
    pos = {id(t): i for i, t in enumerate(new)}
    old = {id(t): i for i, t in enumerate(ts)}
    for t in ts:
        if id(t) in link:
            check(pos[id(link[id(t)][0])] < pos[id(t)], t.id, 'comes before the tier it refers to:',
                  [x.id for x in new])
    for a in ts:
        for b in ts:
            la, lb = link.get(id(a)), link.get(id(b))
            if la is None and lb is None or la and lb and la[0] is lb[0] and la[1] == lb[1]:
                if old[id(a)] < old[id(b)]:
                    check(pos[id(a)] < pos[id(b)], 'relative order of', a.id, b.id, 'not kept',
                          [x.id for x in new])
    return True


def rnd(rng, size):
    n = rng.randint(1, 3 + min(size, 9))
    mode = rng.choice(['forest', 'forest', 'any', 'dangling'])
    perm = list(range(n))
    rng.shuffle(perm)
    tiers = [None] * n
    for k in range(n):
        at = {}
        for ra in DEF:
            r = rng.random()
            if mode == 'forest':
                if r < .4 and k:
                    at[ra] = 'T%d' % rng.randrange(k)
            elif r < .5:
                at[ra] = 'T%d' % rng.randrange(n + (mode == 'dangling'))
            if r > .97 and mode == 'dangling':
                at[ra] = ''
        nid = 'T%d' % k
        tiers[perm[k]] = Tier(id=nid if rng.random() < .95 or mode == 'forest' else None, attributes=at)
    ra = rng.choice([None, None, ('alignment',), ('content', 'segmentation'), ['alignment', 'segmentation', 'content'],
                     ()])
    return judge(Igt(tiers=tiers), ra)


def enum():
    """all reference structures over up to 4 tiers by two attributes"""
    for n in (1, 2, 3):
        opts = [None] + [(a, 'T%d' % k) for k in range(n + 1) for a in ('segmentation', 'alignment')]
        for t in itertools.product(opts, repeat=n):
            yield (lambda t=t, n=n: judge(Igt(tiers=[
                Tier(id='T%d' % k, attributes=dict([x] if x else [])) for k, x in enumerate(t)]), None))
    opts = [None] + [('segmentation', 'T%d' % k) for k in range(4)] + [('alignment', 'T%d' % k) for k in (0, 3)]
    for t in itertools.product(opts, repeat=4):
        yield (lambda t=t: judge(Igt(tiers=[
            Tier(id='T%d' % k, attributes=dict([x] if x else [])) for k, x in enumerate(t)]), None))


CASES = [('random', rnd)]
ENUMS = [('small', enum)]
