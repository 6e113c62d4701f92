"""C08: values and resolution."""
from gen import *
from xigt import ref

REFAT = ('content', 'segmentation')


def resolved(values, sels):
    out = ''
    for s in sels:
        out += {',': ' ', '+': ''}.get(s.delim, '')
        v = values[s.id] or ''
        if s.spans:
            for d, a, b in s.spans:
                out += {',': ' ', '+': ''}.get(d, '') + v[int(a):int(b)]
        else:
            out += v
    return out


def build(rng, size):
    """Tiers t0 < t1 < ... whose items refer to lower tiers by content/segmentation.
    Returns (igt, expected value of every item)."""
    g = Igt(id='g')
    values, ids, spec = {}, {}, {}
    nt = rng.randint(1, 2 + min(size, 3))
    for k in range(nt):
        refs = {}
        for ra in REFAT:
            if k and rng.random() < .6:
                refs[ra] = 't%d' % rng.randrange(k)
        t = Tier(id='t%d' % k, attributes=dict(refs))
        if rng.random() < .2 and refs:
            t.attributes['alignment'] = 't0'
        g.append(t)
        ids[t.id] = []
        for j in range(rng.randint(1, 4)):
            i = '%s%d' % ('abcdefg'[k], j + 1)
            if rng.random() < .1:
                i += rng.choice(['-', '.', '.x', '-1'])
            at = {}
            val = None
            r = rng.random()
            text = rng.choice(['', 'dog', 'inu=ga san', 'x', 'abcdefghij']) if r < (.9 if not refs else .3) else None
            exp = text
            for ra in REFAT:
                if ra in refs and ids[refs[ra]] and rng.random() < .7:
                    sels = algnexpr(rng, 3, ids[refs[ra]], maxlen=rng.choice([4, 12]), nosp=True)
                    at[ra] = estr(sels)
                    if rng.random() < .1:
                        at[ra] = ' ' + at[ra] + '\n'
                    if exp is None:
                        exp = resolved(values, sels)
            it = Item(id=i, text=text, attributes=at)
            t.append(it)
            ids[t.id].append(i)
            values[i] = exp
            log('tier', t.id, refs, 'item', i, repr(text), at, 'value', repr(exp))
    return g, values, ids


def rnd(rng, size):
    g, values, ids = build(rng, size)
    for t in raw_members(g):
        for it in raw_members(t):
            check_eq(outcome(it.value), ('return', values[it.id]), 'value of %s' % it.id)
            a, b = [rng.choice([None, 0, 1, 2, 5, -1, -3, 99]) for _ in 'ab']
            v = values[it.id]
            check_eq(outcome(lambda: it.span(a, b)), ('return', None if v is None else v[a:b]),
                     'span(%r, %r) of %s' % (a, b, it.id))
            for ra in REFAT:
                if it.text is None and ra in it.attributes:
                    check_eq(it.value(refattrs=(ra,)), it.resolve_ref(ra), 'value by %s' % ra)
            if it.text is None:
                check(it.value(refattrs=()) is None and it.value(refattrs=None) is None, 'value by nothing')
    for _ in range(4):
        t = rng.choice(raw_members(g))
        sels = algnexpr(rng, size + 1, ids[t.id])
        e = estr(sels)
        log('resolve', t.id, repr(e))
        check_eq(outcome(lambda: ref.resolve(t, e)), ('return', resolved(values, sels)), 'resolve(%s, %r)' % (t.id, e))
        d = rng.choice(['  ' + e, e + '\n'])
        check_eq(outcome(lambda: ref.resolve(t, d)), ('return', resolved(values, sels)), 'resolve(%s, %r)' % (t.id, d))
        # a missing item anywhere
        k = rng.randrange(len(sels))
        bad = list(sels)
        bad[k] = Sel(bad[k].delim, 'nosuch', bad[k].spans)
        check_eq(outcome(lambda: ref.resolve(t, estr(bad))), ('raise', 'XigtStructureError'),
                 'resolve(%s, %r)' % (t.id, estr(bad)))
        # the igt resolves over all items
        if len({i for x in ids.values() for i in x}) == sum(map(len, ids.values())):
            g.refresh_indices()
            allsel = algnexpr(rng, size + 1, sorted(values))
            check_eq(outcome(lambda: ref.resolve(g, estr(allsel))), ('return', resolved(values, allsel)),
                     'resolve(igt, %r)' % estr(allsel))
    return True


def errors(rng, size):
    """references that lead nowhere"""
    x = Item(id='x', content='a1')
    check_eq(outcome(x.value), ('raise', 'XigtStructureError'), 'item without tier')
    t = Tier(id='t', content='a', items=[x])
    check_eq(outcome(x.value), ('raise', 'XigtStructureError'), 'tier without igt')
    g = Igt(tiers=[t])
    check_eq(outcome(x.value), ('raise', 'XigtStructureError'), 'no referred tier')
    a = Tier(id='a')
    g.append(a)
    check_eq(outcome(x.value), ('raise', 'XigtStructureError'), 'no referred item')
    a.append(Item(id='a1', text='v'))
    check_eq(outcome(x.value), ('return', 'v'), 'value')
    x.text = ''
    check_eq(outcome(x.value), ('return', ''), 'empty text is a text')
    y = Item(id='y', segmentation='a1')
    t.append(y)
    t.segmentation = 'b'
    g.append(Tier(id='b', items=[Item(id='a1', text='b-value')]))
    check_eq(outcome(y.value), ('return', 'b-value'), 'resolution through the tier of the same attribute')
    z = Item(id='z', attributes={'content': 'a1', 'segmentation': 'a1'})
    t.append(z)
    check_eq(outcome(z.value), ('return', 'v'), 'content before segmentation')
    check_eq(outcome(z.get_content), ('return', 'v'), 'get_content')
    log('errors')


CASES = [('random', rnd)]
ENUMS = [('errors', lambda: [lambda: errors(None, 1)])]
