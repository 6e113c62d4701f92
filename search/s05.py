"""C05: equality."""
from gen import *
import copy


def clone(x):
    """A structural copy made through the constructors."""
    kw = dict(attributes=dict(x.attributes), namespace=x.namespace)
    if isinstance(x, MetaChild):
        y = MetaChild(x.name, text=x.text, children=[clone(k) for k in raw_members(x)], **kw)
        y.id, y.type = x._id, x.type
        return y
    kw.update(id=x._id, type=x.type)
    if isinstance(x, Item):
        return Item(text=x.text, **kw)
    if isinstance(x, Meta):
        return Meta(text=x.text, children=[clone(k) for k in raw_members(x)], **kw)
    if isinstance(x, Metadata):
        return Metadata(metas=[clone(k) for k in raw_members(x)], **kw)
    kw['metadata'] = [clone(k) for k in raw_members(x._md)]
    if isinstance(x, Tier):
        return Tier(items=[clone(k) for k in raw_members(x)], **kw)
    if isinstance(x, Igt):
        return Igt(tiers=[clone(k) for k in raw_members(x)], **kw)
    return XigtCorpus(igts=[clone(k) for k in raw_members(x)], **kw)


def parts(x):
    yield x
    for m in raw_members(getattr(x, '_md', [])):
        for y in parts(m):
            yield y
    if isinstance(x, list):
        for m in raw_members(x):
            for y in parts(m):
                yield y


def mutate(rng, x):
    p = rng.choice(list(parts(x)))
    k = rng.choice(['id', 'type', 'attr', 'attrdel', 'ns', 'text', 'name', 'drop', 'swap', 'mddrop', 'nsmap',
                    'dup', 'mdadd', 'attrval', 'attrkey', 'parent'])
    log('mutation', k, 'of', type(p).__name__)
    if k == 'id':
        p.id = rng.choice([None, 'u%d' % rng.randint(0, 10**6), p._id])
    elif k == 'type':
        p.type = rng.choice([None, '', 'other', 'words'])
    elif k == 'attr':
        p.attributes['k%d' % rng.randint(0, 2)] = rng.choice(['', 'v', None])
    elif k == 'attrdel' and p.attributes:
        del p.attributes[rng.choice(sorted(p.attributes))]
    elif k == 'attrval' and p.attributes:
            k_ = rng.choice(sorted(p.attributes))
            p.attributes[k_] = (p.attributes[k_] or '') + 'x'
    elif k == 'attrkey' and p.attributes:
        kk = rng.choice(sorted(p.attributes))
        p.attributes[kk + '2'] = p.attributes.pop(kk)
    elif k == 'ns':
        p.namespace = rng.choice([None, 'u', 'http://x.org/'])
    elif k == 'text' and not isinstance(p, Metadata) and hasattr(p, 'text'):
        p.text = rng.choice([None, '', 'x', 'dog', 'dogs'])
    elif k == 'name' and isinstance(p, MetaChild):
        p.name = rng.choice(['n', 'other'])
    elif k == 'drop' and isinstance(p, list) and len(raw_members(p)):
        p.pop(rng.randrange(len(raw_members(p))))
    elif k == 'swap' and isinstance(p, list) and len(raw_members(p)) > 1:
        p.reverse()
    elif k == 'mddrop' and getattr(p, '_md', None):
        p._md.pop()
    elif k == 'mdadd' and hasattr(p, '_md'):
        p._md.append(Metadata())
    elif k == 'nsmap':
        p.nsmap = {'x': 'changed'}       # not part of equality
    elif k == 'dup' and isinstance(p, Meta):
        p.append(MetaChild('n'))


def expect(x, y):
    return canon(x) == canon(y)


def judge(x, y, want):
    for a, b in ((x, y), (y, x)):
        r = outcome(lambda: a == b)
        check_eq(r, ('return', want), '%s == %s' % (type(a).__name__, type(b).__name__))
        r = outcome(lambda: a != b)
        check_eq(r, ('return', not want), '%s != %s' % (type(a).__name__, type(b).__name__))


def anyobj(rng, size):
    return rng.choice([corpus, igt, tier, item, metadata, meta, metachild])(rng, size)


def pairs(rng, size):
    x = anyobj(rng, size)
    y = clone(x)
    log(show(x))
    for p in (x, y):
        judge(p, p, True)
    judge(x, y, True)
    z = clone(y)
    for _ in range(rng.randint(1, 2)):
        mutate(rng, z)
    log('->', show(z))
    judge(x, z, expect(x, z))
    judge(y, z, expect(y, z))
    w = clone(z)
    judge(z, w, True)
    judge(x, w, expect(x, w))
    return True


def small():
    """all small objects of all classes against one another"""
    objs = []
    for kw in ({}, {'attributes': {'a': 'v'}}, {'namespace': 'u'}):
        objs += [XigtCorpus(**kw), Igt(**kw), Tier(**kw), Item(**kw), Metadata(**kw), Meta(**kw),
                 MetaChild('n', **kw), MetaChild('m', **kw)]
    for t in ('', 'x'):
        objs += [Item(text=t), Meta(text=t), MetaChild('n', text=t)]
    for kw in ({'id': 'a'}, {'type': 't'}, {'type': ''}):
        objs += [XigtCorpus(**kw), Igt(**kw), Tier(**kw), Item(**kw), Metadata(**kw), Meta(**kw)]
    objs += [XigtCorpus(igts=[Igt()]), Igt(tiers=[Tier()]), Tier(items=[Item()]), Metadata(metas=[Meta()]),
             Meta(children=[MetaChild('n')]), MetaChild('n', children=[MetaChild('n')]),
             XigtCorpus(metadata=[Metadata()]), Igt(metadata=[Metadata()]), Tier(metadata=[Metadata()]),
             XigtCorpus(igts=[Igt(), Igt()]), Igt(tiers=[Tier(), Tier()]), Tier(items=[Item(), Item()])]
    other = [None, 0, '', 'x', [], (), {}, object(), [Item()], [Tier()]]
    for i, x in enumerate(objs):
        for y in objs:
            yield (lambda x=x, y=y: (log(show(x), show(y)), judge(x, y, expect(x, y)))[0])
        for y in other:
            def f(x=x, y=y):
                log(show(x), repr(y))
                check_eq(outcome(lambda: x == y), ('return', False), 'equal to a foreign object')
                check_eq(outcome(lambda: x != y), ('return', True), 'not unequal to a foreign object')
            yield f


CASES = [('pairs', pairs)]
ENUMS = [('small', small)]
