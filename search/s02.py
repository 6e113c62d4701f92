"""C02: parents and member types under operation sequences."""
import s01
from gen import *


def ctor_parents(rng, size):
    """Parent arguments of constructors, and metadata holders."""
    xc, g, t = XigtCorpus(), Igt(), Tier()
    check(Igt(corpus=xc).corpus is xc, 'Igt(corpus=)')
    check(Tier(igt=g).igt is g, 'Tier(igt=)')
    check(Item(tier=t).tier is t, 'Item(tier=)')
    md = Metadata()
    check(Meta(metadata=md)._parent is md, 'Meta(metadata=)')
    m = Meta()
    check(MetaChild('x', parent=m)._parent is m, 'MetaChild(parent=)')
    for H in (XigtCorpus, Igt, Tier):
        a, b = Metadata(id='a'), Metadata(id='b')
        h = H(metadata=[a, b])
        check(a._parent is h and b._parent is h, H.__name__, 'metadata parent')
        c = Metadata(id='c')
        h.metadata = [c]
        check(c._parent is h and raw_members(h.metadata)[0] is c, 'metadata setter')
        h.metadata.append(a)
        check(a._parent is h, 'metadata append')
        r = outcome(lambda: setattr(h, 'metadata', Metadata()))
        check_eq(r, ('raise', 'XigtError'), 'metadata = Metadata()')
        check(len(h.metadata) == 2 and raw_members(h.metadata)[0] is c, 'refused metadata assignment')
    k = MetaChild('k')
    mc = MetaChild('x', children=[k])
    check(k._parent is mc, 'child parent')
    m = Meta(children=[mc])
    md = Metadata(metas=[m])
    t = Tier(items=[Item(id='q')], metadata=[md])
    g = Igt(tiers=[t])
    xc = XigtCorpus(igts=[g], mode=rng.choice(['full', 'incremental', 'transient']))
    for got in xc:
        check(got is g and got.corpus is xc, 'igt.corpus')
        check(got.tiers[0].corpus is xc and got.tiers[0].items[0].corpus is xc
              and got.tiers[0].items[0].igt is g, 'chain of parents')
    check(m._parent is md and md._parent is t and mc._parent is m, 'metadata chain')
    log('constructed chain')


CASES = [('operations', s01.drive('C02')), ('constructors', ctor_parents), ('structures', s01.nested)]
