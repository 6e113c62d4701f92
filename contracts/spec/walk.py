"""What C10 says about a step of ancestors and descendants. ids, dereference, refs, get are given."""


def start(obj, is_item):
    if is_item:
        return obj._parent, [obj]
    return obj, [x for x in list.__iter__(obj)]


def up(tier, items, refattrs, ids, dereference):
    ra = next((r for r in refattrs if r in tier.attributes), None)
    if ra is None:
        return None
    t = dereference(tier, ra)
    return tier, ra, t, [x for x in list.__iter__(t) if any(x.id in ids(i.attributes.get(ra, '')) for i in items)]


def followed(tier, refattrs, first, refs):
    ras = [ra for ra in refattrs if refs(tier, ra)]
    if first and ras:
        return [ras[0]]
    return ras


def down(tier, items, ra, ids, refs, get):
    return [(tier, ra, get(r), [x for x in list.__iter__(get(r))
                                if any(i.id in ids(x.attributes.get(ra, '')) for i in items)])
            for r in refs(tier, ra)]


def pairs(steps):
    return [(s[2], s[3]) for s in steps]
