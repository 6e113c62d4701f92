"""What C09 says about references. ids, has are given."""


def referents(obj, ids, refattrs):
    return {ra: ids(obj.attributes.get(ra, '')) for ra in refattrs}


def referring(others, id, ra, ids):
    return [o.id for o in others if o.id is not None and id in ids(o.attributes.get(ra, ''))]


def members(igt):
    return [t for t in list.__iter__(igt)]


def items(igt):
    return [i for t in list.__iter__(igt) for i in list.__iter__(t)]


def all_of(igt):
    return [t for t in list.__iter__(igt)] + items(igt)


def dereferenced(ids, get):
    return [get(i) for i in ids]
