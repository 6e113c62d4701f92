"""What the steps of a path select."""


def split(name):
    if ':' in name:
        prefix, local = name.split(':', 1)
        return prefix, local
    return None, name


def fits(x, prefix, nsmap):
    return prefix is None or x.namespace == nsmap.get(prefix, prefix)


def child(x, name, metadata, members, kind):
    """kind: the element name of the members, None if each has its own"""
    prefix, local = split(name)
    out = [c for c in metadata if local in ('*', 'metadata') and fits(c, prefix, x.nsmap)]
    out.extend(c for c in members
               if (local == '*' or local == (c.name if kind is None else kind)) and fits(c, prefix, x.nsmap))
    return out


def descendants(x, name, element, kids, below):
    """x itself if it matches, then what is below its children, in order"""
    prefix, local = split(name)
    out = []
    if (local == '*' or local == element) and fits(x, prefix, x.nsmap):
        out.append(x)
    for c in kids:
        out.extend(below(c))
    return out


def attribute(x, name):
    prefix, local = split(name)
    key = local if prefix is None else '{' + x.nsmap.get(prefix, prefix) + '}' + local
    return [x.attributes.get(key)]


def attributes(x):
    return [x.attributes[k] for k in x.attributes]


def referred(keys, ids, get):
    out = []
    for k in keys:
        out.extend(get(i) for i in ids(k))
    return out


def some(results):
    return any(v is not None for v in results)


def equal(results, value):
    return any(v == value for v in results)


def pieces(found):
    return [t.strip() for t in found if t.strip()]


def flat(xs, f):
    return [y for x in xs for y in f(x)]


def flat2(xs, ys, f):
    return [z for x in xs for y in ys for z in f(x, y)]


def kept(xs, test):
    return [x for x in xs if test(x)]


def parents(xs):
    return [x._parent for x in xs if x._parent is not None]
