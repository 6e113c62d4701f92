"""What values and references denote."""
from xigt.errors import XigtStructureError


def joint(d):
    return ' ' if d == ',' else ''


def resolved(tokens, spans, member):
    """the text that the tokens (delimiter, id, inside of the brackets or '') select"""
    out = []
    for d, i, r in tokens:
        out.append(joint(d))
        x = member(i)
        if x is None:
            raise XigtStructureError()
        v = x.value() or ''
        if r:
            for sd, a, b in spans(r):
                out.append(joint(sd))
                out.append(v[int(a):int(b)])
        else:
            out.append(v)
    return ''.join(out)


def value(x, attrs):
    if x.text is not None:
        return x.text
    for a in attrs:
        if a in x.attributes:
            return x.resolve_ref(a)
    return None


def resolve_ref(x, a, member, resolve):
    e = x.attributes[a]
    t = x._parent
    if t is None:
        raise XigtStructureError()
    tid = t.attributes[a]
    if t._parent is None:
        raise XigtStructureError()
    r = member(t._parent, tid)
    if r is None:
        raise XigtStructureError()
    return resolve(r, e)


def span(x, a, b):
    v = x.value()
    return None if v is None else v[a:b]
