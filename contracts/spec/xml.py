"""What an element means once it is written and read again."""


def split(k):
    if ':' in k:
        prefix, local = k.split(':', 1)
        return prefix, local
    return None, k


def declared(sets):
    """the prefixes an element declares"""
    out = {}
    for k, v in sets:
        prefix, local = split(k)
        if prefix == 'xmlns':
            out[local] = v
        elif prefix is None and local == 'xmlns':
            out[''] = v
    return out


def attributes(sets, scope):
    out = []
    for k, v in sets:
        prefix, local = split(k)
        if prefix == 'xmlns' or (prefix is None and local == 'xmlns'):
            pass
        elif prefix is None:
            out.append((k, v))
        else:
            out.append(('{' + scope[prefix] + '}' + local, v))
    return out


def tag(t, scope):
    prefix, local = split(t)
    if prefix == '':
        raise ValueError('not a name')
    if prefix is not None:
        return '{' + scope[prefix] + '}' + local
    if '' in scope:
        return '{' + scope[''] + '}' + t
    return t
