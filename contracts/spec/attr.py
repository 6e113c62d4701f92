"""Attribute names and inheritance, written from the statement of C04."""


def expand(key, namespace, nsmap):
    if key.startswith('{'):
        return key
    if ':' in key:
        prefix, name = key.split(':', 1)
        return '{' + nsmap[prefix] + '}' + name
    if namespace is not None and namespace in nsmap:
        return '{' + nsmap[namespace] + '}' + key
    if namespace is not None and namespace != '':
        return '{' + namespace + '}' + key
    return key
