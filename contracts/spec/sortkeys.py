"""Natural sort keys."""


def natural(pieces, number):
    """text, number, text, ..., text"""
    return [number(p) if i % 2 == 1 else p for i, p in enumerate(pieces)]


def key(x, paths, find, pieces, number):
    return [natural(pieces(find(x, path) or ''), number) for path in paths]
