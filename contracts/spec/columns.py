"""Places of tokens."""


def place(s, toks):
    """of the s-th token in the tokens joined by single spaces"""
    begin = sum(len(t) + 1 for t in toks[:s])
    return begin, begin + len(toks[s])


def padded(m, encoding):
    return m.group().decode(encoding).ljust(m.end() - m.start())


def respaced(tiles, encoding):
    return ''.join(padded(m, encoding) for m in tiles)
