# what reference expressions mean; tokens: (delimiter, id, inside of the brackets or '')


def text(tokens):
    return ''.join(d + i + ('[' + r + ']' if r else '') for d, i, r in tokens)


def sel(i, r):
    return i + '[' + r + ']' if r else i


def selections(tokens, keep):
    out = []
    for d, i, r in tokens:
        if keep and d:
            out.append(d)
        out.append(sel(i, r))
    return out


def selected_ids(tokens):
    return [i for d, i, r in tokens]


def expanded(tokens, spans):
    """the tokens with every span on its own id"""
    out = []
    for d, i, r in tokens:
        if r:
            for sd, a, b in spans(r):
                out.append(((sd if sd else d), i, a + ':' + b))
        else:
            out.append((d, i, ''))
    return out


def piece(prev, d, i, r):
    """what a token adds to the compressed text: the bracket of the previous token is still
    open if that had one, and is gone on with exactly if both are bracketed and of one id"""
    if prev is not None and prev[2]:
        if r and i == prev[1]:
            return d + r
        return ']' + d + i + ('[' + r if r else '')
    return d + i + ('[' + r if r else '')
