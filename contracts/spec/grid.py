from xigt.ref import ids


def inserted(trellis, pos, depth, items):
    """a column of its own for items"""
    col = []
    for i in range(depth):
        col.append([])
    col.append(items)
    return trellis[:pos] + [col] + trellis[pos:]


def row(columns, r):
    """row r of some columns, put together"""
    out = []
    for col in columns:
        if r < len(col):
            out.extend(col[r])
    return out


def aligned(item):
    """the ids an item is aligned to"""
    return ids(item.alignment or item.segmentation or '')


def first_row(tier):
    """a column for every item"""
    out = []
    for item in tier.items:
        out.append([[item]])
    return out
