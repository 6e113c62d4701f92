"""When the rules of the validator are violated."""


def tier_of(igt, ref, named):
    """the tier with the id ref"""
    return named(igt, ref) if ref else None


def bad_tier_ref(tier, attr, named):
    ref = tier.attributes.get(attr)
    return bool(ref) and named(tier._parent, ref) is None


def lacks(tier, attr):
    """some item has the attribute, the tier has not"""
    return attr not in tier.attributes and any(attr in x.attributes for x in tier)


def referred(item, attr, named):
    """the tier the expression of the item selects from"""
    if not item.attributes.get(attr):
        return None
    ref = item._parent.attributes.get(attr)
    return named(item._parent._parent, ref) if ref else None


def missing(tier, tokens, named):
    """the ids that the tier does not have"""
    return [i for d, i, r in tokens if named(tier, i) is None]


def beyond(tier, tokens, spans, named, length):
    """the spans that go beyond the end of the value of the item"""
    out = []
    for d, i, r in tokens:
        if r:
            for sd, a, b in spans(r):
                x = named(tier, i)
                if x is not None:
                    n = length(x)
                    if int(a) > n or int(b) > n:
                        out.append(i + '[' + a + ':' + b + ']')
    return out


def bound(k, n):
    """position of a bound of a span in a text of length n"""
    if k < 0:
        return k + n if k + n > 0 else 0
    return k if k < n else n


def selected(tier, tokens, spans, named, length, between):
    """what is selected, in order: an item's id and a range of positions of its value"""
    out = []
    for d, i, r in tokens:
        if r:
            for sd, a, b in spans(r):
                x = named(tier, i)
                if x is not None:
                    out.extend(between(i, int(a), int(b), length(x)))
        else:
            x = named(tier, i)
            if x is not None:
                out.extend(between(i, 0, length(x), length(x)))
    return out


def ids_of(xs):
    return [x.id for x in xs if x.id]


def item_ids_of(tiers):
    return [x.id for t in tiers for x in t if x.id]


def given(ids):
    return [i for i in ids if i]


def all_of(xs):
    return all(xs)


def shown_report(records, children, id, index, level, name, color, shade):
    """what is shown for a report: its heading, its records, what is below it"""
    out = []
    if any(records) or any(children):
        indent = ' ' * level
        heading = indent + name + ' ' + str(index) + ' '
        if id:
            heading += '(id: "' + id + '")'
        out.append(('\033[1m' + heading + '\033[0m',) if color else (heading,))
        for r in records:
            line = indent + ' * ' + r['message']
            out.append(('log', r['level'], shade(r['level']) + line + '\033[0m' if color else line))
        for c in children:
            out.append(('below', c, level + 1))
    return out
