"""What queries report."""


def count(matches, description):
    return len(matches), description.format(match='')


def unique(matches, description):
    return len(set(matches)), description.format(match='')


def groups(matches, find):
    """what is tallied"""
    return [tuple(find(m)) for m in matches]


def tallies(common, description):
    return [(n, description.format(match=g)) for g, n in common]


def process(agenda, tally, unique, count):
    out = []
    for a in agenda:
        if a['action'] == 'tally':
            out.extend(tally(a))
        elif a['action'] == 'unique':
            out.append(unique(a))
        elif a['action'] == 'count':
            out.append(count(a))
    return out


def found(matches, description):
    """what is printed for a find"""
    return [(' ', description.format(match=m)) for m in matches]


def lines(results):
    """what is printed for the results: numbers aligned to the right"""
    if not results:
        return []
    width = max(len(str(r[0])) for r in results)
    return [(' ' + str(r[0]).rjust(width) + '\t' + r[1],) for r in results]


def reports(infiles, heading, results):
    """what the command prints: for every file its heading, its results and an empty line"""
    out = []
    for f in infiles:
        out.append(heading(f))
        out.append(results(f))
        out.append(())
    return out


def asked(action, vals, format):
    """a new agendum"""
    subquery = vals[1] if action == 'tally' else ''
    if action == 'tally':
        template = '{query}\t{subquery}\t{match!s}'
    else:
        template = '{query}\t{match!s}'
    return {'action': action, 'query': vals[0], 'subquery': subquery,
            'description': format(template, vals[0], subquery)}
