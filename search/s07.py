"""C07: reference expressions against their abstract form."""
import itertools
from gen import *
from xigt import ref


def groups(sels):
    """expected compress: adjacent bracketed selections of one id are merged"""
    out = []
    for s in sels:
        if out and s.spans and out[-1].spans and out[-1].id == s.id:
            first = (s.delim,) + s.spans[0][1:]
            out[-1] = Sel(out[-1].delim, s.id, out[-1].spans + [first] + s.spans[1:])
        else:
            out.append(Sel(s.delim, s.id, list(s.spans)))
    return out


def expanded(sels):
    out = []
    for s in sels:
        if not s.spans:
            out.append(s)
        for j, (d, a, b) in enumerate(s.spans):
            out.append(Sel(s.delim if j == 0 else d, s.id, [('', a, b)]))
    return out


def listed(sels, keep=True):
    out = []
    for s in sels:
        if keep and s.delim:
            out.append(s.delim)
        out.append(str(Sel('', s.id, s.spans)))
    return out


def judge(sels):
    e = estr(sels)
    log(repr(e))
    E = estr(expanded(sels))
    C = estr(groups(sels))
    check_eq(ref.selections(e), listed(sels), 'selections(%r)' % e)
    check_eq(''.join(ref.selections(e)), e, 'joined selections(%r)' % e)
    check_eq(ref.selections(e, keep_delimiters=False), listed(sels, False), 'selections(%r, False)' % e)
    check_eq(ref.expand(e), E, 'expand(%r)' % e)
    check_eq(ref.compress(e), C, 'compress(%r)' % e)
    check_eq(ref.ids(e), [s.id for s in sels], 'ids(%r)' % e)
    check_eq(ref.spans(e), listed(expanded(sels)), 'spans(%r)' % e)
    check_eq(ref.spans(e, keep_delimiters=False), listed(expanded(sels), False), 'spans(%r, False)' % e)
    check_eq(ref.expand(ref.compress(e)), E, 'expand(compress(%r))' % e)
    check_eq(ref.compress(ref.expand(e)), C, 'compress(expand(%r))' % e)
    check_eq(ref.expand(ref.expand(e)), E, 'expand twice')
    check_eq(ref.compress(ref.compress(e)), C, 'compress twice')
    check_eq(ref.spans(e), ref.selections(ref.expand(e)), 'spans = selections of expand')
    return len(sels) > 1


def rnd(rng, size):
    return judge(algnexpr(rng, size + 1))


def enum():
    atoms = [('a', []), ('b', []), ('a', [('', '0', '1')]), ('a', [('', '0', '1'), ('+', '2', '3')]),
             ('b', [('', '-2', '-1'), (',', '10', '12')]), ('a-', []), ('a.', [('', '1', '2')]),
             ('a-1', [('', '3', '-1'), ('+', '-4', '5'), (',', '0', '0')])]
    for n in (1, 2, 3):
        for t in itertools.product(atoms, repeat=n):
            for ds in itertools.product('+,', repeat=n - 1):
                yield (lambda t=t, ds=ds: judge([Sel(d, i, list(sp)) for d, (i, sp) in zip(('',) + ds, t)]))
    for n in (2, 3):
        for t in itertools.product(['a', 'b1', 'c-'], repeat=n):
            for ds in itertools.product([' ', '  ', '\n'], repeat=n - 1):
                yield (lambda t=t, ds=ds: judge([Sel(d, i, []) for d, i in zip(('',) + ds, t)]))


CASES = [('random', rnd)]
ENUMS = [('small', enum)]
