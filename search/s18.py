"""C18: natural sorting."""
import os
import io
import argparse
import tempfile
import contextlib
import functools
from gen import *
from xigt.scripts import xigt_sort as S
from xigt.codecs import xigtxml

VALS = [None, '', '1', '2', '10', '02', '010', 'a', 'a1', 'a2', 'a10', 'a01', 'b', 'B', '1a', '10a', '2a', 'a1b2', 'a1b10',
        'a-1', '-1', '1.5', '1.25', '\u0661', '\u0662x', '\u00e9', ' 1', 'a 2', 'x1y', 'x', '1a1', '\u00b2', '\u00b3a', '9' * 30, 'a' + '7' * 5000, 'a' + '8' * 4999 + 'b']


def number(digits):
    """int() refuses more than 4300 digits at once"""
    n = 0
    for i in range(0, len(digits), 4000):
        part = digits[i:i + 4000]
        n = n * 10 ** len(part) + int(part)
    return n


def chunks(s):
    """[text, number, text, number, ..., text]"""
    out, cur, num = [], '', None
    for c in s:
        if c.isdecimal():
            if num is None:
                out.append(cur)
                cur, num = '', ''
            num += c
        else:
            if num is not None:
                out.append(number(num))
                num = None
            cur += c
    if num is not None:
        out.append(number(num))
    out.append(cur)
    return out


def want_key(vals):
    return [chunks(v or '') for v in vals]


def less(a, b):
    """the order of the statement, without relying on list comparison of the keys"""
    for x, y in zip(a, b):
        for p, q in zip(x, y):
            if p != q:
                return p < q
        if len(x) != len(y):
            return len(x) < len(y)
    return False


def order(objs, vals):
    """stable insertion sort by `less`"""
    out = []
    for o in objs:
        i = len(out)
        while i > 0 and less(vals[id(o)], vals[id(out[i - 1])]):
            i -= 1
        out.insert(i, o)
    return out


def mk(rng, size):
    n = rng.randint(0, 4 + size)
    paths = rng.sample(['@k', '@id', '@type', '@j', 'tier/@type', 'metadata/@k'], rng.randint(1, 3))
    igts, data = [], {}
    for i in range(n):
        d = {p: rng.choice(VALS[:rng.choice([8, len(VALS)])]) for p in paths}
        if '@id' in d:
            d['@id'] = rng.choice([None, 'i%d' % i, 'i0%d' % i, 'x%da' % i])
        kw = dict(id=d.get('@id'), type=d.get('@type'),
                  attributes={k[1:]: d[k] for k in ('@k', '@j') if d.get(k) is not None})
        if 'tier/@type' in d:
            kw['tiers'] = [Tier(id='t', type=d['tier/@type'])] * rng.randint(0, 1)
            if not kw['tiers']:
                d['tier/@type'] = None
        if 'metadata/@k' in d:
            v = d['metadata/@k']
            kw['metadata'] = [Metadata(attributes={'k': v} if v is not None else {})]
        try:
            g = Igt(**kw)
        except ValueError:
            continue
        if any(x.id == g.id and g.id for x in igts):
            g.id, d['@id'] = None, None
        igts.append(g)
        data[id(g)] = [d[p] for p in paths]
    return paths, igts, data


def keys(rng, size):
    paths, igts, data = mk(rng, size)
    log(paths, [data[id(g)] for g in igts])
    f = S.make_sortkey(paths)
    ks = []
    for g in igts:
        r = outcome(lambda: f(g))
        check(r[0] == 'return', 'sort key raised', r[1])
        ks.append(r[1])
    for i, a in enumerate(igts):
        for j, b in enumerate(igts):
            r = outcome(lambda: (ks[i] < ks[j], ks[i] == ks[j]))
            check(r[0] == 'return', 'keys not comparable:', ks[i], ks[j], r[1])
            wa, wb = want_key(data[id(a)]), want_key(data[id(b)])
            check_eq(r[1], (less(wa, wb), not less(wa, wb) and not less(wb, wa)), 'order of %r and %r' %
                     (data[id(a)], data[id(b)]))
    xc = XigtCorpus(igts=igts)
    r = outcome(lambda: xc.sort(key=f))
    check(r[0] == 'return', 'sorting raised', r[1])
    exp = order(igts, {id(g): want_key(data[id(g)]) for g in igts})
    got = raw_members(xc)
    check(len(got) == len(exp) and all(a is b for a, b in zip(got, exp)), 'order',
          [data[id(g)] for g in got], 'expected', [data[id(g)] for g in exp])
    return len(igts) > 1


def pairs():
    strs = [v for v in VALS if v is not None]
    def f(a, b):
        x, y = Igt(attributes={'k': a}), Igt(attributes={'k': b})
        log(repr(a), repr(b))
        k = S.make_sortkey(['@k'])
        r = outcome(lambda: (k(x) < k(y), k(x) == k(y)))
        wa, wb = want_key([a]), want_key([b])
        check_eq(r, ('return', (less(wa, wb), wa == wb)), 'keys of %r and %r' % (a, b))
    for a in strs:
        for b in strs:
            yield lambda a=a, b=b: f(a, b)


def runs(rng, size):
    """the command on a file: IGTs, tiers and items"""
    igts = []
    n = 0
    for i in range(rng.randint(0, 3)):
        ts = []
        for j in range(rng.randint(0, 3)):
            its = []
            for k in range(rng.randint(0, 4)):
                v = rng.choice(['1', '2', '10', 'a1', 'a2', 'a10', 'b', '', None])
                its.append(Item(id='%s%d' % (rng.choice('xy'), n), attributes={} if v is None else {'k': v}, text='t'))
                n += 1
            at = {}
            if rng.random() < .5 and j:
                at['segmentation'] = 't%d' % rng.randrange(j)
            v = rng.choice(['1', '2', '10', 'a1', 'b', None])
            if v is not None:
                at['k'] = v
            ts.append(Tier(id='t%d' % j, items=its, attributes=at))
        rng.shuffle(ts)
        v = rng.choice(['1', '2', '10', 'a1', 'b', None])
        igts.append(Igt(id='i%d' % i, tiers=ts, attributes={} if v is None else {'k': v}))
    rng.shuffle(igts)
    c = XigtCorpus(igts=igts)
    log(show(c))
    args = argparse.Namespace(infile=None, igt_key=rng.choice([None, ['@k'], ['@k', '@id']]),
                              tier_key=rng.choice([None, ['@k'], ['@k', '@id']]), tier_deps=None,
                              item_key=rng.choice([None, ['@k'], ['@id', '@k']]), in_place=rng.random() < .5)
    if not args.tier_key and rng.random() < .5:
        args.tier_deps = 'segmentation, alignment'
    log(args)
    def srt(objs, paths):
        if not paths:
            return list(objs)
        return order(objs, {id(o): want_key([o._id if p == '@id' else o.attributes.get(p[1:]) for p in paths]) for o in objs})
    with tempfile.TemporaryDirectory() as t:
        fn = args.infile = os.path.join(t, 'f.xml')
        with open(fn, 'w') as fh:
            fh.write(xigtxml.dumps(c))
        text = open(fn).read()
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            r = outcome(lambda: S.run(args))
        check(r[0] == 'return', 'sort raised', r[1])
        out = open(fn).read() if args.in_place else buf.getvalue()
        if not args.in_place:
            check_eq(open(fn).read(), text, 'input file')
        d = xigtxml.loads(out)
    exp = srt(igts, args.igt_key)
    check_eq([g._id for g in raw_members(d)], [g._id for g in exp], 'order of IGTs')
    for g, h in zip(raw_members(d), exp):
        if args.tier_deps:
            check_eq(sorted(x._id for x in raw_members(g)), sorted(x._id for x in raw_members(h)), 'tiers')
            pos = {x._id: i for i, x in enumerate(raw_members(g))}
            for x in raw_members(g):
                s = x.attributes.get('segmentation')
                if s is not None:
                    check(pos[s] < pos[x._id], 'tier before the one it refers to')
            et = [[y for y in raw_members(h) if y._id == x._id][0] for x in raw_members(g)]
        else:
            et = srt(raw_members(h), args.tier_key)
        check_eq([x._id for x in raw_members(g)], [x._id for x in et], 'order of tiers')
        for x, y in zip(raw_members(g), et):
            ei = srt(raw_members(y), args.item_key)
            check_eq([canon(p) for p in raw_members(x)], [canon(p) for p in ei], 'items')


CASES = [('keys', keys), ('keys2', keys), ('files', runs)]
ENUMS = [('pairs', pairs)]
