"""C14: loading modes."""
import io
import os
import tempfile
from gen import *
from xigt.codecs import xigtxml, xigtjson


class Source:
    """An iterable of IGTs that counts what was taken from it."""

    def __init__(self, igts):
        self.igts, self.taken = igts, 0

    def __iter__(self):
        for i in self.igts:
            self.taken += 1
            yield i


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def memory(rng, size):
    n = rng.choice([0, 1, 2, 3, 3 + size])
    igts = [Igt(id=rng.choice([None, 'i%d' % k])) for k in range(n)]
    src = {'list': lambda: list(igts), 'gen': lambda: (i for i in igts), 'src': lambda: Source(igts),
           'none': lambda: None, 'tuple': lambda: tuple(igts)}
    how = rng.choice(sorted(src))
    if how == 'none':
        igts, n = [], 0
    for mode in ('full', 'incremental', 'transient'):
        s = src[how]()
        c = XigtCorpus(igts=s, mode=mode) if how != 'none' or rng.random() < .5 else XigtCorpus(mode=mode)
        log('mode', mode, 'source', how, 'of', n, 'IGTs')
        if mode == 'full':
            check(same(raw_members(c), igts), 'full: members')
            check(same(list(c), igts) and same(list(c), igts) and same(c.igts, igts), 'full: iteration')
        elif mode == 'incremental':
            if isinstance(s, Source) and rng.random() < .5:
                check_eq(s.taken, 0, 'incremental: taken before iterating')
            acts = rng.randint(0, 3 + size // 2)
            live = []
            for _ in range(acts):
                k = rng.choice(['partial', 'full', 'step', 'new', 'nested', 'drop', 'zip'])
                log(k)
                if k == 'partial':
                    m = rng.randint(0, n + 1)
                    it = iter(c)
                    got = []
                    for _ in range(m):
                        x = next(it, None)
                        if x is None:
                            break
                        got.append(x)
                    check(same(got, igts[:m]), 'incremental: abandoned iteration gave', [igts.index(g) for g in got])
                elif k == 'new':
                    live.append([iter(c), 0])
                elif k == 'step' and live:
                    l = rng.choice(live)
                    x = next(l[0], None)
                    if l[1] <= n:
                        check(x is (igts[l[1]] if l[1] < n else None), 'incremental: concurrent iteration, step', l[1])
                    l[1] += 1
                elif k == 'drop' and live:
                    live.pop(rng.randrange(len(live)))[0].close()
                elif k == 'nested':
                    outer = []
                    for x in c:
                        outer.append(x)
                        if len(outer) == 1:
                            inner = list(c)
                            check(same(inner, igts), 'incremental: inner iteration')
                    check(same(outer, igts), 'incremental: outer iteration')
                elif k == 'zip':
                    got = list(zip(c, c))
                    check(same([a for a, b in got], igts) and same([b for a, b in got], igts), 'incremental: zip(c, c)')
                else:
                    check(same(list(c), igts), 'incremental: iteration')
                    check(same(raw_members(c), igts), 'incremental: members afterwards')
            check(same(list(c), igts), 'incremental: iteration')
            check(same(raw_members(c), igts), 'incremental: members afterwards')
            for l in live:
                rest = list(l[0])
                check(same(rest, igts[l[1]:]), 'incremental: rest of a concurrent iteration')
            check(same(list(c), igts) and same(raw_members(c), igts), 'incremental: after all')
            for i in igts:
                if i.id is not None:
                    check(c.get(i.id) is i, 'incremental: lookup')
        else:
            if rng.random() < .5 and n:
                m = rng.randint(1, n)
                it = iter(c)
                got = []
                for k in range(m):
                    x = next(it)
                    check(x._parent is c, 'transient: parent')
                    check(len(raw_members(c)) == 0, 'transient: members while iterating')
                    got.append(x)
                if rng.random() < .5:
                    got += list(it)
                else:
                    del it
                    got += list(c)
            else:
                got = []
                for x in c:
                    check(x._parent is c and x.corpus is c, 'transient: parent')
                    got.append(x)
            check(same(got, igts), 'transient: iteration')
            check(len(raw_members(c)) == 0, 'transient: members afterwards')
            check(list(c) == [], 'transient: yielded again')
        for i in (igts if mode != 'transient' else ()):
            check(i._parent is c, mode, 'parent')
    return n > 0


def files(rng, size):
    n = rng.choice([0, 1, 2, 4])
    src = XigtCorpus(id='c', metadata=[Metadata(metas=[Meta(children=[MetaChild(rng.choice(['igt', 'x']))])])]
                     if rng.random() < .5 else None,
                     igts=[Igt(id='i%d' % k, tiers=[Tier(id='t', items=[Item(id='t1', text='x')])] * rng.randint(0, 1),
                               metadata=[Metadata(metas=[Meta(text='m', children=[MetaChild(rng.choice(['igt', 'm']))])])]
                               * rng.randint(0, 1))
                           for k in range(n)])
    want = [canon(i) for i in raw_members(src)]
    log(show(src))
    with tempfile.TemporaryDirectory() as t:
        for codec, ext in ((xigtxml, 'xml'), (xigtjson, 'json')):
            fn = os.path.join(t, 'f.' + ext)
            codec.dump(fn, src, indent=rng.choice([None, 2]) if ext == 'xml' else 2)
            for mode in ('full', 'incremental', 'transient'):
                c = codec.load(fn, mode=mode)
                if mode != 'full' and rng.random() < .3 and n:
                    got = [next(iter(c))]
                    if mode == 'transient':
                        got = [canon(x) for x in got] + [canon(x) for x in c]
                    else:
                        got = [canon(x) for x in c]
                else:
                    got = []
                    for x in c:
                        check(x._parent is c, 'parent')
                        got.append(canon(x))
                check_eq(got, want, '%s mode %s' % (ext, mode))
                check_eq(len(raw_members(c)), 0 if mode == 'transient' else n, '%s members in mode %s' % (ext, mode))
                again = [canon(x) for x in c]
                check_eq(again, [] if mode == 'transient' else want, '%s second iteration in mode %s' % (ext, mode))
                check_eq((c.id, [canon(m) for m in raw_members(c._md)]),
                         (src.id, [canon(m) for m in raw_members(src._md)]), 'corpus data')
    return n > 0


CASES = [('memory', memory), ('files', files)]
