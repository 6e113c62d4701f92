"""C01/C02: operation sequences on every kind of container against a list model."""
import gen
from gen import *
import itertools

REFUSED = ('XigtError', 'XigtStructureError')


class Model:
    def __init__(self, c, holder, mk, wrong, kind):
        self.c, self.holder, self.mk, self.wrong, self.kind = c, holder, mk, wrong, kind
        self.m = []
        self.known = set()     # ids ever used
        self.objs = []         # objects ever made
        self.elsewhere = {}    # id(obj) -> expected parent after a move


def make(rng, kind):
    """(container, object that its members must have as parent, member maker, wrong objects)"""
    if kind == 'corpus':
        c = XigtCorpus(mode=rng.choice(['full', 'full', 'incremental']))
        mk = lambda i: Igt(id=i)
    elif kind == 'igt':
        c, mk = Igt(id='i'), lambda i: Tier(id=i)
    elif kind == 'tier':
        c, mk = Tier(id='t'), lambda i: Item(id=i, text=rng.choice([None, 'x']))
    elif kind == 'metadata':
        c, mk = Metadata(), lambda i: Meta(id=i)
    elif kind == 'meta':
        c, mk = Meta(), lambda i: setid(MetaChild(rng.choice('nm')), i)
    elif kind == 'metachild':
        c, mk = MetaChild('n'), lambda i: setid(MetaChild(rng.choice('nm')), i)
    else:
        h = {'md-corpus': XigtCorpus, 'md-igt': Igt, 'md-tier': Tier}[kind]()
        c, mk = h.metadata, lambda i: Metadata(id=i)
        return Model(c, h, mk, [Meta(), Item(), MetaChild('x'), 'x', None, Tier()], kind)
    wrong = [w for w in (XigtCorpus(), Igt(), Tier(), Item(), Metadata(), Meta(), MetaChild('q'),
                         'str', None, 3) if not isinstance(w, MEMBER[type(c)])]
    return Model(c, c, mk, wrong, kind)


def setid(o, i):
    o.id = i
    return o


KINDNAMES = ['corpus', 'igt', 'tier', 'metadata', 'meta', 'metachild', 'md-corpus', 'md-igt', 'md-tier']
IDS = [None, None, 'a', 'b', 'c', 'a1', 'n10', 'w-1', 'x.y', 'z']


def new(M, rng, i=0):
    i = rng.choice(IDS) if i == 0 else i
    o = M.mk(i)
    M.objs.append(o)
    if i is not None:
        M.known.add(i)
    log('new object', len(M.objs) - 1, 'id', i)
    return o


def fits(M, o, minus=()):
    return o._id is None or not any(x._id == o._id for x in M.m if x is not minus)


def parent(o):
    return getattr(o, '_parent', 'none')


def attempt(M, fn, legal, refused, err=REFUSED, changed=()):
    """Run a single-member operation; if refused, nothing may change."""
    par = [(o, parent(o)) for o in M.objs + [w for w in M.wrong if hasattr(w, '__dict__')]]
    before = raw_members(M.c)
    r = outcome(fn)
    if legal:
        check(r[0] == 'return', 'legal operation raised', r[1])
    else:
        check(r[0] == 'raise', 'operation should have been refused, returned', r[1])
        if err:
            check(r[1] in err, 'refused with', r[1], 'instead of', err)
        now = raw_members(M.c)
        check(len(now) == len(before) and all(x is y for x, y in zip(now, before)),
              'refused operation changed the members')
        if refused == 'C02':
            for o, p in par:
                check(parent(o) is p or parent(o) == p and isinstance(p, str),
                      'refused operation changed a parent')
    return r


def consistent(M, which):
    c, m = M.c, M.m
    now = raw_members(c)
    check(len(now) == len(m) and all(x is y for x, y in zip(now, m)),
          'members are', [M.objs.index(o) if any(o is p for p in M.objs) else o for o in now],
          'expected', [[i for i, p in enumerate(M.objs) if p is o][0] for o in m])
    check(len(c) == len(m), 'len')
    if which == 'C01':
        ids = [o._id for o in m if o._id is not None]
        check(len(ids) == len(set(ids)), 'two members share an id', ids)
        for o in m:
            if o._id is not None:
                check(outcome(lambda: c[o._id])[1] is o, 'lookup of', o._id, 'does not return the member')
                check(c.get(o._id) is o, 'get of', o._id, 'does not return the member')
        for i in sorted(M.known):
            if i not in ids:
                check_eq(outcome(lambda: c[i]), ('raise', 'KeyError'), 'lookup of id %s of no member' % i)
                check(c.get(i) is None, 'get finds', i)
    else:
        T = M.c._contained_type
        for o in m:
            check(isinstance(o, T), 'member of wrong type')
            check(o._parent is M.holder, 'member with wrong parent')
            if M.kind == 'tier':
                check(o.tier is M.holder, 'item.tier')
            if M.kind == 'igt':
                check(o.igt is M.holder, 'tier.igt')
            if M.kind == 'corpus':
                check(o.corpus is M.holder, 'igt.corpus')


def drive(which):
    def f(rng, size):
        kind = rng.choice(KINDNAMES)
        log('container', kind)
        M = make(rng, kind)
        c = M.c
        # construction with members
        if rng.random() < .4:
            objs, used = [], set()
            for _ in range(rng.randint(0, 4)):
                i = rng.choice(IDS)
                if i in used:
                    i = None
                used.add(i)
                objs.append(new(M, rng, i))
            gen_ = (lambda xs: iter(xs)) if rng.random() < .5 else list
            try:
                if kind == 'corpus':
                    c = XigtCorpus(igts=gen_(objs))
                elif kind == 'igt':
                    c = Igt(tiers=gen_(objs))
                elif kind == 'tier':
                    c = Tier(items=gen_(objs))
                elif kind == 'metadata':
                    c = Metadata(metas=gen_(objs))
                elif kind == 'meta':
                    c = Meta(children=gen_(objs))
                elif kind == 'metachild':
                    c = MetaChild('n', children=gen_(objs))
                else:
                    h = type(M.holder)(metadata=gen_(objs))
                    c, M.holder = h.metadata, h
            except XigtError as ex:
                raise Violation('construction raised %r' % ex)
            if M.c is not M.holder and not kind.startswith('md-'):
                pass
            M.c = c
            if not kind.startswith('md-'):
                M.holder = c
            M.m = list(objs)
            log('constructed with', len(objs), 'members')
            consistent(M, which)
        for step in range(rng.randint(1, 4 + 2 * size)):
            op(M, rng, which)
            consistent(M, which)
        return len(M.objs) > 0
    return f


def candidate(M, rng):
    """an object to be added: mostly new, sometimes a former or current member"""
    r = rng.random()
    if r < .7 or not M.objs:
        return new(M, rng)
    return rng.choice(M.objs)


def moved(M, o):
    """o was accepted by M.c"""


def op(M, rng, which):
    c = M.c
    n = len(M.m)
    k = rng.choice(['append', 'append', 'append', 'insert', 'insert', 'extend', 'extend', 'iadd',
                    'setitem', 'setitem', 'setitem', 'del', 'del', 'remove', 'remove', 'pop', 'pop',
                    'clear', 'setter', 'setter', 'wrong', 'wrong', 'reid', 'other', 'refresh',
                    'add', 'addlist', 'sort', 'steal'])
    if k == 'append' or k == 'add':
        o = candidate(M, rng)
        if any(o is x for x in M.m) and o._id is None:
            return
        ok = fits(M, o)
        log(k, M_ix(M, o), '(refused)' if not ok else '')
        attempt(M, (lambda: c.append(o)) if k == 'append' else (lambda: c.add(o)), ok, which)
        if ok:
            M.m.append(o)
    elif k == 'insert':
        o = candidate(M, rng)
        if any(o is x for x in M.m) and o._id is None:
            return
        ok = fits(M, o)
        i = rng.randint(-n - 2, n + 2)
        log('insert', i, M_ix(M, o), '(refused)' if not ok else '')
        attempt(M, lambda: c.insert(i, o), ok, which)
        if ok:
            M.m.insert(i, o)
    elif k in ('extend', 'iadd', 'addlist'):
        objs, acc, ok = [], list(M.m), True
        for _ in range(rng.randint(0, 4)):
            o = candidate(M, rng)
            if any(o is x for x in acc + objs) and o._id is None:
                continue
            objs.append(o)
        if rng.random() < .1 and all(o._id is not None for o in M.m):
            objs = None   # itself
        src = list(M.m) if objs is None else objs
        if rng.random() < .15 and objs is not None and which == 'C02':
            src = objs = objs + [rng.choice(M.wrong)]
            rng.shuffle(objs)
        # members before the first refused one are added
        T = c._contained_type
        exp = list(M.m)
        err = None
        for o in src:
            if not isinstance(o, T):
                err = 'XigtStructureError'
                break
            if o._id is not None and any(x._id == o._id for x in exp):
                err = 'XigtError'
                break
            exp.append(o)
        arg = c if objs is None else (iter(objs) if rng.random() < .5 else objs)
        log(k, 'self' if objs is None else [M_ix(M, o) for o in objs], err or '')
        if k == 'iadd':
            def do():
                d = c
                d += arg
                check(d is c, '+= returned another object')
        elif k == 'addlist':
            do = lambda: c.add_list(arg)
        else:
            do = lambda: c.extend(arg)
        r = outcome(do)
        if err is None:
            check(r[0] == 'return', k, 'raised', r[1])
            M.m = exp
        else:
            check(r == ('raise', err), k, 'gave', r, 'expected', err)
            # a multi-member operation: only the consistency is promised
            resync(M)
    elif k == 'setitem':
        o = candidate(M, rng)
        i = rng.randint(-n - 1, n)
        if any(o is x for x in M.m) and o._id is None:
            return
        inr = -n <= i < n
        ok = inr and fits(M, o, minus=M.m[i])
        key = str(i) if rng.random() < .2 else i
        log('setitem', repr(key), M_ix(M, o), '(refused)' if not ok else '')

        def do():
            c[key] = o
        attempt(M, do, ok, which, err=REFUSED if inr else ('IndexError',))
        if ok:
            M.m[i] = o
    elif k == 'del':
        r = rng.random()
        if r < .5 or not M.m:
            i = rng.randint(-n - 1, n)
            inr = -n <= i < n
            key = i if rng.random() < .7 else str(i)
            log('del', repr(key))

            def do():
                del c[key]
            attempt(M, do, inr, which, err=('IndexError',))
            if inr:
                del M.m[i]
        else:
            i = rng.choice(sorted(M.known) or ['a'])
            log('del', i)

            def do():
                del c[i]
            hit = [x for x in M.m if x._id == i]
            attempt(M, do, bool(hit), which, err=('KeyError',))
            if hit:
                M.m = [x for x in M.m if x is not hit[0]]
    elif k == 'remove':
        o = candidate(M, rng)
        if M.m and rng.random() < .7:
            o = rng.choice(M.m)
        hit = [j for j, x in enumerate(M.m) if x is o]
        if not hit:
            # an equal member is taken if the object is not one
            hit = [j for j, x in enumerate(M.m) if canon(x) == canon(o)]
        log('remove', M_ix(M, o), '' if hit else '(no member)')
        attempt(M, lambda: c.remove(o), bool(hit), which, err=('ValueError',))
        if hit:
            M.m.pop(hit[0])
    elif k == 'pop':
        if rng.random() < .3:
            i, fn = -1, lambda: c.pop()
        else:
            i = rng.randint(-n - 1, n)
            fn = lambda: c.pop(i)
        ok = -n <= i < n
        log('pop', i)
        r = attempt(M, fn, ok, which, err=('IndexError',))
        if ok:
            o = M.m.pop(i)
            check(r[1] is o, 'pop returned another object')
    elif k == 'clear':
        if rng.random() < .3:
            log('clear')
            c.clear()
            M.m = []
    elif k == 'setter':
        names = {'corpus': 'igts', 'igt': 'tiers', 'tier': 'items', 'metadata': rng.choice(['metas', 'text']),
                 'meta': 'children', 'metachild': 'children'}
        name = names.get(M.kind, 'metadata')
        r = rng.random()
        if r < .2:
            src, exp = M.c, list(M.m)
        elif r < .3:
            src, exp = None, []
        else:
            exp, used = [], set()
            for o in M.m[::rng.choice([1, -1, 2])]:
                if rng.random() < .6:
                    exp.append(o)
                    used.add(o._id)
            for _ in range(rng.randint(0, 3)):
                o = new(M, rng)
                if o._id is None or o._id not in used:
                    used.add(o._id)
                    exp.append(o)
            src = iter(exp) if rng.random() < .5 else list(exp)
        log('set', name, 'self' if src is M.c else [M_ix(M, o) for o in exp])
        r = outcome(lambda: setattr(M.holder, name, src))
        check(r[0] == 'return', 'assignment raised', r[1])
        M.m = list(exp)
        if name != 'metadata':
            got = getattr(M.holder, name)
            check(isinstance(got, list) and len(got) == len(exp) and
                  all(x is y for x, y in zip(got, exp)), name, 'returns other members')
            check(got is not M.c, name, 'is the container itself')
    elif k == 'wrong':
        w = rng.choice(M.wrong)
        T = c._contained_type
        if isinstance(w, T):
            return
        how = rng.choice(['append', 'insert', 'setitem', 'extend'])
        if how == 'setitem' and not M.m:
            how = 'append'
        log('wrong type', how, type(w).__name__)
        fn = {'append': lambda: c.append(w), 'insert': lambda: c.insert(0, w),
              'setitem': lambda: c.__setitem__(rng.randint(-n, n - 1), w),
              'extend': lambda: c.extend([w])}[how]
        attempt(M, fn, False, which, err=('XigtStructureError',))
    elif k == 'reid':
        if not M.m:
            return
        o = rng.choice(M.m)
        i = rng.choice(IDS + ['q%d' % len(M.objs)])
        if i is not None and any(x._id == i for x in M.m if x is not o):
            return
        log('change id of', M_ix(M, o), 'to', i, 'and refresh')
        if o._id is not None:
            M.known.add(o._id)
        o.id = i
        if i is not None:
            M.known.add(i)
        if M.kind == 'igt' and rng.random() < .5:
            c.refresh_indices(tiers=True)
        else:
            c.refresh_index()
    elif k == 'refresh':
        log('refresh_index')
        c.refresh_index()
    elif k == 'other':
        # operations on another container of the same kind do not matter
        d = type(c)(**({'name': 'n'} if M.kind == 'metachild' else {})) if M.c is M.holder else None
        if d is not None:
            o = new(M, rng, 'a')
            d.append(o)
            log('put object', M_ix(M, o), 'into another container and drop it from there')
            d.remove(o)
    elif k == 'sort':
        if M.kind in ('corpus', 'tier', 'igt') and not (M.kind == 'corpus' and c.mode != 'full'):
            log('sort by id')
            c.sort(key=lambda x: x._id or '')
            M.m.sort(key=lambda x: x._id or '')
        if rng.random() < .3:
            c.reverse()
            M.m.reverse()
            log('reverse')
    elif k == 'steal':
        # a member of another container is put here: it now belongs here
        if M.c is not M.holder:
            d = type(M.holder)().metadata
        else:
            d = type(c)(**({'name': 'n'} if M.kind == 'metachild' else {}))
        o = new(M, rng)
        d.append(o)
        if fits(M, o):
            log('take object', M_ix(M, o), 'from another container')
            c.append(o)
            M.m.append(o)
            if o._id is not None:
                check(d.get(o._id) is o, 'the other container lost its member')
        elif which == 'C02':
            attempt(M, lambda: c.append(o), False, which)


def resync(M):
    now = raw_members(M.c)
    allm = M.objs
    check(all(any(o is x for x in allm) for o in now), 'unknown member')
    check(len(now) >= len(M.m) and all(a is b for a, b in zip(now, M.m)),
          'extending changed earlier members')
    M.m = now


def M_ix(M, o):
    for i, x in enumerate(M.objs):
        if x is o:
            return '#%d' % i
    return repr(o)


def nested(rng, size):
    """Constructors, getters and setters on real structures keep ids, parents and order."""
    c = corpus(rng, size + 2)
    log('corpus', show(c))

    def walk(x, path):
        yield x
        for m in list.__iter__(getattr(x, '_md', [])):
            for y in walk(m, path):
                yield y
        if isinstance(x, list):
            for m in list.__iter__(x):
                for y in walk(m, path):
                    yield y
    for x in walk(c, ()):
        for holder, cont in ((x, x), (x, getattr(x, '_md', None))):
            if isinstance(cont, list):
                for m in list.__iter__(cont):
                    check(m._parent is holder, 'parent of', show(m))
                    if m._id is not None:
                        check(cont.get(m._id) is m, 'lookup of', m._id)
    return len(c) > 0


CASES = [('operations', drive('C01')), ('structures', nested)]
