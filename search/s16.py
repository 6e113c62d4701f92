"""C16: validator reports against an independent reading of the rules."""
import io
import os
import contextlib
import tempfile
import argparse
import logging
from collections import Counter
from gen import *
from s10 import ids_of
import s08
from xigt.scripts import xigt_validate as V
from xigt.codecs import xigtxml

RA = ('alignment', 'segmentation', 'content')


def parse(e):
    """[(id, None | (m, n))] of a well-formed expression"""
    out, i, n = [], 0, len(e)
    while i < n:
        if e[i] in '+,' or e[i].isspace():
            i += 1
            continue
        j = i
        while j < n and e[j] not in '[+,' and not e[j].isspace():
            j += 1
        name = e[i:j]
        if j < n and e[j] == '[':
            k = e.index(']', j)
            for sp in e[j + 1:k].replace('+', ',').split(','):
                a, b = sp.split(':')
                out.append((name, (int(a), int(b))))
            j = k + 1
        else:
            out.append((name, None))
        i = j
    return out


def build(rng, size, transient):
    igts = []
    nt = lambda: rng.randint(0, 1 + min(3, size))
    for g in range(rng.randint(0, 2)):
        tiers = []
        shared = rng.random() < .4
        ids = {}
        for k in range(nt()):
            at = {}
            for ra in RA:
                if rng.random() < .5:
                    # content and segmentation only downwards (no cycles)
                    cand = ['t%d' % j for j in range(k)] if ra != 'alignment' else ['t%d' % j for j in range(k + 2)]
                    at[ra] = rng.choice(cand + (['gone', '0', ''] if rng.random() < .3 else []) or ['gone'])
            items = []
            for j in range(rng.choice([0, 1, 2, 3, 3])):
                i = optid(rng, 'i' if shared else 'abcde'[k], j, .9)
                ia = {}
                for ra in RA:
                    if (ra in at and rng.random() < .7) or rng.random() < .05:
                        pool = ids.get(at.get(ra), []) or ['q1']
                        if rng.random() < .15:
                            pool = pool + ['zz9', 'x0']
                        ia[ra] = estr(algnexpr(rng, 3, pool, maxlen=rng.choice([2, 4, 8])))
                        if rng.random() < .05:
                            ia[ra] = ''
                text = rng.choice([None, '', 'dog', 'abcdef', 'x'])
                items.append((i, ia, text))
            ids['t%d' % k] = [i for i, _, _ in items if i]
            tid = 't%d' % k if rng.random() < .9 else None
            tiers.append(Tier(id=tid, type=rng.choice([None, '', 'words', 'words']), attributes=at,
                              items=[Item(id=i, attributes=ia, text=tx) for i, ia, tx in items]))
        igts.append(Igt(id=optid(rng, 'g', 0 if transient and rng.random() < .4 else g), tiers=tiers))
    return XigtCorpus(id=rng.choice([None, 'c', 'c2']), igts=igts, mode='transient' if transient else 'full'), igts


LEVEL = {'MUST': logging.ERROR, 'SHOULD': logging.WARNING, 'MAY': logging.INFO}


def value(igt, it):
    """the value of an item, '' if it has none or it cannot be resolved"""
    try:
        return it.value() or ''
    except (XigtStructureError, KeyError):
        return ''


def rules(c, igts, known):
    """{(igt index, tier index, item index): Counter((level, rule, detail))}"""
    out = {}

    def add(path, level, rule, detail=None):
        out.setdefault(path, Counter())[(level, rule, detail)] += 1
    if not c.id:
        add((), 'MAY', 'id')
    elif c.id in known:
        add((), 'MUST', 'unique')
    seen = set()
    for gi, g in enumerate(igts):
        gp = (gi,)
        if not g.id:
            add(gp, 'SHOULD', 'id')
        else:
            if g.id in seen:
                add(gp, 'MUST', 'unique')
            seen.add(g.id)
        tids, iids = set(), set()
        tiers = raw_members(g)
        byid = {t.id: t for t in tiers if t.id is not None}
        for ti, t in enumerate(tiers):
            tp = gp + (ti,)
            if not t.id:
                add(tp, 'SHOULD', 'id')
            elif t.id in tids:
                add(tp, 'MUST', 'unique')
            tids.add(t.id)
            if not t.type:
                add(tp, 'SHOULD', 'type')
            lacking = sorted({ra for it in raw_members(t) for ra in RA
                              if ra in it.attributes and ra not in t.attributes})
            if lacking:
                add(tp, 'MUST', 'tierattr', tuple(lacking))
            for ra in RA:
                r = t.attributes.get(ra)
                if r and r not in byid:
                    add(tp, 'MUST', 'tierref', ra)
            own = set()
            for ii, it in enumerate(raw_members(t)):
                ip = tp + (ii,)
                if not it.id:
                    add(ip, 'SHOULD', 'id')
                else:
                    if it.id in own:
                        add(ip, 'MUST', 'unique')
                    if it.id in iids:
                        add(ip, 'MUST', 'unique')
                    own.add(it.id)
                    iids.add(it.id)
                for ra in RA:
                    e = it.attributes.get(ra)
                    rt = byid.get(t.attributes.get(ra))
                    if not e or rt is None:
                        continue
                    targets = {x.id: x for x in raw_members(rt) if x.id is not None}
                    sels = parse(e)
                    missing = [i for i in ids_of(e) if i not in targets]
                    if missing:
                        add(ip, 'MUST', 'missing', (ra, tuple(missing)))
                    beyond, cover, lap = [], {}, []
                    for i, sp in sels:
                        if i not in targets:
                            continue
                        v = value(g, targets[i])
                        if sp and max(sp) > len(v):
                            beyond.append('%s[%d:%d]' % (i, sp[0], sp[1]))
                        idx = list(range(len(v)))[sp[0]:sp[1]] if sp else list(range(len(v)))
                        cc = cover.setdefault(i, Counter())
                        cc.update(idx)
                    for i, cc in cover.items():
                        if any(n > 1 for n in cc.values()):
                            lap.append(i)
                    if beyond:
                        add(ip, 'SHOULD', 'beyond', tuple(beyond))
                    if lap:
                        add(ip, 'SHOULD', 'overlap', tuple(sorted(lap)))
    return out


def classify(rec):
    """(level, rule, detail) of a record"""
    m = rec['message']
    lev = [k for k, v in LEVEL.items() if v == rec['level']]
    check(len(lev) == 1, 'level', rec['level'])
    check(lev[0] in m, 'modal', m)
    tail = m.rsplit(': ', 1)[-1]
    if 'specify an id' in m:
        return lev[0], 'id', None
    if 'be unique' in m:
        return lev[0], 'unique', None
    if 'specify a type' in m:
        return lev[0], 'type', None
    if 'available <tier> id' in m:
        return lev[0], 'tierref', m.split('"')[1]
    if 'specified on their <tier>' in m:
        return lev[0], 'tierattr', tuple(sorted(tail.split(', ')))
    if 'from the aligned <tier>' in m:
        return lev[0], 'missing', (m.split('"')[1], tuple(tail.split(', ')))
    if 'overlap' in m:
        return lev[0], 'overlap', tuple(sorted(tail.split(', ')))
    if 'spans within' in m:
        return lev[0], 'beyond', tuple(tail.split(', '))
    raise Violation('unknown report: ' + m)


def flatten(rep, path=()):
    out = {}
    cs = Counter()
    for r in rep.get('records', []):
        lev, rule, det = classify(r)
        cs[(lev, rule, det)] += 1
    if cs:
        out[path] = cs
    for i, ch in enumerate(rep.get('children', [])):
        if ch:
            check_eq(ch.get('index'), i, 'index of a child report')
        out.update(flatten(ch, path + (i,)))
    return out


def deescape(want):
    return want


def rnd(rng, size):
    tr = rng.random() < .4
    c, igts = build(rng, size, tr)
    for g in igts:
        g._parent = c
        log('igt', g.id)
        for t in raw_members(g):
            log('  tier', t.id, repr(t.type), t.attributes, [(i.id, repr(i.text), i.attributes) for i in raw_members(t)])
    known = Counter(rng.choice([[], ['c'], ['c2', 'x']]))
    want = rules(c, igts, known)
    before = [canon(g) for g in igts]
    r = outcome(lambda: V.validate_corpus(c, V.make_context(c, 0, '<xigt-corpus>', 'collection', ids=known)))
    check(r[0] == 'return', 'the validator raised', r[1])
    got = flatten(r[1])
    check_eq(got, want, 'reports (by igt, tier, item index)')
    check_eq([canon(g) for g in igts], before, 'validating changed the corpus')
    for lev in (logging.ERROR, logging.WARNING, logging.INFO):
        c2 = c if not tr else XigtCorpus(id=c.id, igts=igts, mode='transient')
        rep = V.validate_corpus(c2, V.make_context(c2, 0, '<xigt-corpus>', 'collection', ids=known))
        flt = flatten2(V.filter_empty_reports(rep, minlevel=lev))
        keep = any(LEVEL[k[0]] >= lev for cs in want.values() for k in cs)
        check_eq(bool(flt), keep, 'report at level %d' % lev)
    return bool(want)


def flatten2(rep):
    return bool(rep) and not V.report_is_empty(rep)


def files(rng, size):
    """run() on files: passes exactly when nothing at the level in force is reported"""
    with tempfile.TemporaryDirectory() as t:
        fns, wants = [], []
        known = Counter()
        root = logging.getLogger()
        old = root.level
        lev = rng.choice([logging.ERROR, logging.WARNING, logging.INFO])
        ok = True
        for k in range(rng.randint(1, 2)):
            c, igts = build(rng, size, False)
            log(show(c))
            fn = os.path.join(t, 'f%d.xml' % k)
            with open(fn, 'w') as f:
                f.write(xigtxml.dumps(c))
            fns.append(fn)
            d = xigtxml.load(fn)
            w = rules(d, raw_members(d), known)
            if d.id is not None:
                known[d.id] += 1
            if any(LEVEL[x[0]] >= lev for cs in w.values() for x in cs):
                ok = False
        if not root.handlers:
            root.addHandler(logging.NullHandler())         # basicConfig leaves the level alone
        root.setLevel(lev)
        try:
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                r = outcome(lambda: V.run(argparse.Namespace(files=fns, color=rng.random() < .5)))
                try:
                    code = V.main(fns)
                except SystemExit as ex:
                    code = ex.code
        finally:
            root.setLevel(old)
        check((code in (None, 0)) == ok, 'exit status', code)
        check_eq(r, ('return', ok), 'run() at level %d' % lev)
        check(ok == (buf.getvalue() == ''), 'output', buf.getvalue())


CASES = [('random', rnd), ('files', files)]
