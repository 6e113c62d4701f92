"""C19: LaTeX export."""
import itertools
from gen import *
from xigt.exporters import latex
from s10 import ids_of

SPECIAL = {'\\': r'\textbackslash{}', '~': r'\textasciitilde{}', '^': r'\textasciicircum{}',
           '&': r'\&', '%': r'\%', '$': r'\$', '#': r'\#', '_': r'\_', '{': r'\{', '}': r'\}'}
# other usual ways to typeset the character
ALT = {'\\': [r'\textbackslash{}', r'{\textbackslash}', r'$\backslash$'],
       '~': [r'\textasciitilde{}', r'{\textasciitilde}', r'\~{}'],
       '^': [r'\textasciicircum{}', r'{\textasciicircum}', r'\^{}']}


def one(s):
    log(repr(s))
    r = outcome(lambda: latex.escape(s))
    check(r[0] == 'return', 'escape raised', r[1])
    single = {c: latex.escape(c) for c in set(s)}
    for c in single:
        if c in SPECIAL:
            check(single[c] in ALT.get(c, [SPECIAL[c]]), 'escape(%r) is' % c, repr(single[c]))
        else:
            check_eq(single[c], c, 'escape(%r)' % c)
    check_eq(r[1], ''.join(single[c] for c in s), 'escape(%r)' % s)


def enum():
    cs = list(SPECIAL) + ['a', ' ', '-', 'textbackslash', '{}']
    for n in (0, 1, 2, 3):
        for t in itertools.product(cs, repeat=n):
            yield lambda s=''.join(t): one(s)
    for lo in range(0, 0x3000, 64):
        yield lambda lo=lo: one(''.join(map(chr, range(lo, lo + 64))))


def rnd(rng, size):
    one(''.join(rng.choice(list(SPECIAL) + list('ab {}\\&^~\u00e9\n')) for _ in range(rng.randint(0, 5 + 3 * size))))


def build(rng, size):
    """Tiers aligned to the one above by non-decreasing, non-crossing references"""
    nt = rng.randint(2, 3 + (size > 4))
    tiers = []
    prev = None
    for k in range(nt):
        items = []
        attr = rng.choice(['alignment', 'segmentation'])
        if prev is None:
            for j in range(rng.randint(0, 4 + (size > 5))):
                items.append(Item(id='a%d' % (j + 1), text='x'))
        else:
            ids = [i.id for i in prev]
            n = 0
            p = 0
            while True:
                r = rng.random()
                n += 1
                if r < .15 or not ids:
                    items.append(Item(id='%s%d' % ('abcde'[k], n), text=rng.choice(['y', None])))
                    if rng.random() < .4 or not ids:
                        if rng.random() < .6:
                            break
                        continue
                else:
                    if p >= len(ids):
                        break
                    w = rng.choice([1, 1, 1, 2, 3])
                    sel = ids[p:p + w]
                    e = rng.choice([' ', ',', '+']).join(sel)
                    if rng.random() < .2:
                        e = sel[0] + '[0:1]' + ''.join(',' + x for x in sel[1:])
                    for _ in range(rng.choice([1, 1, 2])):
                        items.append(Item(id='%s%d' % ('abcde'[k], n), text='y', attributes={attr: e}))
                        n += 1
                    p += rng.choice([w, w, w, w + 1, w - 1 if w > 1 else w])
                if n > 9:
                    break
        tiers.append(Tier(id='t%d' % k, type='words', items=items))
        prev = items
    return tiers


def components(tiers):
    """columns by union-find over items linked by alignment"""
    par = {}
    def find(x):
        while par.setdefault(x, x) != x:
            x = par[x]
        return x
    for t in tiers:
        for i in t:
            find(i.id)
    for t in tiers[1:]:
        for i in t:
            for r in ids_of(i.alignment or i.segmentation or ''):
                par[find(i.id)] = find(r)
        # neighbouring unaligned items may share a column
        its = list(t)
        for a, b in zip(its, its[1:]):
            if not ids_of(a.alignment or a.segmentation or '') and not ids_of(b.alignment or b.segmentation or ''):
                par[find(a.id)] = find(b.id)
    return find


def enclosed(tiers):
    """is an unaligned item enclosed within one column? (then the statement says nothing)"""
    find = components(tiers)
    for t in tiers[1:]:
        its = list(t)
        for n, i in enumerate(its):
            if not ids_of(i.alignment or i.segmentation or ''):
                before = {find(x.id) for x in its[:n]}
                after = {find(x.id) for x in its[n + 1:]}
                if before & after:
                    return True
    return False


def grid(rng, size):
    tiers = build(rng, size)
    for t in tiers:
        log([(i.id, i.attributes) for i in raw_members(t)])
    # the columns of the tier above, in order, must be joined or kept; crossing ones are excluded
    for a, t in zip(tiers, tiers[1:]):
        ids = [i.id for i in raw_members(a)]
        last = -1
        for i in raw_members(t):
            p = [ids.index(r) for r in ids_of(i.alignment or i.segmentation or '')]
            if p:
                if p[0] < last or p != sorted(p):
                    return False
                last = p[0]
    if enclosed(tiers):
        return False
    r = outcome(lambda: latex.group_alignments(tiers))
    check(r[0] == 'return', 'group_alignments raised', r[1])
    cols = r[1]
    log([[[i.id for i in cell] for cell in col] for col in cols])
    for col in cols:
        check_eq(len(col), len(tiers), 'cells of a column')
    for k, t in enumerate(tiers):
        got = [i for col in cols for i in col[k]]
        want = raw_members(t)
        check(len(got) == len(want) and all(a is b for a, b in zip(got, want)), 'items of row', k, [i.id for i in got],
              'expected', [i.id for i in want])
    where = [{i.id: n for n, col in enumerate(cols) for i in col[k]} for k in range(len(tiers))]
    for k, t in enumerate(tiers[1:], 1):
        for i in raw_members(t):
            refs = ids_of(i.alignment or i.segmentation or '')
            for r in refs:
                check_eq(where[k][i.id], where[k - 1][r], 'column of %s aligned to %s' % (i.id, r))
            # (an item of a lower tier may join it with the columns of others)
            if not refs and k == len(tiers) - 1:
                col = cols[where[k][i.id]]
                check(all(not cell for cell in col[:k]), 'unaligned', i.id, 'is in a column of others')
                check(all(not ids_of(x.alignment or x.segmentation or '') for x in col[k]),
                      'unaligned', i.id, 'shares its column')
    return True


def export(rng, size):
    """whole export of one IGT: every text is there, escaped"""
    tiers = build(rng, size)
    if enclosed(tiers) or any(not raw_members(t) for t in tiers):
        return False
    for t in tiers:
        for i in raw_members(t):
            i.text = rng.choice(['a_b', '50%', 'x&y', 'w', '{q}', None, ''])
            if i.text is None:
                i.attributes.pop('segmentation', None) if rng.random() < 0 else None
    names = ['words', 'morphemes', 'glosses']
    if len(tiers) > 3:
        tiers = tiers[:3]
    for t, ty in zip(tiers, names):
        t.type = rng.choice([ty, ty.title()])
    tiers = tiers[:rng.choice([1, 2, 3, 3])]
    every = list(tiers)
    trans = []
    for k in range(rng.choice([0, 1, 1, 2])):
        t = Tier(id='tr%d' % k, type='translations', items=[Item(id='tr%d.%d' % (k, n), text=x) for n, x in
                 enumerate(rng.choice([[], ['T_x'], ['$a', 'b'], [None], ['']]))])
        trans.append(t)
        every.insert(rng.randint(0, len(every)), t)
    trans = [t for t in every if t in trans]
    for k in range(rng.choice([0, 0, 1])):
        every.insert(rng.randint(0, len(every)), Tier(id='o%d' % k, type=rng.choice([None, 'pos', 'x']), items=[Item(id='o%d.1' % k, text='zzz')]))
    g = Igt(id='i1', tiers=every)
    for a, t in zip(tiers, tiers[1:]):
        for ra in ('alignment', 'segmentation'):
            if any(ra in i.attributes for i in raw_members(t)):
                t.attributes[ra] = a.id
    for t in tiers[1:]:
        if raw_members(tiers[0]) and 'segmentation' not in t.attributes and rng.random() < .4:
            t.attributes['content'] = tiers[0].id
            i = rng.choice(raw_members(t))
            i.attributes['content'] = rng.choice(raw_members(tiers[0])).id + rng.choice(['', '[0:1]'])
    try:
        cols = latex.group_alignments(tiers)
        # (values by segmentation are resolved by the model)
        vals = [[' '.join(latex.escape(i.value() or '{}') for i in col[k]) for col in cols] for k in range(len(tiers))]
    except Exception:
        return False
    log(show(g))
    r = outcome(lambda: latex.export_igt(g, latex.prepare_config(None)))
    check(r[0] == 'return', 'export raised', r[1])
    if len(tiers) < 2:
        check('\\begin' not in r[1] and '\\trans' not in r[1], 'one tier only', r[1])
        return
    want = ['\\begin{exe}\\small', '\\ex\\g' + 'l' * len(tiers)]
    want += [' '.join('{%s}' % v for v in row) + '\\\\' for row in vals]
    want += ['\\trans ' + latex.escape(raw_members(t)[0].text or '{}') for t in trans if raw_members(t)]
    check_eq(r[1], '\n'.join(want + ['\\end{exe}']), 'export')


CASES = [('strings', rnd), ('grid', grid), ('grid2', grid), ('grid3', grid), ('export', export)]
ENUMS = [('short', enum)]
