"""C20: Toolbox import helpers."""
import itertools
from gen import *
stub_modules()
from xigt.importers import toolbox as T

BOUNDS = '-=~.'


def decode(rng, size):
    toks = []
    line = b''
    enc = rng.choice(['utf-8', 'utf-8', 'latin-1', 'utf-8'])
    if rng.random() < .3:
        line += b' ' * rng.randint(1, 3)
    fields = []
    for _ in range(rng.randint(0, 4 + size)):
        w = ''.join(rng.choice('ab\u00e9\u00f1c-=' + ('\u4e2d\U0001f600\u0301' if enc == 'utf-8' else ''))
                    for _ in range(rng.randint(1, 5)))
        b = w.encode(enc)
        fields.append((len(line), w))
        line += b + rng.choice([b' ', b'  ', b'   ', b'\t'])
    if rng.random() < .5:
        line = line.rstrip()
    if rng.random() < .7:
        line += rng.choice([b'\n', b'\n', b'\r\n', b'\n\n'])
    log(repr(line), enc)
    r = outcome(lambda: T._respace_decode(line, enc))
    check(r[0] == 'return', 'raised', r[1])
    s = r[1]
    check_eq(s.split(), [w for _, w in fields], 'tokens')
    for col, w in fields:
        check_eq(s[col:col + len(w)], w, 'token at byte column %d' % col)
        check(col == 0 or s[col - 1].isspace(), 'column', col, 'is inside another token')
    if fields:
        body = line.rstrip(b'\n')
        check_eq(len(s), len(body), 'length')
    else:
        check_eq(s.strip(), '', 'blank line')


def words():
    ws = ['', 'a', 'bc', '-x', '\u00e9t']
    def f(toks):
        log(toks)
        line = ' '.join(toks)
        pos = 0
        for s, t in enumerate(toks):
            r = outcome(lambda: T.align_word('words', s, (line, list(toks))))
            check_eq(r, ('return', (pos, pos + len(t), 0)), 'words segment %d of %r' % (s, toks))
            check_eq(line[pos:pos + len(t)], t, 'text')
            pos += len(t) + 1
    for n in (1, 2, 3, 4):
        for t in itertools.product(ws, repeat=n):
            yield lambda t=t: f(t)


def wordsr(rng, size):
    toks = [''.join(rng.choice('abC-= ') for _ in range(rng.randint(0, 6))) for _ in range(rng.randint(1, 4 + size))]
    log(toks)
    pos = 0
    for s, t in enumerate(toks):
        tgt = rng.choice([' '.join(toks), 'X', ''])
        check_eq(outcome(lambda: T.align_word('words', s, (tgt, list(toks)))), ('return', (pos, pos + len(t), 0)),
                 'words segment %d' % s)
        pos += len(t) + 1


def morphs_ok(word, toks):
    low = word.lower()
    for s in range(len(toks)):
        src = (word, list(toks))
        r = outcome(lambda: T.align_word('morphemes', s, src))
        check(r[0] == 'return' and len(r[1]) == 3, 'align_word(%d, %r) gave' % (s, (word, toks)), r)
        b, e, c = r[1]
        lim = max(len(low), len(toks[0]) if len(toks) == 1 else 0)
        w = 'segment %d of %r in %r: %r' % (s, toks, word, r[1])
        check(isinstance(b, int) and isinstance(e, int) and 0 <= b <= e, w)
        check(e <= lim, 'ends beyond the word:', w)
        check(c in (0, -1), w)
        new = toks[s].strip(BOUNDS)
        if len(toks) == 1:
            check_eq((b, e, c), (0, len(toks[0]), 0), w)
        elif c == 0 and s < len(toks) - 1:
            check_eq(low[b:e], new, 'precise: ' + w)
        elif c == 0:
            check_eq(e, len(low), 'last: ' + w)
        else:
            check_eq(e, len(low), 'imprecise: ' + w)
        check_eq(src, (word, list(toks)), 'arguments')


def morphs(rng, size):
    n = rng.randint(1, 2 + min(size, 4))
    alpha = rng.choice(['ab', 'abc-', 'aB-=~.', 'a-'])
    toks = [''.join(rng.choice(alpha) for _ in range(rng.randint(0, 4))) for _ in range(n)]
    r = rng.random()
    if r < .5:
        word = ''.join(t.strip(BOUNDS) if rng.random() < .8 else t for t in toks)
    elif r < .7:
        word = '-'.join(t.strip(BOUNDS) for t in toks)
    else:
        word = ''.join(rng.choice(alpha) for _ in range(rng.randint(0, 9)))
    if rng.random() < .2:
        word += rng.choice(['x', '-', 'a'])
    if rng.random() < .2:
        word = word.upper()
    log(repr(word), toks)
    morphs_ok(word, toks)


def menum():
    ts = ['', 'a', '-a', 'b-', 'ab', '-']
    ws = ['', 'a', 'ab', 'aab', 'a-b', '-a-b', '--a', 'aba', 'B', 'abab-a']
    for w in ws:
        for n in (1, 2, 3):
            for t in itertools.product(ts, repeat=n):
                yield lambda w=w, t=t: (log(w, t), morphs_ok(w, list(t)))[0]


def tier(rng, size):
    """make_tier and make_phrase_tier"""
    n = rng.choice([0, 1, 2, 3, 3 + size])
    alpha = rng.choice(['ab', 'aB-='])
    word = lambda: ''.join(rng.choice(alpha) for _ in range(rng.randint(0, 4)))
    aln = []
    for k in range(n):
        toks = [word() for _ in range(rng.choice([1, 1, 2, 0, 3]))]
        aln.append((rng.choice([word(), ' '.join(toks), ''.join(toks)]), toks))
    typ = rng.choice(['words', 'morphemes', 'glosses', 'pos', None])
    ra = rng.choice(['segmentation', 'alignment', None])
    other = rng.choice([None, 1, 1])
    if other:
        other = Tier(id='w', type='words', items=[Item(id=rng.choice('wx') + str(k * 3 + 2), text=a or '') for k, (a, _) in enumerate(aln)])
    aligned = ra is not None and other is not None
    if not aligned and rng.random() < .5:
        aln = [(None, t) for _, t in aln]
    tid = rng.choice(['m', 'g-1', 'pos2'])
    none = rng.random() < .05
    if none:
        aln = [(None, None)]
    log(typ, tid, ra, aln, aligned)
    r = outcome(lambda: T.make_tier(typ, tid, ra, [(a, list(b) if b is not None else b) for a, b in aln], other))
    check(r[0] == 'return', 'make_tier raised', r[1])
    t = r[1]
    want = []
    for k, (a, toks) in enumerate(aln if not none else []):
        for s, x in enumerate(toks):
            at = {}
            if aligned:
                v = raw_members(other)[k]._id
                if typ in ('words', 'morphemes'):
                    b, e, _ = T.align_word(typ, s, (a, list(toks)))
                    v += '[%d:%d]' % (b, e)
                at = {ra: v}
            want.append(('%s%d' % (tid, len(want) + 1), x, at))
    check_eq([(i._id, i.text, i.attributes) for i in raw_members(t)], want, 'items of the tier')
    check_eq((t._id, t.type, dict(t.attributes)), (tid, typ, {ra: 'w'} if aligned and not none else {}), 'tier')
    r = outcome(lambda: T.make_phrase_tier(tid, aln))
    check(r[0] == 'return', 'make_phrase_tier raised', r[1])
    check_eq((r[1]._id, r[1].type, [(i._id, i.text) for i in raw_members(r[1])]),
             (tid, 'phrases', [(tid + '1', ' '.join(x for _, ts in aln for x in ts or []))]), 'phrase tier')


CASES = [('tier', tier), ('decode', decode), ('words', wordsr), ('morphemes', morphs), ('morphemes2', morphs)]
ENUMS = [('words4', words), ('morphs3', menum)]
