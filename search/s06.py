"""C06: accepted ids and names, and what references make of them."""
from gen import *
import itertools
import unicodedata
from xigt import ref

ALPHA = ['a', 'Z', 'z', '1', '0', '-', '.', '_', ' ', '\n', ':', '[', ']', '+', ',', '\u00e9', '\u0661', '\u02b0',
         '\u00b7', '\u0300', '\r', '\u2028', '@', '`', '{', '/', '\x00', '\U0001d7d8', '\u017f', '\u212a', '\\']


def isword(c):
    # the documented meaning of \w for str: alphanumeric or underscore
    return c == '_' or c.isalnum()


def okid(s):
    return bool(s) and ('a' <= s[0] <= 'z' or 'A' <= s[0] <= 'Z') and \
        all(isword(c) or c in '-.' for c in s)


def okname(s):
    # a letter (a word character that is no decimal digit) or underscore first
    return bool(s) and isword(s[0]) and not s[0].isdecimal() and all(isword(c) or c in '-.' for c in s)


def one(s):
    log(repr(s))
    for mk in (lambda i: Item(id=i), lambda i: Tier(id=i), lambda i: Igt(id=i), lambda i: XigtCorpus(id=i),
               lambda i: Metadata(id=i), lambda i: Meta(id=i)):
        r = outcome(mk, s)
        if okid(s):
            check(r[0] == 'return' and r[1].id == s, 'id', repr(s), 'gave', r)
        else:
            check_eq(r, ('raise', 'ValueError'), 'id %r' % s)
    x = Item(id='old')
    r = outcome(lambda: setattr(x, 'id', s))
    check_eq(r, ('return', None) if okid(s) else ('raise', 'ValueError'), 'set id %r' % s)
    check_eq(x.id, s if okid(s) else 'old', 'id after setting')
    x.id = None
    check(x.id is None, 'id None')
    r = outcome(lambda: MetaChild(s))
    if okname(s):
        check(r[0] == 'return' and r[1].name == s, 'name', repr(s), 'gave', r)
    else:
        check_eq(r, ('raise', 'ValueError'), 'name %r' % s)
    if okid(s):
        check_eq(ref.ids(s), [s], 'ids(%r)' % s)
        check_eq(ref.selections(s), [s], 'selections(%r)' % s)
        check_eq(ref.selections(s, keep_delimiters=False), [s], 'selections(%r)' % s)
        check_eq(ref.spans(s), [s], 'spans(%r)' % s)
        check_eq(ref.expand(s), s, 'expand(%r)' % s)
        check_eq(ref.compress(s), s, 'compress(%r)' % s)
        t = Tier(items=[Item(id=s, text='v')])
        check_eq(ref.resolve(t, s), 'v', 'resolve(%r)' % s)


def enum():
    for n in (1, 2):
        for t in itertools.product(ALPHA, repeat=n):
            yield (lambda s=''.join(t): one(s))
    yield lambda: one('')
    for a in ('a', '_', '1'):
        for t in itertools.product(ALPHA, repeat=2):
            yield (lambda s=a + ''.join(t): one(s))


def charset():
    """every character of the basic plane, as first and as second character"""
    def block(lo):
        log('characters', hex(lo), hex(lo + 255))
        for c in map(chr, range(lo, lo + 256)):
            if 0xd800 <= ord(c) < 0xe000:
                continue
            for s in (c, 'a' + c):
                x = Item()
                r = outcome(lambda: setattr(x, 'id', s))
                check_eq(r, ('return', None) if okid(s) else ('raise', 'ValueError'), 'set id %r' % s)
                r = outcome(lambda: MetaChild(s).name)
                check_eq(r, ('return', s) if okname(s) else ('raise', 'ValueError'), 'name %r' % s)
                if okid(s):
                    check_eq((ref.ids(s), ref.spans(s), ref.expand(s), ref.compress(s)), ([s], [s], s, s), s)
    for lo in range(0, 0x10000, 256):
        yield (lambda lo=lo: block(lo))


def rnd(rng, size):
    s = ''.join(rng.choice(ALPHA[:9] if rng.random() < .8 else ALPHA) for _ in range(rng.randint(1, 3 + size)))
    if rng.random() < .7:
        s = rng.choice('abXY') + s
    if rng.random() < .1:
        s += chr(rng.choice([rng.randint(0, 0x2fff), rng.randint(0x10000, 0x1ffff)]))
    one(s)


CASES = [('strings', rnd)]
ENUMS = [('short', enum), ('characters', charset)]
