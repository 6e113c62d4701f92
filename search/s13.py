"""C13: XML round trip."""
import io
import os
import tempfile
from gen import *
from s12 import parts, parents_ok
from xigt.codecs import xigtxml

XTEXT = [None, None, 'dog', ' a b ', '<&>"\'', '\u00e9', '\U0001f600', 'l1\nl2', 'x\ty', ']]>', '0', '{}', '&amp;',
         '\u3000x', 'a' * 40, '\u0085x']
XVAL = ['v', '', ' ', 'a\nb', 'x\ty', '<"&\'>', '\u00e9', 'a1[0:2]+a2', '0', '  z  ']
NAMES = ['subject', 'language', 'n', '_b', 'b-1', 'item', 'igt', 'metadata', 'meta', 'tier', 'xigt-corpus', 'b.c',
         '\u00e9t']
XA = ['alignment', 'content', 'segmentation', 'a', 'lang', 'x-y', 'tag', 'text', 'name', '_q']


def nsm(rng, p):
    """a map without empty prefixes (distinct URIs per prefix not needed)"""
    if rng.random() >= p:
        return None
    return {q: rng.choice(URIS) for q in rng.sample(PRES + ['xsi2', 'a'], rng.randint(0, 3))}


def atts(rng, nm, extra=()):
    d = {}
    ok = [u for p, u in (nm or {}).items() if p and not any(q == '' and v == u for q, v in nm.items())]
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        k = rng.choice(XA + list(extra))
        if ok and rng.random() < .4:
            k = '{%s}%s' % (rng.choice(ok), rng.choice(XA + ['id', 'type']))
        d[k] = rng.choice(XVAL)
    return d


def child(rng, size, scope, default):
    """default: a default namespace is in force in the document"""
    own = nsm(rng, .3)
    if rng.random() < .12:
        own = dict(own or scope or {})
        for q in [q for q, u in own.items() if u == 'http://default/']:
            del own[q]
        own[''] = 'http://default/' + rng.choice(['', 'two'])
    eff = own if own is not None else (scope or {})
    default = default or '' in eff
    # no namespace can only be written where no default is in force
    cand = list(eff.values())
    if '' in eff and rng.random() < .5:
        cand = [eff['']]
    if default and not cand:
        own = dict(eff, x='http://x.org/')
        eff = own
        cand = ['http://x.org/']
    ns = rng.choice(cand) if cand and (default or rng.random() < .5) else None
    return MetaChild(rng.choice(NAMES), attributes=atts(rng, eff, ('id', 'type', 'id')), text=rng.choice(XTEXT),
                     children=[child(rng, size // 2, eff, default) for _ in range(rng.randint(0, min(3, size // 2)))],
                     namespace=ns, nsmap=own)


def kw(rng, scope, p=.2):
    own = nsm(rng, p)
    eff = own if own is not None else scope
    return dict(type=rng.choice(TYPES + ['x y']), attributes=atts(rng, eff), nsmap=own), eff


def md(rng, size, scope, j):
    k, e = kw(rng, scope)
    ms = []
    for i in range(rng.randint(0, min(3, size))):
        k2, e2 = kw(rng, e)
        ms.append(Meta(id=optid(rng, 'meta', i), text=rng.choice(XTEXT),
                       children=[child(rng, size, e2, False) for _ in range(rng.randint(0, min(3, size)))], **k2))
    return Metadata(id=optid(rng, 'md', j), metas=ms, **k)


def mdlist(rng, size, e):
    return [md(rng, size // 2 + 1, e, j) for j in range(rng.choice([0, 0, 0, 1, 2]))]


def xcorpus(rng, size):
    k, e = kw(rng, {}, .6)
    igts = []
    for i in range(rng.randint(0, min(3, size))):
        k1, e1 = kw(rng, e)
        ts = []
        for j in range(rng.randint(0, min(3, size))):
            k2, e2 = kw(rng, e1)
            its = []
            for m in range(rng.randint(0, min(3, size))):
                k3, e3 = kw(rng, e2, .1)
                its.append(Item(id=optid(rng, 'w', m), text=rng.choice(XTEXT), **k3))
            ts.append(Tier(id=optid(rng, 't', j), items=its, metadata=mdlist(rng, size, e2), **k2))
        igts.append(Igt(id=optid(rng, 'i', i), tiers=ts, metadata=mdlist(rng, size, e1), **k1))
    return XigtCorpus(id=rng.choice([None, 'c']), igts=igts, metadata=mdlist(rng, size, e), **k)


def state(c):
    return [(canon(x), x._nsmap, id(x), list(x.attributes.items())) for x in parts(c)]


def rnd(rng, size):
    c = xcorpus(rng, size + 1)
    log(show(c))
    log([(type(x).__name__, x._nsmap) for x in parts(c) if x._nsmap is not None])
    before = state(c)
    ind = rng.choice([None, 0, 1, 2, 4])
    s = xigtxml.dumps(c, indent=ind)
    check_eq(state(c), before, 'encoding changed the corpus')
    log('indent', ind, s)
    d = xigtxml.loads(s)
    check_eq(canon(d), canon(c), 'decoded corpus')
    check(d == c and c == d, 'decoded corpus unequal')
    parents_ok(d)
    for x, y in zip(parts(c), parts(d)):
        for p, u in x.nsmap.items():
            if x.attributes and any(a.startswith('{%s}' % u) for a in x.attributes):
                check_eq(y.nsmap.get(p), u, 'prefix %r' % p)
    s2 = xigtxml.dumps(d, indent=rng.choice([None, 2]))
    check_eq(canon(xigtxml.loads(s2)), canon(c), 'second round trip')
    if rng.random() < .3:
        b = xigtxml.dumps(c, encoding='utf-8', indent=ind)
        check_eq(canon(xigtxml.loads(b)), canon(c), 'from bytes')
    if rng.random() < .1:
        with tempfile.TemporaryDirectory() as t:
            fn = os.path.join(t, 'c.xml')
            xigtxml.dump(fn, c, indent=ind)
            mode = rng.choice(['full', 'incremental', 'transient'])
            e = xigtxml.load(fn, mode=mode)
            check_eq([canon(i) for i in e], [canon(i) for i in raw_members(c)], 'IGTs loaded in mode ' + mode)
            check_eq([canon(m) for m in raw_members(e._md)], [canon(m) for m in raw_members(c._md)], 'corpus metadata')
            check_eq((e.id, e.type, e.attributes), (c.id, c.type, c.attributes), 'corpus attributes')
    return len(raw_members(c)) > 0


WRAP = {'Igt': ('igt', '%s'), 'Tier': ('tier', '<igt>%s</igt>'), 'Item': ('item', '<igt><tier>%s</tier></igt>'),
        'Metadata': ('metadata', '%s'), 'Meta': ('meta', '<metadata>%s</metadata>'),
        'MetaChild': ('metachild', '<metadata><meta>%s</meta></metadata>')}


def single(rng, size):
    """the text of one object, in a document of its own"""
    c = xcorpus(rng, size + 1)
    log(show(c))
    before = state(c)
    xs = [x for x in parts(c) if type(x).__name__ in WRAP]
    if not xs:
        return False
    x = rng.choice(xs)
    name, wrap = WRAP[type(x).__name__]
    ind = rng.choice([None, 0, 2])
    r = outcome(lambda: getattr(xigtxml, 'encode_' + name)(x, indent=ind))
    check(r[0] == 'return', 'encode_%s raised' % name, r[1])
    log(r[1])
    check_eq(state(c), before, 'encoding changed the corpus')
    d = xigtxml.loads('<xigt-corpus>' + wrap % r[1] + '</xigt-corpus>')
    ys = [y for y in parts(d) if type(y) is type(x)]
    check(any(canon(y) == canon(x) for y in ys), 'decoded', name, [canon(y) for y in ys], 'expected', canon(x))


CASES = [('random', rnd), ('single', single)]
