"""Shared generators and oracles for the counterexample search."""
import sys
import signal
import types

LOG = []


class Violation(Exception):
    pass


def log(*xs):
    LOG.append(' '.join(str(x) for x in xs))


class Timeout(Exception):
    pass


def _on_alarm(sig, frm):
    raise Timeout('no result within 20 s of CPU time (does not end?)')


signal.signal(signal.SIGPROF, _on_alarm)


def alarm(t):
    signal.setitimer(signal.ITIMER_PROF, t)     # CPU time: independent of the machine's load


def check(cond, *msg):
    if not cond:
        raise Violation(' '.join(str(m) for m in msg))


def check_eq(a, b, *msg):
    if not (type(a) is type(b) or not isinstance(a, (bool, int)) or not isinstance(b, (bool, int))) \
            or not a == b:
        raise Violation('%s: got %r, expected %r' % (' '.join(str(m) for m in msg), a, b))


def outcome(fn, *args, **kw):
    """('return', value) or ('raise', exception class name)"""
    try:
        return ('return', fn(*args, **kw))
    except (Timeout, Violation, KeyboardInterrupt):
        raise
    except Exception as ex:
        return ('raise', type(ex).__name__)


def stub_modules():
    """The third-party modules the importers need are not installed."""
    for name in ('toolbox', 'odintxt', 'delphin', 'delphin.itsdb'):
        if name not in sys.modules:
            m = types.ModuleType(name)
            sys.modules[name] = m
    tb = sys.modules['toolbox']
    tb.ToolboxError = type('ToolboxError', (Exception,), {})
    tb.ToolboxWarning = type('ToolboxWarning', (Warning,), {})
    sys.modules['delphin'].itsdb = sys.modules['delphin.itsdb']


import xigt
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild
from xigt.errors import XigtError, XigtStructureError

KINDS = (XigtCorpus, Igt, Tier, Metadata, Meta, MetaChild)
MEMBER = {XigtCorpus: Igt, Igt: Tier, Tier: Item, Metadata: Meta, Meta: MetaChild,
          MetaChild: MetaChild}

URIS = ['http://x.org/', 'http://y.org/', 'urn:z', 'u']
PRES = ['x', 'y', 'dc', 'z']
ATTRS = ['alignment', 'content', 'segmentation', 'a', 'lang', 'x-y', 'tag']
TYPES = [None, None, 'words', 'glosses', 'phrases', 'xigt-meta', 't', '']
TEXTS = [None, '', 'dog', 'a b', 'inu=ga', '\u00e9t\u00e9', 'x', '  y ', '0', '12', '{}',
         'l1\nl2', '"q"', '<&>', '\U0001f600']


def rid(rng, pool):
    return rng.choice(pool)


def raw_members(c):
    return list(list.__iter__(c))


def attrs_of(rng, size, nsmap=None, refs=True, plain=False):
    d = {}
    for _ in range(rng.randint(0, min(3, size))):
        k = rng.choice(ATTRS if refs else ATTRS[3:])
        if nsmap and rng.random() < .4:
            k = '{%s}%s' % (rng.choice(list(nsmap.values())), k)
        d[k] = rng.choice(['v', 'w', '', '1', 'a1', 'a1[0:2]+a2', 'x y'])
    return d


def nsmap_of(rng, p=.3):
    if rng.random() >= p:
        return None
    ps = rng.sample(PRES, rng.randint(0, 3))
    return {q: rng.choice(URIS) for q in ps}


def metachild(rng, size, ns=True, scope=None):
    nm = nsmap_of(rng) if ns else None
    sc = nm if nm is not None else (scope or {})
    return MetaChild(
        rng.choice(['subject', 'language', 'n', '_b', 'b-1', 'item', 'igt', 'metadata']),
        attributes=attrs_of(rng, size, sc),
        text=rng.choice(TEXTS),
        children=[metachild(rng, size // 2, ns, sc) for _ in range(rng.randint(0, min(2, size // 2)))],
        namespace=rng.choice([None, None] + list(sc.values()) if ns else [None]),
        nsmap=nm)


def meta(rng, size, i=None, ns=True, scope=None):
    nm = nsmap_of(rng) if ns else None
    sc = nm if nm is not None else (scope or {})
    return Meta(id=i, type=rng.choice(TYPES), attributes=attrs_of(rng, size, sc),
                text=rng.choice(TEXTS),
                children=[metachild(rng, size, ns, sc) for _ in range(rng.randint(0, min(3, size)))],
                namespace=None, nsmap=nm)


def metadata(rng, size, i=None, ns=True, scope=None):
    nm = nsmap_of(rng) if ns else None
    sc = nm if nm is not None else (scope or {})
    return Metadata(id=i, type=rng.choice(TYPES), attributes=attrs_of(rng, size, sc),
                    metas=[meta(rng, size, optid(rng, 'mt', j), ns, sc)
                           for j in range(rng.randint(0, min(3, size)))],
                    namespace=None, nsmap=nm)


def optid(rng, p, j, q=.8):
    return '%s%d' % (p, j + 1) if rng.random() < q else None


def item(rng, size, i=None, ns=True, scope=None):
    nm = nsmap_of(rng, .15) if ns else None
    sc = nm if nm is not None else (scope or {})
    return Item(id=i, type=rng.choice(TYPES), attributes=attrs_of(rng, size, sc),
                text=rng.choice(TEXTS), nsmap=nm)


def mds(rng, size, ns, sc):
    return [metadata(rng, size // 2, optid(rng, 'md', j), ns, sc)
            for j in range(rng.randint(0, min(2, size // 2)) if rng.random() < .5 else 0)]


def tier(rng, size, i=None, ns=True, scope=None):
    nm = nsmap_of(rng, .2) if ns else None
    sc = nm if nm is not None else (scope or {})
    p = rng.choice('abw')
    return Tier(id=i, type=rng.choice(TYPES), attributes=attrs_of(rng, size, sc),
                metadata=mds(rng, size, ns, sc),
                items=[item(rng, size, optid(rng, p, j), ns, sc)
                       for j in range(rng.randint(0, min(4, size)))],
                nsmap=nm)


def igt(rng, size, i=None, ns=True, scope=None):
    nm = nsmap_of(rng, .2) if ns else None
    sc = nm if nm is not None else (scope or {})
    return Igt(id=i, type=rng.choice(TYPES), attributes=attrs_of(rng, size, sc),
               metadata=mds(rng, size, ns, sc),
               tiers=[tier(rng, size, optid(rng, 'abw'[j % 3], j // 3), ns, sc)
                      for j in range(rng.randint(0, min(4, size)))],
               nsmap=nm)


def corpus(rng, size, ns=True, mode='full', scope=None):
    nm = nsmap_of(rng, .6) if ns else None
    sc = nm if nm is not None else (scope or {})
    return XigtCorpus(id=rng.choice([None, 'c', 'xc1']), type=rng.choice(TYPES),
                      attributes=attrs_of(rng, size, sc), metadata=mds(rng, size, ns, sc),
                      igts=[igt(rng, size, optid(rng, 'i', j), ns, sc)
                            for j in range(rng.randint(0, min(3, size)))],
                      mode=mode, nsmap=nm)


def canon(x):
    """Structural view of a model object, independent of its own methods."""
    base = (type(x).__name__, x._id, x.type, tuple(sorted(x.attributes.items())), x.namespace)
    if isinstance(x, Item):
        return base + (x.text,)
    kids = tuple(canon(m) for m in list.__iter__(x))
    md = tuple(canon(m) for m in list.__iter__(x._md)) if hasattr(x, '_md') else ()
    text = x.text if isinstance(x, (Meta, MetaChild)) else None
    name = x.name if isinstance(x, MetaChild) else None
    return base + (name, text, md, kids)


def show(x):
    return repr(canon(x))


# ---- reference expressions (abstract form and printer) ------------------------

IDCH = ['a', 'b', 'Z', 'w1', 'tw-1', 'a.b', 'x_1', 'a-', 'b.', 'id', 'n10']


class Sel:
    def __init__(self, delim, id, spans):
        # delim: text before; spans: [(delim, start, end)] (strings)
        self.delim, self.id, self.spans = delim, id, spans

    def __str__(self):
        s = self.delim + self.id
        if self.spans:
            s += '[' + ''.join('%s%s:%s' % x for x in self.spans) + ']'
        return s

    def __repr__(self):
        return str(self)


def algnexpr(rng, size, ids=None, maxlen=None, nosp=False):
    """A random well-formed reference expression in abstract form."""
    ids = ids or IDCH
    n = rng.randint(1, max(1, min(4, size)) if rng.random() < .8 else size + 2)
    if rng.random() < .2:
        return [Sel('' if j == 0 else rng.choice([' ', '  ', '\t', ' \n', '\u3000'] if not nosp else [' ']),
                    rng.choice(ids), []) for j in range(n)]
    out = []
    pool = rng.sample(ids, min(len(ids), rng.randint(1, 3)))
    hi = maxlen or rng.choice([3, 12, 100])
    for j in range(n):
        sp = []
        if rng.random() < .6:
            for m in range(rng.randint(1, 3)):
                a, b = rng.randint(0, hi), rng.randint(0, hi)
                if rng.random() < .2:
                    a = -a
                if rng.random() < .2:
                    b = -b
                st = str(a)
                sp.append(('' if m == 0 else rng.choice('+,'), st, str(b)))
        out.append(Sel('' if j == 0 else rng.choice('+,'), rng.choice(pool), sp))
    return out


def estr(sels):
    return ''.join(map(str, sels))
