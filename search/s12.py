"""C12: JSON round trip."""
import io
import json
import copy
import tempfile
import os
from gen import *
from xigt.codecs import xigtjson
import gen

JTEXT = gen.TEXTS + ['\x00', '\r\n', '\u2028', ' ', '\ud800'[:0], 'true', 'null']


def spice(rng, c):
    """namespaces on structural objects, texts JSON can carry, attributes of any kind"""
    for x in parts(c):
        if rng.random() < .1 and not isinstance(x, MetaChild):
            x.namespace = rng.choice(URIS)
        if hasattr(x, 'text') and not isinstance(x, Metadata) and rng.random() < .2:
            x.text = rng.choice(JTEXT)
        if rng.random() < .1:
            x.attributes[rng.choice(['id', 'type', '{http://x.org/}id', '{urn:nomap}q', 'namespace', '{u}u', 'attributes'])] = 'v'
        if rng.random() < .05 and not isinstance(x, MetaChild):
            x.type = rng.choice(['', '0', 'x:y'])


def parts(x):
    yield x
    for m in raw_members(getattr(x, '_md', [])):
        for y in parts(m):
            yield y
    if isinstance(x, list):
        for m in raw_members(x):
            for y in parts(m):
                yield y


def nsmaps_kept(a, b):
    for x, y in zip(parts(a), parts(b)):
        for p, u in x.nsmap.items():
            check_eq(y.nsmap.get(p), u, 'prefix %r of %s' % (p, show(x)))


def parents_ok(c):
    for x in parts(c):
        for m in raw_members(getattr(x, '_md', [])):
            check(m._parent is x, 'parent')
        if isinstance(x, list):
            for m in raw_members(x):
                check(m._parent is x, 'parent')


last = [None]


def state(c):
    return [(canon(x), x._nsmap, id(x), list(x.attributes.items())) for x in parts(c)]


def rnd(rng, size):
    c = corpus(rng, size + 1)
    spice(rng, c)
    log(show(c))
    log([(type(x).__name__, x._nsmap) for x in parts(c) if x._nsmap is not None])
    before = state(c)
    ind = rng.choice([None, 0, 2])
    s = xigtjson.dumps(c, indent=ind)
    check_eq(state(c), before, 'encoding changed the corpus')
    log(s)
    d = xigtjson.loads(s)
    check_eq(canon(d), canon(c), 'decoded corpus')
    check(d == c and c == d and not d != c, 'decoded corpus unequal')
    nsmaps_kept(c, d)
    parents_ok(d)
    # what was encoded before does not matter
    if last[0] is not None:
        xigtjson.dumps(last[0])
    s2 = xigtjson.dumps(c, indent=ind)
    check_eq(canon(xigtjson.loads(s2)), canon(c), 'decoded corpus (second time)')
    x = json.loads(s)
    check(sorted(json.dumps(x, sort_keys=True)) == sorted(json.dumps(json.loads(s2), sort_keys=True)) or
          len({u for y in parts(c) for u in y.nsmap.values()}) <
          len({(p, u) for y in parts(c) for p, u in y.nsmap.items()}), 'encoding depends on the history')
    # a second round trip is the identity, too
    check_eq(canon(xigtjson.loads(xigtjson.dumps(d))), canon(c), 'second round trip')
    f = io.StringIO()
    xigtjson.dump(f, c, indent=ind)
    f.seek(0)
    mode = rng.choice(['full', 'incremental', 'transient'])
    e = xigtjson.load(f, mode=mode)
    igts = [canon(i) for i in e]
    check_eq(igts, [canon(i) for i in raw_members(c)], 'IGTs loaded in mode ' + mode)
    if rng.random() < .1:
        with tempfile.TemporaryDirectory() as t:
            fn = os.path.join(t, 'c.json')
            xigtjson.dump(fn, c)
            check_eq(canon(xigtjson.load(fn)), canon(c), 'file round trip')
    last[0] = c
    # edit and encode again
    if raw_members(c):
        g = rng.choice(raw_members(c))
        g.attributes['edited'] = 'e'
        if raw_members(g) and rng.random() < .5:
            g.pop()
        check_eq(canon(xigtjson.loads(xigtjson.dumps(c))), canon(c), 'after an edit')
    return len(raw_members(c)) > 0


CASES = [('random', rnd)]
