"""C21: ODIN import."""
import copy
from gen import *
stub_modules()
from xigt.importers import odin as O


def legal(c):
    n = ord(c)
    return c in '\t\n\r' or 0x20 <= n <= 0xd7ff or 0xe000 <= n <= 0xfffd


def block(lo):
    log('characters', hex(lo))
    for r in ('\ufffd', 'xx', ''):
        s = ''.join(map(chr, range(lo, lo + 1024)))
        got = O.replace_invalid_xml_chars(s, r)
        check_eq(got, ''.join(c if legal(c) else r for c in s), 'characters %x to %x' % (lo, lo + 1023))


def enum():
    for lo in list(range(0, 0x20000, 1024)) + list(range(0x20000, 0x110000, 0x8000)) + [0x10fc00]:
        yield lambda lo=lo: block(lo)


def rnd(rng, size):
    al = ['a', '\x00', '\x01', '\t', '\n', '\r', '\x0b', '\x1f', ' ', '\x7f', '\x85', '\ud7ff', '\ud800', '\udfff', '\ue000',
          '\ufffd', '\ufffe', '\uffff', '\U00010000', '\U0001f600', '\U0010ffff', '\\', '\\1']
    s = ''.join(rng.choice(al) for _ in range(rng.randint(0, 4 + 3 * size)))
    r = rng.choice(['\ufffd', '', '?', '\\', '\\1', '\\g<0>', 'xy', '&'])
    log(repr(s), repr(r))
    got = outcome(lambda: O.replace_invalid_xml_chars(s, r))
    check_eq(got, ('return', ''.join(c if legal(c) else r for c in s)), 'replaced')


def rawtier(rng, size):
    lines = []
    for _ in range(rng.randint(0, 3 + size)):
        d = {}
        for k, vs in (('content', ['a', '', 'x\x00y', 'L\u00e9 \U0001f600']), ('tag', ['L', 'G', '']), ('line', ['1', '22']),
                      ('x-y', ['q'])):
            if rng.random() < .8:
                d[k] = rng.choice(vs)
        lines.append(d)
    blk = {'lines': lines, 'igt_id': 'i1', 'doc_id': '7', 'line_range': '1 3', 'line_types': 'L G'}
    if rng.random() < .1:
        del blk['lines']
        lines = []
    if rng.random() < .3:
        blk['header_lines'] = ['h1', 'h2']
    for k, vs in (('iso-639-3', [' abc ', 'de', None, '']), ('language', [' foo bar', '', None, "o'neil"])):
        if rng.random() < .7:
            blk[k] = rng.choice(vs)
    if rng.random() < .2:
        del blk['igt_id']
    rep = rng.choice(['\ufffd', '?', ''])
    opts = {'replacement_char': rep, 'keep_headers': rng.random() < .5}
    log(blk, opts)
    old, oldo = copy.deepcopy(blk), dict(opts)
    ids_before = [id(l) for l in lines]
    r = outcome(lambda: O.make_igt_raw_tier(blk, opts))
    check(r[0] == 'return', 'raised', r[1])
    t = r[1]
    check_eq(blk, old, 'input block')
    check_eq(opts, oldo, 'options')
    its = raw_members(t)
    check_eq([i._id for i in its], ['r%d' % (j + 1) for j in range(len(lines))], 'item ids')
    for i, d in zip(its, lines):
        check_eq(i.text, ''.join(c if legal(c) else rep for c in d.get('content', '')), 'text')
        check_eq(i.attributes, {k: v for k, v in d.items() if k != 'content'}, 'attributes')
        check(i._parent is t, 'parent')
        i.attributes['new'] = '1'
    check_eq(blk, old, 'input block')
    check_eq((t._id, t.type, t.attributes), ('r', 'odin', {'state': 'raw'}), 'tier')
    g = outcome(lambda: O.make_igt(blk, opts))
    check(g[0] == 'return', 'make_igt raised', g[1])
    g = g[1]
    check_eq(g._id, blk.get('igt_id'), 'igt id')
    check_eq(g.attributes, {'doc-id': '7', 'line-range': '1-3', 'tag-types': 'L G'}, 'igt attributes')
    mds = list(g.metadata)
    check_eq(len(mds), 1, 'metadata elements')
    metas = list(mds[0].metas)
    if opts['keep_headers'] and 'header_lines' in blk:
        check_eq([(x._id, x.type, x.text) for x in metas[:1]], [('meta1', 'odin-header', 'h1\nh2')], 'header')
        check_eq(metas[1]._id, 'meta2', 'id of the language meta')
    else:
        check_eq([x._id for x in metas], ['meta1'], 'metas')
    X, O_, D = ('{http://www.w3.org/2001/XMLSchema-instance}', '{http://www.language-archives.org/OLAC/1.1/}',
               'http://purl.org/dc/elements/1.1/')
    code = 'und' if blk.get('iso-639-3') is None else blk['iso-639-3'].strip()
    check_eq([(x.name, x.namespace, x.text, x.attributes) for x in metas[-1].children],
             [(n, D, t, {X + 'type': 'olac:language', O_ + 'code': c}) for n, t, c in
              (('subject', (blk.get('language') or '').strip().title(), code), ('language', 'English', 'en'))], 'language')
    check_eq([t._id for t in raw_members(g)], ['r'], 'tiers')
    check_eq([i._id for i in raw_members(raw_members(g)[0])], ['r%d' % (j + 1) for j in range(len(lines))], 'items of the igt')
    check_eq(blk, old, 'input block')


def blocks(rng, size):
    blks = [{'lines': [{'content': 'a', 'line': str(k)}] * rng.randint(0, 2), 'igt_id': 'i%d' % rng.randint(0, 3),
             'doc_id': str(k), 'line_range': '1 3', 'line_types': 'L'} for k in range(rng.randint(0, 3))]
    log(blks)
    O.odintxt.odin_blocks = lambda fh: iter(blks)
    r = outcome(lambda: list(O.odin_igts(None, {'replacement_char': '?', 'keep_headers': False})))
    check(r[0] == 'return', 'odin_igts raised', r[1])
    check_eq([(g._id, g.attributes['doc-id'], len(raw_members(raw_members(g)[0]))) for g in r[1]],
             [(b['igt_id'], b['doc_id'], len(b['lines'])) for b in blks], 'igts of the blocks')


CASES = [('blocks', blocks), ('strings', rnd), ('rawtier', rawtier)]
ENUMS = [('characters', enum)]
