"""C22: query counts and descriptions."""
import io
import string
import itertools
import contextlib
import argparse
import os
import tempfile
from gen import *
from xigt.scripts import xigt_query as Q
from xigt import xigtpath as xp
from xigt.codecs import xigtxml


def build(rng, size):
    igts = []
    for i in range(rng.randint(0, 3)):
        ts = []
        for k in range(rng.randint(0, 2)):
            ts.append(Tier(id='t%d' % k, type=rng.choice([None, 'words', 'g']),
                           items=[Item(id='%s%d' % ('ab'[k], j), text=rng.choice([None, '', 'x', 'y', 'dog']),
                                       attributes={'tag': rng.choice(['N', 'V'])} if rng.random() < .7 else {})
                                  for j in range(rng.randint(0, 4))]))
        igts.append(Igt(id='i%d' % i, tiers=ts, attributes={'lang': rng.choice(['a', 'b'])} if rng.random() < .7 else {}))
    return XigtCorpus(igts=igts)


QS = ['igt', 'igt/tier', 'igt/tier/item', '//item', 'igt/tier/item/@tag', '//item/text()', 'igt/@lang', '//item[@tag="N"]/text()',
      'igt/tier/@type', 'nosuch']
SUB = ['@lang', 'tier/@type', 'tier/item/@tag', 'nosuch', '.']
SUBT = ['@type', 'item/@tag', 'item/text()', '..', '@id']
SUBI = ['@tag', 'text()', '..', '@id', '../@type']


def counts(rng, size):
    c = build(rng, size)
    log(show(c))
    for q in rng.sample(QS, 4):
        ms = xp.findall(c, q)
        log(q, len(ms), 'matches')
        ag = {'query': q, 'subquery': '', 'description': 'D {match!s}.', 'action': 'count'}
        r = outcome(lambda: Q.count_pattern(c, dict(ag)))
        check_eq(r, ('return', (len(ms), 'D .')), 'count of %s' % q)
        if all(m is None or isinstance(m, str) for m in ms):
            r = outcome(lambda: Q.unique_pattern(c, dict(ag)))
            check_eq(r, ('return', (len(set(ms)), 'D .')), 'unique of %s' % q)
            continue
        subs = SUB if q == 'igt' else SUBT if q == 'igt/tier' else SUBI
        s = rng.choice(subs)
        if s in ('.', '..'):
            continue
        groups = {}
        for m in ms:
            groups.setdefault(tuple(xp.findall(m, s)), []).append(m)
        r = outcome(lambda: Q.tally_pattern(c, {'query': q, 'subquery': s, 'description': '{match!s}'}))
        check(r[0] == 'return', 'tally raised', r[1])
        got = r[1]
        check_eq(sorted(got), sorted((len(v), ', '.join(map(str, k))) for k, v in groups.items()), 'tally of %s by %s' % (q, s))
        check_eq([n for n, _ in got], sorted((n for n, _ in got), reverse=True), 'tallies are largest first')
        check_eq(sum(n for n, _ in got), len(ms), 'sum of the tallies')
    # the agenda keeps its order
    ag = []
    want = []
    for _ in range(rng.randint(0, 3)):
        q = rng.choice(QS[:4])
        a = rng.choice(['count', 'tally'])
        if a == 'count':
            ag.append(('count', [q]))
            want.append((len(xp.findall(c, q)), '%s\t' % q))
        else:
            ag.append(('tally', [q, 'nosuch']))
            n = len(xp.findall(c, q))
            if n:
                want.append((n, '%s\tnosuch\t' % q))
        if rng.random() < .5:
            ag.append(('description', 'about {query} and {subquery}: {other}') if False else ('description', 'D:{query}'))
            if want and (a == 'count' or n):
                want[-1] = (want[-1][0], 'D:%s' % q)
    r = outcome(lambda: Q.process_agenda(c, Q.make_job(argparse.Namespace(agenda=ag, file_description=None))['agenda']))
    check_eq(r, ('return', want), 'agenda %r' % ag)


def deep(rng, size):
    """text with fields: [('lit', s) | ('field', name, conv, spec)]"""
    out = []
    for _ in range(rng.randint(0, 4 + size)):
        if rng.random() < .4:
            out.append(('lit', rng.choice(['', 'a', ' x:', '!', ':', '[', ']', '.', '\t', 'e\u00e9', '%s', '\\', '0'])))
        else:
            n = rng.choice(['query', 'subquery', 'match', 'filename', 'x', 'x_y'])
            tail = rng.choice(['', '', '', '.attr', '[0]', '[k].b']) if n not in ('query', 'subquery') else ''
            out.append(('field', n + tail, rng.choice(['', '', '!s', '!r', '!a']),
                        rng.choice(['', '', ':>8', ':<5', ':^7', ':*>9', ':.2'])))
    return out


def fmt(rng, size):
    parts = deep(rng, size)
    s = ''.join(p[1] if p[0] == 'lit' else '{%s%s%s}' % p[1:] for p in parts)
    given = {k: rng.choice(['', 'v', 'igt/tier', 'a"b', 'x: y', '\u00e9', '!r'])
             for k in rng.sample(['query', 'subquery', 'nosuch'], rng.randint(0, 3))}
    want = ''
    for p in parts:
        if p[0] == 'lit':
            want += p[1]
        else:
            f = '{%s%s%s}' % p[1:]
            name = p[1].split('[')[0].split('.')[0]
            want += f.format(**given) if name in given else f
    log(repr(s), given)
    r = outcome(lambda: Q.safe_format(s, **given))
    check_eq(r, ('return', want), 'safe_format(%r, %r)' % (s, given))
    # and then the rest
    if all(p[0] == 'lit' or p[1] in ('query', 'subquery', 'match') for p in parts):
        rest = {k: 'V' + k for k in ('query', 'subquery', 'match')}
        one = outcome(lambda: r[1].format(**rest))
        full = dict(rest, **{k: v for k, v in given.items() if k in rest})
        check_eq(one, ('return', s.format(**full)), 'formatted in two steps')


def output(rng, size):
    """the command line"""
    c = build(rng, size)
    log(show(c))
    with tempfile.TemporaryDirectory() as t:
        fn = os.path.join(t, 'f.xml')
        with open(fn, 'w') as fh:
            fh.write(xigtxml.dumps(c))
        d = xigtxml.load(fn)
        args = argparse.Namespace(agenda=[('count', ['igt']), ('unique', ['//item/@tag']), ('find', ['igt/@lang']),
                                          ('tally', ['//item', '@tag'])],
                                  infiles=[fn], basename=True, file_description=rng.choice([None, 'F {filename}']))
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            r = outcome(lambda: Q.run(args))
        check(r[0] == 'return', 'query raised', r[1])
        lines = buf.getvalue().split('\n')
        check_eq(lines[0], 'F f.xml' if args.file_description else 'f.xml:', 'file description')
        finds = [x for x in xp.findall(d, 'igt/@lang')]
        check_eq(lines[1:1 + len(finds)], ['  igt/@lang\t%s' % x for x in finds], 'find')
        nums = [int(l.split('\t')[0]) for l in lines[1 + len(finds):] if l.strip()]
        tags = xp.findall(d, '//item/@tag')
        groups = {}
        for x in tags:
            groups[x] = groups.get(x, 0) + 1
        check_eq(nums, [len(raw_members(d)), len(set(tags))] + sorted(groups.values(), reverse=True), 'numbers')


CASES = [('counts', counts), ('format', fmt), ('format2', fmt), ('output', output)]
