"""C17: partitioning."""
import os
import argparse
import tempfile
from gen import *
from xigt.scripts import xigt_partition as P
from xigt.codecs import xigtxml

KEYS = ['a', 'b', 'a:b', 'a-b', 'a:b:c', 'a-b-c', ':', '-', '---', 'x y', '\u00e9', 'A', '0', '.x', 'a.xml', 'other']


def rnd(rng, size):
    kp = rng.choice(['@k', '@type', '@x:k', 'tier/@type', 'tier/item/text()', 'metadata/meta/text()', '@id',
                     'metadata//x:subject/@x:code'])
    dk = rng.choice(['---', 'none', 'a', 'a:b'])
    nm = {'x': 'http://x.org/'}
    n = 0
    files, want = [], {}
    for f in range(rng.randint(1, 3)):
        igts = []
        for _ in range(rng.choice([0, 1, 2, 3, 3 + size])):
            n += 1
            key = rng.choice(KEYS[:rng.choice([3, 6, len(KEYS)])]) if rng.random() < .8 else None
            i = 'i%d' % n
            at = {'z': 'v'}
            kw = dict(id=i, attributes=at)
            tiers = [Tier(id='t', items=[Item(id='t1', text='x')])]
            if kp == '@k' and key is not None:
                at['k'] = key
            elif kp == '@x:k' and key is not None:
                at['{http://x.org/}k'] = key
            elif kp == '@type':
                kw['type'] = key
            elif kp == 'tier/@type':
                tiers = [Tier(id='q')] * rng.randint(0, 1) + [Tier(id='t', type=key)]
            elif kp == 'tier/item/text()':
                tiers = [Tier(id='t', items=[Item(text=key)] if key else [])]
            elif kp.startswith('metadata/'):
                m = Meta(text=key if 'text()' in kp else None)
                if 'subject' in kp and key is not None:
                    m.append(MetaChild('subject', namespace='http://x.org/', attributes={'{http://x.org/}code': key}))
                kw['metadata'] = [Metadata(metas=[m])]
            elif kp == '@id':
                key = i
            igts.append(Igt(tiers=tiers, **kw))
            out = (key if key is not None else dk).replace(':', '-')
            want.setdefault(out, []).append(canon(igts[-1]))
        files.append(XigtCorpus(igts=igts, nsmap=nm, id=rng.choice([None, 'c'])))
    with tempfile.TemporaryDirectory() as t:
        fns = []
        for j, c in enumerate(files):
            fn = os.path.join(t, 'in%d.xml' % (5 - j))
            with open(fn, 'w', encoding='utf-8') as fh:
                fh.write(xigtxml.dumps(c))
            fns.append(fn)
            log(fn[-7:], [(i.id,) for i in raw_members(c)])
        log('key path', kp, 'default', dk, 'expected', {k: [x[1] for x in v] for k, v in want.items()})
        content = [open(f, encoding='utf-8').read() for f in fns]
        out = os.path.join(t, 'out')
        r = outcome(lambda: P.run(argparse.Namespace(outdir=out, infiles=fns, key_path=kp, default_key=dk)))
        check(r[0] == 'return', 'partition raised', r[1])
        got = {}
        for fn in os.listdir(out):
            check(fn.endswith('.xml'), 'output file', fn)
            c = xigtxml.load(os.path.join(out, fn))
            got[fn[:-4]] = [canon(i) for i in c]
        check_eq({k: [x[1] for x in v] for k, v in got.items()}, {k: [x[1] for x in v] for k, v in want.items()},
                 'IGTs by output file')
        check_eq(got, want, 'contents')
        check_eq([open(f, encoding='utf-8').read() for f in fns], content, 'input files')
        # an existing directory is refused and kept
        before = {f: open(os.path.join(out, f), encoding='utf-8').read() for f in os.listdir(out)}
        try:
            P.run(argparse.Namespace(outdir=out, infiles=fns, key_path=kp, default_key=dk))
            raise Violation('existing output directory accepted')
        except SystemExit:
            pass
        check_eq({f: open(os.path.join(out, f), encoding='utf-8').read() for f in os.listdir(out)}, before,
                 'existing output')
    return n > 1


CASES = [('random', rnd)]
