"""Counterexample search on the real code (CPython, /repo on the path).

usage: run.py PROP --seed S --shard I/N --seconds T [--only NAME --case K]
Prints one JSON object. Deterministic for given seed, shard and case number;
--seconds only cuts the run short.
"""
import sys
import os
import json
import time
import random
import argparse
import traceback
import importlib
import warnings
import logging

warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('XIGT_REPO', '/repo'))
sys.dont_write_bytecode = True
logging.disable(logging.CRITICAL)


class Violation(Exception):
    pass


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--shard', default='0/1')
    ap.add_argument('--seconds', type=float, default=10)
    ap.add_argument('--cases', type=int, default=100000)
    ap.add_argument('--only')
    ap.add_argument('--case', type=int)
    a = ap.parse_args()
    shard, n = map(int, a.shard.split('/'))
    t0 = time.time()
    import gen
    gen.Violation = Violation
    mod = importlib.import_module('s' + a.prop[1:])
    res = {'prop': a.prop, 'cases': 0, 'by': {}, 'violation': None, 'samples': [],
           'complete': []}
    distinct = set()

    def one(name, k, fn):
        res['cases'] += 1
        res['by'][name] = res['by'].get(name, 0) + 1
        gen.LOG = log = []
        try:
            gen.alarm(20)
            nt = fn()
            h = hash((name, repr(log)))
            if nt is not False and h not in distinct:
                distinct.add(h)
                if len(res['samples']) < 3 and len(distinct) % 7 == 1:
                    res['samples'].append([name, [str(x)[:300] for x in log[:12]]])
        except BaseException as ex:
            if isinstance(ex, KeyboardInterrupt):
                raise
            tb = traceback.format_exc()
            res['violation'] = {
                'property': a.prop, 'harness': name, 'case': k, 'seed': a.seed,
                'message': '%s: %s' % (type(ex).__name__, ex),
                'steps': [str(x)[:2000] for x in log],
                'traceback': tb[-4000:]}
            return True
        finally:
            gen.alarm(0)
        return False

    def rngfor(name, k):
        return random.Random('%s/%s/%d/%d' % (a.prop, name, a.seed, k))

    def run():
        for name, fn in getattr(mod, 'ENUMS', []):
            if a.only and a.only != name:
                continue
            if time.time() - t0 > a.seconds * 0.6:
                break
            for k, thunk in enumerate(fn()):
                if a.case is not None:
                    if k == a.case:
                        return one(name, k, thunk)
                    continue
                if k % n != shard:
                    continue
                if one(name, k, thunk):
                    return True
                if time.time() - t0 > a.seconds * 0.6:
                    break
            else:
                res['complete'].append(name)
        cases = [c for c in mod.CASES if not a.only or c[0] == a.only]
        if a.case is not None:
            for name, fn in cases:
                return one(name, a.case, lambda: fn(rngfor(name, a.case), size(a.case)))
        k = shard
        while cases and k < a.cases and time.time() - t0 < a.seconds:
            for name, fn in cases:
                if one(name, k, lambda: fn(rngfor(name, k), size(k))):
                    return True
            k += n
        return False

    def size(k):
        # small cases first, then a mix
        return 1 + (k // 12 if k < 60 else (k * 7) % 11 if k % 3 else (k // 200) % 25)

    run()
    res['distinct'] = len(distinct)
    res['wall'] = time.time() - t0
    print(json.dumps(res))


if __name__ == '__main__':
    main()
