"""Discharge the obligations of one property.

usage: prove.py CXX [--only HARNESS] [--jobs N] [--timeout S]
Prints one JSON object.
"""
import sys
import os
import json
import time
import argparse
import importlib
import multiprocessing
import traceback
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'contracts'))
warnings.simplefilter('ignore')


def one(args):
    prop, name, budget, debug = args
    t0 = time.time()
    res = {'harness': name, 'obligations': [], 'unsupported': None, 'paths': 0, 'functions': {},
           'assumptions': [], 'live': 0, 'queries': 0, 'solver_s': 0.0}
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    sys.setrecursionlimit(20000)
    import threading
    threading.stack_size(512 << 20)
    out = {}

    def work():
        import engine
        from engine import Engine, Unsupported, Abort
        E = None
        try:
            mod = importlib.import_module(prop.lower())
            fn = dict(mod.HARNESSES)[name]
            E = Engine()
            E.deadline = t0 + budget
            out['E'] = E
            if hasattr(mod, 'SETUP'):
                mod.SETUP(E)
            if getattr(fn, 'plain', False):      # needs no symbolic execution
                fn(E)
                res['live'] = res['paths'] = 1
            else:
                def body(E):
                    fn(E)
                    E.end_live()
                paths = E.run(name, body)
                res['paths'] = len(paths)
                for p in paths:
                    if p.kind not in ('normal',):
                        if str(E.prover.check([f for _, f in p.pc], 4000)[0]) == 'unsat':
                            continue
                        E.record('harness path ends with %s' % p.kind, False, 'evaluation',
                                 repr(p.value) + (' %s' % [f for _, f in p.pc] if os.environ.get('PYVC_PC') else ''), 0)
                res['live'] = E.live
        except Unsupported as ex:
            res['unsupported'] = '%s (%s)' % (ex, getattr(ex, 'where', None) or '')
            if debug:
                traceback.print_exc()
        except Abort as ex:
            res['unsupported'] = str(ex)
        except MemoryError:
            res['unsupported'] = 'memory'
        except Exception as ex:
            res['unsupported'] = 'internal: %s: %s' % (type(ex).__name__, ex)
            res['trace'] = traceback.format_exc()[-1500:]
            if debug:
                traceback.print_exc()
    t = threading.Thread(target=work, daemon=True)
    t.start()
    t.join(budget + 60)
    E = out.get('E')
    if t.is_alive():
        res['unsupported'] = 'time budget'
    if E is not None:
        res['obligations'] = list(E.obligations)
        res['functions'] = dict(E.functions)
        res['contracted'] = sorted(E.contracted)
        res['assumptions'] = sorted(E.assumptions)
        res['queries'] = E.prover.queries
        res['solver_s'] = E.prover.time
        res['backends'] = dict(E.prover.backends)
    if not res['unsupported'] and not res['live']:
        res['unsupported'] = 'no reachable path (vacuous)'
    if not res['unsupported'] and not res['obligations']:
        res['unsupported'] = 'no obligation generated'
    res['wall'] = time.time() - t0
    return res


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--only')
    ap.add_argument('--jobs', type=int, default=4)
    ap.add_argument('--timeout', type=float, default=200)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    out = {'property': a.prop, 'harnesses': []}
    try:
        mod = importlib.import_module(a.prop.lower())
    except ImportError as ex:
        if a.v:
            raise
        out['missing'] = str(ex)
        print(json.dumps(out))
        return
    names = [n for n, _ in mod.HARNESSES if not a.only or n == a.only or (a.only.endswith('*') and n.startswith(a.only[:-1]))]
    todo = [(a.prop, n, a.timeout, a.v and len(names) == 1) for n in names]
    ctx = multiprocessing.get_context('fork')
    if a.v and len(todo) == 1:
        out['harnesses'].append(one(todo[0]))
    else:
        with ctx.Pool(a.jobs, maxtasksperchild=1) as pool:
            for r in pool.imap(one, todo, chunksize=1):
                out['harnesses'].append(r)
    out['bounded'] = getattr(mod, 'BOUNDED', [])
    out['trusted'] = getattr(mod, 'TRUSTED', [])
    out['wall'] = time.time() - t0
    if a.v:
        for h in out['harnesses']:
            ok = sum(o['ok'] for o in h['obligations'])
            print('%-40s %d/%d paths %d live %d  %.1fs (solver %.1fs, %d queries) %s' % (
                h['harness'], ok, len(h['obligations']), h['paths'], h['live'], h['wall'],
                h['solver_s'], h['queries'], 'UNSUPPORTED ' + h['unsupported'] if h['unsupported'] else ''))
            if h.get('trace'):
                print(h['trace'])
            n = 0
            for o in h['obligations']:
                if not o['ok'] and n < (6 if len(todo) == 1 else 2):
                    n += 1
                    print('   FAILED', o['label'], o['path'], '\n      ', o['detail'][:3000 if len(todo) == 1 else 600])
        print('wall %.1f' % out['wall'])
    else:
        print(json.dumps(out))
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
