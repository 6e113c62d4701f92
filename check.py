#!/usr/bin/env python3
"""Check one property: check.py CXX [--thorough]

1. pyvc generates the obligations of contracts/cXX.py from the source now in /repo
   and discharges them (deciding step);
2. in parallel, a counterexample search on the real code (search/sXX.py): a failing
   input is a violation whatever the proof says, and it is what a failed obligation
   is replayed with;
3. if an obligation fails, or could not be generated, the search is repeated with a
   larger budget.
Exit 0: held; exit 1 with a VIOLATION line: broken.
"""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('XIGT_REPO', '/repo')
REAL = '/opt/venv/bin/python'
VT = 'python3-vt'
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
os.environ['PYTHONHASHSEED'] = '0'


def start_search(prop, seed, shards, seconds):
    ps = []
    for i in range(shards):
        ps.append(subprocess.Popen(
            [REAL, os.path.join(HERE, 'search', 'run.py'), prop, '--seed', str(seed),
             '--shard', '%d/%d' % (i, shards), '--seconds', str(seconds)],
            stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=HERE, text=True))
    return ps


def finish(ps, limit):
    out = []
    t0 = time.time()
    for p in ps:
        try:
            o, e = p.communicate(timeout=max(5, limit - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            o, e = p.communicate()
            out.append({'error': 'search did not end in time', 'cases': 0, 'distinct': 0, 'by': {},
                        'samples': [], 'violation': None, 'complete': []})
            continue
        try:
            out.append(json.loads(o.strip().splitlines()[-1]))
        except Exception:
            out.append({'error': (e or o)[-1500:], 'cases': 0, 'distinct': 0, 'by': {}, 'samples': [],
                        'violation': None, 'complete': []})
    return out


def main():
    prop = sys.argv[1]
    thorough = '--thorough' in sys.argv[2:] or os.environ.get('VERIF_TIER') == 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = 'thorough' if thorough else 'quick'
    t0 = time.time()
    shards, secs = (3, 180) if thorough else (3, 20)
    limit = 400 if thorough else 200
    if thorough:
        os.environ['PYVC_CROSS'] = '1'       # every obligation by a second solver, too
    sp = start_search(prop, seed, shards, secs)
    pp = subprocess.Popen([VT, os.path.join(HERE, 'pyvc', 'prove.py'), prop, '--jobs', '5', '--timeout', str(limit)],
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=HERE, text=True)
    found = finish(sp, secs + 120)
    try:
        o, e = pp.communicate(timeout=max(10, limit + 120 - (time.time() - t0)))
        proof = json.loads(o.strip().splitlines()[-1])
    except Exception as ex:
        pp.kill()
        proof = {'property': prop, 'harnesses': [], 'error': '%s %s' % (type(ex).__name__, ex)}
    obls = [dict(x, harness=h['harness']) for h in proof['harnesses'] for x in h['obligations']]
    failed = [x for x in obls if not x['ok']]
    unsup = ['%s: %s' % (h['harness'], h['unsupported']) for h in proof['harnesses'] if h['unsupported']]
    if proof.get('error'):
        unsup.append(proof['error'])
    viol = next((r['violation'] for r in found if r['violation']), None)
    extra = []
    if viol is None and (failed or unsup):
        rest = 840 - (time.time() - t0)
        more = min(rest - 150, 300 if thorough else 60)
        if more > 5:
            extra = finish(start_search(prop, seed + 1000, 8, more), more + 100)
            viol = next((r['violation'] for r in extra if r['violation']), None)
    allsearch = found + extra
    errors = [r['error'] for r in allsearch if r.get('error')]
    if errors and viol is None and not any(r['cases'] for r in allsearch):
        # the real code cannot even be imported or run by any harness
        viol = {'property': prop, 'harness': 'start', 'case': -1, 'seed': seed, 'steps': [],
                'message': 'the search could not run on the code', 'traceback': errors[0]}
    ran = proof['harnesses'] and obls
    level = 'proof' if ran else 'exploration'
    by = {}
    for r in allsearch:
        for k, v in r['by'].items():
            by[k] = by.get(k, 0) + v
    funcs = {}
    contracted, assumptions, backends = set(), set(), {}
    for h in proof['harnesses']:
        for k, v in h['functions'].items():
            funcs[k] = funcs.get(k, 0) + v
        contracted |= set(h.get('contracted', []))
        assumptions |= set(h['assumptions'])
        for k, v in h.get('backends', {}).items():
            backends[k] = backends.get(k, 0) + v
    how = {}
    for x in obls:
        if x['ok']:
            how[x['how']] = how.get(x['how'], 0) + 1
    cov = {
        'obligations': len(obls),
        'discharged': len(obls) - len(failed),
        'checker_cmd': 'python3-vt /verif/pyvc/prove.py %s' % prop,
        'trusted_base': proof.get('trusted', []) + [
            'pyvc (the verification-condition generator, /verif/pyvc) and its semantics of the Python constructs and built-ins it interprets',
            'z3, cvc5', 'CPython sre_parse for the structure of patterns'],
        'functions_verified': sorted(k for k in funcs if k.startswith('xigt')),
        'functions_cut_at_contract': sorted(contracted),
        'discharged_by': how,
        'solver_queries': sum(h['queries'] for h in proof['harnesses']),
        'solver_seconds': round(sum(h['solver_s'] for h in proof['harnesses']), 2),
        'back_ends': backends,
        'harnesses': [{'name': h['harness'], 'obligations': len(h['obligations']),
                       'discharged': sum(1 for o in h['obligations'] if o['ok']),
                       'paths': h['paths'], 'reachable_path_ends': h['live'],
                       'seconds': round(h['wall'], 2), 'undecided': h['unsupported']}
                      for h in proof['harnesses']],
        'failed_obligations': ['%s: %s' % (x['harness'], x['label']) for x in failed][:40],
        'undecided': unsup,
        'bounded_parts': proof.get('bounded', []),
        'evaluations': sum(r['cases'] for r in allsearch),
        'distinct_nontrivial': sum(r['distinct'] for r in allsearch),
        'rule': 'counterexample search on the real code: cases drawn by /verif/search/s%s.py '
                '(seeded, growing size); distinct by the logged inputs within a shard, non-trivial '
                'unless the harness says the case exercised nothing' % prop[1:],
        'search_cases_by_harness': by,
        'search_enumerated_completely': sorted({n for r in allsearch for n in r['complete']}),
        'samples': [s for r in allsearch for s in r['samples']][:4],
        'search_errors': errors,
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': sorted(assumptions), 'wall_s': round(time.time() - t0, 2),
          'violations': 1 if (viol or failed) else 0}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: obligations %d, discharged %d, undecided %d; search: %d cases; %.1f s' % (
        prop, len(obls), len(obls) - len(failed), len(unsup), cov['evaluations'], time.time() - t0))
    for u in unsup:
        print('undecided (bounded stand-in only):', u[:300])
    for x in failed[:10]:
        print('failed obligation:', x['harness'], '/', x['label'])
    if viol is None and not failed:
        return 0
    rp = os.path.join(HERE, 'evidence', prop + '.replay.json')
    rep = {'property': prop, 'violation': viol,
           'failed_obligations': [{k: x[k] for k in ('harness', 'label', 'path', 'detail', 'how')} for x in failed][:20]}
    if viol:
        rep['reproduce'] = '%s %s/search/run.py %s --seed %d --only %s --case %s' % (
            REAL, HERE, prop, viol['seed'], viol['harness'], viol['case'])
    else:
        rep['reproduce'] = 'python3-vt %s/pyvc/prove.py %s --only %r -v' % (HERE, prop, failed[0]['harness'])
    with open(rp, 'w') as f:
        json.dump(rep, f, indent=1, default=str)
    if viol:
        print('failing input:', viol['harness'], viol['message'][:300])
        print('VIOLATION property=%s replay=%s' % (prop, rp))
    else:
        print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, rp))
    return 1


if __name__ == '__main__':
    sys.exit(main())
