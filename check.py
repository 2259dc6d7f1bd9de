#!/usr/bin/env python3
"""check.py <property>: decides one property of /repo's current tree.

Exit 0: held. Exit 1 with a VIOLATION line: broken. Exit 2: no answer."""
import json, os, shutil, sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
import hrun
VERIF = hrun.VERIF


def known_findings(prop):
    out = []
    try:
        with open(os.path.join(VERIF, 'known_findings.txt')) as f:
            for l in f:
                l = l.strip()
                if l.startswith('finding: property=%s ' % prop):
                    out.append(l.split(' ', 2)[2])
    except OSError:
        pass
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    t0 = time.time()
    budget = 3000 if tier == 'thorough' else 600
    work = tempfile.mkdtemp(prefix='qdv_')
    rc = 2
    try:
        rc = run(prop, tier, seed, t0, budget, work)
    except Exception:
        traceback.print_exc()
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)


def run(prop, tier, seed, t0, budget, work):
    pool = ThreadPoolExecutor(8)
    h = hrun.Harness(prop.lower(), work, tier, seed, budget)
    proof = None
    if os.path.exists(os.path.join(VERIF, 'qdv', 'proofs', prop.lower() + '.py')):
        sys.path.insert(0, VERIF)
        from qdv import prove
        proof = prove.start(prop, work, tier, seed, budget)
    if h.build(pool):
        h.run(pool)
    pres = proof.finish() if proof else None
    viol = []
    for r in h.failures:
        viol.append(('%s build, section %s: %s' % (r['config'], r['section'], r['fail']), r, True))
    if pres:
        for o in pres['failed']:
            viol.append((o['what'], o, o.get('replayed', False)))
    cases = sum(r['cases'] for r in h.results)
    cov = dict(evaluations=cases, distinct_nontrivial=cases,
               rule='each case is one call sequence of the real code with inputs drawn from the seed (or enumerated), compared with an independent oracle under AddressSanitizer and UndefinedBehaviorSanitizer; every case describes distinct inputs',
               samples=[dict(config=r['config'], section=r['section'], cases=r['cases'], last_case=r['last_case'][:300]) for r in h.results[:60]],
               bounded_standin='the executable contracts are a bounded check (sampled inputs) and are not counted as proved',
               configurations=list(hrun.CONFIGS), sections=len(h.results),
               sections_stopped_at_deadline=[r['config'] + '/' + r['section'] for r in h.results if r['state'] == 'deadline'])
    level = 'exploration'
    assumptions = ['clang 18 code generation and sanitizers', 'the oracles in harness/*.h and harness/%s.cpp' % prop.lower()]
    if pres:
        level = 'proof'
        cov.update(pres['coverage'])
        assumptions += pres['assumptions']
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions, wall_s=round(time.time() - t0, 1), violations=len(viol))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    errs = h.errors + (pres['errors'] if pres else [])
    if errs:
        ev['coverage']['errors'] = errs
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s: %d cases in %d sections (compile %.0f s), %d failures%s, %.0f s' % (
        prop, cases, len(h.results), h.compile_s, len(h.failures),
        ', %d/%d obligations discharged, %d of bounded contracts' % (cov['discharged'], cov['obligations'], cov.get('bounded_obligations_discharged', 0)) if pres else '', time.time() - t0))
    for k in known_findings(prop):
        print('KNOWN-FINDING: property=%s %s' % (prop, k))
    if viol:
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        viol.sort(key=lambda v: not v[2])
        path = os.path.join(VERIF, 'replay', prop + '.txt')
        with open(path, 'w') as f:
            f.write('property %s, seed %d, tier %s\n' % (prop, seed, tier))
            for what, r, rep in viol[:20]:
                f.write('\n== %s\n' % what)
                for k in ('last_case', 'cmd', 'output', 'obligation', 'verifier', 'replay'):
                    if r.get(k):
                        f.write('%s: %s\n' % (k, r[k]))
        for what, r, rep in viol[:5]:
            print('  ' + what[:300] + (' | case: ' + r['last_case'][:300] if r.get('last_case') else ''))
        any_rep = any(v[2] for v in viol)
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if any_rep else ' no-failing-input-found'))
        return 1
    for e in errs:
        print('ERROR: ' + e)
    return 2 if errs else 0


if __name__ == '__main__':
    main()
