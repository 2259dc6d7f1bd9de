"""Turns the results of the contracts into what check.py writes down."""
import os, re
COMMON = ['LLVM IR produced by clang 18 (-O1 front end, then sroa, early-cse, instcombine, simplifycfg, loop-rotate, indvars) means what the C++ source means',
          'qdv (the verification condition generator in /verif/qdv) and z3 are correct',
          'undefined behaviour flagged in the IR (signed overflow, out-of-range pointer arithmetic inside one object) does not occur: offsets do not wrap',
          'loops terminate (partial correctness) except where the iteration count has a closed form',
          'distinct allocations do not overlap; allocation succeeds unless a contract says otherwise; sizes are below 2^47 bytes']


def make(prop, mod, res, failed, wall, work):
    failed = list(failed)
    nob = ndis = 0
    backs, funcs, contracts = {}, {}, []
    solver_s = 0
    assumptions = list(COMMON) + list(getattr(mod, 'ASSUMPTIONS', []))
    bounded_names = getattr(mod, 'BOUNDED', {})
    nbounded = 0
    samples = []
    for r in sorted(res, key=lambda r: (r['contract'], r['config'])):
        obs = r['obligations']
        bnote = None
        for rx, note in bounded_names.items():
            if re.search(rx, r['contract']):
                bnote = note
        good = sum(1 for o in obs if o['status'] == 'unsat')
        for o in obs:
            solver_s += o['s']
            if o['status'] == 'unsat':
                backs[o['back'] or 'none'] = backs.get(o['back'] or 'none', 0) + 1
        if bnote:
            nbounded += good
        else:
            nob += len(obs)
            ndis += good
        for k, v in r['functions'].items():
            funcs.setdefault(k, set()).add(v)
        contracts.append(dict(contract=r['contract'], build=r['config'], obligations=len(obs), discharged=good, seconds=round(r['s'], 1),
                              strength='bounded: ' + bnote if bnote else 'unbounded', loops_summarised=(r.get('loops') or [0, 0])[0], loop_invariants_proved=sorted(set(r.get('invariants') or []))))
        for o in obs[:400]:
            if o['kind'] == 'contract' and len(samples) < 40:
                samples.append('%s/%s: %s: %s (%s, %.2f s)' % (r['contract'], r['config'], o['name'], o['status'], o['back'], o['s']))
        if r['error']:
            nob += 1
            failed.append(dict(what='%s build, contract %s: %s' % (r['config'], r['contract'], r['error'].strip().split('\n')[-1][:300]), obligation=r['contract'], verifier=r['error']))
        for o in obs:
            if o['status'] != 'unsat':
                failed.append(dict(what='%s build, contract %s: obligation not discharged (%s): %s%s' % (r['config'], r['contract'], o['status'], o['name'], ' in ' + o['where'] if o.get('where') else ''),
                                   obligation=o['name'], verifier='status %s, back end %s\nghost values: %s\ngoal: %s' % (o['status'], o['back'], o.get('model'), o.get('goal')),
                                   inputs=o.get('inputs'), contract=r['contract'], config=r['config'], tu=r['tu']))
    own = sorted(k for k in funcs if 'quadiron' in k)
    cov = dict(obligations=nob, discharged=ndis, bounded_obligations_discharged=nbounded, checker_cmd='python3 check.py %s' % prop,
               trusted_base=['clang 18', 'qdv', 'z3 (python binding 5.3.2)'] + sorted('contract assumed at call sites: ' + k for k, v in funcs.items() if 'contract' in v)[:80],
               back_ends=backs, solver_seconds=round(solver_s, 1), proof_wall_s=round(wall, 1), contracts=contracts,
               functions_under_contract=len(own), functions=own[:400], samples_of_obligations=samples,
               not_proved=list(getattr(mod, 'NOT_PROVED', [])))
    return dict(failed=failed, coverage=cov, assumptions=assumptions, errors=[])
