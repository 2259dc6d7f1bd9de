"""Runs the proof of one property.

check.py calls start()/finish(); the work happens in a child process of the python that has z3
(python3-vt), one process per contract."""
import json, os, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = next((p for p in ('/usr/local/bin/python3-vt', '/opt/veriftools/pyvenv/bin/python3', '/opt/veriftools/pyvenv/bin/python') if os.path.exists(p)), 'python3-vt')


class start:
    def __init__(self, prop, work, tier, seed, budget):
        self.out = os.path.join(work, 'proof.json')
        self.log = os.path.join(work, 'proof.log')
        self.budget = budget
        self.f = open(self.log, 'w')
        w = os.path.join(work, 'proof')
        os.makedirs(w, exist_ok=True)
        self.p = subprocess.Popen([PY, '-m', 'qdv.prove', prop, w, tier, str(seed), str(budget), self.out], cwd=VERIF, stdout=self.f, stderr=subprocess.STDOUT)

    def finish(self):
        try:
            self.p.wait(timeout=self.budget + 60)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        self.f.close()
        try:
            with open(self.out) as f:
                return json.load(f)
        except (OSError, ValueError):
            with open(self.log) as f:
                t = f.read()[-2000:]
            return dict(failed=[dict(what='the verifier gave no answer', obligation='(all)', verifier=t)], coverage=dict(obligations=1, discharged=0, checker_cmd='', trusted_base=[]), assumptions=[], errors=[])


# ------------------------------------------------------------------ child
def contract_job(job):
    """one contract in one configuration: a dict"""
    import resource
    sys.setrecursionlimit(100000)
    path, cfg, name, unit, timeout, seed = job
    import z3
    from qdv import ir, run, solve, build, val
    t0 = time.time()
    r = dict(contract=name, config=cfg, obligations=[], functions={}, error=None, vc_s=0, bounded=unit.get('bounded', {}).get(name))
    try:
        with open(path) as f:
            m = ir.Module(f.read())
        names = build.demangle(list(m.rawf) + list(m.decl))
        mod = unit['module']
        sub = mod.substitutions(name, cfg) if hasattr(mod, 'substitutions') else []
        opts = dict(mod.options(name, cfg)) if hasattr(mod, 'options') else {}
        ex = run.Machine(m, names, sub, opts)
        ex.deadline = t0 + timeout
        ex.invariants = list(mod.invariants(name, cfg)) if hasattr(mod, 'invariants') else []
        if hasattr(mod, 'setup'):
            mod.setup(ex, name, cfg)
        ex.boot()
        v, g, exc = ex.run('@contract_' + name, [])
        ex.g = ()
        for ge, p in exc:
            if ge is not None:
                ex.g = ge
                ex.oblige('no exception leaves the contract', False)
        ex.g = ()
        r['vc_s'] = time.time() - t0
        cache = {}
        bad = 0
        for o in ex.obs:
            left = t0 + timeout - time.time()
            if left < 1 or bad > 6:
                r['obligations'].append(dict(name=o.name, kind=o.kind, status='not attempted', back='', s=0))
                continue
            st, back, s, model = solve.discharge(ex, o, min(unit.get('to', 40), left), cache)
            d = dict(name=o.name, kind=o.kind, status=st, back=back, s=round(s, 3), where=names.get(o.where, o.where)[:160])
            if st != 'unsat':
                bad += 1
                d['goal'] = str(o.goal)[:1500]
                if model is not None:
                    d['model'] = {str(k): str(model[k])[:200] for k in model.decls() if str(k).startswith('in_')}
                    try:
                        d['inputs'] = solve.inputs(ex, o, model)
                    except Exception as e:
                        d['inputs_error'] = repr(e)
            r['obligations'].append(d)
        # the contract is not vacuous: its assertions can be reached
        if not getattr(ex, 'nassert', 0) or g is None:
            r['obligations'].append(dict(name='the contract reaches its assertions', kind='vacuity', status='sat', back='', s=0))
        else:
            st = solve.satisfiable(ex, g)
            r['obligations'].append(dict(name='precondition is satisfiable', kind='vacuity', status='unsat' if st else 'sat', back='z3', s=0))
        r['functions'] = {names.get(k, k): v for k, v in ex.funcs_used.items() if k != '@contract_' + name}
        r['invariants'] = ['%s in %s' % (l, n[:120]) for n, l, t in ex.invariants_found]
        r['loops'] = [ex.loops_summarised, ex.loops_unrolled]
        r['bounded_notes'] = ex.bounded
        r['insts'] = ex.inst_count
    except val.Unsupported as e:
        r['error'] = 'outside the verifier: %s' % e
    except Exception as e:
        import traceback
        r['error'] = 'verifier failure: %s' % traceback.format_exc()[-1500:]
    r['s'] = time.time() - t0
    return r


def main():
    prop, work, tier, seed, budget, out = sys.argv[1:7]
    seed, budget = int(seed), float(budget)
    import importlib, multiprocessing as mp
    from concurrent.futures import ThreadPoolExecutor
    sys.path.insert(0, VERIF)
    from qdv import build
    t0 = time.time()
    mod = importlib.import_module('qdv.proofs.' + prop.lower())
    pool = ThreadPoolExecutor(4)
    only = os.environ.get('QDV_ONLY')
    res, errors, failed = [], [], []
    jobs = []
    to = min(budget - 60, getattr(mod, 'TIMEOUT', 400))
    if tier == 'thorough':
        to = max(to, 1500)
    lemmas = start_lemmas(mod, work)
    futs = []
    for tu, configs in mod.UNITS:
        for cfg in configs:
            if os.environ.get('QDV_CFG') and cfg not in os.environ['QDV_CFG'].split():
                continue
            w = os.path.join(work, cfg)
            os.makedirs(w, exist_ok=True)
            futs.append((tu, cfg, ThreadPoolExecutor(1).submit(build.compile_ir, w, cfg, tu, pool)))
    import re
    seq = {}
    for tu, cfg, f in futs:
        try:
            txt = f.result()
        except Exception as e:
            failed.append(dict(what='contract file %s does not compile against the code (%s build)' % (tu, cfg), obligation=tu, verifier=str(e)[-2500:]))
            continue
        path = os.path.join(work, cfg, tu.replace('.cpp', '') + '_' + cfg + '.opt.ll')
        for n in re.findall(r'^define [^\n]*@contract_(\w+)\(', txt, re.M):
            if only and not re.search(only, n):
                continue
            if hasattr(mod, 'skip') and mod.skip(n, cfg):
                continue
            if tier == 'quick' and hasattr(mod, 'thorough_only') and mod.thorough_only(n, cfg):
                continue
            jobs.append((path, cfg, n, dict(module_name='qdv.proofs.' + prop.lower(), to=getattr(mod, 'SOLVER_S', 40), bounded={}, tu=tu), to, seed))
    w8 = getattr(mod, 'weight', lambda n, c: 0)
    jobs.sort(key=lambda j: -w8(j[2], j[1]))
    ctx = mp.get_context('fork')
    # every contract in a process of its own
    running, queue = [], list(jobs)
    ncpu = int(os.environ.get('QDV_J', '8'))
    while queue or running:
        while queue and len(running) < ncpu:
            j = queue.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, j))
            p.start()
            b.close()
            running.append((p, a, j, time.time()))
        time.sleep(0.02)
        for x in list(running):
            p, a, j, ts = x
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = dict(contract=j[2], config=j[1], obligations=[], functions={}, error='the verifier process died', s=time.time() - ts)
            elif not p.is_alive():
                r = dict(contract=j[2], config=j[1], obligations=[], functions={}, error='the verifier process died', s=time.time() - ts)
            elif time.time() - ts > j[4] + 60:
                p.kill()
                r = dict(contract=j[2], config=j[1], obligations=[], functions={}, error='out of time', s=time.time() - ts)
            if r is not None:
                p.join(5)
                running.remove(x)
                r['tu'] = j[3]['tu']
                res.append(r)
                nb = [o for o in r['obligations'] if o['status'] != 'unsat']
                print('%-40s %-4s %4d obligations, %d not discharged, vc %.1f s, total %.1f s%s' % (r['contract'], r['config'], len(r['obligations']), len(nb), r.get('vc_s', 0), r['s'], '  ' + r['error'][:1500] if r['error'] else ''))
                for o in nb[:8]:
                    print('     %s: %s in %s %s %s' % (o['status'], o['name'], o.get('where'), o.get('model', ''), o.get('goal', '')[:int(os.environ.get('QDV_G', '0'))]))
                sys.stdout.flush()
    from qdv import report
    rep = report.make(prop, mod, res, failed, time.time() - t0, work)
    end_lemmas(lemmas, rep)
    json.dump(rep, open(out, 'w'), default=str)


def start_lemmas(mod, work):
    """mathematical laws the contracts rest on, checked by Lean (they do not depend on /repo)"""
    out = []
    for f in getattr(mod, 'LEMMAS', []):
        p = os.path.join(VERIF, 'lemmas', f)
        log = open(os.path.join(work, f + '.log'), 'w')
        try:
            out.append((p, subprocess.Popen(['timeout', '300', 'lean', p], stdout=log, stderr=subprocess.STDOUT), log.name))
        except OSError:
            out.append((p, None, log.name))
    return out


def end_lemmas(lemmas, rep):
    import re
    for p, pr, log in lemmas:
        ok = pr is not None and pr.wait() == 0 and 'error' not in open(log).read() and 'sorry' not in open(log).read()
        names = re.findall(r'^theorem (\w+)', open(p).read(), re.M)
        if ok:
            rep['coverage']['lemmas_proved_by_lean'] = rep['coverage'].get('lemmas_proved_by_lean', []) + names
        else:
            rep['assumptions'].append('laws assumed (Lean did not run here): ' + ', '.join(names))


def child(conn, j):
    import importlib
    try:
        u = dict(j[3])
        u['module'] = importlib.import_module(u['module_name'])
        conn.send(contract_job((j[0], j[1], j[2], u, j[4], j[5])))
    except BaseException as e:
        conn.send(dict(contract=j[2], config=j[1], obligations=[], functions={}, error=repr(e), s=0))
    conn.close()
    os._exit(0)


if __name__ == '__main__':
    main()
