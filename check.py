#!/opt/venv/bin/python
"""check.py <PROPERTY> [--replay FILE] [--only SUBSTR] [--debug]

Symbolically executes the current source of /repo/dorado under the harnesses
of props/<PROPERTY>.py and lets the solver decide the property's assertions.
exit 0: held on everything explored; exit 1: VIOLATION (replayed on the real
code); anything else: error of the check.
"""
import importlib
import json
import multiprocessing as mp
import os
import resource
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
os.environ.setdefault('MPLBACKEND', 'Agg')
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

NPROC = int(os.environ.get('VERIF_JOBS', '8'))


def load_known():
    p = os.path.join(HERE, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line:
                out.append(json.loads(line))
    return out


def worker(conn, cfg, opts):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except Exception:
        pass
    from symx import harness as H
    try:
        r = H.explore(cfg['name'], cfg['fn'], cfg.get('kw', {}),
                      dict(opts, **cfg.get('opts', {})))
    except MemoryError:
        r = {'config': cfg['name'], 'error': 'memory'}
    except BaseException as e:
        import traceback
        traceback.print_exc()
        r = {'config': cfg['name'], 'error': '%s: %s' % (type(e).__name__,
                                                         e)}
    try:
        conn.send(r)
    except Exception as e:
        conn.send({'config': cfg['name'], 'error': 'send: %s' % e})
    conn.close()


def run_all(cfgs, opts, hard):
    """process pool with hard kill"""
    todo = list(enumerate(cfgs))[::-1]
    running = {}
    results = [None] * len(cfgs)
    ctx = mp.get_context('fork')
    while todo or running:
        while todo and len(running) < NPROC:
            i, cfg = todo.pop()
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=worker, args=(b, cfg, opts), daemon=True)
            p.start()
            b.close()
            lim = dict(opts, **cfg.get('opts', {}))['budget'] + hard
            running[i] = (p, a, time.time() + lim, cfg)
        from multiprocessing.connection import wait
        wait([v[1] for v in running.values()], timeout=0.5)
        for i in list(running):
            p, a, dl, cfg = running[i]
            if a.poll(0):
                try:
                    results[i] = a.recv()
                except EOFError:
                    results[i] = {'config': cfg['name'],
                                  'error': 'worker died'}
                p.join(5)
                if p.is_alive():
                    p.kill()
                del running[i]
            elif time.time() > dl or not p.is_alive():
                if p.is_alive():
                    p.kill()
                    why = 'killed after time limit'
                else:
                    why = 'worker died'
                results[i] = {'config': cfg['name'], 'error': why}
                del running[i]
    return results


def main():
    args = sys.argv[1:]
    pid = args[0]
    tier = 'thorough' if '--thorough' in args else \
        os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = args[args.index('--only') + 1] if '--only' in args else None
    mod = importlib.import_module('props.' + pid)
    if '--replay' in args:
        from symx import harness as H
        rec = json.load(open(args[args.index('--replay') + 1]))
        cfg = [c for c in mod.configs(rec.get('tier', tier))
               if c['name'] == rec['config']][0]
        out, h, info = H.run_concrete(cfg['fn'], cfg.get('kw', {}),
                                      rec['values'])
        print('replay:', out, info, sorted(set(h.failures)))
        print('inputs:', json.dumps(h.used, default=str))
        sys.exit(1 if out in ('fail', 'exc', 'timeout') else 0)
    t0 = time.time()
    opts = dict(budget=100 if tier == 'quick' else 700, branch_s=3,
                assert_s=20 if tier == 'quick' else 60, query_s=8,
                max_witness=60 if tier == 'quick' else 300, seed=seed,
                cvc5_s=0 if tier == 'quick' else 30,
                cross=tier == 'thorough', debug='--debug' in args)
    opts.update(getattr(mod, 'OPTS', {}).get(tier, {}))
    cfgs = mod.configs(tier)
    if only:
        cfgs = [c for c in cfgs if only in c['name']]
    names = [c['name'] for c in cfgs]
    assert len(set(names)) == len(names), 'duplicate config names'
    # preload what every worker needs, so that forks share it
    from symx import harness as H      # noqa: F401
    import scipy.ndimage               # noqa: F401
    import scipy.interpolate           # noqa: F401
    import scipy.spatial               # noqa: F401
    results = run_all(cfgs, opts, hard=90)

    known = [k for k in load_known() if k.get('property') == pid and
             k.get('status') != 'fixed']
    agg = dict(paths=0, infeasible=0, decisions=0, obligations=0,
               discharged=0, witnesses=0, witness_match=0, queries=0,
               branch_queries=0, exact_queries=0, solver_s=0.0, unknown=0,
               cross=0, cross_bad=0, concretised=0, n_inconclusive=0)
    funcs, covers, uf = set(), set(), set()
    inconclusive, violations, samples, errors = [], [], [], []
    mism, unconf, complete = [], [], 0
    per = []
    for c, r in zip(cfgs, results):
        if r is None or 'error' in r:
            errors.append('%s: %s' % (c['name'], (r or {}).get('error')))
            continue
        for k in agg:
            agg[k] += r.get(k, 0)
        funcs |= set(r['functions'])
        covers |= set(r['covers'])
        uf |= set(r['uf'])
        inconclusive += ['%s: %s' % (c['name'], x)
                         for x in r['inconclusive']]
        violations += r['violations']
        samples += r['samples'][:1]
        mism += [dict(config=c['name'], **m) for m in r['mismatches'][:1]]
        unconf += ['%s: %s' % (c['name'], x) for x in r['unconfirmed']]
        if r['complete'] and not r.get('n_inconclusive'):
            complete += 1
        miss = [x for x in c.get('covers', []) if x not in r['covers']]
        if miss and not r['violations']:
            inconclusive.append('%s: cover goals not reached: %s'
                                % (c['name'], miss))
            agg['n_inconclusive'] += 1
        per.append(dict(config=c['name'], paths=r['paths'],
                        decisions=r['decisions'],
                        obligations=r['obligations'],
                        discharged=r['discharged'],
                        queries=r['queries'],
                        solver_s=round(r['solver_s'], 2),
                        wall_s=round(r['wall'], 2),
                        complete=r['complete'] and
                        not r.get('n_inconclusive')))
    agg['n_inconclusive'] += len(errors)

    outdir = os.path.join(HERE, 'out')
    os.makedirs(outdir, exist_ok=True)
    new = 0
    seen_known = set()
    for i, v in enumerate(violations):
        hit = None
        for k in known:
            if k.get('config', v['config']) == v['config'] and \
                    k.get('label', v['label']) == v['label']:
                hit = k
        if hit:
            if hit['what'] not in seen_known:
                seen_known.add(hit['what'])
                print('KNOWN-FINDING: property=%s %s' % (pid, hit['what']))
            continue
        path = os.path.join(outdir, '%s-%d.json' % (pid, new))
        json.dump(dict(property=pid, tier=tier, **v), open(path, 'w'),
                  indent=1, default=str)
        print('violated: %s [%s] %s' % (v['label'], v['config'], v['info']))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        new += 1
    wall = time.time() - t0
    assume = list(getattr(mod, 'ASSUMPTIONS', []))
    assume += ['floats are modelled as real numbers (plus nan/inf flags); '
               'integers are unbounded; float literals are taken at their '
               'exact rational value']
    ev = dict(
        property=pid, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=agg['paths'], transitions=agg['decisions'],
            traces_validated_against_impl=agg['witness_match'],
            samples=samples[:6] or [dict(note='no witness sample')],
            exhaustive=False,
            explanation='symbolic execution of the real source; every path '
            'within the bounds is explored and every assertion is decided '
            'by z3 for all values of the symbolic inputs of that path',
            bounds=getattr(mod, 'BOUNDS', ''),
            functions_encoded=sorted(funcs),
            configurations=len(cfgs), configurations_complete=complete,
            obligations=agg['obligations'], discharged=agg['discharged'],
            assertion_queries=agg['queries'],
            branch_queries=agg['branch_queries'],
            exact_nonlinear_queries=agg['exact_queries'],
            solver_unknowns=agg['unknown'],
            solver_s=round(agg['solver_s'], 2),
            infeasible_paths=agg['infeasible'],
            witnesses_replayed=agg['witnesses'],
            encoding_mismatches=mism[:5],
            unconfirmed_counterexamples=unconf[:20],
            concretised_paths=agg['concretised'],
            uninterpreted=sorted(uf),
            cover_goals=sorted(covers),
            inconclusive=agg['n_inconclusive'],
            inconclusive_samples=inconclusive[:20],
            second_solver_queries=agg['cross'],
            second_solver_disagreements=agg['cross_bad'],
            errors=errors[:20], per_configuration=per,
            stubs=getattr(mod, 'STUBS', '')),
        assumptions=assume, wall_s=round(wall, 2), violations=new)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    if not only:
        json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'),
                           'w'), indent=1, default=str)
    print('%s %s: %d configurations (%d complete), %d paths, %d/%d '
          'obligations, %d+%d queries, solver %.1fs, %d witnesses (%d '
          'agree), %d inconclusive, wall %.1fs'
          % (pid, tier, len(cfgs), complete, agg['paths'],
             agg['discharged'], agg['obligations'], agg['queries'],
             agg['branch_queries'], agg['solver_s'], agg['witnesses'],
             agg['witness_match'], agg['n_inconclusive'], wall))
    for x in (inconclusive + errors)[:12]:
        print('INCONCLUSIVE', x)
    for m in mism[:3]:
        print('MISMATCH', json.dumps(m, default=str)[:1500])
    if new:
        sys.exit(1)
    if agg['discharged'] == 0 or agg['witness_match'] == 0:
        print('nothing was decided')
        sys.exit(2)
    sys.exit(0)


if __name__ == '__main__':
    main()
