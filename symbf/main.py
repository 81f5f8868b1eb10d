"""check.py <PROPERTY> [--tier quick|thorough] [--only glob] [--replay file]"""
import argparse
import fnmatch
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def load_known():
    try:
        with open(os.path.join(VERIF, 'known-findings.json')) as f:
            return json.load(f)['findings']
    except FileNotFoundError:
        return []


def known(kf, prop, hname, label):
    for k in kf:
        if k.get('property') == prop and k.get('status', 'open') == 'open' and fnmatch.fnmatchcase(hname, k['harness']) \
           and fnmatch.fnmatchcase(label, k['label']):
            return k
    return None


def worker(job):
    prop, name, seed, tier = job
    from . import harness
    mod = importlib.import_module('symbf.checks.' + prop)
    h = [x for x in mod.harnesses(tier) if x.name == name][0]
    import random
    random.seed(seed)
    r = harness.Runner(h, seed, tier).run()
    return dict(name=r.name, violations=r.violations, inconclusive=r.inconclusive, validated=r.validated,
                samples=r.samples, functions=sorted(r.functions), stats=r.stats)


def child(conn, job):
    try:
        conn.send(worker(job))
    except BaseException as e:
        import traceback
        try:
            conn.send(dict(name=job[1], violations=[], inconclusive=['crash: %r %s' % (e, traceback.format_exc()[-800:])],
                           validated=0, samples=[], functions=[], stats={}))
        except Exception:
            pass
    conn.close()
    os._exit(0)


NOTRUN = 'not run: time budget of the check spent'


def run_all(jobs, nproc, hard):
    """hard: (time after which nothing is started any more, time at which everything ends) or None"""
    t00 = time.time()
    out = {}
    pending = list(jobs)
    running = []
    ctx = mp.get_context('fork')
    while pending or running:
        el = time.time() - t00
        if hard and el > hard[0] and pending:
            for j in pending:
                out[j[0][1]] = dict(name=j[0][1], violations=[], inconclusive=[NOTRUN], validated=0, samples=[], functions=[], stats={})
            pending = []
        while pending and len(running) < nproc:
            j = pending.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(b, j[0]))
            p.start()
            b.close()
            running.append((p, a, j, time.time()))
        time.sleep(0.02)
        still = []
        for p, a, j, t in running:
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = None
                p.join()
                out[j[0][1]] = r or dict(name=j[0][1], violations=[], inconclusive=['worker died'], validated=0, samples=[],
                                         functions=[], stats={})
                a.close()
            elif not p.is_alive() and not a.poll():
                out[j[0][1]] = dict(name=j[0][1], violations=[], inconclusive=['worker died'], validated=0, samples=[],
                                    functions=[], stats={})
                a.close()
            elif time.time() - t > j[1] or hard and el > hard[1]:
                p.kill()
                p.join()
                out[j[0][1]] = dict(name=j[0][1], violations=[], inconclusive=['hard time limit'], validated=0, samples=[],
                                    functions=[], stats={})
                a.close()
            else:
                still.append((p, a, j, t))
        for p, a, j, t in running:
            if j[0][1] in out:
                out[j[0][1]]['wall'] = time.time() - t
        running = still
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--only', default=None)
    ap.add_argument('--replay', default=None)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=int(os.environ.get('VERIF_JOBS', '8')))
    a = ap.parse_args(argv)
    tier = a.tier or os.environ.get('VERIF_TIER') or 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from . import harness, loader
    t0 = time.time()
    try:
        mod = importlib.import_module('symbf.checks.' + a.prop)
        try:
            loader.load()
        except Exception as e:
            import traceback
            traceback.print_exc()
            print('ERROR: the package cannot be loaded for symbolic execution')
            return 2
        if a.replay:
            return replay(mod, a.replay, a.prop)
        hs = mod.harnesses(tier)
    except Exception:
        import traceback
        traceback.print_exc()
        return 2
    names = [h.name for h in hs]
    assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1]
    if tier == 'quick':
        hs = [h for h in hs if not h.thorough]
    if a.only:
        hs = [h for h in hs if fnmatch.fnmatchcase(h.name, a.only)]
    k = 3 if tier == 'thorough' else 1
    hs = sorted(hs, key=lambda h: -h.weight)
    jobs = [((a.prop, h.name, seed, tier), h.tmax * k + 90) for h in hs]
    out = run_all(jobs, a.j, (640, 780) if tier == 'quick' else None)
    kf = load_known()
    viol, incon, knownhits = [], [], {}
    tot = {}
    fns = set()
    samples = []
    validated = 0
    for h in hs:
        r = out[h.name]
        for key, v in r['stats'].items():
            tot[key] = tot.get(key, 0) + v
        fns |= set(r['functions'])
        validated += r['validated']
        if len(samples) < 6:
            samples += r['samples'][:1]
        if a.v:
            print('  %6.1f s %-50s %s val=%d viol=%d inc=%d' % (r.get('wall', 0), h.name, r['stats'], r['validated'], len(r['violations']), len(r['inconclusive'])))
        nv = []
        for v in r['violations']:
            kk = known(kf, a.prop, h.name, v[0])
            if kk is not None:
                knownhits[kk['id']] = kk
            else:
                nv.append(v)
                viol.append((h.name,) + tuple(v))
        if nv or not r['violations']:
            for m in r['inconclusive']:
                incon.append((h.name, m))
        else:
            # only known findings failed here; remaining inconclusive messages still count
            for m in r['inconclusive']:
                if not m.startswith('candidate'):
                    incon.append((h.name, m))
    for kid, kk in sorted(knownhits.items()):
        print('KNOWN-FINDING: property=%s %s' % (a.prop, kk['what']))
    wall = time.time() - t0
    ev = dict(property=a.prop, tier=tier, seed=seed, level='model_checking',
              coverage=dict(states=int(tot.get('paths', 0)), transitions=int(tot.get('branches', 0)),
                            traces_validated_against_impl=int(validated), samples=samples,
                            harnesses=len(hs), harness_names=[h.name for h in hs],
                            goals=int(tot.get('goals', 0)), queries=int(tot.get('queries', 0)),
                            queries_unsat=int(tot.get('unsat', 0)), queries_sat=int(tot.get('sat', 0)),
                            queries_unknown=int(tot.get('unknown', 0)), solver_s=round(tot.get('solver_s', 0), 2),
                            functions_encoded=sorted(fns), bounds=getattr(mod, 'BOUNDS', ''),
                            explanation='states = symbolic paths explored to the end; transitions = symbolic branch decisions; '
                                        'goals = assertions decided by the solver over those paths'),
              assumptions=list(getattr(mod, 'ASSUMPTIONS', [])) + COMMON,
              wall_s=round(wall, 2), violations=len(viol),
              inconclusive=['%s: %s' % (n, m[:300]) for n, m in incon])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not a.only:
        with open(os.path.join(VERIF, 'evidence', a.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s: %d harnesses, %d paths, %d goals, %d queries, %d validated traces, %.1f s' % (
        a.prop, tier, len(hs), tot.get('paths', 0), tot.get('goals', 0), tot.get('queries', 0), validated, wall))
    for n, m in incon[:30]:
        print('INCONCLUSIVE %s: %s' % (n, m))
    if viol:
        rd = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for i, (hn, lab, msg, env, table, how) in enumerate(viol):
            if hn in seen and i > 4:
                continue
            seen.add(hn)
            path = os.path.join(rd, '%s-%d.json' % (a.prop, len(seen) if i else 0))
            with open(path, 'w') as f:
                json.dump(dict(property=a.prop, harness=hn, label=lab, message=msg, inputs=env, found_by=how,
                               functions_table=[[list(t[0]) if isinstance(t[0], tuple) else t[0], t[1], t[2]] for t in table],
                               rerun='./check.sh %s --replay %s' % (a.prop, path)), f, indent=1, default=str)
            print('  %s: %s: %s  (found by %s)' % (hn, lab, msg, how))
            print('VIOLATION property=%s replay=%s' % (a.prop, path))
        return 1
    if incon:
        # harnesses without an answer are reported and excluded from the claim; too many of them and the check says so
        bad = {n for n, m in incon if m != NOTRUN}
        print('%d of %d harnesses inconclusive' % (len(bad), len(hs)))
        if len(bad) * 2 > len(hs):
            return 2
    return 0


COMMON = [
    'real-arithmetic semantics: rounding, overflow and underflow of floating point are outside the claim',
    'values at which the executed expressions are undefined (zero denominators, logs of non-positive numbers) are '
    'excluded, except where a harness asserts definedness',
    'numpy/math/scipy.special are modelled by symbf/shim.py (exact small-matrix linear algebra, transcendental functions '
    'as canonicalised uninterpreted terms with true axioms); each harness is cross-validated against the real code',
    'random numbers are arbitrary values of their documented range',
]


def replay(mod, path, prop):
    from . import harness
    with open(path) as f:
        d = json.load(f)
    hs = mod.harnesses('thorough')
    h = [x for x in hs if x.name == d['harness']][0]

    def tup(x):
        return tuple(tup(y) for y in x) if isinstance(x, list) else x
    ap = harness.AppFns([(tup(t[0]), t[1], t[2]) for t in d.get('functions_table', [])])
    c, v, ab = harness.conc_violations(h, d['inputs'], 0, ap)
    for l, m in v:
        print('%s: %s' % (l, m))
    if v:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('not reproduced' + (' (assumptions not met)' if ab else ''))
    return 0


if __name__ == '__main__':
    sys.exit(main())
