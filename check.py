#!/opt/venv/bin/python
"""Decide one property of blmath:  check.py C01 [--tier quick|thorough] [--case NAME]
Replay a reported violation:       check.py --replay FILE
Cases and bounds:                  check.py --list [C01]
"""
import argparse
import gc
import importlib
import json
import multiprocessing as mp
import os
import queue
import shutil
import signal
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
os.environ.setdefault('PYTHONDONTWRITEBYTECODE', '1')
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[v] = '1'
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')


def load_cases(prop):
    from symx import harness
    importlib.import_module('props.' + prop.lower())
    cs = [c for c in harness.CASES if c.prop == prop]
    assert len(set(c.name for c in cs)) == len(cs), 'duplicate case names'
    return cs


def _worker(prop, name, tier, seed, deadline, out, mark):
    from symx import harness
    harness.MARK = mark
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except Exception:       # noqa
        pass
    cs = [c for c in load_cases(prop) if c.name == name][0]
    if not os.environ.get('SYMX_DEBUG'):
        dn = os.open(os.devnull, os.O_WRONLY)
        os.dup2(dn, 1)
        os.dup2(dn, 2)
    try:
        r = harness.run_case(cs, tier, seed, deadline)
    except BaseException as e:      # noqa: BLE001
        if os.environ.get('SYMX_DEBUG'):
            import traceback
            traceback.print_exc()
        r = {'case': name, 'crash': '%s: %s' % (type(e).__name__, str(e)[:300])}
    out.put(r)
    out.close()
    out.join_thread()
    os._exit(0)


CRASH = (signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL)


def crashed(p):
    return p.exitcode is not None and -p.exitcode in CRASH


def _again(prop, name, tier, seed, d):
    os.close(2)
    from symx import harness
    cs = [c for c in load_cases(prop) if c.name == name][0]
    # more than once: a damaged heap may be noticed late
    for _ in range(20):
        harness.replay(cs, tier, seed, harness.deser(d['inputs']), d['strict'])
        gc.collect()
    os._exit(0)


def crash_result(ctx, prop, case, tier, seed, mark):
    """The interpreter crashed in or after the replay which mark names: a violation if it does so again."""
    try:
        d = json.load(open(mark))
    except (OSError, ValueError):
        return None
    p = ctx.Process(target=_again, args=(prop, case.name, tier, seed, d))
    p.start()
    p.join(60)
    if p.is_alive():
        p.kill()
        p.join(5)
    if not crashed(p):
        return None
    return {'case': case.name, 'crash': 'the interpreter crashed in a replay',
            'violations': [{'label': 'the real code crashes (signal %d)' % -p.exitcode, 'inputs': d['inputs'],
                            'replay': {'status': 'crash'}, 'found_by': 'witness of a path' if not d['strict'] else 'counterexample'}]}


def run_all(prop, cases, tier, seed, jobs, budget, first=False):
    ctx = mp.get_context('fork')
    out = ctx.Queue()
    todo = list(cases)
    live = {}
    results = {}
    tmp = tempfile.mkdtemp(prefix='symx-')
    marks = {c.name: os.path.join(tmp, str(i)) for i, c in enumerate(cases)}
    try:
        return _run_all(ctx, out, todo, live, results, marks, prop, cases, tier, seed, jobs, budget, first)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def _run_all(ctx, out, todo, live, results, marks, prop, cases, tier, seed, jobs, budget, first):
    t_end = time.time() + budget
    while todo or live:
        while todo and len(live) < jobs and time.time() < t_end - 3:
            c = todo.pop(0)
            d = c.deadline or (60 if tier == 'quick' else 600)
            if isinstance(d, tuple):
                d = d[0] if tier == 'quick' else d[1]
            d = min(d, t_end - time.time())
            p = ctx.Process(target=_worker, args=(prop, c.name, tier, seed, d, out, marks[c.name]))
            p.start()
            live[c.name] = (p, time.time() + d + 45)
        if todo and time.time() >= t_end - 3:
            for c in todo:
                results[c.name] = {'case': c.name, 'crash': 'not started: time budget used up'}
            todo = []
        try:
            r = out.get(timeout=0.2)
            results[r['case']] = r
            p, _ = live.pop(r['case'], (None, None))
            if p is not None:
                p.join(5)
                if p.is_alive():
                    p.kill()
            if first and r.get('violations'):
                for p, _ in live.values():
                    p.kill()
                break
            continue
        except queue.Empty:
            pass
        for name, (p, lim) in list(live.items()):
            if time.time() > lim or (not p.is_alive() and p.exitcode not in (None, 0)):
                if p.is_alive():
                    p.kill()
                p.join(5)
                live.pop(name)
                r = crash_result(ctx, prop, [c for c in cases if c.name == name][0], tier, seed, marks[name]) if crashed(p) else None
                results.setdefault(name, r or {'case': name, 'crash': 'worker ended (time or memory limit)'})
                if first and r:
                    return [r]
            elif not p.is_alive():
                # result should be in the queue already; give it one more round
                try:
                    r = out.get(timeout=1)
                    results[r['case']] = r
                    live.pop(r['case'], None)
                except queue.Empty:
                    live.pop(name)
                    results.setdefault(name, {'case': name, 'crash': 'worker ended without a result'})
    return [results[c.name] for c in cases if c.name in results]


def known_findings():
    """Lines 'finding: property=C13 case=<name> label=<label>' ('fixed:' lines suppress nothing)."""
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            if line.startswith('finding:'):
                d = {}
                body = line[len('finding:'):].strip()
                for k in ('property', 'case', 'label', 'what'):
                    i = body.find(k + '="')
                    if i >= 0:
                        d[k] = body[i + len(k) + 2: body.index('"', i + len(k) + 2)]
                out.append(d)
    return out


def do_replay(path):
    d = json.load(open(path))
    if (d.get('observed') or {}).get('status') == 'crash':
        p = mp.get_context('fork').Process(target=_again, args=(d['property'], d['case'], d['tier'], d['seed'], d))
        p.start()
        p.join()
        print('REPRODUCED: signal %d' % -p.exitcode if crashed(p) else 'not reproduced')
        return 1 if crashed(p) else 0
    from symx import harness
    cs = [c for c in load_cases(d['property']) if c.name == d['case']][0]
    rep = harness.replay(cs, d['tier'], d['seed'], harness.deser(d['inputs']), d.get('strict', True))
    print(json.dumps(rep, indent=1))
    bad = rep['status'] == 'exception' or bool(rep['failures'])
    print('REPRODUCED' if bad else 'not reproduced')
    return 1 if bad else 0


def do_list(prop):
    props = [prop] if prop else sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'props'))
                                       if f[0] == 'c' and f.endswith('.py'))
    for p in props:
        for c in load_cases(p):
            print('%s %s %-28s %s' % (p, '[T]' if c.tier == 'thorough' else '   ', c.name, c.bounds))
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--case')
    ap.add_argument('--replay')
    ap.add_argument('--jobs', type=int, default=int(os.environ.get('SYMX_JOBS', '8')))
    ap.add_argument('--budget', type=float)
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--first', action='store_true', help='stop at the first case with a violation')
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    if a.list:
        return do_list(a.prop)
    if a.replay:
        return do_replay(a.replay)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    tier = a.tier
    t0 = time.time()
    cases = [c for c in load_cases(a.prop) if (tier == 'thorough' or c.tier == 'quick')
             and (not a.case or a.case in c.name)]
    budget = a.budget or (420 if tier == 'quick' else 3000)
    results = run_all(a.prop, cases, tier, seed, a.jobs, budget, a.first)
    from symx import engine
    st = engine.Stats()
    kf = known_findings()
    viol, lines = 0, []
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    inconclusive = []
    funcs = set()
    tot = {'paths': 0, 'obligations': 0, 'proved': 0, 'branches': 0, 'agree': 0, 'skip': 0, 'unk': 0}
    samples = []
    percase = []
    for r in results:
        if 'crash' in r:
            inconclusive.append('%s: %s' % (r['case'], r['crash']))
            percase.append({'case': r['case'], 'result': r['crash']})
        else:
            st.merge(r['stats'])
            funcs.update(f for f in r['functions'] if not f.endswith('<module>'))
            tot['paths'] += r['paths']
            tot['obligations'] += r['obligations']
            tot['proved'] += r['proved']
            tot['branches'] += r['branches']
            tot['agree'] += r['witness']['agree']
            tot['skip'] += r['witness']['skip'] + r['witness']['none']
            tot['unk'] += len(r['unknown'])
            for u in sorted(set(r['unknown']))[:3]:
                inconclusive.append('%s: solver unknown: %s' % (r['case'], u))
            for u in sorted(set(r['limits']))[:3]:
                inconclusive.append('%s: %s' % (r['case'], u))
            for u in sorted(set(u['label'] for u in r['unreproduced']))[:3]:
                inconclusive.append('%s: counterexample does not reproduce on the real code: %s' % (r['case'], u))
            if r['paths'] and not r['witness']['agree'] and not r['violations']:
                inconclusive.append('%s: no path witness could be replayed' % r['case'])
            samples.extend({'case': r['case'], **s} for s in r['samples'][:1])
            percase.append({'case': r['case'], 'bounds': r['bounds'], 'paths': r['paths'],
                            'all_paths_explored': r['complete'], 'obligations': r['obligations'],
                            'proved': r['proved'], 'witness_replays': r['witness'],
                            'obligation_labels': {k: '%d/%d' % (v[1], v[0]) for k, v in sorted(r['labels'].items())},
                            'wall_s': r['wall_s']})
        for v in r.get('violations', ()):
            known = [k for k in kf if k.get('property') == a.prop and k.get('case') == r['case']
                     and k.get('label') == v['label']]
            if known:
                line = 'KNOWN-FINDING: property=%s %s' % (a.prop, known[0].get('what', v['label']))
                if line not in lines:
                    lines.append(line)
                continue
            viol += 1
            path = os.path.join(HERE, 'replays', '%s-%d.json' % (a.prop, viol))
            with open(path, 'w') as f:
                json.dump({'property': a.prop, 'case': r['case'], 'label': v['label'], 'inputs': v['inputs'],
                           'tier': tier, 'seed': seed, 'found_by': v['found_by'],
                           'strict': 'witness' not in v['found_by'],
                           'observed': v['replay']}, f, indent=1)
            lines.append('VIOLATION property=%s replay=%s' % (a.prop, path))
            lines.append('  case %s: %s' % (r['case'], v['label']))
    wall = round(time.time() - t0, 2)
    from symx import meta
    ev = {'property': a.prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {
              'states': tot['paths'], 'transitions': tot['branches'] + tot['obligations'],
              'traces_validated_against_impl': tot['agree'],
              'samples': samples[:12] or [{'note': 'no witness replayed'}],
              'meaning': 'states = feasible symbolic paths completed; transitions = branch decisions plus proof '
                         'obligations on them; traces_validated = solver/sample witnesses of paths replayed on the '
                         'real code with the same verdict',
              'functions_encoded': sorted(funcs),
              'obligations': tot['obligations'], 'obligations_unsat': tot['proved'],
              'obligations_unknown': tot['unk'],
              'queries': st.as_dict(), 'cases': percase, 'inconclusive': inconclusive},
          'assumptions': meta.assumptions(a.prop), 'wall_s': wall, 'violations': viol}
    if not a.case:
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for l in lines:
        print(l)
    for i in inconclusive:
        print('INCONCLUSIVE', i)
    if a.v:
        for c in percase:
            print('  ', json.dumps({k: v for k, v in c.items() if k not in ('bounds', 'obligation_labels')}))
    print('%s %s: %d cases, %d paths, %d obligations (%d proved, %d unknown), %d witness replays agree, '
          '%d solver queries %.1fs, %.1fs wall' % (a.prop, tier, len(results), tot['paths'], tot['obligations'],
                                                   tot['proved'], tot['unk'], tot['agree'], st.queries, st.solver_s, wall))
    sys.stdout.flush()
    return 1 if viol else 0


if __name__ == '__main__':
    sys.exit(main())
