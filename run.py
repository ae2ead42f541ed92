#!/usr/bin/env python3-vt
"""
Driver.
  run.py check C05 [--tier quick|thorough] [--task SUBSTR] [--strict] [--jobs N] [-v]
  run.py replay FILE           runs one recorded counterexample against the real code
  run.py tasks C05             lists the tasks of a property
"""
import argparse
import importlib
import json
import multiprocessing
import os
import sys
import time
import traceback
import warnings

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('TYPEDLOAD_REPO', '/repo')
sys.path[:0] = [HERE, REPO]
sys.setrecursionlimit(3000)
warnings.simplefilter('ignore')

STEPS = ('C27',)         # properties about interrupted callers
ORDERS = ('C33',)        # properties about the order of sets
GRACE = 4
QUICK_BUDGET, THOROUGH_BUDGET = 100, 780


MODULES = ('dataloader', 'datadumper', 'exceptions', 'helpers', 'typechecks')


def setup(prop, symbolic=True):
    """the statements of the code under test are marked, so that callers can be interrupted between them, or the places where sets are iterated"""
    how = dict(steps=prop in STEPS, orders=prop in ORDERS)
    import typedload
    assert os.path.realpath(typedload.__file__).startswith(os.path.realpath(REPO) + os.sep), typedload.__file__
    for m in MODULES:
        importlib.import_module('typedload.' + m)
    import catalog          # noqa: shared, not instrumented
    from sx import instrument
    if any(how.values()):
        instrument.install('typedload_cs', os.path.join(REPO, 'typedload'), {'typedload': 'typedload_cs'}, symbolic=False, **how)
        importlib.import_module('typedload_cs')
        for m in MODULES:
            importlib.import_module('typedload_cs.' + m)
    if symbolic:
        instrument.install('typedload_sx', os.path.join(REPO, 'typedload'), {'typedload': 'typedload_sx'}, **how)
        instrument.install('hsx', os.path.join(HERE, 'harness'), {'typedload': 'typedload_sx', 'harness': 'hsx'})
        import typedload_sx
        for m in MODULES:
            importlib.import_module('typedload_sx.' + m)
        return typedload, typedload_sx
    return typedload, None


def run_concrete(prop, fn, kw, inputs):
    """('ok'|'skip'|'violation'|'error', detail, records) of one run against the real package"""
    tl = importlib.import_module('typedload_cs' if prop in STEPS + ORDERS else 'typedload')
    from sx import ctx
    mod = importlib.import_module('harness.' + prop.lower())
    c = ctx.ConcCtx(inputs, tl)
    try:
        getattr(mod, fn)(c, **kw)
    except ctx.Failed as e:
        return 'violation', str(e), c.records
    except ctx.Skip:
        return 'skip', '', c.records
    except Exception as e:
        return 'error', ''.join(traceback.format_exception(e)[-3:]), c.records
    return 'ok', '', c.records


def run_task(a):
    prop, tname, fn, kw, deadline, verbose = a
    import typedload_sx
    from sx import core, ctx, conc, instrument
    mod = importlib.import_module('hsx.' + prop.lower())
    instrument.ENTERED.clear()
    t0 = time.monotonic()
    # every task gets some time, also where the others took too long
    ex = core.Explorer(deadline=max(deadline, t0 + GRACE))
    out = dict(task=tname, fn=fn, kw=kw, violations=[], divergences=[], samples=[], validated=0, reached=0, skipped=0,
               limits={}, partial={}, error=None)
    seen_msgs = set()
    state = {}

    def once():
        state['ctx'] = c = ctx.SymCtx(ex, typedload_sx)
        getattr(mod, fn)(c, **kw)

    def diverge(kind, inputs, detail):
        out['divergences'].append([kind, inputs, detail])

    def on_path(ex, status, exc):
        c = state['ctx']
        out['reached'] += c.reached
        if status == 'infeasible':
            return True
        if status == 'limit':
            k = '%s' % (exc,)
            out['limits'][k[:80]] = out['limits'].get(k[:80], 0) + 1
            if not isinstance(exc, core.Limit):
                return True
        for p in ex.partial:
            p = p.split(' fixed')[0][:60]
            out['partial'][p] = out['partial'].get(p, 0) + 1
        try:
            model = c.failed[1] if c.failed else ex.get_model()
        except core.SxAbort:
            return True
        try:
            inputs = dict(roots={n: ctx.encode(s, model) for n, s in ex.roots.items()}, choices=dict(ex.choices))
        except ctx.Unencodable:
            out['skipped'] += 1
            return True
        saved, core.CUR = core.CUR, None
        try:
            res, detail, recs = run_concrete(prop, fn, kw, inputs)
        finally:
            core.CUR = saved
        if res == 'violation':
            msg = detail
            if msg not in seen_msgs:
                seen_msgs.add(msg)
                out['violations'].append([msg, inputs])
            return len(out['violations']) < 12
        if res == 'error':
            diverge('harness error in concrete run', inputs, detail)
        elif status == 'violation':
            diverge('not reproduced', inputs, c.failed[0] + ' / concrete: ' + res)
        elif res == 'skip':
            diverge('assumption fails', inputs, '')
        elif status == 'done':
            saved, core.CUR = core.CUR, ex
            try:
                a = [(l, conc.describe(o, model)) for l, o in ex.records]
            except core.SxAbort:
                a = None
            finally:
                core.CUR = saved
            b = [(l, conc.describe(o)) for l, o in recs]
            if a is None or not conc.agree(a, b) and (conc.bigset(inputs) or conc.bigset(a)):
                # (the order of a set of several elements is not modelled)
                out['skipped'] += 1
            elif conc.agree(a, b):
                out['validated'] += 1
                if len(out['samples']) < 2 and ex.stats['paths'] % 7 == 1:
                    out['samples'].append([{n: ctx.show(v) for n, v in inputs['roots'].items()}, inputs['choices'],
                                           str(b)[:300]])
            else:
                diverge('outcome differs', inputs, 'symbolic %s\nconcrete %s' % (a, b))
        return len(out['divergences']) < 40

    try:
        ex.explore(once, on_path)
    except Exception as e:
        core.CUR = None
        out['error'] = ''.join(traceback.format_exception(e)[-6:])
    out['stats'] = ex.stats
    out['exhausted'] = ex.exhausted
    out['functions'] = sorted(x for x in instrument.ENTERED if x.startswith('typedload_sx'))
    out['wall_s'] = round(time.monotonic() - t0, 3)
    return out


def load_known():
    known, fixed = [], []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: '):
                # known: property=<id> task=<task> match=<substring of the message> :: <what fails>
                head, what = line[7:].split(' :: ', 1)
                prop, rest = head.split(' ', 1)
                task, match = rest.split(' match=', 1)
                known.append((prop.split('=')[1], task.split('=', 1)[1], match, what))
            elif line.startswith('fixed: '):
                fixed.append(line)
    return known, fixed


def check(args):
    t0 = time.monotonic()
    tier = args.tier
    prop = args.prop
    setup(prop)
    hmod = importlib.import_module('harness.' + prop.lower())
    tasks = hmod.tasks(tier)
    if args.task:
        tasks = [t for t in tasks if args.task in t[0]]
    budget = args.budget or (QUICK_BUDGET if tier == 'quick' else THOROUGH_BUDGET)
    deadline = t0 + budget
    jobs = args.jobs or min(8, os.cpu_count() or 1)
    per = [(prop, t[0], t[1], t[2], deadline, args.verbose) for t in tasks]
    results = []
    if jobs == 1:
        for p in per:
            results.append(run_task(p))
    else:
        importlib.import_module('hsx.' + prop.lower())
        with multiprocessing.get_context('fork').Pool(jobs, maxtasksperchild=20) as pool:
            for r in pool.imap_unordered(run_task, per, chunksize=1):
                results.append(r)
                if args.first and r['violations']:
                    pool.terminate()
                    break
    results.sort(key=lambda r: r['task'])
    wall = time.monotonic() - t0

    known, _ = load_known()
    rdir = os.path.join(HERE, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    from sx import ctx
    violations, nk, spurious, errors = [], [], 0, []
    n = 0
    for r in results:
        for msg, inputs in r['violations']:
            k = [x for x in known if x[0] == prop and x[1] == r['task'] and x[2] in msg]
            shown = {a: ctx.show(b) for a, b in inputs['roots'].items()}
            if k:
                nk.append((k[0], shown))
                continue
            n += 1
            path = os.path.join(rdir, '%s-%s-%d.json' % (prop, tier, n))
            with open(path, 'w') as f:
                json.dump(dict(property=prop, task=r['task'], fn=r['fn'], kw=r['kw'], inputs=inputs, message=msg), f, indent=1)
            violations.append(dict(task=r['task'], message=msg, inputs=shown, choices=inputs['choices'], replay=path))
        for d in r['divergences']:
            spurious += 1
            errors.append('%s: %s %s\n    %s' % (r['task'], d[0], d[1], d[2][:2000]))
        if r['error']:
            errors.append('%s: engine error %s' % (r['task'], r['error']))
        if r['reached'] == 0 and not r['violations'] and not r['error']:
            errors.append('%s: no path reached a check' % r['task'])
    for k in {id(x[0]): x[0] for x in nk}.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k[3]))
    for v in violations[:20]:
        print('  task %s: %s\n    inputs %s %s' % (v['task'], v['message'], v['inputs'], v['choices']))
        print('VIOLATION property=%s replay=%s' % (prop, v['replay']))
    tot = {}
    for r in results:
        for k, v in r['stats'].items():
            tot[k] = tot.get(k, 0) + v
    complete = sum(1 for r in results if r['exhausted'])
    funcs = sorted({f for r in results for f in r['functions']})
    limits, partial = {}, {}
    for r in results:
        for k, v in r['limits'].items():
            limits[k] = limits.get(k, 0) + v
        for k, v in r['partial'].items():
            partial[k] = partial.get(k, 0) + v
    samples = [dict(task=r['task'], inputs=s[0], choices=s[1], outcome=s[2]) for r in results for s in r['samples']][:40]
    validated = sum(r['validated'] for r in results)
    coverage = dict(
        states=tot.get('paths', 0), transitions=tot.get('events', 0), traces_validated_against_impl=validated,
        samples=samples or [dict(note='none')],
        tasks=len(results), tasks_exhausted=complete,
        tasks_cut_by_time=sorted(r['task'] for r in results if not r['exhausted'])[:60],
        functions_encoded=[f.replace('typedload_sx', 'typedload') for f in funcs],
        bounds=getattr(hmod, 'BOUNDS', {}),
        outside_the_bounds=getattr(hmod, 'OUTSIDE', ''),
        queries=tot.get('queries', 0), solver_s=round(tot.get('solver_s', 0), 2),
        branch_decisions=tot.get('branches', 0), obligations=tot.get('obligations', 0),
        obligations_discharged=tot.get('discharged', 0),
        obligations_decided_by_path_condition=tot.get('trivial', 0),
        solver_unknown=tot.get('unknown', 0), paths_partial=tot.get('partial', 0), partial_reasons=partial,
        paths_not_encoded=tot.get('limits', 0), not_encoded_reasons=limits, paths_divergent=spurious,
        errors=errors[:20],
        checks_reached=sum(r['reached'] for r in results),
        slowest=[[r['task'], r['wall_s'], r['stats']['paths']] for r in sorted(results, key=lambda r: -r['wall_s'])[:8]],
        known_findings=[k[0][3] for k in nk],
    )
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking',
              coverage=coverage, assumptions=ASSUMPTIONS + getattr(hmod, 'ASSUMPTIONS', []), wall_s=round(wall, 2),
              violations=len(violations), violations_found=violations[:50])
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d tasks (%d exhausted), %d paths, %d validated, %d queries, solver %.1fs, wall %.1fs, partial %d, '
          'limits %d, divergent %d, violations %d' % (
              prop, tier, len(results), complete, tot.get('paths', 0), validated, tot.get('queries', 0),
              tot.get('solver_s', 0), wall, tot.get('partial', 0), tot.get('limits', 0), spurious, len(violations)))
    for e in errors[:args.show]:
        print('WARNING ' + e)
    if args.verbose:
        for r in sorted(results, key=lambda r: -r['wall_s'])[:25]:
            print('    %-60s %7.1fs %6d paths %s' % (r['task'], r['wall_s'], r['stats']['paths'], '' if r['exhausted'] else 'CUT'))
        print('    partial', partial, 'limits', limits)
    if violations:
        return 1
    if 2 * sum(1 for r in results if r['reached']) < len(results):
        print('most tasks gave no answer')
        return 2
    if args.strict and (errors or complete < len(results)):
        return 2
    return 0


ASSUMPTIONS = [
    'CPython 3.12 semantics of the operators and builtins modelled in sx/core.py and sx/models.py; every explored path '
    'is replayed on the real code and must agree',
    'classes of the schema catalogue stand for all classes of the same shape',
]


def replay(args):
    d = json.load(open(args.file))
    setup(d['property'], symbolic=False)
    res, detail, recs = run_concrete(d['property'], d['fn'], d['kw'], d['inputs'])
    from sx import ctx
    print('property %s task %s' % (d['property'], d['task']))
    print('inputs', {a: ctx.show(b) for a, b in d['inputs']['roots'].items()}, d['inputs']['choices'])
    for l, o in recs:
        print('  %s: %r' % (l, o))
    print(res, detail)
    if res == 'violation':
        print('VIOLATION property=%s replay=%s' % (d['property'], args.file))
        return 1
    return 0


def main():
    p = argparse.ArgumentParser()
    sub = p.add_subparsers(dest='cmd', required=True)
    c = sub.add_parser('check')
    c.add_argument('prop')
    c.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    c.add_argument('--task')
    c.add_argument('--strict', action='store_true')
    c.add_argument('--jobs', type=int)
    c.add_argument('--budget', type=float)
    c.add_argument('--show', type=int, default=5)
    c.add_argument('--first', action='store_true', help='stop at the first task with a violation')
    c.add_argument('-v', '--verbose', action='store_true')
    r = sub.add_parser('replay')
    r.add_argument('file')
    t = sub.add_parser('tasks')
    t.add_argument('prop')
    args = p.parse_args()
    if args.cmd == 'check':
        return check(args)
    if args.cmd == 'replay':
        return replay(args)
    setup(args.prop)
    for tier in ('quick', 'thorough'):
        for t in importlib.import_module('harness.' + args.prop.lower()).tasks(tier):
            print(tier, t)
    return 0


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    sys.exit(main())
