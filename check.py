#!/usr/bin/env python3
"""Static checks of RayTracing: python3 check.py --property C01 [--tier quick|thorough] [--repo /repo] [--law NAME]"""
import argparse
import json
import multiprocessing as mp
import os
import signal
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

PROGRAM = None


class Budget(BaseException):
    pass


def run_law(job):
    idx, seed, tries, budget = job
    from laws import LAWS
    from vg.lab import Lab, Undecided
    from vg.terms import Unsupported
    from vg.interp import Dead
    from vg.program import AnchorError
    lw = FLAT[idx]
    t = time.time()
    L = Lab(PROGRAM, lw.name, seed, tries)
    res = {'law': lw.name, 'obs': [], 'status': 'ok', 'why': None, 'called': {}}

    def stop(*a):
        raise Budget()
    signal.signal(signal.SIGALRM, stop)
    signal.alarm(budget)
    try:
        try:
            lw.fn(L, *lw.args)
        except Dead:
            if L.lenient:
                raise
        L.close()
    except AnchorError as e:
        res['status'], res['why'] = 'anchor', str(e)
    except Dead:
        res['status'], res['why'] = 'dead', 'every abstract state raises: ' + describe_raise(L)
    except (Unsupported, Undecided) as e:
        res['status'], res['why'] = 'undecided', str(e)
    except Budget:
        res['status'], res['why'] = 'undecided', 'analysis budget of %d s spent' % budget
    except RecursionError:
        res['status'], res['why'] = 'undecided', 'recursion'
    except MemoryError:
        res['status'], res['why'] = 'undecided', 'memory'
    except Exception as e:
        res['status'], res['why'] = 'crash', traceback.format_exc()[-1500:]
    finally:
        signal.alarm(0)
    for o in L.obs:
        res['obs'].append((o.label, o.status, o.entry, o.detail, o.used))
    res['called'] = dict(L.I.called)
    res['wall'] = time.time() - t
    return res


def describe_raise(L):
    out = []
    for s, e in L.I.handlers[-1][-3:]:
        o = s.heap[e.a]
        from vg import terms as T
        out.append('%s%s' % (o.cls.name, T.show(o.fields.get('args', T.NONE), 3)))
    return '; '.join(out)[:300]


def main():
    global PROGRAM, FLAT
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--law')
    ap.add_argument('--jobs', type=int, default=0)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    thorough = a.tier == 'thorough'
    sys.setrecursionlimit(200000)
    threading.stack_size(512 * 1024 * 1024)
    code = [2]

    def body():
        code[0] = run(a, seed, thorough, t0)
    th = threading.Thread(target=body)
    th.start()
    th.join()
    sys.stdout.flush()
    os._exit(code[0])


def run(a, seed, thorough, t0):
    global PROGRAM, FLAT
    from vg.program import Program, AnchorError
    import laws
    laws.load()
    from vg import report
    try:
        PROGRAM = Program(a.repo)
    except (AnchorError, SyntaxError, FileNotFoundError) as e:
        print('ANALYSIS-BROKEN: cannot load the package: %s' % e)
        return 2
    FLAT = [l for l in laws.LAWS.get(a.property, []) if (thorough or not l.thorough) and (not a.law or a.law in l.name)]
    if not FLAT:
        print('ANALYSIS-BROKEN: no law for %s' % a.property)
        return 2
    tries = 400 if thorough else 90
    budget = 600 if thorough else 150
    jobs = [(i, seed, tries, budget) for i in range(len(FLAT))]
    n = max(1, a.jobs or min(8, os.cpu_count() or 1, len(jobs)))
    results = pool_run(jobs, n, t0 + (3000 if thorough else 700))
    return report.finish(a.property, a.tier, seed, FLAT, results, PROGRAM, t0, verbose=a.v, partial=bool(a.law),
                         repo=a.repo)


def _worker(q, out):
    sys.setrecursionlimit(200000)
    while True:
        j = q.get()
        if j is None:
            return
        box = []

        try:
            box = run_law(j)
        except BaseException as e:
            box = {'law': FLAT[j[0]].name, 'obs': [], 'status': 'crash', 'why': repr(e), 'called': {}, 'wall': 0}
        out.put((j[0], box))


def pool_run(jobs, n, deadline):
    import resource
    ctx = mp.get_context('fork')
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (1 << 30, resource.getrlimit(resource.RLIMIT_STACK)[1]))
    except (ValueError, OSError):
        pass
    results = {}
    pending = sorted(jobs, key=lambda j: -FLAT[j[0]].weight)
    out = ctx.Queue()
    q = ctx.Queue()
    for j in pending:
        q.put(j)
    for _ in range(n):
        q.put(None)
    ps = [ctx.Process(target=_worker, args=(q, out)) for _ in range(n)]
    for p in ps:
        p.start()
    import queue
    while len(results) < len(jobs):
        try:
            i, r = out.get(timeout=5)
            results[i] = r
        except queue.Empty:
            if not any(p.is_alive() for p in ps):
                break
        if time.time() > deadline:
            for p in ps:
                p.kill()
            break
    for p in ps:
        p.join(timeout=5)
        if p.is_alive():
            p.kill()
    return [results.get(j[0]) or {'law': FLAT[j[0]].name, 'obs': [], 'status': 'undecided', 'why': 'overall budget spent',
                                  'called': {}, 'wall': 0} for j in jobs]


if __name__ == '__main__':
    main()
