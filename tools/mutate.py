"""Which changes of the source escape the laws: python3 tools/mutate.py FILE.py[:Function] ... [--max N] [--jobs N] [--all]

Every mutant changes one expression or statement of a function that some law analyses. The laws that reach the
function are run on the mutated source until one reports a violation; the mutants that none reports are printed, to
be read by hand: they are equivalent, or outside of every property, or show a hole in the laws. Nothing is written.
"""
import argparse
import ast
import copy
import json
import multiprocessing as mp
import os
import pickle
import random
import shutil
import signal
import sys
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check as C

CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult], ast.Pow: [ast.Mult]}
PAIR = [('frontIndex', 'backIndex'), ('frontVertex', 'backVertex'), ('A', 'D'), ('B', 'C'), ('y', 'theta'), ('n1', 'n2'), ('R1', 'R2'),
        ('isBlocked', 'isNotBlocked'), ('f1', 'f2'), ('p1', 'p2'), ('x', 'y'), ('apertureDiameter', 'L')]
SWAP = dict(PAIR + [(b, a) for a, b in PAIR])


def variants(n):
    """[(description, replacement)] of one node"""
    out = []
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        for o in CMP.get(type(n.ops[0]), []):
            m = copy.deepcopy(n)
            m.ops = [o()]
            out.append(m)
    elif isinstance(n, ast.BinOp):
        for o in BIN.get(type(n.op), []):
            m = copy.deepcopy(n)
            m.op = o()
            out.append(m)
        if isinstance(n.op, (ast.Add, ast.Sub)):
            out.append(copy.deepcopy(n.left))
    elif isinstance(n, ast.BoolOp):
        m = copy.deepcopy(n)
        m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        out.append(m)
        for i in range(len(n.values)):
            vs = [copy.deepcopy(v) for j, v in enumerate(n.values) if j != i]
            out.append(vs[0] if len(vs) == 1 else ast.BoolOp(op=n.op, values=vs))
    elif isinstance(n, ast.UnaryOp):
        out.append(copy.deepcopy(n.operand))
    elif isinstance(n, ast.Constant):
        if isinstance(n.value, bool):
            out.append(ast.Constant(not n.value))
        elif isinstance(n.value, (int, float)):
            out.append(ast.Constant(n.value + 1))
            if n.value not in (0,):
                out.append(ast.Constant(0))
    elif isinstance(n, ast.Call):
        f = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ''
        if f in ('abs', 'copy', 'deepcopy', 'list', 'sorted', 'float', 'int', 'reversed', 'sqrt', 'tuple') and len(n.args) == 1:
            out.append(copy.deepcopy(n.args[0]))
        if f in ('min', 'max'):
            m = copy.deepcopy(n)
            m.func.id = 'max' if f == 'min' else 'min' if isinstance(n.func, ast.Name) else f
            out.append(m)
        for i in range(len(n.keywords)):
            m = copy.deepcopy(n)
            del m.keywords[i]
            out.append(m)
        if len(n.args) == 2 and f not in ('isinstance', 'super', 'warn', 'getattr', 'hasattr', 'setattr'):
            m = copy.deepcopy(n)
            m.args.reverse()
            out.append(m)
    elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in SWAP:
        m = copy.deepcopy(n)
        m.attr = SWAP[n.attr]
        out.append(m)
    elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in SWAP and len(n.id) > 1:
        out.append(ast.Name(SWAP[n.id], ast.Load()))
    elif isinstance(n, ast.IfExp):
        out += [copy.deepcopy(n.body), copy.deepcopy(n.orelse)]
    elif isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load) and len(n.elts) == 2:
        out.append(ast.Tuple([copy.deepcopy(n.elts[1]), copy.deepcopy(n.elts[0])], ast.Load()))
    return out


def stmt_variants(s):
    out = []
    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Raise, ast.Delete)) and not (
            isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
        out.append(ast.Pass())
    if isinstance(s, ast.AugAssign):
        m = copy.deepcopy(s)
        m.op = ast.Sub() if isinstance(s.op, ast.Add) else ast.Add()
        out.append(m)
    if isinstance(s, ast.If):
        for v in (True, False):
            m = copy.deepcopy(s)
            m.test = ast.Constant(v)
            out.append(m)
    if isinstance(s, (ast.Break, ast.Continue)):
        out.append(ast.Pass())
        out.append(ast.Break() if isinstance(s, ast.Continue) else ast.Continue())
    return out


KILL = {}


def functions(tree):
    for n in tree.body:
        if isinstance(n, (ast.FunctionDef,)):
            yield n.name, n
        if isinstance(n, ast.ClassDef):
            for m in n.body:
                if isinstance(m, ast.FunctionDef):
                    yield n.name + '.' + m.name, m


def mutants(src, only=None):
    """[(function, first line of it, line, old, new, source)]"""
    tree = ast.parse(src)
    lines = src.split('\n')
    out = []
    for qual, f in functions(tree):
        if only and qual not in only and qual.split('.')[0] not in only:
            continue
        nodes = []
        for s in f.body:
            for n in ast.walk(s):
                if isinstance(n, ast.expr):
                    nodes += [(n, v) for v in variants(n)]
                elif isinstance(n, ast.stmt):
                    nodes += [(n, v) for v in stmt_variants(n)]
        for n, v in nodes:
            if n.lineno != n.end_lineno:
                if isinstance(n, ast.If):
                    t, new = n.test, ast.unparse(v.test)
                    if t.lineno != t.end_lineno:
                        continue
                    n = t
                else:
                    continue
            else:
                new = ast.unparse(ast.fix_missing_locations(ast.Module([v], [])) if isinstance(v, ast.stmt) else v)
                if isinstance(n, ast.expr):
                    new = '(' + new + ')'
                if isinstance(n, ast.If):
                    continue
            i = n.lineno - 1
            b = lines[i].encode()
            if isinstance(n, ast.Constant) and b[n.col_offset:n.col_offset + 1] not in b'0123456789TF.':
                continue
            new_line = (b[:n.col_offset] + new.encode() + b[n.end_col_offset:]).decode()
            m = lines[:i] + [new_line] + lines[i + 1:]
            text = '\n'.join(m)
            try:
                ast.parse(text)
            except SyntaxError:
                continue
            out.append((qual, f.lineno, n.lineno, lines[i].strip(), new_line.strip(), text))
    return out


def baseline(path):
    """{law index: (wall, functions, bad labels)}"""
    import laws
    from vg.program import Program
    laws.load()
    C.FLAT = [l for p in sorted(laws.LAWS) for l in laws.LAWS[p] if not l.thorough]
    C.PROGRAM = Program('/repo')
    key = []
    for d in ('laws', 'vg'):
        for f in sorted(os.listdir(os.path.join(HERE, d))):
            if f.endswith('.py'):
                key.append((f, os.path.getmtime(os.path.join(HERE, d, f))))
    for f in sorted(os.listdir('/repo/raytracing')):
        if f.endswith('.py'):
            key.append((f, os.path.getmtime('/repo/raytracing/' + f)))
    if os.path.exists(path):
        k, r = pickle.load(open(path, 'rb'))
        if k == key:
            return r
    jobs = [(i, 1, 30, 150) for i in range(len(C.FLAT))]
    res = C.pool_run(jobs, 8, time.time() + 3000)
    r = {i: (x['wall'], dict(x['called']), {o[0] for o in x['obs'] if o[1] == 'violated'}, x['status'], {str(o[2]).split(' ')[0] for o in x['obs']}) for i, x in enumerate(res)}
    pickle.dump((key, r), open(path, 'wb'))
    return r


def one(job):
    """name of the first law that reports the mutant, or None"""
    file, m, cand, base, limit = job
    from vg.program import Program
    d = '/tmp/mut-%d' % os.getpid()
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree('/repo/raytracing', d + '/raytracing', ignore=shutil.ignore_patterns('tests', '__pycache__'))
    for f in ('setup.py', 'README.md'):
        if os.path.exists('/repo/' + f):
            shutil.copy('/repo/' + f, d)
    open(d + '/raytracing/' + file, 'w').write(m[5])
    t = time.time()
    und = []
    try:
        C.PROGRAM = Program(d)
        for i in cand:
            if time.time() - t > limit:
                return 'TIME', und
            r = C.run_law((i, 1, 30, 40))
            bad = {o[0] for o in r['obs'] if o[1] == 'violated'} - base[i][2]
            if bad:
                return C.FLAT[i].prop + ':' + C.FLAT[i].name, und
            if r['status'] != 'ok' and base[i][3] == 'ok':
                und.append(C.FLAT[i].prop + ':' + C.FLAT[i].name + ' ' + str(r['why']).replace('\n', ' ')[-120:])
    except BaseException as e:
        return 'BROKEN ' + repr(e)[:100], und
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return None, und


def child(job, out):
    sys.setrecursionlimit(200000)
    threading.stack_size(512 << 20)
    try:
        out.send(one(job))
    except BaseException as e:
        out.send(('CRASH ' + repr(e), []))


def main():
    import resource
    ap = argparse.ArgumentParser()
    ap.add_argument('what', nargs='+')
    ap.add_argument('--max', type=int, default=0)
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--limit', type=int, default=120)
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    resource.setrlimit(resource.RLIMIT_STACK, (1 << 30, resource.getrlimit(resource.RLIMIT_STACK)[1]))
    sys.setrecursionlimit(200000)
    base = baseline('/tmp/mutate.base')
    ctx = mp.get_context('fork')
    rng = random.Random(1)
    todo = []
    nolaw = {}
    for w in a.what:
        file, _, only = w.partition(':')
        src = open('/repo/raytracing/' + file).read()
        ms = mutants(src, set(only.split(',')) if only else None)
        if a.max and len(ms) > a.max:
            ms = rng.sample(ms, a.max)
        for m in ms:
            want = m[0]
            cand = [i for i in base if C.FLAT[i].prop != 'C29' and any(q == want and file in loc for q, loc in base[i][1].items())]
            if not cand:
                nolaw[file + ':' + m[0]] = nolaw.get(file + ':' + m[0], 0) + 1
                continue
            cand.sort(key=lambda i: (base[i][0] > 3, want not in base[i][4] and m[0].split('.')[-1] not in C.FLAT[i].name, len(base[i][1]), base[i][0]))
            todo.append((file, m, cand, base, a.limit))
    print('%d mutants; without any law: %s' % (len(todo), ' '.join('%s(%d)' % kv for kv in sorted(nolaw.items()))), flush=True)
    if a.list:
        return
    run, n, caught = {}, 0, 0
    it = iter(todo)
    live = True
    while live or run:
        while live and len(run) < a.jobs:
            j = next(it, None)
            if j is None:
                live = False
                break
            p, q = ctx.Pipe(duplex=False)
            c = ctx.Process(target=child, args=(j, q))
            c.start()
            q.close()
            run[c] = (p, j, time.time())
        for c in list(run):
            p, j, t = run[c]
            if p.poll(0):
                try:
                    r = p.recv()
                except EOFError:
                    r = ('CRASH', [])
                c.join()
            elif not c.is_alive():
                r = ('CRASH', [])
            elif time.time() - t > a.limit + 60:
                c.kill()
                r = ('TIME', [])
            else:
                continue
            del run[c]
            n += 1
            if r[0] and r[0] not in ('TIME',) and not r[0].startswith(('CRASH', 'BROKEN')):
                caught += 1
                KILL[r[0]] = KILL.get(r[0], 0) + 1
            else:
                f, m = j[0], j[1]
                print('%s %s:%d %s\n    - %s\n    + %s' % (r[0] or 'ESCAPED', f, m[2], m[0], m[3], m[4]) +
                      (('\n      undecided: ' + ' | '.join(r[1][:2])) if r[1] else ''), flush=True)
        time.sleep(0.02)
    print('%d mutants, %d reported by %s' % (n, caught, ', '.join('%s %d' % (k, v) for k, v in sorted(KILL.items(), key=lambda x: -x[1])[:12])))


if __name__ == '__main__':
    th = threading.Thread(target=main)
    threading.stack_size(512 << 20)
    th = threading.Thread(target=main)
    th.start()
    th.join()
