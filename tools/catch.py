"""Which checks catch which planted bugs: python3 tools/catch.py [ID ...]  (applies each patch to a copy of /repo)"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def one(i):
    d = os.path.join(HERE, 'seeded', i)
    w = '/tmp/catch-%s' % i
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', w])
    try:
        subprocess.run(['git', '-C', w, 'checkout', '-q', '--', '.'])
        r = subprocess.run(['git', '-C', w, 'apply', d + '/patch.diff'], capture_output=True, text=True)
        if r.returncode:
            return i, 'patch does not apply: ' + r.stderr[:200]
        prop = json.load(open(d + '/meta.json'))['property']
        env = dict(os.environ, VERIF_EVIDENCE='/tmp/ev-%s' % i)
        r = subprocess.run([sys.executable, HERE + '/check.py', '--property', prop, '--repo', w, '--jobs', '4'],
                           capture_output=True, text=True, env=env)
        first = next((l for l in r.stdout.split('\n') if l.startswith('VIOLATED')), r.stdout.strip().split('\n')[-1])
        return i, '%s %s %s' % (prop, 'CAUGHT' if r.returncode == 1 else 'MISSED (exit %d)' % r.returncode, first[:150])
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree('/tmp/ev-%s' % i, ignore_errors=True)


if __name__ == '__main__':
    ids = sys.argv[1:] or sorted(os.listdir(os.path.join(HERE, 'seeded')))
    res = {}
    with cf.ThreadPoolExecutor(3) as ex:
        for i, r in ex.map(one, ids):
            print(i, r, flush=True)
            res[i] = r
    f = HERE + '/tools/catches.txt'
    old = dict(l.strip().split(' ', 1) for l in open(f)) if os.path.exists(f) else {}
    old.update(res)
    with open(f, 'w') as o:
        o.write(''.join('%s %s\n' % kv for kv in sorted(old.items()) if os.path.exists(HERE + '/seeded/' + kv[0])))
