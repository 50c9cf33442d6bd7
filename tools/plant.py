"""Make and confirm planted bugs: python3 tools/plant.py SPEC.py ...

SPEC.py defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo='python source')].
Each bug is applied to a copy of /repo under /tmp that is bound to /repo in a private mount namespace, so that the
repository's own build and tests run on it; it is kept only if it builds, passes the stable tests, and its demo
distinguishes it from the unchanged tree.
"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 when the property holds, 1 when it does not
H=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d)
trap 'rm -rf "$W"' EXIT
mkdir -p "$W/.config"
R=$(pwd)
export HOME="$W" TMPDIR="$W" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$R"
cd "$W"
/opt/venv/bin/python "$H/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **kw)


def confirm(bug):
    d = os.path.join(HERE, 'seeded', bug['id'])
    w = '/tmp/plant-%s' % bug['id']
    shutil.rmtree(w, ignore_errors=True)
    sh(['cp', '-a', '/repo', w])
    sh(['git', '-C', w, 'checkout', '-q', '--', '.'])
    try:
        for f, old, new in bug['edits']:
            p = os.path.join(w, 'raytracing', f) if '/' not in f else os.path.join(w, f)
            s = open(p, encoding='utf-8', newline='').read()
            if s.count(old) != 1:
                return bug['id'], 'edit of %s matches %d times: %r' % (f, s.count(old), old[:60])
            with open(p, 'w', encoding='utf-8', newline='') as o:
                o.write(s.replace(old, new))
        diff = sh(['git', '-C', w, 'diff']).stdout
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(diff)
        open(d + '/demo.sh', 'w').write(DEMO)
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/demo.py', 'w').write(bug['demo'].lstrip('\n'))
        json.dump({'property': bug['property'], 'needs': bug['needs'], 'what_it_breaks': bug['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        # lines my own commits added are out of bounds
        base = sh(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD']).stdout.split()[0]
        mine = set()
        for l in sh(['git', '-C', '/repo', 'diff', base, 'HEAD']).stdout.split('\n'):
            if l.startswith('+') and not l.startswith('+++') and l[1:].strip():
                mine.add(l[1:].strip())
        touched = [l[1:].strip() for l in diff.split('\n') if l.startswith('-') and not l.startswith('---')]
        hit = [l for l in touched if l in mine]
        note = ' (touches lines of my commits: %s)' % hit if hit else ''
        if not touched:
            note += ' (only adds lines)'
        a = sh(['bash', d + '/demo.sh'], cwd='/repo')
        if a.returncode != 0:
            return bug['id'], 'demo fails on the unchanged tree: ' + (a.stdout + a.stderr)[-600:]
        ns = 'mount --bind %s /repo && ' % w
        b = sh(['unshare', '-m', 'bash', '-c', ns + 'cd /repo && bash %s/demo.sh' % d])
        if b.returncode == 0:
            return bug['id'], 'demo passes with the bug'
        o = '/tmp/plant-%s.json' % bug['id']
        c = sh(['unshare', '-m', 'bash', '-c', ns + 'bash /opt/vp/build.sh && bash /opt/vp/test.sh %s' % o])
        if not os.path.exists(o):
            return bug['id'], 'build or tests did not run: ' + (c.stdout + c.stderr)[-400:]
        base = json.load(open('/opt/vp/BASELINE.json'))
        got = json.load(open(o))
        lost = sorted(set(base['stable']) - set(got['passed']))
        os.remove(o)
        if lost:
            return bug['id'], 'tests lost: %s' % lost[:4]
        return bug['id'], 'ok' + note + ' | demo: ' + (b.stdout + b.stderr).strip().split('\n')[-1][:120]
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main():
    bugs = []
    for f in sys.argv[1:]:
        ns = {}
        exec(compile(open(f).read(), f, 'exec'), ns)
        bugs += ns['BUGS']
    only = os.environ.get('ONLY')
    with cf.ThreadPoolExecutor(3) as ex:
        for i, r in ex.map(confirm, [b for b in bugs if not only or b['id'] in only.split(',')]):
            print(i, '->', r, flush=True)
            if not r.startswith('ok'):
                shutil.rmtree(os.path.join(HERE, 'seeded', i), ignore_errors=True)


if __name__ == '__main__':
    main()
