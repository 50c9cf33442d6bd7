"""Verdict, evidence and messages of one check."""
import json
import os
import re
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EV = os.environ.get('VERIF_EVIDENCE') or os.path.join(HERE, 'evidence')


def known_findings(prop):
    """[(law pattern, text)] of the committed known findings of a property"""
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            m = re.match(r'known: property=(\S+) key="([^"]*)" (.*)$', line)
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def finish(prop, tier, seed, laws, results, program, t0, verbose=False, partial=False, repo='/repo'):
    obs = [(r['law'],) + o for r in results for o in r['obs']]
    count = {}
    for o in obs:
        count[o[2]] = count.get(o[2], 0) + 1
    called = {}
    for r in results:
        called.update(r['called'])
    bad = [o for o in obs if o[2] == 'violated']
    undecided = [r for r in results if r['status'] in ('undecided', 'dead', 'crash')]
    anchors = [r for r in results if r['status'] == 'anchor']
    known = known_findings(prop)
    hit = {}
    new = []
    for o in bad:
        key = '%s: %s' % (o[0], o[1])
        k = next((k for k in known if k[0] == key), None)
        if k:
            hit[k[0]] = k[1]
        else:
            new.append(o)
    if verbose:
        for r in sorted(results, key=lambda r: -r['wall'])[:12]:
            print('  %6.2fs %s' % (r['wall'], r['law']))
        for o in obs:
            if o[2] == 'open':
                print('  open: %s: %s (used %d)' % (o[0], o[1], o[5]))
            if o[2] == 'vacuous':
                print('  vacuous: %s: %s' % (o[0], o[1]))
    for r in undecided + anchors:
        print('UNDECIDED %s: %s' % (r['law'], str(r['why'])[:1500 if r['status'] == 'crash' else 400]))
    for k, t in hit.items():
        print('KNOWN-FINDING: property=%s %s' % (prop, t))
    violated = bool(new)
    path = os.path.join(EV, prop + '.violation.txt')
    if violated:
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as f:
            for o in new:
                f.write(fmt(o) + '\n')
            f.write('\nreplay: python3 check.py --property %s --law "%s"\n' % (prop, new[0][0].split('[')[0]))
        for o in new[:6]:
            print(fmt(o))
        if len(new) > 6:
            print('... and %d more violated obligations (see %s)' % (len(new) - 6, path))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    nlaws = len(results)
    decided = nlaws - len(undecided) - len(anchors)
    cov = {
        'explanation': 'Static analysis of the source of %s: abstract interpretation to gated value graphs, one pass per '
                       'law (no path enumeration, no execution). Each obligation compares two value graphs: "proved" = '
                       'identical normal forms under the path guard; "open" = forms differ syntactically and random '
                       'interpretation of the terms found no separating valuation (not reported, not claimed as '
                       'proved); "vacuous" = no abstract state reaches the comparison.' % repo,
        'laws': nlaws, 'laws_decided': decided,
        'laws_undecided': [r['law'] + ': ' + str(r['why'])[:160] for r in undecided + anchors],
        'obligations': len(obs), 'discharged': count.get('proved', 0), 'open': count.get('open', 0),
        'vacuous': count.get('vacuous', 0), 'violated': count.get('violated', 0),
        'interpretations_tried': sum(o[5] for o in obs),
        'functions_analysed': len(called),
        'functions': sorted('%s (%s)' % kv for kv in called.items())[:400],
        'modules_loaded': len(program.modules),
        'rule': 'laws registered for the property in /verif/laws: ' + ', '.join(sorted({l.fn.__name__ for l in laws})),
    }
    if not partial:
        os.makedirs(EV, exist_ok=True)
        ev = {'property': prop, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'other',
              'coverage': cov, 'assumptions': ASSUME, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
        with open(os.path.join(EV, prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s: %d laws (%d undecided), %d obligations: %d proved, %d open, %d vacuous, %d violated (%d known); '
          '%d functions; %.1fs' % (prop, nlaws, nlaws - decided, len(obs), count.get('proved', 0), count.get('open', 0),
                                   count.get('vacuous', 0), count.get('violated', 0), len(bad) - len(new), len(called),
                                   time.time() - t0))
    if violated:
        return 1
    if anchors and len(anchors) * 2 >= nlaws or decided == 0:
        print('ANALYSIS-BROKEN: %d of %d laws could not be applied' % (nlaws - decided, nlaws))
        return 2
    return 0


def fmt(o):
    law, label, status, entry, d, used = o
    s = 'VIOLATED %s: %s\n  construct: %s' % (law, label, entry)
    if isinstance(d, dict):
        s += '\n  when: %s\n  found: %s\n  required: %s\n  through:\n    %s' % (
            ', '.join(d['where']), d['lhs'], d['rhs'], '\n    '.join(d['lines']))
    elif d:
        s += '\n  ' + str(d)
    return s


ASSUME = ['real arithmetic (floating-point rounding is not modelled)',
          'numpy/math/copy/multiprocessing behave as modelled in vg/models.py']
