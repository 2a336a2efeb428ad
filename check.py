#!/usr/bin/env python3
"""Decides one property of the current /repo tree by static analysis (nothing of /repo is executed).

usage: check.py PROPERTY [--tier quick|thorough] [--strict] [--repo DIR]
exit 0: no obligation is refuted; 1: VIOLATION lines name what refutes it; 2: the analysis could not be set up.
"""
import argparse
import importlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(6000)

from sa.harness import Runner, DIFF, UNK, SAME     # noqa: E402
from sa.props import OBS                           # noqa: E402


def known_findings(prop):
    out = []
    fn = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(fn):
        for line in open(fn, encoding='utf-8'):
            line = line.strip()
            if line.startswith('known: property=%s ' % prop):
                rest = line[len('known: property=%s ' % prop):]
                key, _, text = rest.partition(' ')
                out.append((key, text))
    return out


def where_text(anchor, where, repo):
    if where and where[2]:
        return '%s:%s in %s' % (where[0], where[2], where[1])
    return anchor


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--strict', action='store_true', help='undecided obligations fail (for development)')
    ap.add_argument('--repo', default='/repo')
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    importlib.import_module('sa.props.' + prop.lower())
    tier = 'thorough' if a.tier == 'thorough' else 'quick'
    runner = Runner(a.repo)
    known = known_findings(prop)
    results, violations, undecided, findings = [], [], [], []
    skipped = 0
    for ob in OBS[prop]:
        if ob.tier == 'thorough' and tier != 'thorough':
            continue
        spent = time.time() - t0
        if len(violations) >= 40 or violations and spent > 300 or spent > (3000 if tier == 'thorough' else 600):
            skipped += 1
            continue
        if tier == 'thorough':
            ob.limit, ob.budget = ob.limit * 5, ob.budget * 5
        r = runner.run(ob)
        results.append(r)
        if r.diffs:
            hit = [k for k in known if k[0] == ob.key]
            if hit:
                findings.append((ob, r, hit[0]))
            else:
                violations.append((ob, r))
        elif r.unks:
            undecided.append((ob, r))

    ev = os.path.join(HERE, 'evidence')
    os.makedirs(ev, exist_ok=True)
    functions = sorted({'%s:%s' % f for r in results for f in r.functions if not f[1].startswith('<scenario>')
                        and f[0].endswith('.py')})
    n_same = sum(1 for r in results if r.status == SAME)
    doc = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': 'Abstract interpretation of the parsed sources. Each obligation interprets a client program '
                           'over the public surface and a reference program over the same symbols; every feasible '
                           'partition must yield equal abstract results and only allowed effects. The counts are those '
                           'of this run.',
            'obligations': len(results), 'discharged': n_same,
            'undecided': [{'obligation': o.key, 'reason': r.unks[0][:300]} for o, r in undecided],
            'skipped_for_time_or_after_many_violations': skipped,
            'partitions_analysed': sum(r.partitions for r in results),
            'partitions_agreeing': sum(r.same for r in results),
            'effects_inspected': sum(r.events for r in results),
            'functions_interpreted': len(functions),
            'functions': functions,
            'rule': 'one obligation per client program; a partition is one feasible set of branch literals over the '
                    'symbols standing for all arguments',
            'samples': [{'obligation': r.ob.key, 'anchor': r.ob.anchor, 'client': r.ob.do.strip()[:600],
                         'reference': r.ob.ref.strip()[:600], 'partitions': r.partitions, 'status': r.status}
                        for r in results[:4]],
            'checker_cmd': 'python3 check.py %s --tier %s' % (prop, tier),
            'trusted_base': ['sa/interp.py', 'sa/models.py', 'sa/compare.py', 'sa/props/%s.py' % prop.lower(),
                             'the models of the standard library in sa/models.py'],
        },
        'assumptions': ['caller supplied objects (symbols) have no side effects when their attributes are read or they '
                        'are printed, compared or hashed',
                        'distinct symbols are unrelated values unless a path fact says otherwise'],
        'wall_s': round(time.time() - t0, 3),
        'violations': len(violations),
    }
    with open(os.path.join(ev, prop + '.json'), 'w', encoding='utf-8') as f:
        json.dump(doc, f, indent=1)
    for ob, r, (key, text) in findings:
        print('KNOWN-FINDING: property=%s %s: %s' % (prop, key, text))
    for ob, r in undecided:
        print('undecided: %s %s: %s' % (prop, ob.key, r.unks[0][:200]))
    if skipped:
        print('%d obligations of %s were not analysed' % (skipped, prop))
    if violations:
        path = os.path.join(ev, '%s.violations.txt' % prop)
        with open(path, 'w', encoding='utf-8') as f:
            for ob, r in violations:
                for msg, where, lits in r.diffs:
                    f.write('obligation %s (%s)\n  %s\n  at %s\n  on the path where: %s\n\n' % (
                        ob.key, ob.claim or ob.anchor, msg, where_text(ob.anchor, where, a.repo), lits or 'always'))
        for ob, r in violations:
            msg, where, lits = r.diffs[0]
            print('%s [%s] %s; on the path where: %s' % (where_text(ob.anchor, where, a.repo), ob.key, msg[:400],
                                                         lits[:300] or 'always'))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    print('%s: %d obligations, %d decided, %d undecided, %d partitions, %d functions, %.1fs' % (
        prop, len(results), n_same, len(undecided), sum(r.partitions for r in results), len(functions), time.time() - t0))
    if a.strict and undecided:
        return 3
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except Exception as e:  # the analysis could not be set up on this tree
        import traceback
        traceback.print_exc()
        print('no verdict: %s: %s' % (type(e).__name__, e))
        rc = 2
    sys.exit(rc)
