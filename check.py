#!/usr/bin/env python3
"""Decide one property from the current source of /repo.

    check.py --property C01 [--tier quick|thorough] [--root /repo]

exit 0: every obligation is discharged; exit 1: VIOLATION lines; exit 2: the
analysis itself could not be carried out (an anchor is gone, the source does
not parse).
"""
import argparse
import json
import os
import sys
import threading
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True

EXPLAIN = (
    'Static analysis of the source: /repo/webauthn_rp is parsed (never '
    'imported or run); the entry points below and everything they reach are '
    'interpreted abstractly for arbitrary arguments (interprocedural '
    'dataflow: one canonical gated term per value, must-facts on every path, '
    'abstract exits by exception). Each obligation is one fact, value or '
    'exit of an entry point compared with the reference the property '
    'states; it is discharged by propagation over the facts. The counts are '
    'of this run.')


def known_findings():
    out = {}
    path = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('known: property='):
                rest = line[len('known: property='):]
                pid, _, key = rest.partition(' ')
                out.setdefault(pid, []).append(key.strip())
    return out


def key_of(o):
    """identifies a finding by rule and construct, without line numbers"""
    import re
    site = re.sub(r':\d+ ', ' ', o.site)
    return '%s @ %s: %s' % (o.rule, site, o.text)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--root', default='/repo')
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    pid = a.property
    t0 = time.time()
    from sa import props
    from sa.logic import Stats
    from sa.project import AnalysisBroken
    from sa.rules import Checker
    # far above what any tree needs; past it, what is not yet derived counts
    # as not derived
    Stats.deadline = time.monotonic() + 400
    chk = None
    try:
        chk = Checker(a.root, pid)
        chk.tier = tier
        getattr(props, pid)(chk)
        chk.finish()
        if not chk.obs:
            raise AnalysisBroken('no obligation was generated')
        low = props.MINIMUM.get(pid)
        if low and len(chk.obs) < low:
            raise AnalysisBroken('only %d obligations, at least %d expected' %
                                 (len(chk.obs), low))
    except (AnalysisBroken, SyntaxError) as e:
        # what already failed is a violation all the same
        if chk is None or all(o.ok for o in chk.obs):
            print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
            return 2
    except Exception as e:
        traceback.print_exc(limit=-8)
        if chk is None or all(o.ok for o in chk.obs):
            print('ANALYSIS-BROKEN property=%s %r' % (pid, e))
            return 2
    wall = time.time() - t0
    known = known_findings().get(pid, [])
    bad, listed = [], []
    for o in chk.obs:
        if o.ok:
            continue
        (listed if key_of(o) in known else bad).append(o)
    rules = {}
    for o in chk.obs:
        r = rules.setdefault(o.rule, [0, 0])
        r[0] += 1
        r[1] += o.ok
    ev = {
        'property': pid,
        'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation': EXPLAIN,
            'obligations': len(chk.obs),
            'discharged': sum(o.ok for o in chk.obs),
            'rules': {k: {'obligations': v[0], 'discharged': v[1]}
                      for k, v in rules.items()},
            'entry_points': sorted({r.qual for r in chk.runs}),
            'functions_analysed': sorted(chk.units),
            'exits_by_exception': chk.n_raises,
            'entailment_queries': Stats.queries,
            'case_splits': Stats.splits,
            'queries_out_of_budget': Stats.budget,
            'not_examined_after_a_failure': chk.unexamined,
            'samples': ['%s | %s | %s' % (o.rule, o.site, o.text[:300])
                        for o in chk.obs[:6]],
            'exhaustive': False,
        },
        'assumptions': props.ASSUMPTIONS + chk.notes,
        'wall_s': round(wall, 3),
        'violations': len(bad),
    }
    edir = os.path.join(HERE, 'evidence')
    replay = os.path.join('evidence', pid + '.violation.txt')
    if not a.no_evidence:
        os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
            f.write('\n')
        path = os.path.join(HERE, replay)
        if os.path.exists(path):
            os.remove(path)
        if bad:
            with open(path, 'w') as f:
                for o in bad:
                    f.write('rule:   %s\nsite:   %s\nneeded: %s\nfound:  %s\n'
                            'key:    %s\n\n' % (o.rule, o.site, o.text,
                                                o.detail, key_of(o)))
    print('property %s: %d entry points, %d functions, %d exits by exception, '
          '%d obligations, %d discharged, %.1f s' %
          (pid, len({r.qual for r in chk.runs}), len(chk.units), chk.n_raises,
           len(chk.obs), sum(o.ok for o in chk.obs), wall))
    for r, v in rules.items():
        print('  %-50s %d/%d' % (r, v[1], v[0]))
    for o in listed:
        print('KNOWN-FINDING: property=%s %s' % (pid, key_of(o)))
    for o in bad[:30]:
        print('  violated: [%s] %s: %s -- %s' %
              (o.rule, o.site, o.text[:300], o.detail[:300]))
    if bad:
        print('VIOLATION property=%s replay=%s' % (pid, replay))
        return 1
    return 0


if __name__ == '__main__':
    sys.setrecursionlimit(40000)
    threading.stack_size(512 * 1024 * 1024)
    rc = []
    t = threading.Thread(target=lambda: rc.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(rc[0] if rc else 2)
