#!/usr/bin/env python3
"""check.py <property> [--thorough]: decides one property on /repo's current source."""
import importlib
import json
import os
import re
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'analysis'))
sys.setrecursionlimit(20000)
import base  # noqa: E402


EVID = os.environ.get('VP_EVID', os.path.join(VERIF, 'evidence'))


def known():
    """Known, unrepaired findings: {(property, rule, construct)}."""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            m = re.match(r'finding: property=(\S+) rule=(.+?) at=(\S+)', l)
            if m:
                out[m.groups()] = l
    return out


def run(pid, tier):
    t0 = time.time()
    rep = base.Report(pid)
    mod = importlib.import_module('rules.' + pid.lower())
    # quick: as in a release build (debug assertions reject nothing); thorough: also as in a debug build
    for dbg in (False, True) if tier == 'thorough' else (False,):
        k = len(rep.items)
        ctx = base.Ctx(dbg)
        err = None
        try:
            mod.check(ctx, rep, tier)
        except base.Undecided as e:
            rep.und('anchors', '-', str(e))
        except RuntimeError as e:
            if 'command failed' in str(e):
                print('ERROR: %s' % e)
                return 2
            err = traceback.format_exc()
        except Exception:
            if os.environ.get('VP_DEBUG'):
                raise
            err = traceback.format_exc()
        if err is not None:
            rep.und('internal', '-', err.strip().splitlines()[-1])
            sys.stderr.write(err)
        if dbg:
            rep.items[k:] = [(st, r, 'debug build, ' + w, d) for st, r, w, d in rep.items[k:]]
    kn = known()
    viols = [i for i in rep.items if i[0] == 'violation']
    new = [i for i in viols if (pid, i[1], i[2].split(' ')[0]) not in kn]
    old = [i for i in viols if (pid, i[1], i[2].split(' ')[0]) in kn]
    und = [i for i in rep.items if i[0] == 'undecided']
    rules = {}
    for st, r, w, d in rep.items:
        c = rules.setdefault(r, {'ok': 0, 'violation': 0, 'undecided': 0})
        c[st] += 1
    samples = []
    seen = {}
    for st, r, w, d in rep.items:
        if seen.get(r, 0) < 3:
            seen[r] = seen.get(r, 0) + 1
            samples.append({'rule': r, 'status': st, 'where': w, 'detail': d[:300]})
    cov = {
        'explanation': (mod.__doc__ or '').strip() or pid,
        'obligations': len(rep.items), 'discharged': rep.count('ok'), 'undecided': len(und),
        'rules': rules, 'samples': samples, 'analysed': rep.notes,
    }
    os.makedirs(EVID, exist_ok=True)
    rp = os.path.join(EVID, pid + '.violation.json')
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': cov, 'assumptions': rep.assumptions, 'wall_s': round(time.time() - t0, 3),
          'violations': len(new)}
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    if os.path.exists(rp):
        os.remove(rp)
    print('%s: %d obligations, %d discharged, %d undecided, %d violations (%.1fs)' % (
        pid, len(rep.items), rep.count('ok'), len(und), len(new), time.time() - t0))
    if '-v' in sys.argv:
        for st, r, w, d in rep.items:
            print('  %-9s %-22s %s  %s' % (st, r, w, d[:400]))
    for st, r, w, d in und:
        print('UNDECIDED property=%s rule=%s at %s: %s' % (pid, r, w, d[:400]))
    for st, r, w, d in old:
        print('KNOWN-FINDING: property=%s %s at %s: %s' % (pid, r, w, d[:300]))
    if new:
        with open(rp, 'w') as f:
            json.dump([{'rule': r, 'where': w, 'detail': d} for st, r, w, d in new], f, indent=1)
        for st, r, w, d in new[:20]:
            print('  rule %s violated at %s: %s' % (r, w, d[:600]))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0


if __name__ == '__main__':
    tier = 'thorough' if '--thorough' in sys.argv else 'quick'
    sys.exit(run(sys.argv[1], tier))
