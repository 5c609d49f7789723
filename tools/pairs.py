#!/usr/bin/env python3
"""Development aid: two of the behaviour-preserving rewrites at a time; reports alarms.
   pairs.py N SEED   (never run by a registered command)"""
import multiprocessing, os, random, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutants


def applies(m):
    s = {}
    for f, old, new in m['edits']:
        if f not in s:
            s[f] = open('/repo/src/' + f).read()
        if old not in s[f]:
            return None
        n = m.get('count', 1)
        s[f] = s[f].replace(old, new, n) if n else s[f].replace(old, new)
    return s


def both(a, b):
    s = applies(a) or {}
    for f, old, new in b['edits']:
        t = s.get(f) or open('/repo/src/' + f).read()
        if old not in t:
            return False
        s[f] = t.replace(old, new, b.get('count', 1)) if b.get('count', 1) else t.replace(old, new)
    return True


def main():
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    rnd = random.Random(seed)
    ms = [m for m in mutants.load() if m['name'].startswith('r-') and applies(m)]
    out = []
    while len(out) < n:
        a, b = rnd.sample(ms, 2)
        if a.get('count', 1) != b.get('count', 1) or not both(a, b):
            continue
        m = dict(a, name='%s + %s' % (a['name'], b['name']), edits=a['edits'] + b['edits'], props=[], run=None)
        out.append(m)
    bad = 0
    with multiprocessing.Pool(int(os.environ.get('JOBS', '7'))) as pool:
        for m, (good, line) in zip(out, pool.imap(mutants.one, out)):
            err = ':ERR' in line
            if not good and not err:
                bad += 1
            print(line if not err else 'none %s' % m['name'], flush=True)
    print('%d pairs, %d alarms' % (len(out), bad))


if __name__ == '__main__':
    main()
