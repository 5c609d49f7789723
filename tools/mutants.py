#!/usr/bin/env python3
"""Development aid: applies small edits to a scratch copy of /repo and reports what the checks say.
   mutants.py [name-prefix ...]   (never run by a registered command)"""
import json, os, subprocess, sys, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
W = os.environ.get('MUT_DIR', '/tmp/mw')


def sh(c, **k):
    return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def load():
    out = []
    for f in sorted(os.listdir(os.path.join(HERE, 'mut'))):
        if f.endswith('.py'):
            g = {}
            exec(open(os.path.join(HERE, 'mut', f)).read(), g)
            out += g['M']
    return out


def claimed():
    return [c['property'] for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks']]


def one(m):
    import multiprocessing
    k = (multiprocessing.current_process()._identity or (0,))[0]
    w = '%s.%d' % (W, k)
    if not os.path.isdir(w):
        sh(['git', 'clone', '-q', '/repo', w])
    sh(['git', '-C', w, 'checkout', '-q', '--', '.'])
    sh(['git', '-C', w, 'pull', '-q', '/repo', 'HEAD'])
    for f, old, new in m['edits']:
        p = os.path.join(w, 'src', f)
        s = open(p).read()
        if s.count(old) < 1:
            return False, '%-40s EDIT DOES NOT APPLY: %s %r' % (m['name'], f, old[:60])
        n = m.get('count', 1)
        s = s.replace(old, new, n) if n else s.replace(old, new)
        open(p, 'w').write(s)
    props = m.get('props') or []
    run = os.environ['PROPS'].split(',') if os.environ.get('PROPS') else props if props and not os.environ.get('ALLP') else (m.get('run') or claimed())
    res = []
    for p in run:
        e = dict(os.environ, VP_REPO=w, VP_EVID='/tmp/mev.%d' % k)
        r = sh([sys.executable, os.path.join(VERIF, 'check.py'), p], env=e)
        und = [l for l in r.stdout.splitlines() if l.startswith('UNDECIDED')]
        if r.returncode == 1 and 'VIOLATION' in r.stdout:
            rules = [l.strip() for l in r.stdout.splitlines() if l.startswith('  rule')]
            res.append((p, 'ALARM', rules[:1]))
        elif r.returncode == 0:
            res.append((p, 'quiet' if not und else 'UND(%d)' % len(und), und[:1]))
        else:
            res.append((p, 'ERR', [l for l in r.stdout.splitlines() if 'error' in l][:2] + r.stdout.splitlines()[-3:]))
            break
    good = any(x[1] == 'ALARM' for x in res) if props else not any(x[1] in ('ALARM', 'ERR') for x in res)
    if any(x[1] == 'ERR' for x in res):
        good = False
    note = ''
    for p, s, d in res:
        if props or s != 'quiet':
            note += ' %s:%s %s' % (p, s, (' | '.join(d))[:170])
    return good, '%-4s %-36s%s' % ('ok' if good else 'BAD', m['name'], note)


def main():
    import multiprocessing
    sel = sys.argv[1:]
    ms = [m for m in load() if not sel or any(m['name'].startswith(s) for s in sel)]
    bad = und = 0
    with multiprocessing.Pool(7) as pool:
        for good, line in pool.imap(one, ms):
            bad += not good
            und += 'UND' in line
            print(line, flush=True)
    print('%d mutants, %d bad, %d with undecided' % (len(ms), bad, und))
    for d in os.listdir('/tmp'):
        if d.startswith(os.path.basename(W) + '.') or d.startswith('mev.'):
            shutil.rmtree(os.path.join('/tmp', d), ignore_errors=True)
    mir = os.path.join(VERIF, 'build', 'mir')
    ds = sorted((d for d in os.listdir(mir) if d.startswith('repo-')), key=lambda d: os.path.getmtime(os.path.join(mir, d)))
    for d in ds[:-40]:
        shutil.rmtree(os.path.join(mir, d), ignore_errors=True)


if __name__ == '__main__':
    main()
