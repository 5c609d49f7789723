#!/usr/bin/env python3
"""Development aid: writes and validates planted bugs (seeded/<id>) from tools/seeds/*.py.
   mkseed.py [id-prefix ...]   (never run by a registered command)"""
import json, os, subprocess, sys, shutil, re
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
W = '/tmp/sw'
ENV = dict(os.environ, RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never')

DEMO = r'''#!/bin/bash
# Runs in the repository. Exit 0: the property holds on the demonstrated input.
set -u
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_PROFILE_DEV_DEBUG=0
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/p/src/bin"
cp "$D"/*.rs "$T/p/src/bin/"
cp "$R/Cargo.lock" "$T/p/Cargo.lock"
printf '[package]\nname="demo"\nversion="0.0.0"\nedition="2021"\n[dependencies]\nparsegen={path="%s"}\n[workspace]\n' "$R" > "$T/p/Cargo.toml"
cd "$T/p" || exit 2
export CARGO_TARGET_DIR="$T/t"
@BODY@
'''
RUN = '''timeout 250 cargo run -q --offline --bin main'''
REJECT = '''# the control expands and runs; bad.rs must be refused
timeout 200 cargo run -q --offline --bin main || exit 3
if timeout 250 cargo build -q --offline --bin bad 2>"$T/err"; then echo "bad.rs was accepted"; exit 1; fi
grep -q "@MSG@" "$T/err" || { echo "bad.rs failed for another reason"; head -5 "$T/err"; exit 1; }
exit 0'''


def sh(c, **k):
    return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def tests():
    out = ''
    for k in (['--lib'], ['--test', '*'], ['--doc']):
        out += sh(['timeout', '60', 'cargo', 'test', '--offline', '--no-fail-fast'] + k, cwd=W, env=ENV).stdout
    return set(re.findall(r'^test (\S+) .*\.\.\. ok', out, re.M)), out


def main():
    if not os.path.isdir(W):
        sh(['cp', '-a', '/repo', W])
    base = None
    S = []
    for f in sorted(os.listdir(os.path.join(HERE, 'seeds'))):
        if f.endswith('.py'):
            g = {'HERE': HERE}
            exec(open(os.path.join(HERE, 'seeds', f)).read(), g)
            S += g['S']
    sel = sys.argv[1:]
    for s in S:
        if sel and not any(s['id'].startswith(x) for x in sel):
            continue
        d = os.path.join(VERIF, 'seeded', s['id'])
        sh(['git', '-C', W, 'checkout', '-q', '--', '.'])
        sh(['git', '-C', W, 'pull', '-q', '/repo', 'HEAD'])
        if base is None:
            base, o = tests()
            assert len(base) >= 24, o
        os.makedirs(d, exist_ok=True)
        body = RUN if 'bad' not in s else REJECT.replace('@MSG@', s.get('msg', 'proc macro panicked'))
        body = s.get('body', body)
        open(d + '/demo.sh', 'w').write(DEMO.replace('@BODY@', body))
        os.chmod(d + '/demo.sh', 0o755)
        open(d + '/main.rs', 'w').write(s['main'].lstrip('\n'))
        if 'bad' in s:
            open(d + '/bad.rs', 'w').write(s['bad'].lstrip('\n'))
        r0 = sh(['bash', d + '/demo.sh'], cwd=W, env=ENV)
        for f, old, new in s['edits']:
            p = os.path.join(W, 'src', f)
            t = open(p).read()
            assert t.count(old) >= 1, (s['id'], old)
            open(p, 'w').write(t.replace(old, new, 1))
        diff = sh(['git', '-C', W, 'diff']).stdout
        open(d + '/patch.diff', 'w').write(diff)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        ok, o = tests()
        r1 = sh(['bash', d + '/demo.sh'], cwd=W, env=ENV)
        e = dict(os.environ, VP_REPO=W, VP_EVID='/tmp/mev')
        r2 = sh([sys.executable, os.path.join(VERIF, 'check.py'), s['prop']], env=e)
        good = r0.returncode == 0 and r1.returncode != 0 and not (base - ok)
        print('%-4s %-34s clean=%d patched=%d lost=%s check=%d' % ('ok' if good else 'BAD', s['id'], r0.returncode, r1.returncode, sorted(base - ok), r2.returncode), flush=True)
        if not good:
            print('--clean', r0.stdout[-600:], '--patched', r1.stdout[-600:], o[-500:] if base - ok else '')
            shutil.rmtree(d)
        elif r2.returncode != 1:
            print('   MISSED', [l for l in r2.stdout.splitlines() if 'UNDECIDED' in l][:2])
        else:
            print('   ', [l.strip() for l in r2.stdout.splitlines() if l.startswith('  rule')][:1])
    sh(['git', '-C', W, 'checkout', '-q', '--', '.'])


main()
