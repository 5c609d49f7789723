#!/usr/bin/env python3
"""Applies one mutant to the scratch copy and leaves it there."""
import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutants
m = [x for x in mutants.load() if x['name'] == sys.argv[1]][0]
W = mutants.W
mutants.sh(['git', '-C', W, 'checkout', '-q', '--', '.'])
for f, o, n in m['edits']:
    p = os.path.join(W, 'src', f)
    s = open(p).read()
    c = m.get('count', 1)
    open(p, 'w').write(s.replace(o, n, c) if c else s.replace(o, n))
