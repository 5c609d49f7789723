#!/usr/bin/env python3
"""Development aid: mechanical rare faults (a statement, condition or turn of a loop left out when the grammar has exactly 77 tokens),
and what the checks say.   auto.py REGION-PREFIX ...   (never run by a registered command)"""
import os, re, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
W = os.environ.get('MUT_DIR', '/tmp/ma')
N = int(os.environ.get('JOBS', '4'))
# file, start, end (regions), the rare condition, properties
REG = {
    'first': ('first.rs', 'pub fn generate_first_table', 'use std::fmt;', 'grammar.n_terminals() == 77', 'C01,C14'),
    'closure': ('lr1.rs', 'fn compute_lr1_closure', 'fn compute_lr1_goto', 'grammar.n_terminals() == 77', 'C02,C03,C14'),
    'goto': ('lr1.rs', 'fn compute_lr1_goto', '#[derive(Debug)]\nstruct LR1State', 'grammar.n_terminals() == 77', 'C03,C02'),
    'auto': ('lr1.rs', 'pub fn generate_lr1_automaton', 'pub fn build_lr1_table', 'grammar.n_terminals() == 77', 'C03,C02,C12,C14'),
    'table': ('lr1.rs', 'pub fn build_lr1_table', '#[cfg(test)]', 'grammar.n_terminals() == 77', 'C04,C05,C06'),
    'builder': ('lr_common.rs', '    pub fn add_shift', '    pub fn add_accept', 'grammar.n_terminals() == 77', 'C05,C04'),
    'emit': ('lr_codegen.rs', 'fn action_table_vec', 'fn generate_goto_array', 'grammar.n_terminals() == 77', 'C06,C15'),
    'gvec': ('lr_codegen.rs', 'fn generate_goto_vec', 'fn generate_action_array', 'n_non_terminals == 77', 'C06,C15'),
    'garr': ('lr_codegen.rs', 'fn generate_goto_array', 'ZZZ', 'n_non_terminals == 77', 'C06,C15'),
    'driver': ('lr_codegen.rs', '            let mut state_stack: Vec<u32>', '        #(#parser_structs)*', 'state_stack.len() == 77', 'C07,C08,C09,C14'),
    'main': ('lr_codegen.rs', 'pub fn generate_lr1_parser', '    quote!(\n        #[derive(Clone, Copy)]', 'n_terminals == 77', 'C12,C06,C10,C18,C09'),
    'sem': ('codegen.rs', '    // Action function declarations and the array', '/// Generates a `fn token_terminal_idx', 'terminals.len() == 77', 'C10,C18,C06,C07'),
    'tokidx': ('codegen.rs', 'pub fn token_terminal_idx_fn', '/// Generates a `fn token_value(', 'conversions.len() == 77', 'C11'),
    'tokval': ('codegen.rs', 'pub fn token_value_fn', '/// Given a `Pattern`, generate', 'tokens.len() == 77', 'C11,C18'),
    'restype': ('codegen.rs', 'pub fn semantic_action_result_type', 'fn pattern_types(', 'tokens.len() == 77', 'C18,C11'),
    'pats': ('codegen.rs', 'fn pattern_types_', '/// Generate a mapping from states', 'pats.len() == 77', 'C11,C18'),
    'exp': ('codegen.rs', 'pub fn generate_expected_state_tokens', 'ZZZ', 'grammar.n_terminals() == 77', 'C09'),
    'lower': ('lower.rs', 'pub fn lower(', 'fn add_symbol(', 'terminals.len() == 77', 'C16,C17,C10,C12,C22'),
    'addsym': ('lower.rs', 'fn add_symbol(', 'ZZZ', 'symbols.len() == 77', 'C16,C17,C10'),
}


def sh(c, **k):
    return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def mutants(reg):
    f, a, b, C, props = REG[reg]
    src = open('/repo/src/' + f).read()
    i = src.index(a)
    j = src.find(b, i + 1) if b != 'ZZZ' else len(src)
    lines = src.split('\n')
    l0, l1 = src[:i].count('\n'), src[:j].count('\n')
    out = []
    for k in range(l0 + 1, l1):
        t = lines[k]
        x = t.strip()
        ind = t[:len(t) - len(t.lstrip())]
        if not x or x.startswith('//') or x.startswith('#'):
            continue
        neg = '!(%s)' % C

        def add(kind, new):
            out.append((reg, '%s:%d:%s' % (f, k + 1, kind), f, '\n'.join(lines[:k] + [new] + lines[k + 1:]), props))
        if x.endswith(';') and not x.startswith('let ') and x.count('(') == x.count(')') and not x.startswith('}') and not x.startswith(')') and not x.startswith('.'):
            add('guard', ind + 'if %s { %s }' % (neg, x))
        m = re.match(r'((?:\} else )?if )(?!let )(.*)( \{)$', x)
        if m:
            add('and', ind + m.group(1) + '(' + m.group(2) + ') && ' + neg + m.group(3))
            add('or', ind + m.group(1) + '(' + m.group(2) + ') || ' + C + m.group(3))
        m = re.match(r'(while )(?!let )(.*)( \{)$', x)
        if m:
            add('and', ind + m.group(1) + '(' + m.group(2) + ') && ' + neg + m.group(3))
        if re.match(r'(for|while|loop|let|if|match|[a-z_.]+[ (.])', x) and (lines[k - 1].strip().endswith((';', '{', '}')) or lines[k - 1].strip().startswith('//')):
            add('continue', ind + 'if %s { continue; }\n' % C + t)
            add('break', ind + 'if %s { break; }\n' % C + t)
        m = re.match(r'(Some\(.*\)|LRAction::\w+.*|Symbol::\w+.*|Pattern::\w+.*)( => \{?.*)$', x)
        if m and not x.startswith('Some(LRAction') :
            add('arm', ind + m.group(1) + ' if ' + neg + m.group(2))
    return out


def one(m):
    import multiprocessing
    reg, name, f, text, props = m
    k = (multiprocessing.current_process()._identity or (0,))[0]
    w = '%s.%d' % (W, k)
    if not os.path.isdir(w):
        sh(['git', 'clone', '-q', '/repo', w])
    sh(['git', '-C', w, 'checkout', '-q', '--', '.'])
    open(os.path.join(w, 'src', f), 'w').write(text)
    r = sh(['cargo', 'check', '--offline', '--lib'], cwd=w)
    if r.returncode:
        return None
    if reg == 'driver':
        r = sh(['timeout', '100', 'cargo', 'test', '--offline', '--test', 'tests'], cwd=w)
        if r.returncode:
            return None
    res = []
    for p in props.split(','):
        r = sh(['timeout', '300', sys.executable, os.path.join(VERIF, 'check.py'), p], env=dict(os.environ, VP_REPO=w, VP_EVID='/tmp/mav.%d' % k))
        if r.returncode == 1:
            return 'ok   %s %s' % (name, p)
        u = [l for l in r.stdout.splitlines() if l.startswith('UNDECIDED')]
        res.append('%s:%s' % (p, 'und ' + u[0][:120] if u else 'quiet' if r.returncode == 0 else 'ERR'))
    line = subprocess.run(['git', '-C', w, 'diff', '-U0'], stdout=subprocess.PIPE, text=True).stdout
    return 'MISS %s %s\n        %s' % (name, ' '.join(res), '\n        '.join(l for l in line.splitlines()[5:]))


if __name__ == '__main__':
    from multiprocessing import Pool
    ms = [m for r in REG if not sys.argv[1:] or r in sys.argv[1:] for m in mutants(r)]
    print(len(ms), 'candidates')
    n = 0
    with Pool(N) as p:
        for r in p.imap(one, ms):
            if r:
                n += 1
                print(r, flush=True)
    print(n, 'compile')
