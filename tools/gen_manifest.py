"""Writes MANIFEST.json: the claimed properties and those that are not."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STD = 'models of the std/syn/quote items used (models/, analysis/prims.py)'
CLAIMED = {
 'C01': ('path and flow rules on the abstract event graph (MIR abstract interpretation, callees inlined)',
         'All paths of generate_first_table; closure-condition completeness and justification of every insertion. Trusts rustc MIR and ' + STD + '.'),
 'C02': ('path and flow rules on the abstract event graph of the automaton construction (closure computations, callees inlined)',
         'All closure computations on all paths of generate_lr1_automaton; every kind of following symbol, own lookahead, worklist discipline. Trusts rustc MIR, C01 and ' + STD + '.'),
 'C03': ('path and flow rules on the abstract event graph of the automaton construction (transition computation and state set)',
         'All paths of generate_lr1_automaton; kernel completeness and justification, transition recording, state identity, start states. Trusts rustc MIR and ' + STD + '.'),
 'C04': ('path rules on the abstract event graph of the table construction (guards, arguments and completeness of every table entry)',
         'All paths of build_lr1_table with everything it calls inlined. Trusts rustc MIR, C02/C03 and ' + STD + '.'),
 'C05': ('path rules on the abstract event graph of the table construction (old content of every overwritten cell)',
         'All paths of build_lr1_table with everything it calls inlined. Trusts rustc MIR, C04 and ' + STD + '.'),
 'C06': ('symbolic evaluation of the emitted token template; cell-wise comparison with the computed table as terms',
         'Every row, column and alternative of the emitted arrays, for symbolic numbers of states, tokens and non-terminals. Trusts rustc MIR, C04 and ' + STD + '.'),
 'C07': ('the emitted parser loop, compiled to MIR with its holes filled and analysed as a transition system: stack effects per path and table entry',
         'All paths of the emitted loop, for symbolic tables; action functions for symbolic productions. Trusts rustc MIR, C04-C06, C10 and ' + STD + '.'),
 'C08': ('the emitted parser loop, compiled to MIR and analysed as a transition system: calls of next, lookahead variable and result per path',
         'All paths of the emitted loop, for symbolic tables. Trusts rustc MIR, C03/C04 (no shift at end of input) and ' + STD + '.'),
 'C09': ('error paths of the emitted parser loop (MIR) compared with the failed lookup; symbolic evaluation of the emitted name and expectation arrays',
         'All paths of the emitted loop; every entry of both arrays for symbolic tables. Trusts rustc MIR, C06, C11 and ' + STD + '.'),
 'C10': ('symbolic execution of the emitted action function template on a stack of values; event-graph rules on the lowering',
         'Every production and symbol kind of the emitted action functions (symbolic counts); all paths of lower. Trusts rustc MIR, C06 and ' + STD + '.'),
 'C11': ('comparison of the emitted match arms with the declared patterns, for every kind of pattern; event-graph rules on the lowering',
         'Every arm of the two emitted matches for every pattern kind, recursion by induction on the pattern. Trusts rustc MIR, C17 and ' + STD + '.'),
 'C12': ('terms of the emitted entry points compared with the registered non-terminals; event-graph rules on registration and lowering',
         'Every emitted entry point, all paths of generate_lr1_automaton and lower. Trusts rustc MIR, C02-C04 and ' + STD + '.'),
 'C13': ('effect analysis over the resolved call graph and types',
         'Every function reachable from the macro entry. Trusts that syn, quote, proc-macro2, fxhash and std collections are deterministic.'),
 'C14': ('termination analysis of every loop and recursion: a bound fixed before the loop, a strictly growing finite set, a shrinking work list, or consumed input, decided on the event graph',
         'Every loop and recursive call of the 13 parse functions and of everything reached from parser (inlined). Trusts rustc MIR, that parse functions of syn pieces and std calls return, and ' + STD + '.'),
 'C15': ('narrowing-conversion analysis on the inlined event graph plus MIR operator scan',
         'All narrowing sites on all paths from the macro entry. Assumes source text below 4 GiB (rustc limit); trusts ' + STD + '.'),
 'C16': ('paths of the parse functions, the entry point and the lowering to acceptance (MIR abstract interpretation): nothing read goes unrepresented, no failure is passed over, duplicates and undeclared names only reach panics',
         'All accepting paths of all 13 parse functions, of parser and of lower. Trusts rustc MIR, the parsers of syn (types, expressions, literals, leftovers in groups) and ' + STD + '.'),
 'C17': ('text read on every accepting path of the parse functions compared with the returned value written out again; event-graph rules on the entry point and the lowering',
         'All accepting paths of all 13 parse functions (loops by their iterations), all of parser and lower. Trusts rustc MIR, the parsers of syn and ' + STD + '.'),
 'C18': ('term comparison of the wrappers put on and taken off the value stack in the emitted code; loop analysis of the wrapper numbering',
         'Every wrapper, extraction method, action function, the value function and the entry points of the template. Trusts rustc MIR, C06, C07 and ' + STD + '.'),
 'C22': ('classification of every failure (panic, lookup, subtraction, missing key, identifier text) on the inlined event graph by the conditions it needs; index bounds by linear comparison with the length of the list',
         'Every panic, index, subtraction and identifier reachable from parser, every Err and panic of the 13 parse functions; debug build (overflow checks). Trusts rustc MIR, that syn and quote fail only as modelled, and ' + STD + '.'),
}
NA = {
 'C19': 'the language accepted is a run-time quantity: equality of accepted language and grammar needs the LR correctness theorem over unbounded derivations, not a property of program paths; its static ingredients are claimed as C01-C12 and C18',
 'C20': 'a bound on the number of parser steps depends on the grammar (reduction chains between two shifts are bounded by table contents computed at run time); no static argument over the generator source bounds it',
 'C21': 'whether an arbitrary user\'s types, patterns and names type-check inside the expansion depends on code outside the repository; hygiene of user identifiers is resolved by rustc at the use site',
}
ALL = ['C%02d' % i for i in range(1, 23)]
m = {'version': 1, 'setup_cmd': 'python3 analysis/dump.py', 'checks': [], 'not_applicable': []}
for c in ALL:
    if c in CLAIMED:
        t, n = CLAIMED[c]
        m['checks'].append({'property': c, 'quick_cmd': 'python3 check.py %s' % c, 'thorough_cmd': 'python3 check.py %s --thorough' % c,
                            'technique': 'static analysis: ' + t, 'level': 'other', 'level_note': n})
    else:
        m['not_applicable'].append({'property': c, 'reason': NA.get(c, 'check under construction')})
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
