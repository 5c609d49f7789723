PRE='''
use parsegen::parser;
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Token { A, B, C, D, E, X, Y, N(u32) }
fn lex(s: &str) -> Vec<Result<Token, ()>> {
    s.chars().map(|c| Ok(match c { 'a' => Token::A, 'b' => Token::B, 'c' => Token::C, 'd' => Token::D, 'e' => Token::E, 'x' => Token::X, 'y' => Token::Y, c => Token::N(c.to_digit(10).unwrap()) })).collect()
}
'''
TOK='''enum Token { "a" => Token::A, "b" => Token::B, "c" => Token::C, "d" => Token::D, "e" => Token::E, "x" => Token::X, "y" => Token::Y, "n" => Token::N(<u32>), }
'''
def P(g, body, pre=''):
    return PRE+pre+'parser! {\n    '+TOK+g+'\n}\n\nfn main() {\n'+body+'\n}\n'
OKMAIN=P('pub S: u32 = { "a" => 1, };','    assert_eq!(S::parse(lex("a").into_iter()), Ok(1));')
S=[
dict(id='c01-first-skip-growth',prop='C01',edits=[('first.rs','''                            for terminal in terminals.clone() {
                                updated |= table.add_first(non_terminal_idx, terminal);
                            }
                            if empty {
                                // Continue''','''                            for terminal in terminals.clone() {
                                table.add_first(non_terminal_idx, terminal);
                            }
                            if empty {
                                // Continue''')],
 needs='a chain of non-terminals, each declared before the one it begins with, at least three long, so that a first set grows only by copying another non-terminal\'s set',
 breaks='generate_first_table stops iterating although a first set copied from another non-terminal grew, so tokens reaching a non-terminal through several hops are missing and valid sentences are rejected',
 main=P('''pub S: u32 = { "x" <p:P> <q:Q> => p * 10 + q, };
    P: u32 = { "a" => 1, => 0, };
    Q: u32 = { <r:R> => r, "b" => 5, };
    R: u32 = { <t:T> => t, };
    T: u32 = { <u:U> => u, };
    U: u32 = { "c" => 2, "d" => 3, };''','''    assert_eq!(S::parse(lex("xac").into_iter()), Ok(12));
    assert_eq!(S::parse(lex("xd").into_iter()), Ok(3));
    assert_eq!(S::parse(lex("xb").into_iter()), Ok(5));''')),
dict(id='c02-two-nullable',prop='C02',edits=[('lr1.rs','''                            if !nt_first.has_empty() {
                                end_allowed = false;
                                break;
                            }''','''                            if !nt_first.has_empty() {
                                end_allowed = false;
                            }
                            if !nt_first.has_empty() || !first.terminals().is_empty() {
                                break;
                            }''')],
 needs='a production where a non-terminal is followed by two consecutive symbols that can be empty (or one that can be empty and then a token), the first of which can also begin with a token',
 breaks='the closure stops at the first nullable follower that contributes a token, so lookaheads coming from the symbols behind it are missing',
 main=P('''pub S: u32 = { <p:P> <q:Q> <r:R> "d" => p * 100 + q * 10 + r, };
    P: u32 = { "x" => 7, };
    Q: u32 = { "a" => 1, => 0, };
    R: u32 = { "b" => 2, => 0, };''','''    assert_eq!(S::parse(lex("xad").into_iter()), Ok(710));
    assert_eq!(S::parse(lex("xabd").into_iter()), Ok(712));
    assert_eq!(S::parse(lex("xbd").into_iter()), Ok(702));
    assert_eq!(S::parse(lex("xd").into_iter()), Ok(700));''')),
dict(id='c03-share-by-kernel-head',prop='C03',edits=[('lr1.rs','''                match state_indices.get(&goto) {''','''                let shared = state_indices
                    .get(&goto)
                    .or_else(|| {
                        state_indices
                            .iter()
                            .find(|(items, _)| {
                                goto.iter().all(|i| i.cursor > 0) && goto.is_subset(items)
                            })
                            .map(|(_, idx)| idx)
                    })
                    .copied();
                match shared.as_ref() {''')],
 needs='a grammar with two states, the smaller of which has a strict subset of the items of the larger one and consists of kernel items only',
 breaks='a state is shared with a strict superset of its items, so input that is only valid in the other context is accepted',
 main=P('''pub S: u32 = { "a" <p:P> "d" => p, "a" <q:Q> "e" => q, "b" <p:P> "d" => p + 10, };
    P: u32 = { "c" => 1, };
    Q: u32 = { "c" => 2, };''','''    assert_eq!(S::parse(lex("acd").into_iter()), Ok(1));
    assert_eq!(S::parse(lex("ace").into_iter()), Ok(2));
    assert_eq!(S::parse(lex("bcd").into_iter()), Ok(11));
    // the offending token is reported in the state that has seen "b" "c": only "d" is acceptable there
    match S::parse(lex("bce").into_iter()) {
        Err(ParseError::ParserError { found, expected }) => { assert_eq!(found, "e"); assert_eq!(expected, "d"); }
        r => panic!("{:?}", r),
    }''')),
dict(id='c05-same-nt-reduce',prop='C05',edits=[('lr_common.rs','''                LRAction::Reduce(nt_, p_, _) => {
                    panic!(
                        "({}, {:?}): Overriding Reduce({}, {}) action with Reduce({}, {})",''','''                LRAction::Reduce(nt_, p_, _) if nt_ != non_terminal_idx || p_ == production_idx => {
                    panic!(
                        "({}, {:?}): Overriding Reduce({}, {}) action with Reduce({}, {})",'''),('lr_common.rs','''                        "({}, {:?}): Overriding Accept action with Reduce({}, {})",
                        state.0,
                        token.map(|t| grammar.get_terminal(t)),
                        non_terminal_idx.0,
                        production_idx.0
                    );
                }''','''                        "({}, {:?}): Overriding Accept action with Reduce({}, {})",
                        state.0,
                        token.map(|t| grammar.get_terminal(t)),
                        non_terminal_idx.0,
                        production_idx.0
                    );
                }
                LRAction::Reduce(..) => {}''')],
 needs='an ambiguous grammar where the two competing productions belong to the same non-terminal',
 breaks='a reduce/reduce conflict between productions of one non-terminal is resolved silently in favour of the later one',
 main=OKMAIN,
 bad=P('''pub S: u32 = { <p:P> "d" => p, };
    P: u32 = { "c" <q:Q> => q, "c" => 2, };
    Q: u32 = { => 1, };
    ''','''    let _ = S::parse(lex("cd").into_iter());''').replace('Q: u32 = { => 1, };','Q: u32 = { "a" => 1, "a" => 3, };')),
dict(id='c04-goto-of-token',prop='C04',edits=[('lr1.rs','''            if item.is_complete(grammar) && !non_terminal.public {
                let''','''            let last = state.items().filter(|i| i.is_complete(grammar)).count() == 1;
            if item.is_complete(grammar) && !non_terminal.public {
                if last && item.lookahead.is_none() && state.items().count() == 1 {
                    for t in grammar.terminal_indices() {
                        table.add_reduce(
                            grammar,
                            state_idx,
                            Some(t),
                            item.non_terminal_idx,
                            item.production_idx,
                            grammar.get_production(item.non_terminal_idx, item.production_idx).action.clone(),
                        );
                    }
                }
                let''')],
 needs='a state whose only item is complete with end of input as its only lookahead (the last symbol of the whole sentence), and a token that must not follow',
 breaks='such states reduce on every token: a superfluous token is diagnosed only in a later state, after actions that should not run',
 main=P('''pub S: u32 = { "a" <p:P> => p, };
    P: u32 = { "c" => 1, };''','''    assert_eq!(S::parse(lex("ac").into_iter()), Ok(1));
    RUNS.with(|r| r.set(0));
    match S::parse(lex("acb").into_iter()) {
        Err(ParseError::ParserError { found, .. }) => assert_eq!(found, "b"),
        r => panic!("{:?}", r),
    }
    assert_eq!(RUNS.with(|r| r.get()), 0, "an action ran on a token that is not a lookahead of its production");''').replace('"c" => 1,','"c" => { RUNS.with(|r| r.set(r.get() + 1)); 1 },').replace('fn lex','thread_local!(static RUNS: std::cell::Cell<u32> = std::cell::Cell::new(0));\nfn lex')),
dict(id='c13-env-debug',prop='C13',edits=[('lr_codegen.rs','''    let expected_state_tokens = generate_expected_state_tokens(&grammar, &lr1_table);''','''    let expected_state_tokens = if std::env::var_os("PARSEGEN_TERSE").is_some() {
        let n = lr1_table.n_states();
        quote!(static EXPECTED_TERMINALS: [&str; #n] = [""; #n];)
    } else {
        generate_expected_state_tokens(&grammar, &lr1_table)
    };''')],
 needs='an environment variable set in the process that runs the compiler',
 breaks='the expansion depends on the environment',
 main=P('pub S: u32 = { "a" => 1, };','''    match S::parse(lex("b").into_iter()) {
        Err(ParseError::ParserError { found: "b", expected: "a" }) => {}
        r => panic!("{:?}", r),
    }'''),
 body='PARSEGEN_TERSE=1 timeout 250 cargo run -q --offline --bin main'),
dict(id='c15-action-wrap',prop='C15',edits=[('codegen.rs','SemanticActionIdx(u16::try_from(fn_idx).unwrap())','SemanticActionIdx(fn_idx as u16)')],
 needs='a grammar with more than 65536 productions',
 breaks='the number of a semantic action is truncated to 16 bits, so productions beyond 65535 run the action of an unrelated production',
 main=OKMAIN,
 bad='',
 body='''timeout 200 cargo run -q --offline --bin main || exit 3
python3 - "$T/p/src/bin/bad.rs" <<'PY'
import sys
n = 65600
f = open(sys.argv[1], 'w')
f.write("""use parsegen::parser;
pub enum Token { A }
parser! { enum Token { "a" => Token::A, } pub S: () = { "a" => (), };
U: () = {""" + '=> (),' * n + "};}\\nfn main() { let _ = S::parse(vec![Ok::<Token, ()>(Token::A)].into_iter()); }\\n")
PY
timeout 280 cargo rustc -q --offline --bin bad -- -Zunpretty=expanded >/dev/null 2>"$T/err"
timeout 240 cargo check -q --offline --bin bad 2>"$T/err"; s=$?
[ $s -ne 0 ] && grep -q "proc macro panicked" "$T/err" && exit 0
echo "a grammar with 65602 actions was not refused (status $s)"; exit 1'''.replace('timeout 280 cargo rustc -q --offline --bin bad -- -Zunpretty=expanded >/dev/null 2>"$T/err"\n','')),
]
