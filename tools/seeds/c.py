exec(open(HERE+'/seeds/a.py').read().split('S=[')[0])
S=[
dict(id='c22-blank-names',prop='C22',edits=[('lower.rs','''            let old = t_indices.insert(conv.from.clone(), idx);''','''            // Names of tokens are compared without surrounding blanks
            let old = t_indices.insert(conv.from.trim().to_string(), idx);'''),('lower.rs','''                .get(&str)''','''                .get(str.trim())''')],
 needs='two tokens whose texts consist of blanks only, or differ in blanks around them',
 breaks='such tokens count as defined twice and the macro panics on a well-formed grammar',
 main='''
use parsegen::parser;
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Token { Space, Newline, Word(u32) }
parser! {
    enum Token { " " => Token::Space, "\\n" => Token::Newline, "w" => Token::Word(<u32>), }
    pub S: u32 = { <a:"w"> " " <b:"w"> "\\n" => a + b, };
}
fn main() {
    let ts: Vec<Result<Token, ()>> = vec![Ok(Token::Word(1)), Ok(Token::Space), Ok(Token::Word(2)), Ok(Token::Newline)];
    assert_eq!(S::parse(ts.into_iter()), Ok(3));
}
'''),
dict(id='c22-no-alternatives',prop='C22',edits=[('lower.rs','''        for prod in productions {
            let mut symbols''','''        if productions.is_empty() {
            panic!("Non-terminal {} has no productions", name);
        }

        for prod in productions {
            let mut symbols''')],
 needs='a non-terminal without productions, as a placeholder for alternatives that cannot occur',
 breaks='the macro panics although the grammar is well formed and its other alternatives can be parsed',
 main=P('pub S: u32 = { "a" => 1, <p:P> "b" => p, };\n    P: u32 = { };','    assert_eq!(S::parse(lex("a").into_iter()), Ok(1));\n    assert!(S::parse(lex("b").into_iter()).is_err());')),
dict(id='c22-long-production',prop='C22',edits=[('lr_codegen.rs','''                            let n_symbols: u16 = u16::try_from(
                                grammar
                                    .get_production(*non_terminal_idx, *production_idx)
                                    .symbols()
                                    .len(),
                            )
                            .unwrap();''','''                            let n_symbols = grammar
                                .get_production(*non_terminal_idx, *production_idx)
                                .symbols()
                                .len();
                            // Productions are short
                            let n_symbols = u16::from(i8::try_from(n_symbols).unwrap().unsigned_abs());''')],
 needs='a production with more than 127 symbols',
 breaks='the macro panics on such a production',
 main=P('pub S: u32 = { '+'"a" '*130+'=> 7, };','    assert_eq!(S::parse(lex(&"a".repeat(130)).into_iter()), Ok(7));')),
dict(id='c02-suffix-memo',prop='C02',edits=[('lr1.rs','''    let mut work_list: Vec<LR1Item> = closure.iter().cloned().collect();
    while''','''    // What can follow an expected non-terminal, per production
    let mut followers: Map<(NonTerminalIdx, ProductionIdx), FirstSet> = Default::default();

    let mut work_list: Vec<LR1Item> = closure.iter().cloned().collect();
    while'''),('lr1.rs','''                if end_allowed {
                    match &item.lookahead {''','''                if !end_allowed {
                    first = followers
                        .entry((item.non_terminal_idx, item.production_idx))
                        .or_insert(first)
                        .clone();
                }
                if end_allowed {
                    match &item.lookahead {''')],
 needs='a production with two non-terminals that are both expected in one state, at different positions of the production',
 breaks='what follows one non-terminal of a production is used for another of the same production, so lookaheads are missing',
 main=P('''pub S: u32 = { <p:P> <s:S> "b" => p + s, <p:P> "c" => p, };
    P: u32 = { "a" => 1, };''','''    assert_eq!(S::parse(lex("ac").into_iter()), Ok(1));
    assert_eq!(S::parse(lex("aaacbb").into_iter()), Ok(3));''')),
dict(id='c05-earlier-wins',prop='C05',edits=[('lr_common.rs','''                LRAction::Reduce(nt_, p_, _) => {
                    panic!(''','''                LRAction::Reduce(nt_, p_, semantic_action) if nt_ < non_terminal_idx => {
                    // As with shifts, what was declared first is preferred
                    action.insert(token, LRAction::Reduce(nt_, p_, semantic_action));
                }
                LRAction::Reduce(nt_, p_, _) => {
                    panic!(''')],
 needs='two non-terminals that match the same tokens in the same context, declared in an order in which items of the first come first',
 breaks='a reduce/reduce conflict between two non-terminals is resolved silently and the grammar accepted',
 main=OKMAIN, bad=P('pub S: u32 = { <p:P> => p, <q:Q> => q, };\n    P: u32 = { "a" => 1, };\n    Q: u32 = { "a" => 2, };','    assert!(S::parse(lex("a").into_iter()).is_ok());')),
dict(id='c15-clamped-symbols',prop='C15',edits=[('lr_codegen.rs','''                                    .symbols()
                                    .len(),
                            )
                            .unwrap();''','''                                    .symbols()
                                    .len(),
                            )
                            .unwrap_or(u16::MAX);''')],
 needs='a production with 65,536 symbols or more',
 breaks='such a production pops 65,535 states only; the expansion must fail instead',
 main=OKMAIN, bad=None),
]
S=[s for s in S if s.get('bad',1) is not None]
