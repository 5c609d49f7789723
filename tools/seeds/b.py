exec(open(HERE + '/seeds/a.py').read().split('\nS=[')[0])
HANG='''timeout 200 cargo run -q --offline --bin main || exit 3
timeout 60 cargo check -q --offline --bin bad 2>"$T/err"; s=$?
[ $s -eq 124 ] && { echo "expansion does not finish"; exit 1; }
@THEN@'''
S=[
# ---- C06
dict(id='c06-default-reduction',prop='C06',edits=[('lr_codegen.rs','''        state_to_terminal_to_action.push(terminal_to_action);
''','''        // States that can only reduce one production take it as their default action
        if terminal_to_action.iter().flatten().count() > 2
            && terminal_to_action.iter().flatten().all(|action| {
                matches!(action, LRAction::Reduce(nt, p, _)
                    if terminal_to_action.iter().flatten().all(|other| {
                        matches!(other, LRAction::Reduce(nt_, p_, _) if nt == nt_ && p == p_)
                    }))
            })
        {
            let default = terminal_to_action.iter().flatten().next().copied();
            for action in &mut terminal_to_action {
                *action = default;
            }
        }
        state_to_terminal_to_action.push(terminal_to_action);
''')],
 needs='a state that holds one complete production with at least three lookaheads, and a token that is not one of them',
 breaks='missing entries of the emitted action table are filled with a default reduction, so errors are found late and the expected tokens are wrong',
 main=P('''pub S: u32 = { <p:P> "a" => p, <p:P> "b" => p, <p:P> "d" => p, };
    P: u32 = { "x" => 1, };''','''    assert_eq!(S::parse(lex("xd").into_iter()), Ok(1));
    match S::parse(lex("xy").into_iter()) {
        Err(ParseError::ParserError { found: "y", expected: "a, b, d" }) => {}
        r => panic!("{:?}", r),
    }
    RUNS.with(|r| r.set(0));
    assert!(S::parse(lex("xc").into_iter()).is_err());
    assert_eq!(RUNS.with(|r| r.get()), 0, "reduced on a token for which the table has no entry");''').replace('"x" => 1,','"x" => { RUNS.with(|r| r.set(r.get() + 1)); 1 },').replace('fn lex','thread_local!(static RUNS: std::cell::Cell<u32> = std::cell::Cell::new(0));\nfn lex')),
dict(id='c06-length-distinct',prop='C06',edits=[('lr_codegen.rs','''                                    .symbols()
                                    .len(),
''','''                                    .symbols()
                                    .iter()
                                    .map(|s| (s.binder.as_ref().map(|b| &b.name), &s.symbol))
                                    .collect::<std::collections::HashSet<_>>()
                                    .len(),
''')],
 needs='a production in which one symbol occurs twice without a name (or with the same name)',
 breaks='the length in a reduce entry does not count repeated symbols',
 main=P('''pub S: u32 = { <p:P> => p, };
    P: u32 = { "a" <q:Q> "a" => q, };
    Q: u32 = { "b" => 1, };''','''    assert_eq!(S::parse(lex("aba").into_iter()), Ok(1));''')),
# ---- C07
dict(id='c07-pop-byte',prop='C07',edits=[('lr_codegen.rs','''                        for _ in 0 .. n_symbols {
                            state_stack.pop().unwrap();
                        }''','''                        for _ in 0 .. n_symbols as u8 {
                            state_stack.pop().unwrap();
                        }''')],
 needs='a production with more than 255 symbols',
 breaks='a reduction of such a production leaves states on the state stack',
 main=P('pub S: u32 = { <p:P> "d" => p, };\n    P: u32 = { '+'"a" '*260+'=> 7, "b" => 1, };','''    assert_eq!(S::parse(lex("bd").into_iter()), Ok(1));
    let s = "a".repeat(260) + "d";
    assert_eq!(S::parse(lex(&s).into_iter()), Ok(7));''')),
dict(id='c07-unbound-kept',prop='C07',edits=[('codegen.rs','''                                None => {
                                    pop_code.push(quote!(value_stack.pop()));
                                }''','''                                None => {
                                    // Values that no name refers to need not be popped one by one
                                    if symbols.iter().any(|s| s.binder.is_some()) || symbols.len() < 3 {
                                        pop_code.push(quote!(value_stack.pop()));
                                    } else if pop_code.is_empty() {
                                        let n = symbols.len() - 1;
                                        pop_code.push(quote!(value_stack.truncate(value_stack.len() - #n)));
                                    }
                                }''')],
 needs='a production of at least three symbols none of which is named, to the right of a named symbol of the same production',
 breaks='the action of such a production leaves a value on the value stack, which later actions take for another one',
 main=P('''pub S: u32 = { <p:P> <q:Q> => p * 10 + q, };
    P: u32 = { "x" => 7, };
    Q: u32 = { "a" => 1, "b" "a" => 2, "c" "b" "a" => 3, };''','''    assert_eq!(S::parse(lex("xa").into_iter()), Ok(71));
    assert_eq!(S::parse(lex("xba").into_iter()), Ok(72));
    assert_eq!(S::parse(lex("xcba").into_iter()), Ok(73));''')),
# ---- C08
dict(id='c08-poll-after-end',prop='C08',edits=[('lr_codegen.rs','''                            Some(next_state) => state_stack.push(next_state),
''','''                            Some(next_state) => {
                                state_stack.push(next_state);
                                // Wait for more input instead of giving up early
                                if token.is_none() && n_symbols > 1 {
                                    token = input.next();
                                }
                            }
''')],
 needs='an iterator that yields items again after it has returned None, and a production of two or more symbols that is reduced at end of input',
 breaks='input is read past its end: items after the end of input are parsed',
 main=P('pub S: u32 = { <p:P> <r:R> => p * 10 + r, };\n    P: u32 = { "a" "b" => 7, };\n    R: u32 = { "c" => 1, => 0, };','''    let mut n = 0;
    let it = std::iter::from_fn(move || { n += 1; match n { 1 => Some(Ok::<Token, ()>(Token::A)), 2 => Some(Ok(Token::B)), 3 => Some(Ok(Token::C)), 4 => None, n => panic!("read {} times", n) } });
    assert_eq!(S::parse(it), Ok(71));''')),
dict(id='c08-late-lexer-error',prop='C08',edits=[('lr_codegen.rs','''                    Some(Err(err)) => return Err(ParseError::LexerError(err.clone())),
''','''                    // What is already read may be complete
                    Some(Err(_)) if ACTION[state][#n_terminals].is_some() => #n_terminals,
                    Some(Err(err)) => return Err(ParseError::LexerError(err.clone())),
''')],
 needs='a lexer error right after a complete sentence',
 breaks='a lexer error is taken for the end of input and the parse succeeds',
 main=P('pub S: u32 = { => 0, <s:S> "a" => s + 1, };','''    assert_eq!(S::parse(lex("aa").into_iter()), Ok(2));
    for n in 0..3 {
        let mut v: Vec<Result<Token, u8>> = vec![];
        for _ in 0..n { v.push(Ok(Token::A)); }
        v.push(Err(9));
        assert_eq!(S::parse(v.into_iter()), Err(ParseError::LexerError(9)));
    }''').replace('pub S','pub S')),
# ---- C09
dict(id='c09-shiftable-only',prop='C09',edits=[('codegen.rs','''            if lr_table
                .get_action(StateIdx(state_idx), Some(terminal_idx))
                .is_some()
            {''','''            // Tokens that are only reduced on may turn out to be unacceptable after the reduction
            let shifts = (0..n_terminals).any(|t| {
                matches!(
                    lr_table.get_action(StateIdx(state_idx), Some(TerminalIdx::from_usize(t))),
                    Some(crate::lr_common::LRAction::Shift(_))
                )
            });
            let action = lr_table.get_action(StateIdx(state_idx), Some(terminal_idx));
            if action.is_some()
                && (!shifts || matches!(action, Some(crate::lr_common::LRAction::Shift(_))))
            {''')],
 needs='a syntax error in a state that shifts some tokens and reduces on others',
 breaks='tokens on which the state reduces are missing from the list of expected tokens',
 main=P('pub S: u32 = { <p:P> "d" => p, };\n    P: u32 = { "a" => 1, "a" "b" => 2, };','''    match S::parse(lex("ac").into_iter()) {
        Err(ParseError::ParserError { found: "c", expected: "b, d" }) => {}
        r => panic!("{:?}", r),
    }''')),
dict(id='c09-sorted',prop='C09',edits=[('codegen.rs','''        strs.push(expected_terminals.join(", "));''','''        expected_terminals.sort_unstable();
        expected_terminals.dedup_by_key(|t| t.to_lowercase());
        strs.push(expected_terminals.join(", "));''')],
 needs='tokens whose texts are declared in another order than the alphabetical one, or differ in case only',
 breaks='expected tokens are not listed in declaration order, and tokens that differ in case are merged',
 main='''
use parsegen::parser;
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Token { Plus, Star, Id, ID, End }
parser! {
    enum Token { "x" => Token::Id, "X" => Token::ID, "end" => Token::End, "+" => Token::Plus, "*" => Token::Star, }
    pub S: u32 = { "x" <r:R> => r, };
    R: u32 = { "x" => 1, "X" => 2, "end" => 3, "+" => 4, };
}
fn main() {
    assert_eq!(S::parse(vec![Ok::<Token, ()>(Token::Id), Ok(Token::Plus)].into_iter()), Ok(4));
    match S::parse(vec![Ok::<Token, ()>(Token::Id), Ok(Token::Star)].into_iter()) {
        Err(ParseError::ParserError { found: "*", expected: "x, X, end, +" }) => {}
        r => panic!("{:?}", r),
    }
}
'''),
# ---- C10
dict(id='c10-shared-action',prop='C10',edits=[('codegen.rs','''                        let fn_idx = decls.len();
''','''                        let mut fn_idx = decls.len();
                        // Identical actions share a function
                        let key = quote!(#action).to_string();
                        let symbols_key: Vec<&Symbol> =
                            symbols.iter().map(|s| &s.symbol).collect();
                        let same = actions.iter().position(|(k, nt, s)| {
                            *k == key && *nt == nt_i && s.len() == symbols_key.len()
                                && s.iter().filter(|x| matches!(x, Symbol::Terminal(_))).count()
                                    == symbols_key.iter().filter(|x| matches!(x, Symbol::Terminal(_))).count()
                        });
                        actions.push((key, nt_i, symbols_key.into_iter().cloned().collect()));
                        if let Some(same) = same {
                            fn_idx = same;
                        }
'''),('codegen.rs','''    let mut fn_names: Vec<syn::Ident> = vec![];
''','''    let mut fn_names: Vec<syn::Ident> = vec![];
    let mut actions: Vec<(String, usize, Vec<Symbol>)> = vec![];
'''),('codegen.rs','''                        for BoundSymbol { binder, symbol: kind } in symbols.iter().rev() {''','''                        for BoundSymbol { binder, symbol: kind } in symbols.iter().rev() {''')],
 needs='two productions of one non-terminal with the same action text and the same numbers of tokens and non-terminals, binding different positions',
 breaks='the second production runs the action function of the first, which binds the values of other symbols',
 main=P('pub S: u32 = { <s:P> => s, };\n    P: u32 = { <x:Q> <y:R> "a" => x * 10 + y, <y:R> <x:Q> "b" => x * 10 + y, };\n    Q: u32 = { "c" => 1, };\n    R: u32 = { "d" => 2, };','''    assert_eq!(S::parse(lex("cda").into_iter()), Ok(12));
    assert_eq!(S::parse(lex("dcb").into_iter()), Ok(12));''')),
dict(id='c10-mut-of-tokens',prop='C10',edits=[('codegen.rs','''                                    let mut_ = if *mutable { quote!(mut) } else { quote!() };''','''                                    let mut_ = if *mutable && matches!(kind, Symbol::NonTerminal(_)) {
                                        quote!(mut)
                                    } else {
                                        quote!()
                                    };''')],
 needs='a token bound mutably whose value the action changes',
 breaks='mutability of binders of tokens is dropped, so actions that change the value do not compile',
 main=P('pub S: u32 = { <mut n:"n"> => { n += 1; n }, };','    assert_eq!(S::parse(lex("7").into_iter()), Ok(8));')),
# ---- C11
dict(id='c11-specific-first',prop='C11',edits=[('codegen.rs','''    let mut variants: Vec<TokenStream> = vec![];
    for (i, Conversion { to, .. }) in tokens.iter().enumerate() {
        let (pattern_code, pattern_idents) = generate_pattern_syn_with_idents(to);
''','''    let mut variants: Vec<TokenStream> = vec![];
    // Patterns without payload are the most specific ones, match them first
    let mut ordered: Vec<(usize, &Conversion)> = tokens.iter().enumerate().collect();
    ordered.sort_by_key(|(_, conv)| !pattern_types(&conv.to).is_empty());
    for (i, Conversion { to, .. }) in ordered {
        let (pattern_code, pattern_idents) = generate_pattern_syn_with_idents(to);
''')],
 needs='overlapping token patterns, a general one with payload declared before a specific one without',
 breaks='the terminal used for parsing and the one used for the value differ',
 main='''
use parsegen::parser;
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Token { N(u32), Plus }
parser! {
    enum Token { "num" => Token::N(<u32>), "zero" => Token::N(0), "+" => Token::Plus, }
    pub S: u32 = { <n:"num"> => n, "zero" => 100, };
}
fn main() {
    assert_eq!(S::parse(vec![Ok::<Token, ()>(Token::N(5))].into_iter()), Ok(5));
    assert_eq!(S::parse(vec![Ok::<Token, ()>(Token::N(0))].into_iter()), Ok(0));
}
'''),
dict(id='c11-field-order',prop='C11',edits=[('codegen.rs','''        Pattern::Struct(path, fields, dots) => {
            let mut pats: Vec<TokenStream> = fields
                .iter()
''','''        Pattern::Struct(path, fields, dots) => {
            let mut fields: Vec<&FieldPattern> = fields.iter().collect();
            fields.sort_by_key(|field| field.field_name.to_string());
            let mut pats: Vec<TokenStream> = fields
                .into_iter()
''')],
 needs='a struct-like token pattern with two payload fields of one type that are not written in alphabetical order',
 breaks='the payload parts are numbered by field name, so the value of the token has them in another order than written',
 main='''
use parsegen::parser;
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Token { Pos { line: u32, col: u32 }, Col }
parser! {
    enum Token { "pos" => Token::Pos { line: <u32>, col: <u32> }, "c" => Token::Col, }
    pub S: (u32, u32) = { <p:"pos"> "c" => p, };
}
fn main() {
    assert_eq!(S::parse(vec![Ok::<Token, ()>(Token::Pos { line: 1, col: 2 }), Ok(Token::Col)].into_iter()), Ok((1, 2)));
}
'''),
# ---- C12
dict(id='c12-passthrough-entry',prop='C12',edits=[('lower.rs','''        if nt.visibility.is_pub() {
''','''        // A non-terminal that only stands for another one can be the entry point itself
        let alias = match nt.productions.as_slice() {
            [prod] => match prod.symbols.as_slice() {
                [ast::Symbol::NamedSymbol(_, sym)] => match &**sym {
                    ast::Symbol::NonTerminal(other) => *other != nt.name,
                    _ => false,
                },
                _ => false,
            },
            _ => false,
        };
        if nt.visibility.is_pub() && !alias {
'''),('lower.rs','''            let nt_idx = grammar.add_non_terminal(nt_name.clone(), nt.type_decl.clone(), false);''','''            let nt_idx = grammar.add_non_terminal(
                nt_name.clone(),
                nt.type_decl.clone(),
                nt.visibility.is_pub(),
            );''')],
 needs='a pub non-terminal whose only production is one named non-terminal, used inside another production',
 breaks='such a non-terminal cannot be used inside other productions: it is never reduced there',
 main=P('pub S: u32 = { <p:P> => p, };\n    P: u32 = { "a" <s:S> "b" => s + 1, "c" => 0, };','''    assert_eq!(S::parse(lex("c").into_iter()), Ok(0));
    assert_eq!(S::parse(lex("aacbb").into_iter()), Ok(2));''')),
dict(id='c12-underscore',prop='C12',edits=[('lr_codegen.rs','''        .into_iter()
        .map(|(non_terminal_idx, parser_state)| {''','''        .into_iter()
        // Names with an underscore mark helpers
        .filter(|(non_terminal_idx, _)| {
            !grammar
                .get_non_terminal(*non_terminal_idx)
                .non_terminal
                .starts_with('_')
        })
        .map(|(non_terminal_idx, parser_state)| {''')],
 needs='a pub non-terminal whose name begins with an underscore',
 breaks='such a non-terminal gets no entry point',
 main=P('''pub S: u32 = { <s:_S> => s, };
    pub _S: u32 = { "a" => 1, "b" => 2, };''','''    assert_eq!(S::parse(lex("a").into_iter()), Ok(1));
    assert_eq!(_S::parse(lex("b").into_iter()), Ok(2));''')),
# ---- C13
dict(id='c13-std-map',prop='C13',edits=[('lr1.rs','''    let mut non_terminal_state_indices: Map<NonTerminalIdx, StateIdx> = Default::default();''','''    let mut non_terminal_state_indices: std::collections::HashMap<NonTerminalIdx, StateIdx> =
        Default::default();'''),('lr1.rs','''    (automaton, non_terminal_state_indices)
}''','''    let non_terminal_state_indices = non_terminal_state_indices.into_iter().collect();

    (automaton, non_terminal_state_indices)
}''')],
 needs='a grammar with enough pub non-terminals that the order of a map filled in random order shows in the expansion (colliding buckets), and two runs of the compiler',
 breaks='the order in which entry points are emitted can differ from run to run',
 main=P('\n    '.join('pub S%d: u32 = { "a" => %d, };'%(i,i) for i in range(24)),'    assert_eq!(S3::parse(lex("a").into_iter()), Ok(3));'),
 body='''export RUSTC_BOOTSTRAP=1
for i in 1 2 3 4 5 6; do
  touch src/bin/main.rs
  timeout 60 cargo rustc -q --offline --bin main -- -Zunpretty=expanded > "$T/$i" 2>"$T/err" || { head -5 "$T/err"; exit 3; }
  cmp "$T/1" "$T/$i" || { echo "two expansions of one grammar differ"; exit 1; }
done
exit 0'''),
# ---- C14
dict(id='c14-closure-loop',prop='C14',edits=[('lr1.rs','''                        lookahead: None,
                    };
                    if closure.insert(item.clone()) {
                        work_list.push(item);
                    }''','''                        lookahead: None,
                    };
                    let added = closure.insert(item.clone());
                    // Direct recursion predicts what is predicted already
                    if added || item.next_non_terminal(grammar).map_or(false, |nt| nt != next && nt.0 < next.0) {
                        work_list.push(item);
                    }''')],
 needs='non-terminals that are left-recursive through each other, at the end of a production',
 breaks='closure computation does not terminate for such grammars',
 main=OKMAIN,
 bad=P('pub S: u32 = { <p:P> => p, };\n    P: u32 = { <q:Q> => q, "a" => 1, };\n    Q: u32 = { <p:P> "b" => p, <r:R> => r, };\n    R: u32 = { <q:Q> => q, "c" => 2, };','    let _ = S::parse(lex("ab").into_iter());').replace('<r:R> => r,','"d" <r:R> => r,').replace('R: u32 = { <q:Q> => q','R: u32 = { <q:T> => q').replace('"c" => 2, };','"c" => 2, };\n    T: u32 = { <r:R> => r + 1, "e" => 1, };'),
 body=HANG.replace('@THEN@','exit 0')),
dict(id='c14-lifetime-loop',prop='C14',edits=[('ast.rs','''                    lifetimes.push(input.parse::<syn::Lifetime>()?);
                    let _ = input.parse::<syn::token::Comma>();''','''                    if let Ok(lifetime) = input.parse::<syn::Lifetime>() {
                        lifetimes.push(lifetime);
                    }
                    let _ = input.parse::<syn::token::Comma>();''')],
 needs='a type parameter that is not a lifetime in the declaration of the token type',
 breaks='parsing such a declaration never ends',
 main=OKMAIN,
 bad=OKMAIN.replace('parser! {\n    enum Token {','parser! {\n    enum Token<T> {'),
 body=HANG.replace('@THEN@','[ $s -ne 0 ] && exit 0\necho "accepted"; exit 1')),
# ---- C16
dict(id='c16-stray-lt',prop='C16',edits=[('ast.rs','''        while !input.peek(syn::token::FatArrow) {
            symbols.push(input.parse::<Symbol>()?);
        }''','''        while let Ok(symbol) = input.parse::<Symbol>() {
            symbols.push(symbol);
        }''')],
 needs='a symbol that breaks off after an opening angle bracket, at the end of the production',
 breaks='a syntax error in a production is swallowed and what was written of the symbol is dropped',
 main=OKMAIN,msg='expected identifier',
 bad=OKMAIN.replace('{ "a" => 1, }','{ "a" < => 1, }')),
dict(id='c16-merge-enums',prop='C16',edits=[('lib.rs','''                if token_enum.is_some() {
                    panic!("`enum Token` is declared multiple times");
                }
                token_enum = Some(token_enum_);''','''                match &mut token_enum {
                    Some(old) if old.type_name == token_enum_.type_name => {
                        old.conversions.extend(token_enum_.conversions);
                    }
                    Some(_) => panic!("`enum Token` is declared multiple times"),
                    None => token_enum = Some(token_enum_),
                }''')],
 needs='a grammar with two token enums for the same type',
 breaks='a second token enum is accepted',
 main=OKMAIN,
 bad=P('pub S: u32 = { "a" => 1, };','    let _ = S::parse(lex("a").into_iter());').replace('"y" => Token::Y, "n" => Token::N(<u32>), }','}\n    enum Token { "y" => Token::Y, "n" => Token::N(<u32>), }')),
dict(id='c16-blank-symbol',prop='C16',edits=[('lower.rs','''            let str = str.value();
            let idx = t_indices
                .get(&str)
''','''            let str = str.value();
            // Nothing is written here
            if str.trim().is_empty() && !t_indices.contains_key(&str) {
                return;
            }
            let idx = t_indices
                .get(&str)
''')],
 needs='a production that uses a blank token text that is not declared',
 breaks='an undeclared token is dropped from the production instead of being refused',
 main=OKMAIN,
 bad=OKMAIN.replace('{ "a" => 1, }','{ "a" " " => 1, }')),
# ---- C17
dict(id='c17-raw-text',prop='C17',edits=[('ast.rs','''            from: from.value(),''','''            from: {
                let text = from.token().to_string();
                match text.strip_prefix('"').and_then(|t| t.strip_suffix('"')) {
                    Some(text) => text.to_owned(),
                    None => from.value(),
                }
            },''')],
 needs='a token text with an escape sequence',
 breaks='token texts are stored with their escapes, so symbols naming them are not found and error messages show them escaped',
 main='''
use parsegen::parser;
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Token { NewLine, Quote }
parser! {
    enum Token { "\\n" => Token::NewLine, "q" => Token::Quote, }
    pub S: u32 = { "\\n" "q" => 1, };
}
fn main() {
    assert_eq!(S::parse(vec![Ok::<Token, ()>(Token::NewLine), Ok(Token::Quote)].into_iter()), Ok(1));
}
'''),
dict(id='c17-lifetime-order',prop='C17',edits=[('ast.rs','''                input.parse::<syn::token::Gt>()?;
                lifetimes
''','''                input.parse::<syn::token::Gt>()?;
                lifetimes.sort();
                lifetimes
''')],
 needs='a token type with two lifetimes that are not written in alphabetical order',
 breaks='the lifetimes of the token type are put in another order, so payloads get the wrong ones',
 main='''
use parsegen::parser;
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Token<'src, 'key> { Id(&'src str), Kw(&'key str) }
parser! {
    enum Token<'src, 'key> { "id" => Token::Id(<&'src str>), "kw" => Token::Kw(<&'key str>), }
    pub S: &'src str = { <i:"id"> "kw" => i, };
}
fn main() {
    assert_eq!(S::parse(vec![Ok::<Token, ()>(Token::Id("a")), Ok(Token::Kw("b"))].into_iter()), Ok("a"));
}
'''),
dict(id='c17-dots-before-fields',prop='C17',edits=[('ast.rs','''                            // TODO: turn this into a helpful error
                            assert!(contents.is_empty() || contents.peek(syn::token::Dot2));''','''                            // A rest marker must be last
                            if contents.peek(syn::token::Dot2) {
                                contents.parse::<syn::token::Dot2>()?;
                            }
                            assert!(contents.is_empty());''')],
 needs='a struct-like token pattern whose rest marker is not preceded by a comma',
 breaks='the rest marker is read but not recorded, so the pattern in the generated code has none',
 main='''
use parsegen::parser;
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Token { Pos { line: u32, col: u32 }, Col }
parser! {
    enum Token { "pos" => Token::Pos { line: <u32> .. }, "c" => Token::Col, }
    pub S: u32 = { <p:"pos"> "c" => p, };
}
fn main() {
    assert_eq!(S::parse(vec![Ok::<Token, ()>(Token::Pos { line: 1, col: 2 }), Ok(Token::Col)].into_iter()), Ok(1));
}
'''),
# ---- C18
dict(id='c18-type-head',prop='C18',edits=[('codegen.rs','''    let mut non_terminal_ty_indices: Map<syn::Type, usize> = Default::default();''','''    let mut non_terminal_ty_indices: Map<String, usize> = Default::default();
    // Types are compared as they are written, without their arguments
    let ty_key = |ty: &syn::Type| match ty {
        syn::Type::Path(path) => path.path.segments.iter().map(|s| s.ident.to_string()).collect(),
        ty => quote!(#ty).to_string(),
    };'''),('codegen.rs','''            .get(&non_terminal.return_ty)''','''            .get(&ty_key(&non_terminal.return_ty))'''),('codegen.rs','''                non_terminal_ty_indices.insert(non_terminal.return_ty.clone(), i);''','''                non_terminal_ty_indices.insert(ty_key(&non_terminal.return_ty), i);''')],
 needs='two non-terminals whose types differ in their type arguments only',
 breaks='such non-terminals share a wrapper, which has the type of the first',
 main=P('pub S: usize = { <p:P> <q:Q> => p.len() + q.len(), };\n    P: Vec<u32> = { "a" => vec![1], };\n    Q: Vec<String> = { "b" => vec![String::new()], };','    assert_eq!(S::parse(lex("ab").into_iter()), Ok(2));')),
dict(id='c18-wrapper-count',prop='C18',edits=[('codegen.rs','''                non_terminal_action_variant_names.push(i);

                non_terminal_ty_indices.insert(non_terminal.return_ty.clone(), i);
                i += 1;''','''                non_terminal_action_variant_names.push(i);

                // Unit values need no comparison
                if !matches!(&non_terminal.return_ty, syn::Type::Tuple(t) if t.elems.is_empty()) || i > 0 {
                    non_terminal_ty_indices.insert(non_terminal.return_ty.clone(), i);
                }
                if !non_terminal_ty_indices.contains_key(&non_terminal.return_ty) {
                    non_terminal_ty_indices.insert(syn::Type::Tuple(syn::TypeTuple { paren_token: Default::default(), elems: Default::default() }), i);
                }
                i = non_terminal_ty_indices.values().copied().collect::<std::collections::BTreeSet<_>>().len().max(i + 1) - (i > 2) as usize + (i > 2) as usize;''')],
 needs='-', breaks='-', main=OKMAIN),
]
S.pop()
