# more refactorings, over all parts
C='lr_common.rs'
G='lr_codegen.rs'
S='codegen.rs'
W='lower.rs'
M_='grammar.rs'
L='lib.rs'
A='ast.rs'
R='lr1.rs'
g=open('/repo/src/lr_codegen.rs').read()
s=open('/repo/src/codegen.rs').read()
w=open('/repo/src/lower.rs').read()
l=open('/repo/src/lib.rs').read()
m=open('/repo/src/grammar.rs').read()
a=open('/repo/src/ast.rs').read()
c=open('/repo/src/lr_common.rs').read()
def cut(t,x,y):
    i=t.index(x); return t[i:t.index(y,i)]
ROW=cut(g,"        let mut terminal_to_action: Vec<Option","    }\n\n    state_to_terminal_to_action")
VECBODY=cut(g,"    let mut state_to_terminal_to_action: Vec","}\n\n/// Generates array representation of the goto")
GOTOBODY=cut(g,"    let mut state_to_non_terminal_to_state: Vec","}\n\nfn generate_action_array")
ACT=cut(g,"            match action {\n                Some(action) => {","        }\n        state_array.push(quote!(\n            [#(#terminal_array),*]")
GA=cut(g,"    for state in table {\n        let mut non_terminal_array","    quote!(\n        static GOTO")
PS=cut(g,"    let parser_structs: Vec<TokenStream> = nt_state","    let expected_state_tokens")
EXP=cut(s,"    let mut strs: Vec<String> = vec![];\n\n    for state_idx","    quote!(\n        static EXPECTED_TERMINALS")
TXT=cut(s,"    let strs = (0..n_terminals)","    quote!(\n        static TERMINAL_STRS")
POP=cut(s,"                        for BoundSymbol { binder, symbol: kind }","                        let fn_name = syn")
NTV=cut(s,"        match non_terminal_ty_indices\n","    }\n\n    let code = quote!(\n        #[derive(Debug)]")
TOKV=cut(s,"    let mut variants: Vec<TokenStream> = vec![];\n    for (i, Conversion","    // variants.push(quote!(_ =>")
TERM=cut(w,"    let t_indices = {","    for nt in &non_terminals {")
PRODS=cut(w,"        for prod in productions {","    }\n\n    grammar\n")
PRIV=cut(w,"            let nt_name = nt.name.to_string();\n            let nt_idx","        }\n    }\n\n    for ast::NonTerminal")
NTITER=cut(m,"        NonTerminalIndicesIter {\n","    }\n\n    pub fn non_terminal_production_indices")
NPITER=cut(m,"        NonTerminalProductionIndicesIter {\n","    }\n\n    pub fn terminal_indices")
LOOP=cut(l,"    for item in parser.items {","    let token_enum = token_enum.expect")
SHIFT=cut(c,"        let action = self.table.action.entry(state).or_default();\n\n        let old_action = action.insert(Some(token)","    pub fn add_reduce(")
ACC=cut(c,"        let old_action = self\n            .table","    pub fn add_goto")
M=[
# ---- action / goto tables
('row-get-action',[(G,"lr1_table.get_action_table(), lr1_table.n_states());","&lr1_table);"),(G,"    action_table: &Map<StateIdx, Map<Option<TerminalIdx>, LRAction<A>>>,\n    n_states: usize,\n) -> Vec<Vec<Option<LRAction<A>>>>","    table: &crate::lr_common::LRTable<A>,\n) -> Vec<Vec<Option<LRAction<A>>>>"),(G,"    for state in 0..n_states {\n        let state_idx = StateIdx(state);\n        // +1","    for state in 0..table.n_states() {\n        let state_idx = StateIdx(state);\n        // +1"),(G,ROW,"""        let mut terminal_to_action: Vec<Option<LRAction<A>>> = Vec::with_capacity(n_terminals + 1);
        for terminal in grammar.terminal_indices() {
            terminal_to_action.push(table.get_action(state_idx, Some(terminal)).copied());
        }
        terminal_to_action.push(table.get_action(state_idx, None).copied());
        state_to_terminal_to_action.push(terminal_to_action);
""")]),
('row-missing-first',[(G,ROW,"""        let row = match action_table.get(&state_idx) {
            Some(actions) => grammar
                .terminal_indices()
                .map(Some)
                .chain(std::iter::once(None))
                .map(|t| actions.get(&t).copied())
                .collect(),
            None => vec![None; n_terminals + 1],
        };
        state_to_terminal_to_action.push(row);
""")]),
('row-fill',[(G,ROW,"""        let mut terminal_to_action: Vec<Option<LRAction<A>>> = vec![None; n_terminals + 1];
        if let Some(actions) = action_table.get(&state_idx) {
            for (terminal, action) in actions {
                let column = match terminal {
                    Some(terminal) => terminal.as_usize(),
                    None => n_terminals,
                };
                terminal_to_action[column] = Some(*action);
            }
        }
        state_to_terminal_to_action.push(terminal_to_action);
""")]),
('rows-map',[(G,VECBODY,"""    (0..n_states)
        .map(|state| {
            let actions = action_table.get(&StateIdx(state));
            let mut row: Vec<Option<LRAction<A>>> = grammar
                .terminal_indices()
                .map(|t| actions.and_then(|actions| actions.get(&Some(t)).copied()))
                .collect();
            row.push(actions.and_then(|actions| actions.get(&None).copied()));
            row
        })
        .collect()
""")]),
('goto-map',[(G,GOTOBODY,"""    (0..n_states)
        .map(|state| {
            let gotos = goto_table.get(&StateIdx(state));
            (0..n_non_terminals)
                .map(|nt| {
                    gotos.and_then(|gotos| gotos.get(&NonTerminalIdx::from_usize(nt)).copied())
                })
                .collect()
        })
        .collect()
""")]),
('goto-fill',[(G,GOTOBODY,"""    let mut rows: Vec<Vec<Option<StateIdx>>> = vec![vec![None; n_non_terminals]; n_states];
    for (state, gotos) in goto_table {
        for (nt, next) in gotos {
            rows[state.as_usize()][nt.as_usize()] = Some(*next);
        }
    }
    rows
""")]),
('goto-if-let',[(G,GOTOBODY,"""    let mut rows: Vec<Vec<Option<StateIdx>>> = Vec::new();
    for state in 0..n_states {
        let mut row: Vec<Option<StateIdx>> = Vec::new();
        for non_terminal in 0..n_non_terminals {
            let next = if let Some(gotos) = goto_table.get(&StateIdx(state)) {
                gotos.get(&NonTerminalIdx::from_usize(non_terminal)).copied()
            } else {
                None
            };
            row.push(next);
        }
        rows.push(row);
    }
    rows
""")]),
('act-helper',[(G,ACT,"            terminal_array.push(action_cell(grammar, action));\n"),(G,"fn generate_goto_array(","""fn action_cell<A>(
    grammar: &Grammar<A>,
    action: &Option<LRAction<SemanticActionIdx>>,
) -> TokenStream {
    match action {
        None => quote!(None),
        Some(LRAction::Accept) => quote!(Some(LRAction::Accept)),
        Some(LRAction::Shift(next_state)) => {
            let next_state = u32::try_from(next_state.as_usize()).unwrap();
            quote!(Some(LRAction::Shift { next_state: #next_state }))
        }
        Some(LRAction::Reduce(nt, p, action)) => {
            let n_symbols = u16::try_from(grammar.get_production(*nt, *p).symbols().len()).unwrap();
            let nt = u16::try_from(nt.as_usize()).unwrap();
            let action = action.as_u16();
            quote!(Some(LRAction::Reduce {
                non_terminal_idx: #nt,
                n_symbols: #n_symbols,
                semantic_action_idx: #action,
            }))
        }
    }
}

fn generate_goto_array(""")]),
('act-rows-map',[(G,GA,"""    for state in table {
        let cells = state.iter().map(|next_state| match next_state {
            None => quote!(None),
            Some(next_state) => {
                let next_state = u32::try_from(next_state.as_usize()).unwrap();
                quote!(Some(#next_state))
            }
        });
        state_array.push(quote!([#(#cells),*]));
    }

""")]),
('act-array-collect',[(G,GA,"""    state_array.extend(table.iter().map(|state| {
        let cells: Vec<TokenStream> = state
            .iter()
            .map(|next_state| match next_state {
                None => quote!(None),
                Some(next_state) => {
                    let next_state = u32::try_from(next_state.as_usize()).unwrap();
                    quote!(Some(#next_state))
                }
            })
            .collect();
        quote!([#(#cells),*])
    }));

""")]),
('codegen-order',[(G,"    let expected_state_tokens = generate_expected_state_tokens(&grammar, &lr1_table);\n    let token_to_text_table = generate_token_to_text(&grammar);\n",""),(G,"    let action_vec = action_table_vec(","    let expected_state_tokens = generate_expected_state_tokens(&grammar, &lr1_table);\n    let token_to_text_table = generate_token_to_text(&grammar);\n\n    let action_vec = action_table_vec(")]),
('structs-loop',[(G,"    let parser_structs: Vec<TokenStream> = nt_state_indices\n        .into_iter()\n        .map(|(non_terminal_idx, parser_state)| {","    let mut parser_structs: Vec<TokenStream> = vec![];\n    for (non_terminal_idx, parser_state) in nt_state_indices {"),(G,"            quote!(\n                pub struct #non_terminal_name_id;","            parser_structs.push(quote!(\n                pub struct #non_terminal_name_id;"),(G,"""                        )
                    }
                }
            )
        })
        .collect();
""","""                        )
                    }
                }
            ));
    }
""")]),
('structs-fn',[(G,"            let extract_method_id = syn::Ident::new(\n                &format!(\n                    \"non_terminal_{}\",\n                    non_terminal_action_variant_name[non_terminal_idx.as_usize()]\n                ),\n                Span::call_site(),\n            );\n","            let variant = non_terminal_action_variant_name[non_terminal_idx.as_usize()];\n            let extract_method_id = quote::format_ident!(\"non_terminal_{}\", variant);\n")]),
('gen-state-type',[(G,"                let state = *state_stack.last().unwrap() as usize;\n                let terminal_idx","                let state = state_stack[state_stack.len() - 1] as usize;\n                let terminal_idx")]),
('gen-if-let-goto',[(G,"""                        match GOTO[state][non_terminal_idx as usize] {
                            None => panic!("Stuck! (2)"),
                            Some(next_state) => state_stack.push(next_state),
                        }""","""                        if let Some(next_state) = GOTO[state][non_terminal_idx as usize] {
                            state_stack.push(next_state);
                        } else {
                            panic!("Stuck! (2)");
                        }""")]),
('gen-goto-expect',[(G,"""                        match GOTO[state][non_terminal_idx as usize] {
                            None => panic!("Stuck! (2)"),
                            Some(next_state) => state_stack.push(next_state),
                        }""","""                        let next_state = GOTO[state][non_terminal_idx as usize].expect("Stuck! (2)");
                        state_stack.push(next_state);""")]),
('gen-token-order',[(G,"""                        state_stack.push(next_state);
                        let token_ = ::std::mem::replace(&mut token, input.next());
                        if let Some(Ok(token)) = token_ {
                            value_stack.push(#token_value_fn_name(token));
                        }""","""                        let token_ = ::std::mem::replace(&mut token, input.next());
                        if let Some(Ok(token)) = token_ {
                            value_stack.push(#token_value_fn_name(token));
                        }
                        state_stack.push(next_state);""")]),
('gen-token-take',[(G,"""                        let token_ = ::std::mem::replace(&mut token, input.next());
                        if let Some(Ok(token)) = token_ {
                            value_stack.push(#token_value_fn_name(token));
                        }""","""                        if let Some(Ok(token)) = token.take() {
                            value_stack.push(#token_value_fn_name(token));
                        }
                        token = input.next();""")]),
('gen-accept-first',[(G,"                    Some(LRAction::Accept) => break,\n",""),(G,"                match ACTION[state][terminal_idx] {\n                    None => {","                match ACTION[state][terminal_idx] {\n                    Some(LRAction::Accept) => break,\n                    None => {")]),
('gen-action-let',[(G,"                match ACTION[state][terminal_idx] {\n","                let action = ACTION[state][terminal_idx];\n                match action {\n")]),
('gen-err-return',[(G,"""                let terminal_idx = match &token {
                    None => #n_terminals,
                    Some(Err(err)) => return Err(ParseError::LexerError(err.clone())),
                    Some(Ok(token)) => #token_terminal_idx_fn_name(&token),
                };""","""                if let Some(Err(err)) = &token {
                    return Err(ParseError::LexerError(err.clone()));
                }
                let terminal_idx = match &token {
                    Some(Ok(token)) => #token_terminal_idx_fn_name(&token),
                    _ => #n_terminals,
                };""")]),
('gen-eof-const',[(G,"        fn parse_generic<","        const END_OF_INPUT: usize = #n_terminals;\n\n        fn parse_generic<"),(G,"                    None => #n_terminals,","                    None => END_OF_INPUT,")]),
('gen-values-len',[(G,"""                        for _ in 0 .. n_symbols {
                            state_stack.pop().unwrap();
                        }""","""                        let n = state_stack.len() - n_symbols as usize;
                        state_stack.truncate(n);""")]),
('gen-drain',[(G,"""                        for _ in 0 .. n_symbols {
                            state_stack.pop().unwrap();
                        }""","""                        let n = state_stack.len() - usize::from(n_symbols);
                        state_stack.drain(n..);""")]),
('gen-result-var',[(G,"            Ok(extract_value(value_stack.pop().unwrap()))","            let result = value_stack.pop().unwrap();\n            Ok(extract_value(result))")]),
('gen-found-inline',[(G,"""                        let found = TERMINAL_STRS[terminal_idx];
                        let expected = EXPECTED_TERMINALS[state];
                        return Err(ParseError::ParserError {
                            found, expected
                        });""","""                        return Err(ParseError::ParserError {
                            found: TERMINAL_STRS[terminal_idx],
                            expected: EXPECTED_TERMINALS[state],
                        });""")]),
# ---- expected tokens and names
('exp-action-table',[(S,EXP,"""    let mut strs: Vec<String> = Vec::with_capacity(n_states);

    for state_idx in 0..n_states {
        let state = StateIdx(state_idx);
        let expected: Vec<&str> = grammar
            .terminal_indices()
            .filter(|t| lr_table.get_action(state, Some(*t)).is_some())
            .map(|t| grammar.get_terminal(t))
            .collect();
        strs.push(expected.join(", "));
    }

""")]),
('exp-map',[(S,EXP,"""    let strs: Vec<String> = (0..n_states)
        .map(|state_idx| {
            let mut expected: Vec<&str> = vec![];
            for terminal_idx in 0..n_terminals {
                let terminal_idx = TerminalIdx::from_usize(terminal_idx);
                if let Some(_action) = lr_table.get_action(StateIdx(state_idx), Some(terminal_idx)) {
                    expected.push(grammar.get_terminal(terminal_idx));
                }
            }
            expected.join(", ")
        })
        .collect();

""")]),
('exp-state-fn',[(S,EXP,"""    let strs: Vec<String> = (0..n_states)
        .map(|state| expected_in_state(grammar, lr_table, StateIdx(state), n_terminals).join(", "))
        .collect();

"""),(S,"/// Generate a mapping form tokens to","""fn expected_in_state<'grammar, A>(
    grammar: &'grammar Grammar<A>,
    lr_table: &LRTable<A>,
    state: StateIdx,
    n_terminals: usize,
) -> Vec<&'grammar str> {
    let mut expected = vec![];
    for i in 0..n_terminals {
        let terminal = TerminalIdx::from_usize(i);
        if lr_table.get_action(state, Some(terminal)).is_none() {
            continue;
        }
        expected.push(grammar.get_terminal(terminal));
    }
    expected
}

/// Generate a mapping form tokens to""")]),
('txt-vec',[(S,TXT,"""    let mut strs: Vec<&str> = Vec::with_capacity(array_length);
    for terminal_idx in grammar.terminal_indices() {
        strs.push(grammar.get_terminal(terminal_idx));
    }
    strs.push("end-of-input");

""")]),
('txt-names',[(S,TXT,"""    let mut strs: Vec<&str> = grammar.terminals.iter().map(|t| t.as_str()).collect();
    strs.push("end-of-input");

""")]),
# ---- semantic actions
('sem-pop-names',[(S,POP,"""                        for BoundSymbol { binder, symbol: kind } in symbols.iter().rev() {
                            let Name { mutable, name } = match binder {
                                Some(name) => name,
                                None => {
                                    pop_code.push(quote!(value_stack.pop()));
                                    continue;
                                }
                            };
                            let extract_method = match kind {
                                Symbol::Terminal(terminal_idx) => {
                                    format!("token_{}", terminal_idx.as_usize())
                                }
                                Symbol::NonTerminal(nt_idx) => {
                                    format!("non_terminal_{}", non_terminal_action_variant_name[nt_idx.as_usize()])
                                }
                            };
                            let extract_method = syn::Ident::new(&extract_method, Span::call_site());
                            if *mutable {
                                pop_code.push(quote!(let mut #name = value_stack.pop().unwrap().#extract_method()));
                            } else {
                                pop_code.push(quote!(let #name = value_stack.pop().unwrap().#extract_method()));
                            }
                        }

""")]),
('sem-pop-map',[(S,"                        let mut pop_code: Vec<TokenStream> = vec![];\n\n"+POP,"""                        let pop_code: Vec<TokenStream> = symbols
                            .iter()
                            .rev()
                            .map(|symbol| pop_symbol(symbol, non_terminal_action_variant_name))
                            .collect();

"""),(S,"/// Generates a `fn token_terminal_idx(","""fn pop_symbol(symbol: &BoundSymbol, variants: &[usize]) -> TokenStream {
    let Name { mutable, name } = match &symbol.binder {
        None => return quote!(value_stack.pop()),
        Some(name) => name,
    };
    let mut_ = if *mutable { quote!(mut) } else { quote!() };
    let extract_method = match &symbol.symbol {
        Symbol::NonTerminal(nt_idx) => syn::Ident::new(
            &format!("non_terminal_{}", variants[nt_idx.as_usize()]),
            Span::call_site(),
        ),
        Symbol::Terminal(terminal_idx) => syn::Ident::new(
            &format!("token_{}", terminal_idx.as_usize()),
            Span::call_site(),
        ),
    };
    quote!(let #mut_ #name = value_stack.pop().unwrap().#extract_method())
}

/// Generates a `fn token_terminal_idx(""")]),
('sem-idx-late',[(S,"                        let fn_idx = decls.len();\n\n",""),(S,"                        fn_names.push(fn_name);\n","                        let fn_idx = fn_names.len();\n                        fn_names.push(fn_name);\n")]),
('sem-counter-var',[(S,"                        let fn_idx = decls.len();\n","                        let fn_idx = n_actions;\n                        n_actions += 1;\n"),(S,"    let mut fn_names: Vec<syn::Ident> = vec![];\n","    let mut fn_names: Vec<syn::Ident> = vec![];\n    let mut n_actions: usize = 0;\n")]),
('sem-unwrap-drop',[(S,"pop_code.push(quote!(value_stack.pop()));","pop_code.push(quote!(value_stack.pop().unwrap()));")]),
('ntv-entry',[(S,NTV,"""        let idx = match non_terminal_ty_indices.get(&non_terminal.return_ty) {
            Some(idx) => *idx,
            None => {
                let idx = non_terminal_ty_indices.len();
                let pattern_ty = &non_terminal.return_ty;
                let variant_id = syn::Ident::new(&format!("NonTerminal{}", idx), Span::call_site());
                variants.push(quote!(#variant_id(#pattern_ty)));
                let method_id =
                    syn::Ident::new(&format!("non_terminal_{}", idx), Span::call_site());
                extraction_fns.push(quote!(
                    fn #method_id(self) -> #pattern_ty {
                        match self {
                            Self::#variant_id(f) => f,
                            _ => unreachable!("{:?}", self),
                        }
                    }
                ));
                non_terminal_ty_indices.insert(non_terminal.return_ty.clone(), idx);
                idx
            }
        };
        non_terminal_action_variant_names.push(idx);
"""),(S,"    let mut i: usize = 0;\n\n    for non_terminal in","\n    for non_terminal in")]),
('ntv-if-let',[(S,"""        match non_terminal_ty_indices
            .get(&non_terminal.return_ty)
            .copied()
        {
            Some(i) => {
                non_terminal_action_variant_names.push(i);
            }
            None => {
""","""        if let Some(known) = non_terminal_ty_indices.get(&non_terminal.return_ty) {
            non_terminal_action_variant_names.push(*known);
            continue;
        }
        {
            {
""")]),
('ntv-each-own',[(S,"        match non_terminal_ty_indices\n            .get(&non_terminal.return_ty)\n            .copied()\n        {","        match None::<usize> {")]),
('tokv-map',[(S,TOKV,"""    let variants = tokens.iter().enumerate().map(|(i, conversion)| {
        let (pattern_code, pattern_idents) = generate_pattern_syn_with_idents(&conversion.to);
        let variant_id = syn::Ident::new(&format!("Token{}", i), Span::call_site());
        quote!(
            #pattern_code => #action_result_type_name::#variant_id(#(#pattern_idents),*),
        )
    });

""")]),
('tokidx-loop',[(S,"""    let match_alts: Vec<TokenStream> = conversions
        .iter()
        .enumerate()
        .map(|(i, Conversion { to, .. })| {
            let pattern_code = pattern_ignore(to);
            quote!(#pattern_code => #i)
        })
        .collect();
""","""    let mut match_alts: Vec<TokenStream> = Vec::with_capacity(conversions.len());
    for conversion in conversions {
        let i = match_alts.len();
        let pattern_code = pattern_ignore(&conversion.to);
        match_alts.push(quote!(#pattern_code => #i));
    }
""")]),
('tokidx-name',[(S,"    let fn_name = format_ident!(\n        \"{}_terminal_idx\",\n        type_name.to_string().to_lowercase(),\n        span = type_name.span()\n    );","    let lower = format!(\"{}_terminal_idx\", type_name.to_string().to_lowercase());\n    let mut fn_name = format_ident!(\"{}\", lower);\n    fn_name.set_span(type_name.span());")]),
('pat-helper',[(S,"            let pats: Vec<TokenStream> = pats.iter().map(pattern_ignore).collect();\n            quote!(#path(#(#pats,)*))","            let pats = patterns_ignore(pats);\n            quote!(#path(#(#pats,)*))"),(S,"            let pats: Vec<TokenStream> = pats.iter().map(pattern_ignore).collect();\n            quote!((#(#pats,)*))","            let pats = patterns_ignore(pats);\n            quote!((#(#pats,)*))"),(S,"/// Given a `Pattern`, generate the pattern syntax for it, using","fn patterns_ignore(pats: &[Pattern]) -> Vec<TokenStream> {\n    pats.iter().map(pattern_ignore).collect()\n}\n\n/// Given a `Pattern`, generate the pattern syntax for it, using")]),
('pat-quote-if',[(S,"            if *dots {\n                pats.push(quote!(..));\n            }\n\n            quote!(#path { #(#pats)* })","            let dots = if *dots { quote!(..) } else { quote!() };\n            quote!(#path { #(#pats)* #dots })")]),
# ---- lowering
('low-term-enum',[(W,TERM,"""    let mut t_indices: Map<String, TerminalIdx> = Default::default();
    for conv in terminals {
        if t_indices.contains_key(&conv.from) {
            panic!("Terminal {:?} defined multiple times", conv.from);
        }
        let idx = grammar.new_terminal(conv.from.clone());
        t_indices.insert(conv.from.clone(), idx);
    }

""")]),
('low-insert-fn',[(W,TERM,"""    let mut t_indices: Map<String, TerminalIdx> = Default::default();
    for conv in terminals {
        let idx = grammar.new_terminal(conv.from.to_owned());
        assert!(
            t_indices.insert(conv.from.to_owned(), idx).is_none(),
            "Terminal {:?} defined multiple times",
            conv.from
        );
    }

""")]),
('low-name-var',[(W,PRIV,"""            let nt_idx = grammar.add_non_terminal(nt.name.to_string(), nt.type_decl.clone(), false);
            if nt_indices.insert(nt.name.to_string(), nt_idx).is_some() {
                panic!("Non-terminal {} defined multiple times", nt.name);
            }
""")]),
('low-prods-idx',[(W,PRODS,"""        let nt_idx = nt_indices[&name.to_string()];
        for ast::Production { symbols, action } in productions {
            let mut rhs: Vec<BoundSymbol> = Vec::with_capacity(symbols.len());
            for symbol in symbols {
                add_symbol(&nt_indices, &t_indices, &mut rhs, None, symbol);
            }
            let action = match action {
                ast::Action::Infallible(expr) => expr,
                ast::Action::Fallible(_) => todo!("Fallible actions not supported yet"),
            };
            grammar.add_production(nt_idx, rhs, action);
        }
""")]),
('low-action-first',[(W,PRODS,"""        for prod in productions {
            let nt_idx = nt_indices.get(&name.to_string()).unwrap();
            let action = if let ast::Action::Infallible(expr) = prod.action {
                expr
            } else {
                todo!("Fallible actions not supported yet")
            };
            let mut symbols: Vec<BoundSymbol> = vec![];
            for sym in prod.symbols {
                add_symbol(&nt_indices, &t_indices, &mut symbols, None, sym);
            }
            grammar.add_production(*nt_idx, symbols, action);
        }
""")]),
('low-zip',[(W,"""    for ast::NonTerminal {
        name, productions, ..
    } in non_terminals
    {
""","""    for non_terminal in non_terminals {
        let name = non_terminal.name;
        let productions = non_terminal.productions;
""")]),
('low-entry-parse',[(W,"""                syn::Expr::Path(syn::ExprPath {
                    attrs: vec![],
                    qself: None,
                    path: syn::Path {
                        leading_colon: None,
                        segments: syn::punctuated::Punctuated::from_iter(vec![syn::PathSegment {
                            ident: binder_ident,
                            arguments: syn::PathArguments::None,
                        }]),
                    },
                }),""","""                syn::Expr::Path(syn::ExprPath {
                    attrs: vec![],
                    qself: None,
                    path: syn::Path::from(binder_ident),
                }),"""),(W,"use std::iter::FromIterator;\n\n","")]),
('low-symbol-get',[(W,"""            let nt_idx = match nt_indices.get(&nt_name) {
                None => panic!("Non-terminal not defined: {}", nt_name),
                Some(nt_idx) => nt_idx,
            };
            symbols.push(BoundSymbol {
                binder,
                symbol: Symbol::NonTerminal(*nt_idx),
            });""","""            if let Some(nt_idx) = nt_indices.get(&nt_name) {
                symbols.push(BoundSymbol {
                    binder,
                    symbol: Symbol::NonTerminal(*nt_idx),
                });
            } else {
                panic!("Non-terminal not defined: {}", nt_name);
            }""")]),
('low-symbol-once',[(W,"""            symbols.push(BoundSymbol {
                binder,
                symbol: Symbol::NonTerminal(*nt_idx),
            });
        }""","""            Symbol::NonTerminal(*nt_idx)
        }"""),(W,"""            symbols.push(BoundSymbol {
                binder,
                symbol: Symbol::Terminal(*idx),
            });
        }""","""            Symbol::Terminal(*idx)
        }"""),(W,"    match symbol {\n        ast::Symbol::NonTerminal(nt) => {\n            let nt_name","    let symbol = match symbol {\n        ast::Symbol::NonTerminal(nt) => {\n            let nt_name"),(W,"            add_symbol(nt_indices, t_indices, symbols, Some(name), *sym)\n        }\n    }\n","            return add_symbol(nt_indices, t_indices, symbols, Some(name), *sym);\n        }\n    };\n    symbols.push(BoundSymbol { binder, symbol });\n")]),
('low-symbol-loop',[(W,"    binder: Option<ast::Name>,\n    symbol: ast::Symbol,\n) {\n    match symbol {","    mut binder: Option<ast::Name>,\n    mut symbol: ast::Symbol,\n) {\n    while let ast::Symbol::NamedSymbol(name, sym) = symbol {\n        if binder.is_some() {\n            panic!(\"Symbol named multiple times: {}\", name.name);\n        }\n        binder = Some(name);\n        symbol = *sym;\n    }\n    match symbol {"),(W,"""        ast::Symbol::NamedSymbol(name, sym) => {
            if binder.is_some() {
                panic!("Symbol named multiple times: {}", name.name);
            }
            add_symbol(nt_indices, t_indices, symbols, Some(name), *sym)
        }
""","        ast::Symbol::NamedSymbol(..) => unreachable!(),\n")]),
# ---- grammar
('gram-iter-enum',[(M_,NTITER,"        self.non_terminals\n            .iter()\n            .enumerate()\n            .map(|(i, nt)| (NonTerminalIdx::from_usize(i), nt))\n")]),
('gram-prod-enum',[(M_,NPITER,"        self.get_non_terminal(non_terminal).production_indices()\n")]),
('gram-add-prod',[(M_,"""        let prod_idx = non_terminal.productions.len();
        non_terminal
            .productions
            .push(Production { symbols, action });
        ProductionIdx(prod_idx as u32)""","""        non_terminal
            .productions
            .push(Production { symbols, action });
        ProductionIdx(non_terminal.productions.len() as u32 - 1)""")]),
('gram-from-usize',[(M_,"        NonTerminalIdx(idx as u32)\n    }\n\n    pub fn new_terminal","        NonTerminalIdx::from_usize(idx)\n    }\n\n    pub fn new_terminal")]),
('gram-get-via',[(M_,"        &self.non_terminals[nt_idx.0 as usize].productions[prod_idx.0 as usize]","        self.get_non_terminal(nt_idx).get_production(prod_idx)")]),
('gram-term-enum',[(M_,"        (0..self.terminals.len()).map(|idx| TerminalIdx(u32::try_from(idx).unwrap()))","        (0..self.terminals.len()).map(TerminalIdx::from_usize)")]),
('gram-nti-match',[(M_,"""            .get(self.non_terminal_idx.as_usize())
            .map(|non_terminal| {
                let idx = self.non_terminal_idx;
                self.non_terminal_idx = NonTerminalIdx(self.non_terminal_idx.0 + 1);
                (idx, non_terminal)
            })""","""            .get(self.non_terminal_idx.as_usize())
            .map(|non_terminal| {
                let idx = self.non_terminal_idx;
                self.non_terminal_idx.0 += 1;
                (idx, non_terminal)
            })""")]),
# ---- driver
('lib-partition',[(L,LOOP,"""    for item in parser.items {
        if let ast::GrammarItem::NonTerminal(nt) = item {
            non_terminals.push(nt);
        } else if let ast::GrammarItem::TokenEnum(tokens) = item {
            if token_enum.replace(tokens).is_some() {
                panic!("`enum Token` is declared multiple times");
            }
        } else if let ast::GrammarItem::TypeDef(typedef) = item {
            match typedef.kind {
                ast::TypeDefKind::State => {
                    if state_type.is_some() {
                        panic!("`type State` is declared multiple times");
                    }
                    state_type = Some(typedef.ty);
                }
            }
        }
    }

""")]),
('lib-assert',[(L,"""                if token_enum.is_some() {
                    panic!("`enum Token` is declared multiple times");
                }
""","                assert!(token_enum.is_none(), \"`enum Token` is declared multiple times\");\n")]),
('lib-match-expect',[(L,"    let token_enum = token_enum.expect(\"Token type (`enum Token`) is not defined\");","    let token_enum = match token_enum {\n        Some(token_enum) => token_enum,\n        None => panic!(\"Token type (`enum Token`) is not defined\"),\n    };")]),
('lib-split-fn',[(L,"    let grammar = lower::lower(","    expand(non_terminals, token_enum).into()\n}\n\nfn expand(\n    non_terminals: Vec<ast::NonTerminal>,\n    token_enum: ast::TokenEnum,\n) -> proc_macro2::TokenStream {\n    let grammar = lower::lower("),(L,"lr_codegen::generate_lr1_parser(grammar, &token_enum).into()","lr_codegen::generate_lr1_parser(grammar, &token_enum)")]),
# ---- conflict checks
('tab-shift-match',[(C,SHIFT,"""        let action = self.table.action.entry(state).or_default();

        match action.insert(Some(token), LRAction::Shift(next_state)) {
            None | Some(LRAction::Reduce(..)) => {}
            Some(LRAction::Shift(s)) => {
                if s != next_state {
                    panic!(
                        "({}, {:?}): Overriding Shift({}) with Shift({})",
                        state.0,
                        grammar.get_terminal(token),
                        s.0,
                        next_state.0,
                    );
                }
            }
            Some(LRAction::Accept) => panic!(
                "({}, {:?}): Overriding Accept action with Shift({})",
                state.0,
                grammar.get_terminal(token),
                next_state.0,
            ),
        }
    }

""")]),
('tab-accept-match',[(C,ACC,"""        let actions = self.table.action.entry(state).or_default();
        match actions.insert(None, LRAction::Accept) {
            None | Some(LRAction::Accept) => {}
            Some(old_action) => panic!(
                "({}, EOF): Overriding {:?} action with Accept",
                state.0, old_action
            ),
        }
    }

""")]),
('tab-accept-if',[(C,ACC,"""        let actions = self.table.action.entry(state).or_default();
        if let Some(old_action) = actions.get(&None) {
            if *old_action != LRAction::Accept {
                panic!(
                    "({}, EOF): Overriding {:?} action with Accept",
                    state.0, old_action
                );
            }
        }
        actions.insert(None, LRAction::Accept);
    }

""")]),
('tab-nested-get',[(C,"""        self.action
            .get(&state)
            .and_then(|action| action.get(&non_terminal))
    }

    #[cfg(test)]""","""        let actions = self.action.get(&state)?;
        actions.get(&non_terminal)
    }

    #[cfg(test)]""")]),
# ---- notation
('txt-pattern-fields',[(A,"""            let pats: syn::punctuated::Punctuated<Pattern, syn::token::Comma> =
                syn::punctuated::Punctuated::parse_terminated(&contents)?;
            let mut fields: Vec<Pattern> = vec![];
            for pair in pats.into_pairs() {
                fields.push(pair.into_value());
            }
            Ok(Pattern::Tuple(fields))""","""            let pats: syn::punctuated::Punctuated<Pattern, syn::token::Comma> =
                syn::punctuated::Punctuated::parse_terminated(&contents)?;
            Ok(Pattern::Tuple(pats.into_iter().collect()))""")]),
('txt-parse-term',[(A,"                syn::punctuated::Punctuated::parse_terminated(&contents)?;\n            let mut fields","                contents.parse_terminated(Pattern::parse)?;\n            let mut fields")]),
('txt-symbol0-lt',[(A,"""    if let Ok(ident) = input.parse::<syn::Ident>() {
        return Ok(Symbol::NonTerminal(ident));
    }
""","""    if input.peek(syn::Ident) {
        return Ok(Symbol::NonTerminal(input.parse::<syn::Ident>()?));
    }
""")]),
('txt-repeat-helper',[(A,a[a.index("        loop {\n            if input.parse::<syn::token::Add>"):a.index("        Ok(symbol)\n    }\n}\n\nfn symbol0")],"""        while let Some(op) = repeat_op(input) {
            symbol = Symbol::Repeat(Box::new(Repeat { op, symbol }));
        }

"""),(A,"fn symbol0(","""fn repeat_op(input: &ParseBuffer) -> Option<RepeatOp> {
    if input.parse::<syn::token::Add>().is_ok() {
        Some(RepeatOp::Plus)
    } else if input.parse::<syn::token::Star>().is_ok() {
        Some(RepeatOp::Star)
    } else if input.parse::<syn::token::Question>().is_ok() {
        Some(RepeatOp::Question)
    } else {
        None
    }
}

fn symbol0(""")]),
('txt-action-let',[(A,"""        if input.peek(syn::token::Question) {
            input.parse::<syn::token::Question>()?;
            Ok(Action::Fallible(input.parse::<syn::Expr>()?))
        } else {
            Ok(Action::Infallible(input.parse::<syn::Expr>()?))
        }""","""        let fallible = input.parse::<Option<syn::token::Question>>()?.is_some();
        let expr = input.parse::<syn::Expr>()?;
        if fallible {
            Ok(Action::Fallible(expr))
        } else {
            Ok(Action::Infallible(expr))
        }""")]),
('txt-vis-opt',[(A,"""        if input.peek(syn::token::Pub) {
            input.parse::<syn::token::Pub>()?;
            Ok(Visibility::Pub)
        } else {
            Ok(Visibility::Priv)
        }""","""        let vis = match input.parse::<Option<syn::token::Pub>>()? {
            Some(_) => Visibility::Pub,
            None => Visibility::Priv,
        };
        Ok(vis)""")]),
('txt-kind-if',[(A,"""        let name_str = name.to_string();
        match name_str.as_str() {
            "State" => Ok(TypeDefKind::State),
            other => panic!("Unknown type definition: {:?}", other),
        }""","""        if name == "State" {
            Ok(TypeDefKind::State)
        } else {
            panic!("Unknown type definition: {:?}", name.to_string())
        }""")]),
('txt-production-loop',[(A,"""        while !input.peek(syn::token::FatArrow) {
            symbols.push(input.parse::<Symbol>()?);
        }
""","""        loop {
            if input.peek(syn::token::FatArrow) {
                break;
            }
            let symbol: Symbol = input.parse()?;
            symbols.push(symbol);
        }
""")]),
('txt-generic-parse',[(A,"        let visibility = input.parse::<Visibility>()?;\n        let name = input.parse::<syn::Ident>()?;\n        input.parse::<syn::token::Colon>()?;\n        let type_decl = input.parse::<syn::Type>()?;","        let visibility: Visibility = input.parse()?;\n        let name: syn::Ident = input.parse()?;\n        let _: syn::token::Colon = input.parse()?;\n        let type_decl: syn::Type = input.parse()?;")]),
('txt-item-look',[(A,"""        if input.peek(syn::token::Type) {
            Ok(GrammarItem::TypeDef(input.parse::<TypeDef>()?))
        } else if input.peek(syn::token::Enum) {
            Ok(GrammarItem::TokenEnum(input.parse::<TokenEnum>()?))
        } else {
            Ok(GrammarItem::NonTerminal(input.parse::<NonTerminal>()?))
        }""","""        let item = if input.peek(syn::token::Enum) {
            GrammarItem::TokenEnum(input.parse()?)
        } else if input.peek(syn::token::Type) {
            GrammarItem::TypeDef(input.parse()?)
        } else {
            GrammarItem::NonTerminal(input.parse()?)
        };
        Ok(item)""")]),
]
M=[dict(name='r-z-'+x[0],props=[],edits=x[1],count=1) for x in M]
