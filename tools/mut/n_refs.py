# a further round of edits that keep the behaviour: everything but lr1.rs
C='lr_common.rs'
G='lr_codegen.rs'
S='codegen.rs'
W='lower.rs'
M_='grammar.rs'
L='lib.rs'
A='ast.rs'
R='lr1.rs'
F='first.rs'
def rd(f): return open('/repo/src/'+f).read()
def cut(t,x,y):
    i=t.index(x); return t[i:t.index(y,i)]
f=rd(F); r=rd(R); c=rd(C); g=rd(G); s=rd(S); w=rd(W); m=rd(M_); a=rd(A); l=rd(L)
GEN1=cut(f,"pub fn generate_first_table<A>","use std::fmt;")
AVEC=cut(g,"    let mut state_to_terminal_to_action","/// Generates array representation of the goto table.")
AARR=cut(g,"    let mut state_array: Vec<TokenStream> = Vec::with_capacity(n_states);\n\n    for state in table {\n        // +1","    // +1 for EOF\n    let terminal_array_len")
GVEC=cut(g,"    let mut state_to_non_terminal_to_state:","fn generate_action_array")
GARR=cut(g,"    let mut state_array: Vec<TokenStream> = Vec::with_capacity(n_states);\n\n    for state in table {\n        let mut non_terminal_array","    quote!(\n        static GOTO")
EXP=cut(s,"    let mut strs: Vec<String> = vec![];\n\n    for state_idx","    quote!(\n        static EXPECTED_TERMINALS")
POP=cut(s,"                        for BoundSymbol { binder, symbol: kind } in symbols.iter().rev() {","                        let fn_name = syn::Ident::new(")
LOW1=cut(w,"    for nt in &non_terminals {","    for ast::NonTerminal {")
LOW2=cut(w,"    for ast::NonTerminal {\n","    grammar\n}")
PNT=cut(a,"        let mut productions: Vec<Production> = vec![];\n        if input.peek","        Ok(NonTerminal {\n            visibility")
REF=[
# ---- first
('fix-prod-fn',[(F,GEN1,'''/// Returns whether the table is changed
fn update_production<A>(
    table: &mut FirstTable,
    nt: NonTerminalIdx,
    production: &crate::grammar::Production<A>,
) -> bool {
    let mut updated = false;
    for symbol in &production.symbols {
        match &symbol.symbol {
            Symbol::Terminal(terminal) => {
                updated |= table.add_first(nt, *terminal);
                return updated;
            }
            Symbol::NonTerminal(other) => {
                let FirstSet { empty, terminals } = table.get_first(*other).clone();
                for terminal in terminals {
                    updated |= table.add_first(nt, terminal);
                }
                if !empty {
                    return updated;
                }
            }
        }
    }
    updated |= table.set_empty(nt);
    updated
}

pub fn generate_first_table<A>(grammar: &Grammar<A>) -> FirstTable {
    let mut table: FirstTable = FirstTable::new(grammar.non_terminals().len());

    loop {
        let mut updated = false;
        for (non_terminal_idx, non_terminal) in grammar.non_terminal_indices() {
            for production in non_terminal.productions.iter() {
                if update_production(&mut table, non_terminal_idx, production) {
                    updated = true;
                }
            }
        }
        if !updated {
            return table;
        }
    }
}

''')]),
('fix-temp-set',[(F,GEN1,'''/// Computes what a production contributes to the first set of its non-terminal
fn production_first<A>(
    table: &FirstTable,
    production: &crate::grammar::Production<A>,
) -> FirstSet {
    let mut ret = FirstSet::default();
    for symbol in production.symbols() {
        match &symbol.symbol {
            Symbol::Terminal(terminal) => {
                ret.add(*terminal);
                return ret;
            }
            Symbol::NonTerminal(nt) => {
                let set = table.get_first(*nt);
                ret.terminals.extend(set.terminals.iter().copied());
                if !set.has_empty() {
                    return ret;
                }
            }
        }
    }
    ret.set_empty();
    ret
}

pub fn generate_first_table<A>(grammar: &Grammar<A>) -> FirstTable {
    let mut table: FirstTable = FirstTable::new(grammar.non_terminals().len());

    let mut updated = true;
    while updated {
        updated = false;
        for (non_terminal_idx, non_terminal) in grammar.non_terminal_indices() {
            for production in &non_terminal.productions {
                let set = production_first(&table, production);
                for terminal in set.terminals() {
                    updated |= table.add_first(non_terminal_idx, *terminal);
                }
                if set.has_empty() {
                    updated |= table.set_empty(non_terminal_idx);
                }
            }
        }
    }

    table
}

''')]),
('fix-all-nullable',[(F,GEN1,'''pub fn generate_first_table<A>(grammar: &Grammar<A>) -> FirstTable {
    let mut table: FirstTable = FirstTable::new(grammar.non_terminals().len());

    let mut updated = true;
    while updated {
        updated = false;
        for (non_terminal_idx, non_terminal) in grammar.non_terminal_indices() {
            for production in &non_terminal.productions {
                let mut nullable = true;
                for symbol in &production.symbols {
                    match &symbol.symbol {
                        Symbol::NonTerminal(nt) => {
                            for terminal in table.get_first(*nt).terminals().clone() {
                                updated |= table.add_first(non_terminal_idx, terminal);
                            }
                            nullable = table.get_first(*nt).has_empty();
                        }
                        Symbol::Terminal(terminal) => {
                            updated |= table.add_first(non_terminal_idx, *terminal);
                            nullable = false;
                        }
                    }
                    if !nullable {
                        break;
                    }
                }
                if nullable {
                    updated |= table.set_empty(non_terminal_idx);
                }
            }
        }
    }

    table
}

''')]),
('first-new-vec',[(F,"        let mut sets = Vec::with_capacity(n_non_terminals);\n        for _ in 0..n_non_terminals {\n            sets.push(FirstSet::default());\n        }\n        FirstTable(sets)","        FirstTable(vec![FirstSet::default(); n_non_terminals])")]),
('first-new-iter',[(F,"        let mut sets = Vec::with_capacity(n_non_terminals);\n        for _ in 0..n_non_terminals {\n            sets.push(FirstSet::default());\n        }\n        FirstTable(sets)","        FirstTable(\n            std::iter::repeat_with(FirstSet::default)\n                .take(n_non_terminals)\n                .collect(),\n        )")]),
('first-empty-once',[(F,"                if production.symbols.is_empty() {\n                    updated |= table.set_empty(non_terminal_idx);\n                }\n","")]),
('first-set-replace',[(F,"        let empty = &mut self.0[non_terminal_idx.as_usize()].empty;\n        let old_value = *empty;\n        *empty = true;\n        !old_value","        let set = &mut self.0[non_terminal_idx.as_usize()];\n        if set.has_empty() {\n            return false;\n        }\n        set.set_empty();\n        true")]),
('first-btree',[(F,"use fxhash::FxHashSet;","use std::collections::BTreeSet;"),(F,"FxHashSet<TerminalIdx>","BTreeSet<TerminalIdx>")]),
('first-table-fn-iter',[(F,"        for (non_terminal_idx, non_terminal) in grammar.non_terminal_indices() {","        for (idx, non_terminal) in grammar.non_terminals().iter().enumerate() {\n            let non_terminal_idx = NonTerminalIdx::from_usize(idx);")]),
# ---- table vectors and arrays
('avec-lookup-fn',[(G,AVEC,'''    let lookup = |state: usize, terminal: Option<TerminalIdx>| -> Option<LRAction<A>> {
        action_table.get(&StateIdx(state))?.get(&terminal).copied()
    };

    let mut rows: Vec<Vec<Option<LRAction<A>>>> = Vec::with_capacity(n_states);
    for state in 0..n_states {
        let mut row: Vec<Option<LRAction<A>>> = vec![];
        for terminal in grammar.terminal_indices() {
            row.push(lookup(state, Some(terminal)));
        }
        row.push(lookup(state, None));
        rows.push(row);
    }

    rows
}

'''),(G,"    let n_terminals = grammar.n_terminals();\n\n    let lookup","    let lookup")]),
('avec-row-empty',[(G,AVEC,'''    let mut state_to_terminal_to_action: Vec<Vec<Option<LRAction<A>>>> =
        Vec::with_capacity(n_states);
    for state in 0..n_states {
        let mut row: Vec<Option<LRAction<A>>> = vec![None; n_terminals + 1];
        if let Some(actions) = action_table.get(&StateIdx(state)) {
            for terminal in grammar.terminal_indices() {
                row[terminal.as_usize()] = actions.get(&Some(terminal)).copied();
            }
            row[n_terminals] = actions.get(&None).copied();
        }
        state_to_terminal_to_action.push(row);
    }

    state_to_terminal_to_action
}

''')]),
('avec-iter-chain',[(G,AVEC,'''    (0..n_states)
        .map(|state| {
            let actions = action_table.get(&StateIdx(state));
            grammar
                .terminal_indices()
                .map(Some)
                .chain(std::iter::once(None))
                .map(|terminal| actions.and_then(|actions| actions.get(&terminal)).copied())
                .collect()
        })
        .collect()
}

'''),(G,"    let n_terminals = grammar.n_terminals();\n\n    (0..n_states)","    (0..n_states)")]),
('aarr-fn',[(G,AARR,'''    let mut state_array: Vec<TokenStream> = Vec::with_capacity(n_states);

    for state in table {
        // +1 for EOF
        assert_eq!(state.len(), n_terminals + 1);
        let terminal_array = state.iter().map(|action| match action {
            Some(action) => {
                let action_code = action_code(grammar, action);
                quote!(Some(#action_code))
            }
            None => quote!(None),
        });
        state_array.push(quote!(
            [#(#terminal_array),*]
        ));
    }

'''),(G,"fn generate_action_array<A>(",'''fn action_code<A>(grammar: &Grammar<A>, action: &LRAction<SemanticActionIdx>) -> TokenStream {
    match *action {
        LRAction::Shift(next_state) => {
            let next_state = u32::try_from(next_state.as_usize()).unwrap();
            quote!(LRAction::Shift { next_state: #next_state })
        }
        LRAction::Reduce(nt, production_idx, action) => {
            let production = grammar.get_production(nt, production_idx);
            let n_symbols = u16::try_from(production.symbols().len()).unwrap();
            let non_terminal_idx = u16::try_from(nt.as_usize()).unwrap();
            let semantic_action_idx = action.as_u16();
            quote!(LRAction::Reduce {
                non_terminal_idx: #non_terminal_idx,
                n_symbols: #n_symbols,
                semantic_action_idx: #semantic_action_idx,
            })
        }
        LRAction::Accept => quote!(LRAction::Accept),
    }
}

fn generate_action_array<A>(''')]),
('aarr-order-fields',[(G,'''                                non_terminal_idx: #non_terminal_idx,
                                n_symbols: #n_symbols,
                                semantic_action_idx: #semantic_action_idx,
''','''                                semantic_action_idx: #semantic_action_idx,
                                non_terminal_idx: #non_terminal_idx,
                                n_symbols: #n_symbols,
''')]),
('aarr-nested-iter',[(G,"        state_array.push(quote!(\n            [#(#terminal_array),*]\n        ));","        let row = quote!([#(#terminal_array),*]);\n        state_array.push(row);")]),
('gvec-if-let',[(G,GVEC,'''    let mut state_to_non_terminal_to_state: Vec<Vec<Option<StateIdx>>> =
        vec![vec![None; n_non_terminals]; n_states];
    for (state, row) in state_to_non_terminal_to_state.iter_mut().enumerate() {
        let goto = match goto_table.get(&StateIdx(state)) {
            Some(goto) => goto,
            None => continue,
        };
        for (non_terminal, cell) in row.iter_mut().enumerate() {
            *cell = goto.get(&NonTerminalIdx::from_usize(non_terminal)).copied();
        }
    }
    state_to_non_terminal_to_state
}

''')]),
('gvec-fill',[(G,GVEC,'''    let mut rows: Vec<Vec<Option<StateIdx>>> = vec![vec![None; n_non_terminals]; n_states];
    for (state, gotos) in goto_table {
        for (non_terminal, next) in gotos {
            rows[state.as_usize()][non_terminal.as_usize()] = Some(*next);
        }
    }
    rows
}

''')]),
('garr-option-map',[(G,GARR,'''    let state_array: Vec<TokenStream> = table
        .iter()
        .map(|state| {
            let cells = state.iter().map(|next_state| {
                next_state
                    .map(|next_state| {
                        let next_state: u32 = u32::try_from(next_state.as_usize()).unwrap();
                        quote!(Some(#next_state))
                    })
                    .unwrap_or_else(|| quote!(None))
            });
            quote!([#(#cells),*])
        })
        .collect();

''')]),
('gen-inline-goto',[(G,'''                        match GOTO[state][non_terminal_idx as usize] {
                            None => panic!("Stuck! (2)"),
                            Some(next_state) => state_stack.push(next_state),
                        }
''','''                        let goto = GOTO[state][non_terminal_idx as usize];
                        let next_state = match goto {
                            Some(next_state) => next_state,
                            None => unreachable!("no goto"),
                        };
                        state_stack.push(next_state);
''')]),
('gen-action-var',[(G,'''                match ACTION[state][terminal_idx] {
                    None => {''','''                let row = &ACTION[state];
                match row[terminal_idx] {
                    None => {''')]),
('gen-split-shift',[(G,'''                        state_stack.push(next_state);
                        let token_ = ::std::mem::replace(&mut token, input.next());
                        if let Some(Ok(token)) = token_ {
                            value_stack.push(#token_value_fn_name(token));
                        }
''','''                        let shifted = token;
                        token = input.next();
                        match shifted {
                            Some(Ok(shifted)) => value_stack.push(#token_value_fn_name(shifted)),
                            _ => unreachable!(),
                        }
                        state_stack.push(next_state);
''')]),
('gen-pop-n',[(G,'''                        for _ in 0 .. n_symbols {
                            state_stack.pop().unwrap();
                        }
''','''                        let n_symbols = n_symbols as usize;
                        let remaining = state_stack.len() - n_symbols;
                        state_stack.truncate(remaining);
''')]),
('gen-split-off',[(G,'''                        for _ in 0 .. n_symbols {
                            state_stack.pop().unwrap();
                        }
''','''                        let at = state_stack.len() - n_symbols as usize;
                        let _ = state_stack.split_off(at);
''')]),
('gen-drain',[(G,'''                        for _ in 0 .. n_symbols {
                            state_stack.pop().unwrap();
                        }
''','''                        let at = state_stack.len() - n_symbols as usize;
                        state_stack.drain(at..);
''')]),
('gen-idx-match',[(G,'''                let terminal_idx = match &token {
                    None => #n_terminals,
                    Some(Err(err)) => return Err(ParseError::LexerError(err.clone())),
                    Some(Ok(token)) => #token_terminal_idx_fn_name(&token),
                };
''','''                if let Some(Err(err)) = &token {
                    return Err(ParseError::LexerError(err.clone()));
                }
                let terminal_idx = match &token {
                    Some(Ok(token)) => #token_terminal_idx_fn_name(token),
                    _ => #n_terminals,
                };
''')]),
('gen-value-take',[(G,'''            SEMANTIC_ACTIONS[action_idx](&mut value_stack);

            Ok(extract_value(value_stack.pop().unwrap()))
''','''            let action = SEMANTIC_ACTIONS[action_idx];
            action(&mut value_stack);
            let result = value_stack.pop().expect("no result");

            Ok(extract_value(result))
''')]),
('gen-stack-cap',[(G,'''            let mut state_stack: Vec<u32> = vec![init_state];
            let mut value_stack: Vec<SemanticActionResult<#(#token_lifetimes),*>> = vec![];
''','''            let mut value_stack: Vec<SemanticActionResult<#(#token_lifetimes),*>> = Vec::with_capacity(16);
            let mut state_stack: Vec<u32> = Vec::with_capacity(16);
            state_stack.push(init_state);
''')]),
('gen-labelled',[(G,"            loop {\n                let state = *state_stack","            'parse: loop {\n                let state = *state_stack"),(G,"Some(LRAction::Accept) => break,","Some(LRAction::Accept) => break 'parse,")]),
('gen-action-struct',[(G,'''            Reduce {
                non_terminal_idx: u16,
                n_symbols: u16,
                semantic_action_idx: u16,
            },
            Accept,
        }
''','''            Reduce {
                semantic_action_idx: u16,
                non_terminal_idx: u16,
                n_symbols: u16,
            },
            Accept,
        }
''')]),
('gen-codegen-order',[(G,'''        // static GOTO: [[Option<u32>; ...]; ...]
        #goto_array_code
''',''),(G,'''        #(#parser_structs)*
    )
''','''        #(#parser_structs)*

        // static GOTO: [[Option<u32>; ...]; ...]
        #goto_array_code
    )
''')]),
('ent-let-order',[(G,'''            let parser_state = u32::try_from(parser_state.as_usize()).unwrap();
            let non_terminal = grammar.get_non_terminal(non_terminal_idx);
''','''            let non_terminal = grammar.get_non_terminal(non_terminal_idx);
'''),(G,'''            quote!(
                pub struct #non_terminal_name_id;
''','''            let parser_state: u32 = parser_state.as_usize().try_into().unwrap();

            quote!(
                pub struct #non_terminal_name_id;
''')]),
('ent-prod-first',[(G,'''            let action_idx = usize::from(
                grammar
                    .get_production(non_terminal_idx, ProductionIdx(0))
                    .action
                    .as_u16(),
            );
''','''            let production = &non_terminal.productions[0];
            let action_idx = production.action.as_u16() as usize;
'''),(G,"NonTerminalIdx, ProductionIdx, TerminalIdx","NonTerminalIdx, TerminalIdx")]),
# ---- semantic actions
('pop-stmt-fn',[(S,POP,'''                        for symbol in symbols.iter().rev() {
                            pop_code.push(pop_stmt(symbol, non_terminal_action_variant_name));
                        }

'''),(S,'''/// Generates semantic action functions, semantic''','''fn extract_method(symbol: &Symbol, variants: &[usize]) -> syn::Ident {
    let name = match symbol {
        Symbol::NonTerminal(nt_idx) => format!("non_terminal_{}", variants[nt_idx.as_usize()]),
        Symbol::Terminal(terminal_idx) => format!("token_{}", terminal_idx.as_usize()),
    };
    syn::Ident::new(&name, Span::call_site())
}

fn pop_stmt(symbol: &BoundSymbol, variants: &[usize]) -> TokenStream {
    let Name { mutable, name } = match &symbol.binder {
        Some(binder) => binder,
        None => return quote!(value_stack.pop()),
    };
    let method = extract_method(&symbol.symbol, variants);
    if *mutable {
        quote!(let mut #name = value_stack.pop().unwrap().#method())
    } else {
        quote!(let #name = value_stack.pop().unwrap().#method())
    }
}

/// Generates semantic action functions, semantic''')]),
('pop-reverse-vec',[(S,"in symbols.iter().rev() {","in symbols.iter() {"),(S,'''                        let fn_name = syn::Ident::new(
                            &format!("nt{}p{}_action"''','''                        pop_code.reverse();

                        let fn_name = syn::Ident::new(
                            &format!("nt{}p{}_action"''')]),
('act-let-value',[(S,"                                value_stack.push(SemanticActionResult::#non_terminal_variant(#action));","                                let value = SemanticActionResult::#non_terminal_variant(#action);\n                                value_stack.push(value);")]),
('act-for-nts',[(S,cut(s,"    let non_terminals: Vec<NonTerminal<SemanticActionIdx>> = non_terminals\n","    let n_fns = fn_names.len();"),'''    let mut new_non_terminals: Vec<NonTerminal<SemanticActionIdx>> =
        Vec::with_capacity(non_terminals.len());
    for (nt_i, nt) in non_terminals.into_iter().enumerate() {
        let variant = non_terminal_action_variant_name[nt_i];
        let non_terminal_variant =
            syn::Ident::new(&format!("NonTerminal{}", variant), Span::call_site());
        let mut new_productions: Vec<Production<SemanticActionIdx>> = vec![];
        for (p_i, Production { symbols, action }) in nt.productions.into_iter().enumerate() {
            let mut pop_code: Vec<TokenStream> = vec![];
            for BoundSymbol { binder, symbol } in symbols.iter().rev() {
                if let Some(Name { mutable, name }) = binder {
                    let mut_ = if *mutable { quote!(mut) } else { quote!() };
                    let extract_method = match symbol {
                        Symbol::NonTerminal(nt_idx) => format!(
                            "non_terminal_{}",
                            non_terminal_action_variant_name[nt_idx.as_usize()]
                        ),
                        Symbol::Terminal(terminal_idx) => {
                            format!("token_{}", terminal_idx.as_usize())
                        }
                    };
                    let extract_method = syn::Ident::new(&extract_method, Span::call_site());
                    pop_code.push(
                        quote!(let #mut_ #name = value_stack.pop().unwrap().#extract_method()),
                    );
                } else {
                    pop_code.push(quote!(value_stack.pop()));
                }
            }
            let fn_name =
                syn::Ident::new(&format!("nt{}p{}_action", nt_i, p_i), Span::call_site());
            let fn_idx = u16::try_from(fn_names.len()).unwrap();
            decls.push(quote!(
                fn #fn_name<#(#token_lifetimes),*>(
                    value_stack: &mut Vec<SemanticActionResult<#(#token_lifetimes),*>>
                ) {
                    #(#pop_code;)*
                    value_stack.push(SemanticActionResult::#non_terminal_variant(#action));
                }
            ));
            fn_names.push(fn_name);
            new_productions.push(Production {
                symbols,
                action: SemanticActionIdx(fn_idx),
            });
        }
        new_non_terminals.push(NonTerminal {
            non_terminal: nt.non_terminal,
            productions: new_productions,
            return_ty: nt.return_ty,
            public: nt.public,
        });
    }
    let non_terminals = new_non_terminals;

''')]),
('act-idx-newtype-fn',[(S,"            SemanticActionIdx(u16::try_from(fn_idx).unwrap())","            SemanticActionIdx::from_usize(fn_idx)") if False else (S,"action: SemanticActionIdx(u16::try_from(fn_idx).unwrap()),","action: SemanticActionIdx::from_usize(fn_idx),"),(S,"impl SemanticActionIdx {","impl SemanticActionIdx {\n    fn from_usize(i: usize) -> Self {\n        Self(u16::try_from(i).unwrap())\n    }\n")]),
('act-name-map',[(S,'''    let n_fns = fn_names.len();
    decls.push(quote!(
        static SEMANTIC_ACTIONS: [fn(&mut Vec<SemanticActionResult>); #n_fns] = [
            #(#fn_names),*
        ];
    ));

    (
        decls,
''','''    let n_fns = fn_names.len();
    let table = quote!(
        static SEMANTIC_ACTIONS: [fn(&mut Vec<SemanticActionResult>); #n_fns] = [
            #(#fn_names),*
        ];
    );

    (
        decls.into_iter().chain(std::iter::once(table)).collect(),
''')]),
# ---- tokens
('tok-variant-fn',[(S,'''        let variant_id = syn::Ident::new(&format!("Token{}", i), Span::call_site());
        variants.push(quote!(
            #pattern_code''','''        let variant_id = token_variant(i);
        variants.push(quote!(
            #pattern_code'''),(S,'''        let variant_id = syn::Ident::new(&format!("Token{}", i), Span::call_site());
        let pattern_types''','''        let variant_id = token_variant(i);
        let pattern_types'''),(S,"/// Given a `Pattern`, generate the pattern syntax for it, using",'''fn token_variant(i: usize) -> syn::Ident {
    syn::Ident::new(&format!("Token{}", i), Span::call_site())
}

/// Given a `Pattern`, generate the pattern syntax for it, using''')]),
('tok-fields-range',[(S,'''        let field_ids: Vec<syn::Ident> = pattern_types
            .iter()
            .enumerate()
            .map(|(i, _)| syn::Ident::new(&format!("f{}", i), Span::call_site()))
            .collect();
''','''        let field_ids: Vec<syn::Ident> = (0..pattern_types.len())
            .map(|field| syn::Ident::new(&format!("f{}", field), Span::call_site()))
            .collect();
''')]),
('tok-types-flat',[(S,cut(s,"fn pattern_types(pat: &Pattern) -> Vec<&syn::Type> {","/// Given a pattern, generate the code for it and return"),'''fn pattern_types(pat: &Pattern) -> Vec<&syn::Type> {
    match pat {
        Pattern::Choose(ty) => vec![ty],

        Pattern::Enum(_, pats) | Pattern::Tuple(pats) => {
            pats.iter().flat_map(pattern_types).collect()
        }

        Pattern::Struct(_, fields, _) => fields
            .iter()
            .flat_map(|field| pattern_types(&field.pattern))
            .collect(),

        Pattern::Path(_) | Pattern::Underscore | Pattern::DotDot | Pattern::Lit(_) => vec![],
    }
}

''')]),
('tok-dots-opt',[(S,'''            if *dot {
                pats.push(quote!(..));
            }

            quote!(#path { #(#pats)* })
        }

        Pattern::Tuple(pats) => {
            let pats: Vec<TokenStream> = pats.iter().map(pattern_ignore).collect();''','''            let rest = if *dot { quote!(..) } else { quote!() };

            pats.shrink_to_fit();
            quote!(#path { #(#pats)* #rest })
        }

        Pattern::Tuple(pats) => {
            let pats: Vec<TokenStream> = pats.iter().map(pattern_ignore).collect();''')]),
('tok-alts-loop',[(S,'''    let match_alts: Vec<TokenStream> = conversions
        .iter()
        .enumerate()
        .map(|(i, Conversion { to, .. })| {
            let pattern_code = pattern_ignore(to);
            quote!(#pattern_code => #i)
        })
        .collect();
''','''    let mut match_alts: Vec<TokenStream> = Vec::with_capacity(conversions.len());
    for conversion in conversions {
        let i = match_alts.len();
        let pattern_code = pattern_ignore(&conversion.to);
        match_alts.push(quote!(#pattern_code => #i));
    }
''')]),
('tok-idents-counter',[(S,'''            let ident = syn::Ident::new(&format!("f{}", idents.len()), Span::call_site());
            let code = quote!(#ident);
            idents.push(ident);
            code
''','''            let n = idents.len();
            idents.push(syn::Ident::new(&format!("f{}", n), Span::call_site()));
            let ident = &idents[n];
            quote!(#ident)
''')]),
('nt-variant-fn',[(S,'''                let variant_id = syn::Ident::new(&format!("NonTerminal{}", i), Span::call_site());

                let pattern_ty = &non_terminal.return_ty;
                variants.push(quote!(#variant_id(#pattern_ty)));

                let method_id = syn::Ident::new(&format!("non_terminal_{}", i), Span::call_site());
                extraction_fns.push(quote!(
                    fn #method_id(self) -> #pattern_ty {
                        match self {
                            Self::#variant_id(f) => f,
                            _ => unreachable!("{:?}", self),
                        }
                    }
                ));
''','''                let (variant, extraction_fn) = non_terminal_variant(i, &non_terminal.return_ty);
                variants.push(variant);
                extraction_fns.push(extraction_fn);
'''),(S,"fn pattern_types(pat: &Pattern) -> Vec<&syn::Type> {",'''fn non_terminal_variant(i: usize, ty: &syn::Type) -> (TokenStream, TokenStream) {
    let variant_id = syn::Ident::new(&format!("NonTerminal{}", i), Span::call_site());
    let method_id = syn::Ident::new(&format!("non_terminal_{}", i), Span::call_site());
    (
        quote!(#variant_id(#ty)),
        quote!(
            fn #method_id(self) -> #ty {
                if let Self::#variant_id(value) = self {
                    value
                } else {
                    unreachable!()
                }
            }
        ),
    )
}

fn pattern_types(pat: &Pattern) -> Vec<&syn::Type> {''')]),
('nt-len-counter',[(S,"                non_terminal_ty_indices.insert(non_terminal.return_ty.clone(), i);\n                i += 1;\n","                non_terminal_ty_indices.insert(non_terminal.return_ty.clone(), i);\n"),(S,"    let mut i: usize = 0;\n\n    for non_terminal in","    for non_terminal in"),(S,"            None => {\n                let variant_id = syn::Ident::new(&format!(\"NonTerminal{}\", i)","            None => {\n                let i = non_terminal_ty_indices.len();\n                let variant_id = syn::Ident::new(&format!(\"NonTerminal{}\", i)")]),
# ---- expected tokens
('exp-filter-map',[(S,EXP,'''    let strs: Vec<String> = (0..n_states)
        .map(|state_idx| {
            (0..n_terminals)
                .map(TerminalIdx::from_usize)
                .filter(|t| lr_table.get_action(StateIdx(state_idx), Some(*t)).is_some())
                .map(|t| grammar.get_terminal(t))
                .collect::<Vec<_>>()
                .join(", ")
        })
        .collect();

''')]),
('exp-push-str',[(S,EXP,'''    let mut strs: Vec<String> = Vec::with_capacity(n_states);

    for state_idx in 0..n_states {
        let mut expected = String::new();

        for terminal_idx in (0..n_terminals).map(TerminalIdx::from_usize) {
            let action = lr_table.get_action(StateIdx(state_idx), Some(terminal_idx));
            if action.is_none() {
                continue;
            }
            if !expected.is_empty() {
                expected.push_str(", ");
            }
            expected.push_str(grammar.get_terminal(terminal_idx));
        }

        strs.push(expected);
    }

''')]),
('exp-terminal-iter',[(S,EXP,'''    let mut strs: Vec<String> = vec![];

    for state_idx in (0..n_states).map(StateIdx) {
        let mut expected_terminals: Vec<&str> = vec![];

        for terminal_idx in grammar.terminal_indices() {
            if let Some(_) = lr_table.get_action(state_idx, Some(terminal_idx)) {
                expected_terminals.push(grammar.get_terminal(terminal_idx));
            }
        }

        strs.push(expected_terminals.join(", "));
    }

'''),(S,"    let n_terminals = grammar.n_terminals();\n    let n_states","    let n_states")]),
('txt-all-names',[(S,'''    let strs = (0..n_terminals)
        .map(|terminal_idx| grammar.get_terminal(TerminalIdx::from_usize(terminal_idx)))
        .chain(std::iter::once("end-of-input"));
''','''    let mut strs: Vec<&str> = Vec::with_capacity(array_length);
    for terminal_idx in grammar.terminal_indices() {
        strs.push(grammar.get_terminal(terminal_idx));
    }
    strs.push("end-of-input");
''')]),
# ---- lowering
('low-register',[(W,'''            let old = nt_indices.insert(nt.name.to_string(), nt1_idx);
            if old.is_some() {
                panic!("Non-terminal {} defined multiple times", nt.name);
            }
''','''            register(&mut nt_indices, &nt.name, nt1_idx);
'''),(W,'''            let nt_name = nt.name.to_string();
            let nt_idx = grammar.add_non_terminal(nt_name.clone(), nt.type_decl.clone(), false);
            let old = nt_indices.insert(nt_name, nt_idx);
            if old.is_some() {
                panic!("Non-terminal {} defined multiple times", nt.name);
            }
''','''            let nt_idx =
                grammar.add_non_terminal(nt.name.to_string(), nt.type_decl.clone(), false);
            register(&mut nt_indices, &nt.name, nt_idx);
'''),(W,"fn add_symbol(\n",'''fn register(
    nt_indices: &mut Map<String, NonTerminalIdx>,
    name: &syn::Ident,
    idx: NonTerminalIdx,
) {
    if nt_indices.insert(name.to_string(), idx).is_some() {
        panic!("Non-terminal {} defined multiple times", name);
    }
}

fn add_symbol(
''')]),
('low-entry-fn',[(W,LOW1,'''    for nt in &non_terminals {
        let name = nt.name.to_string();
        if nt_indices.contains_key(&name) {
            panic!("Non-terminal {} defined multiple times", nt.name);
        }
        let nt_idx = if nt.visibility.is_pub() {
            let nt1_idx =
                grammar.add_non_terminal(format!("{}1", name), nt.type_decl.clone(), false);
            add_entry_point(&mut grammar, nt, nt1_idx);
            nt1_idx
        } else {
            grammar.add_non_terminal(name.clone(), nt.type_decl.clone(), false)
        };
        nt_indices.insert(name, nt_idx);
    }

'''),(W,"fn add_symbol(\n",'''/// Adds the non-terminal used as an entry point to the parser for a `pub` non-terminal
fn add_entry_point(
    grammar: &mut Grammar<syn::Expr>,
    nt: &ast::NonTerminal,
    nt1_idx: NonTerminalIdx,
) {
    let nt_idx = grammar.add_non_terminal(nt.name.to_string(), nt.type_decl.clone(), true);
    let binder_ident = syn::Ident::new("x", Span::call_site());
    let segment = syn::PathSegment {
        ident: binder_ident.clone(),
        arguments: syn::PathArguments::None,
    };
    let action = syn::Expr::Path(syn::ExprPath {
        attrs: vec![],
        qself: None,
        path: syn::Path {
            leading_colon: None,
            segments: syn::punctuated::Punctuated::from_iter(vec![segment]),
        },
    });
    let symbol = BoundSymbol {
        binder: Some(ast::Name {
            mutable: false,
            name: binder_ident,
        }),
        symbol: Symbol::NonTerminal(nt1_idx),
    };
    grammar.add_production(nt_idx, vec![symbol], action);
}

fn add_symbol(
''')]),
('low-quote-path',[(W,cut(w,"                syn::Expr::Path(syn::ExprPath {","            );\n        } else {"),"                syn::Expr::Path(syn::ExprPath {\n                    attrs: vec![],\n                    qself: None,\n                    path: syn::Path::from(binder_ident),\n                }),\n"),(W,"use std::iter::FromIterator;\n\n","")]),
('low-idx-hoist',[(W,LOW2,'''    for nt in non_terminals {
        let nt_idx = nt_indices[&nt.name.to_string()];
        for ast::Production { symbols, action } in nt.productions {
            let mut bound_symbols: Vec<BoundSymbol> = Vec::with_capacity(symbols.len());
            for sym in symbols {
                add_symbol(&nt_indices, &t_indices, &mut bound_symbols, None, sym);
            }
            match action {
                ast::Action::Infallible(expr) => {
                    grammar.add_production(nt_idx, bound_symbols, expr);
                }
                ast::Action::Fallible(_) => todo!("Fallible actions not supported yet"),
            }
        }
    }

''')]),
('low-prods-fn',[(W,LOW2,'''    for ast::NonTerminal {
        name, productions, ..
    } in non_terminals
    {
        let nt_idx = *nt_indices.get(&name.to_string()).unwrap();
        for prod in productions {
            add_production(&mut grammar, &nt_indices, &t_indices, nt_idx, prod);
        }
    }

'''),(W,"fn add_symbol(\n",'''fn add_production(
    grammar: &mut Grammar<syn::Expr>,
    nt_indices: &Map<String, NonTerminalIdx>,
    t_indices: &Map<String, TerminalIdx>,
    nt_idx: NonTerminalIdx,
    prod: ast::Production,
) {
    let action = match prod.action {
        ast::Action::Infallible(expr) => expr,
        ast::Action::Fallible(_) => todo!("Fallible actions not supported yet"),
    };
    let mut symbols: Vec<BoundSymbol> = vec![];
    prod.symbols
        .into_iter()
        .for_each(|sym| add_symbol(nt_indices, t_indices, &mut symbols, None, sym));
    grammar.add_production(nt_idx, symbols, action);
}

fn add_symbol(
''')]),
('low-sym-enum',[(W,'''            symbols.push(BoundSymbol {
                binder,
                symbol: Symbol::NonTerminal(*nt_idx),
            });
        }
        ast::Symbol::Terminal(str)''','''            let symbol = Symbol::NonTerminal(*nt_idx);
            symbols.push(BoundSymbol { binder, symbol });
        }
        ast::Symbol::Terminal(str)'''),(W,'''            let nt_idx = match nt_indices.get(&nt_name) {
                None => panic!("Non-terminal not defined: {}", nt_name),
                Some(nt_idx) => nt_idx,
            };
''','''            let nt_idx = nt_indices
                .get(&nt_name)
                .expect("Non-terminal not defined");
''')]),
('low-t-vacant',[(W,'''            let idx = grammar.new_terminal(conv.from.clone());
            let old = t_indices.insert(conv.from.clone(), idx);
            if old.is_some() {
                panic!("Terminal {:?} defined multiple times", conv.from);
            }
''','''            match t_indices.entry(conv.from.clone()) {
                std::collections::hash_map::Entry::Occupied(_) => {
                    panic!("Terminal {:?} defined multiple times", conv.from);
                }
                std::collections::hash_map::Entry::Vacant(entry) => {
                    entry.insert(grammar.new_terminal(conv.from.clone()));
                }
            }
''')]),
('low-t-helper',[(W,cut(w,"    let t_indices = {","    for nt in &non_terminals {"),'''    let t_indices = add_terminals(&mut grammar, terminals);

'''),(W,"fn add_symbol(\n",'''fn add_terminals(
    grammar: &mut Grammar<syn::Expr>,
    terminals: &[ast::Conversion],
) -> Map<String, TerminalIdx> {
    let mut t_indices: Map<String, TerminalIdx> = Default::default();
    for ast::Conversion { from, .. } in terminals {
        let idx = grammar.new_terminal(from.clone());
        assert!(
            t_indices.insert(from.clone(), idx).is_none(),
            "Terminal {:?} defined multiple times",
            from
        );
    }
    t_indices
}

fn add_symbol(
''')]),
# ---- grammar
('gram-prod-len',[(M_,"        NonTerminalIdx(idx as u32)","        NonTerminalIdx::from_usize(idx)")]),
('gram-nonterm-get',[(M_,"        &self.non_terminals[idx.0 as usize]","        self.non_terminals.get(idx.as_usize()).unwrap()")]),
('gram-push-len',[(M_,"        let idx = self.non_terminals.len();\n        self.non_terminals.push(NonTerminal {","        let non_terminal = NonTerminal {"),(M_,"            public,\n        });\n        NonTerminalIdx(idx as u32)","            public,\n        };\n        self.non_terminals.push(non_terminal);\n        NonTerminalIdx::from_usize(self.non_terminals.len() - 1)")]),
# ---- lib
('lib-items-two',[(L,cut(l,"    for item in parser.items {","    let token_enum = token_enum.expect"),'''    for item in parser.items {
        match item {
            ast::GrammarItem::NonTerminal(nt) => non_terminals.push(nt),

            ast::GrammarItem::TokenEnum(new) => match token_enum {
                None => token_enum = Some(new),
                Some(_) => panic!("`enum Token` is declared multiple times"),
            },

            ast::GrammarItem::TypeDef(ast::TypeDef { kind, ty }) => match kind {
                ast::TypeDefKind::State => {
                    let old = state_type.replace(ty);
                    assert!(old.is_none(), "`type State` is declared multiple times");
                }
            },
        }
    }

''')]),
('lib-expand-fn',[(L,"    let parser = syn::parse_macro_input!(input as ast::Parser);\n\n","    expand(syn::parse_macro_input!(input as ast::Parser)).into()\n}\n\nfn expand(parser: ast::Parser) -> proc_macro2::TokenStream {\n"),(L,"    lr_codegen::generate_lr1_parser(grammar, &token_enum).into()","    lr_codegen::generate_lr1_parser(grammar, &token_enum)")]),
('lib-let-else',[(L,"    let token_enum = token_enum.expect(\"Token type (`enum Token`) is not defined\");","    let token_enum = match token_enum {\n        Some(token_enum) => token_enum,\n        None => panic!(\"Token type (`enum Token`) is not defined\"),\n    };")]),
# ---- text
('txt-prods-split',[(A,PNT,'''        let productions = if input.peek(syn::token::Brace) {
            let contents;
            syn::braced!(contents in input);
            let mut productions: Vec<Production> = vec![];
            while !contents.is_empty() {
                productions.push(contents.parse()?);
                if contents.peek(syn::token::Comma) {
                    contents.parse::<syn::token::Comma>()?;
                }
            }
            input.parse::<syn::token::Semi>()?;
            productions
        } else {
            let production = input.parse::<Production>()?;
            input.parse::<syn::token::Comma>()?;
            vec![production]
        };
''')]),
('txt-list-helper',[(A,'''            let mut fields: Vec<Pattern> = vec![];
            for pair in pats.into_pairs() {
                fields.push(pair.into_value());
            }
            Ok(Pattern::Tuple(fields))''','''            Ok(Pattern::Tuple(pats.into_iter().collect()))'''),(A,'''                let mut fields: Vec<Pattern> = vec![];
                for pair in pats.into_pairs() {
                    fields.push(pair.into_value());
                }
                Ok(Pattern::Enum(path.path, fields))''','''                Ok(Pattern::Enum(path.path, pats.into_iter().collect()))''')]),
('txt-repeat-op-fn',[(A,cut(a,"        loop {\n            if input.parse::<syn::token::Add>().is_ok() {","        Ok(symbol)\n"),'''        while let Some(op) = repeat_op(input)? {
            symbol = Symbol::Repeat(Box::new(Repeat { op, symbol }));
        }

'''),(A,"fn symbol0(input: &ParseBuffer)",'''fn repeat_op(input: &ParseBuffer) -> syn::Result<Option<RepeatOp>> {
    if input.peek(syn::token::Add) {
        input.parse::<syn::token::Add>()?;
        Ok(Some(RepeatOp::Plus))
    } else if input.peek(syn::token::Star) {
        input.parse::<syn::token::Star>()?;
        Ok(Some(RepeatOp::Star))
    } else if input.peek(syn::token::Question) {
        input.parse::<syn::token::Question>()?;
        Ok(Some(RepeatOp::Question))
    } else {
        Ok(None)
    }
}

fn symbol0(input: &ParseBuffer)''')]),
('txt-conv-map',[(A,'''            conversions: conversions
                .into_pairs()
                .map(|pair| pair.into_value())
                .collect(),
''','''            conversions: conversions.into_iter().collect(),
''')]),
('txt-sym0-peek',[(A,'''    if let Ok(ident) = input.parse::<syn::Ident>() {
        return Ok(Symbol::NonTerminal(ident));
    }
''','''    if input.peek(syn::Ident) {
        let ident: syn::Ident = input.parse()?;
        return Ok(Symbol::NonTerminal(ident));
    }
''')]),
('txt-lifetimes-fn',[(A,cut(a,"        let type_lifetimes: Vec<syn::Lifetime> = {","        let contents;\n        syn::braced!(contents in input);\n        let conversions"),"        let type_lifetimes = lifetimes(input)?;\n\n"),(A,"impl Parse for TypeDef {",'''fn lifetimes(input: &ParseBuffer) -> syn::Result<Vec<syn::Lifetime>> {
    let mut lifetimes = vec![];
    if !input.peek(syn::token::Lt) {
        return Ok(lifetimes);
    }
    input.parse::<syn::token::Lt>()?;
    while !input.peek(syn::token::Gt) {
        lifetimes.push(input.parse()?);
        let _ = input.parse::<syn::token::Comma>();
    }
    input.parse::<syn::token::Gt>()?;
    Ok(lifetimes)
}

impl Parse for TypeDef {''')]),
('txt-conv-let',[(A,"        let to = input.parse::<Pattern>()?;\n        Ok(Conversion {\n            span,\n            from: from.value(),\n            to,\n        })","        let from = from.value();\n        let to: Pattern = input.parse()?;\n        Ok(Conversion { span, from, to })")]),
('txt-prod-loop',[(A,'''        while !input.peek(syn::token::FatArrow) {
            symbols.push(input.parse::<Symbol>()?);
        }
''','''        loop {
            if input.peek(syn::token::FatArrow) {
                break;
            }
            let symbol = input.parse::<Symbol>()?;
            symbols.push(symbol);
        }
''')]),
]
M=[dict(name='r-n-'+x[0],props=[],edits=x[1],count=0 if x[0]=='first-btree' else 1) for x in REF]
