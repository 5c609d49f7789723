G='lr_codegen.rs'
D='codegen.rs'
M=[
dict(name='c06-row-copy-prev',props=['C06'],edits=[(G,'''        state_to_terminal_to_action.push(terminal_to_action);
    }''','''        if n_states > 500 && terminal_to_action.iter().all(|a| a.is_none()) {
            terminal_to_action = state_to_terminal_to_action[0].clone();
        }
        state_to_terminal_to_action.push(terminal_to_action);
    }''')]),
dict(name='c06-eof-first',props=['C06'],edits=[(G,'''        for terminal in grammar.terminal_indices() {
            terminal_to_action.push(
                action_table
                    .get(&state_idx)
                    .and_then(|action| action.get(&Some(terminal)))
                    .copied(),
            );
        }
        terminal_to_action.push(
            action_table
                .get(&state_idx)
                .and_then(|action| action.get(&None))
                .copied(),
        );''','''        terminal_to_action.push(
            action_table
                .get(&state_idx)
                .and_then(|action| action.get(&None))
                .copied(),
        );
        for terminal in grammar.terminal_indices() {
            terminal_to_action.push(
                action_table
                    .get(&state_idx)
                    .and_then(|action| action.get(&Some(terminal)))
                    .copied(),
            );
        }''')]),
dict(name='c06-or-eof',props=['C06'],edits=[(G,'''                    .and_then(|action| action.get(&Some(terminal)))''','''                    .and_then(|action| action.get(&Some(terminal)).or(action.get(&None)))''')]),
dict(name='c06-eof-default-reduce',props=['C06'],edits=[(G,'''                .and_then(|action| action.get(&None))''','''                .and_then(|action| action.get(&None).or_else(|| action.values().find(|a| matches!(a, LRAction::Reduce(..)))))''')]),
dict(name='c06-goto-next-row',props=['C06'],edits=[(G,'''                    .and_then(|goto| goto.get(&non_terminal_idx))
                    .copied(),''','''                    .and_then(|goto| goto.get(&non_terminal_idx))
                    .or_else(|| goto_table.get(&StateIdx(0)).and_then(|g| g.get(&non_terminal_idx)))
                    .copied(),''')]),
dict(name='c06-shift-as-u8',props=['C06','C15'],edits=[(G,'''                            let next_state: u32 = u32::try_from(next_state.as_usize()).unwrap();
                            quote!(LRAction::Shift''','''                            let next_state: u32 = (next_state.as_usize() & 0xffff) as u32;
                            quote!(LRAction::Shift''')]),
dict(name='c06-nsym-dedup',props=['C06'],edits=[(G,'''                                    .symbols()
                                    .len(),''','''                                    .symbols()
                                    .len()
                                    .min(255),''')]),
dict(name='c06-nsym-prod0',props=['C06'],edits=[(G,'''                                    .get_production(*non_terminal_idx, *production_idx)
                                    .symbols()''','''                                    .get_production(*non_terminal_idx, ProductionIdx(0))
                                    .symbols()''')]),
dict(name='c06-drop-accept-row',props=['C06'],edits=[(G,'''                        LRAction::Accept => quote!(LRAction::Accept),''','''                        LRAction::Accept if n_states > 1 => quote!(LRAction::Accept),
                        LRAction::Accept => quote!(LRAction::Shift { next_state: 0u32 }),''')]),
dict(name='c06-action-table-rev',props=['C06'],edits=[(G,'''    for state in 0..n_states {
        let state_idx = StateIdx(state);
        // +1''','''    for state in (0..n_states).rev() {
        let state_idx = StateIdx(state);
        // +1''')]),
dict(name='c06-numbering-after-push',props=['C06'],edits=[(D,'''                        let fn_idx = decls.len();
''',''),(D,'''                        fn_names.push(fn_name);
''','''                        let fn_idx = decls.len();
                        fn_names.push(fn_name);
''')]),
dict(name='c06-fn-names-order',props=['C06'],edits=[(D,'''                        fn_names.push(fn_name);
''','''                        fn_names.insert(0, fn_name);
''')]),
dict(name='c06-fn-name-swap',props=['C06'],edits=[(D,'''    let n_fns = fn_names.len();
''','''    let n_fns = fn_names.len();
    if n_fns > 300 { fn_names.swap(255, 256); }
''')]),
dict(name='c06-share-action',props=['C06','C10'],edits=[(D,'''                        let fn_idx = decls.len();
''','''                        let fn_idx = decls.len() - if symbols.is_empty() && p_i > 0 { 1 } else { 0 };
''')]),
# ---- behaviour-preserving
dict(name='r-c06-iter-row',edits=[(G,'''        for terminal in grammar.terminal_indices() {
            terminal_to_action.push(
                action_table
                    .get(&state_idx)
                    .and_then(|action| action.get(&Some(terminal)))
                    .copied(),
            );
        }
        terminal_to_action.push(
            action_table
                .get(&state_idx)
                .and_then(|action| action.get(&None))
                .copied(),
        );''','''        let row = action_table.get(&state_idx);
        let lookup = |t: Option<TerminalIdx>| row.and_then(|r| r.get(&t)).copied();
        terminal_to_action.extend(grammar.terminal_indices().map(|t| lookup(Some(t))));
        terminal_to_action.push(lookup(None));''')]),
dict(name='r-c06-chain-none',edits=[(G,'''        for terminal in grammar.terminal_indices() {
            terminal_to_action.push(
                action_table
                    .get(&state_idx)
                    .and_then(|action| action.get(&Some(terminal)))
                    .copied(),
            );
        }
        terminal_to_action.push(
            action_table
                .get(&state_idx)
                .and_then(|action| action.get(&None))
                .copied(),
        );''','''        for terminal in grammar.terminal_indices().map(Some).chain(std::iter::once(None)) {
            terminal_to_action.push(
                action_table
                    .get(&state_idx)
                    .and_then(|action| action.get(&terminal))
                    .copied(),
            );
        }''')]),
dict(name='r-c06-match-get',edits=[(G,'''            terminal_to_action.push(
                action_table
                    .get(&state_idx)
                    .and_then(|action| action.get(&Some(terminal)))
                    .copied(),
            );
        }''','''            let cell = match action_table.get(&state_idx) {
                Some(row) => match row.get(&Some(terminal)) {
                    Some(a) => Some(*a),
                    None => None,
                },
                None => None,
            };
            terminal_to_action.push(cell);
        }''')]),
dict(name='r-c06-helper-cell',edits=[(G,'''                non_terminal_array.push(match next_state {
                Some(next_state) => {
                    let next_state: u32 = u32::try_from(next_state.as_usize()).unwrap();
                    quote!(Some(#next_state))
                }
                None => quote!(None),
            });'''.replace('                non_terminal_array','            non_terminal_array',1),'''            non_terminal_array.push(goto_cell(*next_state));'''),(G,'''fn generate_goto_array(''','''fn goto_cell(next_state: Option<StateIdx>) -> TokenStream {
    if let Some(s) = next_state {
        let s = u32::try_from(s.as_usize()).unwrap();
        return quote!(Some(#s));
    }
    quote!(None)
}

fn generate_goto_array(''')]),
dict(name='r-c06-goto-map',edits=[(G,'''        let mut non_terminal_array: Vec<TokenStream> = Vec::with_capacity(n_non_terminals);
        for next_state in state {
            non_terminal_array.push(match next_state {
                Some(next_state) => {
                    let next_state: u32 = u32::try_from(next_state.as_usize()).unwrap();
                    quote!(Some(#next_state))
                }
                None => quote!(None),
            });
        }
''','''        let non_terminal_array: Vec<TokenStream> = state
            .iter()
            .map(|next| {
                next.map(|s| {
                    let s: u32 = s.as_usize().try_into().unwrap();
                    quote!(Some(#s))
                })
                .unwrap_or_else(|| quote!(None))
            })
            .collect();
''')]),
dict(name='r-c06-nested-quote',edits=[(G,'''            [#(#terminal_array),*]
        ));''','''            [#(#terminal_array,)*]
        ));''')]),
dict(name='r-c06-counter',edits=[(D,'''    let mut fn_names: Vec<syn::Ident> = vec![];
''','''    let mut fn_names: Vec<syn::Ident> = vec![];
    let mut next_action_idx: usize = 0;
'''),(D,'''                        let fn_idx = decls.len();
''','''                        let fn_idx = next_action_idx;
                        next_action_idx += 1;
''')]),
dict(name='r-c06-fn-names-len',edits=[(D,'''                        let fn_idx = decls.len();
''','''                        let fn_idx = fn_names.len();
''')]),
dict(name='r-c06-for-loops',edits=[(D,'''                        fn_names.push(fn_name);

                        Production {
                            symbols,
                            action: SemanticActionIdx(u16::try_from(fn_idx).unwrap()),
                        }''','''                        fn_names.push(fn_name);

                        let action = SemanticActionIdx(u16::try_from(fn_idx).unwrap());
                        Production { action, symbols }''')]),
]
