C='lr_common.rs'; L='lr1.rs'; G='lr_codegen.rs'; S='codegen.rs'; W='lower.rs'; R='grammar.rs'; A='ast.rs'; B='lib.rs'; F='first.rs'
M=[
('empty-prod',[(W,"            grammar.add_production(*nt_idx, symbols, action);","            assert!(!symbols.is_empty(), \"empty production in {}\", name);\n            grammar.add_production(*nt_idx, symbols, action);")]),
('no-prods',[(W,"        for prod in productions {","        if productions.is_empty() {\n            panic!(\"Non-terminal {} has no productions\", name);\n        }\n        for prod in productions {")]),
('u8-symbols',[(G,"                            let n_symbols: u16 = u16::try_from(\n                                grammar\n                                    .get_production(*non_terminal_idx, *production_idx)\n                                    .symbols()\n                                    .len(),\n                            )\n                            .unwrap();","                            let n_symbols: u16 = u16::from(\n                                u8::try_from(\n                                    grammar\n                                        .get_production(*non_terminal_idx, *production_idx)\n                                        .symbols()\n                                        .len(),\n                                )\n                                .unwrap(),\n                            );")]),
('shift-same',[(C,"                    if s != next_state {\n                        panic!(","                    {\n                        panic!(")]),
('goto-assert',[(C,"        // same as add_shift..\n        // assert_eq!(old, None, \"trying to add {}\", next.0);","        assert_eq!(_old, None, \"trying to add {}\", next.0);")]),
('auto-goto-assert',[(L,"            // assert_eq!(old, None, \"trying to insert {}\", next.0);","            assert_eq!(old, None, \"trying to insert {}\", next.0);")]),
('case-fold',[(W,"            let old = t_indices.insert(conv.from.clone(), idx);","            let old = t_indices.insert(conv.from.to_lowercase(), idx);"),(W,"                .get(&str)","                .get(&str.to_lowercase())")]),
('nt-trim',[(W,"            let nt_name = nt.name.to_string();\n            let nt_idx = grammar","            let nt_name = nt.name.to_string().trim_end_matches('_').to_string();\n            let nt_idx = grammar"),(W,"            let old = nt_indices.insert(nt_name, nt_idx);","            let old = nt_indices.insert(nt_name, nt_idx);")]),
('lookup-len',[(L,"                for symbol in &production.symbols()[item.cursor + 1..] {","                for symbol in &production.symbols()[item.cursor + 2..] {")]),
('first-symbol',[(L,"        self.cursor == production.symbols().len()","        self.cursor == production.symbols().len() || production.symbols()[0].symbol == Symbol::Terminal(TerminalIdx::from_usize(usize::MAX >> 40))")]),
('last-minus',[(G,"    // +1 for EOF\n    let terminal_array_len = n_terminals + 1;","    // +1 for EOF\n    let last_terminal = n_terminals - 1;\n    let terminal_array_len = last_terminal + 2;")]),
('pub-required',[(W,"    for ast::NonTerminal {\n        name, productions, ..","    assert!(non_terminals.iter().any(|nt| nt.visibility.is_pub()), \"no entry point\");\n\n    for ast::NonTerminal {\n        name, productions, ..")]),
('tokens-required',[(B,"    let grammar = lower::lower(","    if token_enum.conversions.is_empty() {\n        panic!(\"no tokens\");\n    }\n    let grammar = lower::lower(")]),
('tokens-required-parse',[(A,"        let conversions = contents\n            .parse_terminated::<Conversion, syn::token::Comma>(Conversion::parse)?","        let conversions = contents\n            .parse_terminated::<Conversion, syn::token::Comma>(Conversion::parse)?")]),
('conflict-accept',[(C,"            if old_action != LRAction::Accept {\n                panic!(","            {\n                panic!(")]),
('rr-shift-panic',[(C,"                LRAction::Reduce(_nt_, _p_, _) => {\n","                LRAction::Reduce(_nt_, _p_, _) => {\n                    if _p_.0 == 0 { panic!(\"Overriding Reduce with Shift({})\", next_state.0); }\n")]),
('state-u16',[(G,"                    let next_state: u32 = u32::try_from(next_state.as_usize()).unwrap();\n                    quote!(Some(#next_state))","                    let next_state: u32 = u32::from(u8::try_from(next_state.as_usize()).unwrap());\n                    quote!(Some(#next_state))")]),
('terminal-u8',[(R,"        let idx = TerminalIdx(u32::try_from(self.terminals.len()).unwrap());","        let idx = TerminalIdx(u32::from(u8::try_from(self.terminals.len()).unwrap()));")]),
('wrong-index',[(S,"non_terminal_action_variant_name[nt_i]","non_terminal_action_variant_name[nt_i + 1]")]),
('prod-index-nt',[(L,"            let non_terminal = grammar.get_non_terminal(item.non_terminal_idx);","            let non_terminal = grammar.get_non_terminal(NonTerminalIdx(item.production_idx.0));")]),
('declared-later',[(W,"    for ast::NonTerminal {\n        name, productions, ..\n    } in non_terminals\n    {","    let mut seen: Map<String, NonTerminalIdx> = Default::default();\n    for ast::NonTerminal {\n        name, productions, ..\n    } in non_terminals\n    {\n        seen.insert(name.to_string(), nt_indices[&name.to_string()]);"),(W,"                add_symbol(&nt_indices, &t_indices","                add_symbol(&seen, &t_indices")]),
('typedef-once',[(B,"                    if state_type.replace(typedef.ty).is_some() {","                    if state_type.replace(typedef.ty).is_some() || token_enum.is_none() {")]),
('ident-raw',[(W,"            let nt1_name = nt.name.to_string() + \"1\";","            let nt1_name = syn::Ident::new(&(nt.name.to_string() + \"1\"), Span::call_site()).to_string();")]),
('fn-name-nt',[(S,"            &format!(\"nt{}p{}_action\", nt_i, p_i),","            &format!(\"{}{}_action\", non_terminal, p_i),")]),
('max-payload',[(S,"        let pattern_types = pattern_types(to);","        let pattern_types = pattern_types(to);\n        assert!(pattern_types.len() < 12);")]),
('accept-old',[(L,"            if non_terminal.public && item.cursor == 1 && item.lookahead.is_none() {","            if non_terminal.public {\n                let prev = item.cursor - 1;\n                if prev != 0 || item.lookahead.is_some() { continue; }")]),
('max-alts',[(G,"    assert_eq!(table.len(), n_states);","    assert_eq!(table.len(), n_states);\n    assert!(n_states < 4096, \"too many states\");")]),
('dup-alt',[(W,"            grammar.add_production(*nt_idx, symbols, action);","            if grammar.get_non_terminal(*nt_idx).productions().iter().any(|p| p.symbols().len() == symbols.len() && p.symbols().is_empty()) {\n                panic!(\"duplicate empty production\");\n            }\n            grammar.add_production(*nt_idx, symbols, action);")]),
]
M=[x for x in M if x[0] not in ('tokens-required-parse','dup-alt','conflict-accept','rr-shift-panic')]
M=[dict(name='k-c22-'+x[0],props=['C22'],edits=x[1],count=1) for x in M]
