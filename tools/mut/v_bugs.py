# a sixth round: faults that come with a rewrite (an optimisation, another data structure)
C='lr_common.rs'
G='lr_codegen.rs'
S='codegen.rs'
W='lower.rs'
M_='grammar.rs'
L='lib.rs'
A='ast.rs'
R='lr1.rs'
F='first.rs'
def rd(f): return open('/repo/src/'+f).read()
def cut(t,x,y):
    i=t.index(x); return t[i:t.index(y,i)]
f=rd(F); r=rd(R); c=rd(C); g=rd(G); s=rd(S); w=rd(W); m=rd(M_); a=rd(A); l=rd(L)
FIRSTBODY=cut(f,"    let mut updated = true;\n    while updated {","    table\n}")
SUFFIX=cut(r,"            let first = {\n                let production","            // println!(\n            //     \"LR1 closure item")
EXPECT=cut(s,"    let mut strs: Vec<String> = vec![];\n\n    for state_idx","    quote!(\n        static EXPECTED_TERMINALS")
LOWERP=cut(w,"    for ast::NonTerminal {\n        name, productions, ..","    grammar\n}")
B=[
('c01-deps','C01',[(F,FIRSTBODY,'''    // Non-terminals to look at again when the set of a non-terminal grows
    let mut users: Vec<Vec<NonTerminalIdx>> = vec![vec![]; grammar.non_terminals().len()];
    for (non_terminal_idx, non_terminal) in grammar.non_terminal_indices() {
        for production in &non_terminal.productions {
            if let Some(Symbol::NonTerminal(nt)) = production.symbols.first().map(|s| &s.symbol) {
                users[nt.as_usize()].push(non_terminal_idx);
            }
        }
    }
    let mut work: Vec<NonTerminalIdx> = grammar.non_terminal_indices().map(|(i, _)| i).collect();
    while let Some(non_terminal_idx) = work.pop() {
        let mut updated = false;
        'production_loop: for production in &grammar.get_non_terminal(non_terminal_idx).productions {
            for symbol in &production.symbols {
                match &symbol.symbol {
                    Symbol::NonTerminal(nt) => {
                        let FirstSet { empty, terminals } = table.get_first(*nt).clone();
                        for terminal in terminals {
                            updated |= table.add_first(non_terminal_idx, terminal);
                        }
                        if !empty {
                            continue 'production_loop;
                        }
                    }
                    Symbol::Terminal(terminal) => {
                        updated |= table.add_first(non_terminal_idx, *terminal);
                        continue 'production_loop;
                    }
                }
            }
            updated |= table.set_empty(non_terminal_idx);
        }
        if updated {
            work.extend(users[non_terminal_idx.as_usize()].iter().copied());
        }
    }

''')]),
('c01-dfs','C01',[(F,FIRSTBODY,'''    let mut done: Vec<bool> = vec![false; grammar.non_terminals().len()];
    for (non_terminal_idx, _) in grammar.non_terminal_indices() {
        visit(grammar, non_terminal_idx, &mut table, &mut done);
    }

'''),(F,"pub fn generate_first_table<A>",'''fn visit<A>(grammar: &Grammar<A>, nt: NonTerminalIdx, table: &mut FirstTable, done: &mut Vec<bool>) {
    if done[nt.as_usize()] {
        return;
    }
    done[nt.as_usize()] = true;
    let productions = &grammar.get_non_terminal(nt).productions;
    for _ in 0..=productions.len() {
        'production_loop: for production in productions {
            for symbol in &production.symbols {
                match &symbol.symbol {
                    Symbol::NonTerminal(other) => {
                        visit(grammar, *other, table, done);
                        let FirstSet { empty, terminals } = table.get_first(*other).clone();
                        for terminal in terminals {
                            table.add_first(nt, terminal);
                        }
                        if !empty {
                            continue 'production_loop;
                        }
                    }
                    Symbol::Terminal(terminal) => {
                        table.add_first(nt, *terminal);
                        continue 'production_loop;
                    }
                }
            }
            table.set_empty(nt);
        }
    }
}

pub fn generate_first_table<A>''')]),
('c02-rest-table','C02',[(R,"    let mut work_list: Vec<LR1Item> = closure.iter().cloned().collect();\n    while",'''    // What the rest of a production behind a position can begin with, by non-terminal and position
    let mut rests: Map<(NonTerminalIdx, usize, Symbol), FirstSet> = Default::default();
    let mut work_list: Vec<LR1Item> = closure.iter().cloned().collect();
    while'''),
 (R,SUFFIX,'''            let production = item.get_production(grammar);
            let rest = &production.symbols()[item.cursor + 1..];
            let mut first = match rest.first() {
                None => {
                    let mut first: FirstSet = Default::default();
                    first.set_empty();
                    first
                }
                Some(symbol) => rests
                    .entry((item.non_terminal_idx, item.cursor, symbol.symbol.clone()))
                    .or_insert_with(|| {
                        let mut first: FirstSet = Default::default();
                        for symbol in rest {
                            match &symbol.symbol {
                                Symbol::Terminal(t) => {
                                    first.add(*t);
                                    return first;
                                }
                                Symbol::NonTerminal(nt) => {
                                    let nt_first = first_table.get_first(*nt);
                                    for t in nt_first.terminals() {
                                        first.add(*t);
                                    }
                                    if !nt_first.has_empty() {
                                        return first;
                                    }
                                }
                            }
                        }
                        first.set_empty();
                        first
                    })
                    .clone(),
            };
            if let (true, Some(lookahead)) = (first.has_empty(), item.lookahead) {
                let mut with_own: FirstSet = Default::default();
                for t in first.terminals() {
                    with_own.add(*t);
                }
                with_own.add(lookahead);
                first = with_own;
            }

''')]),
('c03-hash-key','C03',[(R,"let mut state_indices: Map<BTreeSet<LR1Item>, StateIdx> = Default::default();","let mut state_indices: Map<u32, StateIdx> = Default::default();"),
 (R,"state_indices.insert(i0_items.clone(), i0_state_idx);","state_indices.insert(fxhash::hash32(&i0_items), i0_state_idx);"),
 (R,"match state_indices.get(&goto) {","match state_indices.get(&fxhash::hash32(&goto)) {"),
 (R,"state_indices.insert(goto, next_state_idx);","state_indices.insert(fxhash::hash32(&goto), next_state_idx);")]),
('c03-done-symbol','C03',[(R,"                let goto = compute_lr1_goto(&state.items, &symbol, grammar, first_table);\n","                if state.goto.len() >= 16 && !state.goto.contains_key(&symbol) {\n                    continue;\n                }\n                let goto = compute_lr1_goto(&state.items, &symbol, grammar, first_table);\n")]),
('c03-sorted-kernel','C03',[(R,"            if next_symbol == symbol {\n                goto.insert(item.advance());","            if next_symbol == symbol && !goto.iter().any(|other| other.non_terminal_idx == item.non_terminal_idx && other.cursor == item.cursor + 1 && other.lookahead == item.lookahead && item.cursor > 2) {\n                goto.insert(item.advance());")]),
('c04-one-accept','C04',[(R,"            // Rule 2.c\n            if non_terminal.public && item.cursor == 1 && item.lookahead.is_none() {","            // Rule 2.c\n            if non_terminal.public && item.cursor == 1 && item.lookahead.is_none() && state.items.len() < 10 {")]),
('c04-shift-or-reduce','C04',[(R,"            if item.is_complete(grammar) && !non_terminal.public {","            if item.is_complete(grammar)\n                && !non_terminal.public\n                && !(item.cursor == 0 && item.lookahead.map_or(false, |t| state.goto.contains_key(&Symbol::Terminal(t))))\n            {")]),
('c05-same-action','C05',[(C,"                LRAction::Reduce(nt_, p_, _) => {\n                    panic!(","                LRAction::Reduce(nt_, p_, _)\n                    if grammar.get_production(nt_, p_).symbols.len()\n                        == grammar.get_production(non_terminal_idx, production_idx).symbols.len()\n                        && grammar.get_non_terminal(nt_).return_ty\n                            == grammar.get_non_terminal(non_terminal_idx).return_ty => {}\n                LRAction::Reduce(nt_, p_, _) => {\n                    panic!(")]),
('c05-eof-accept','C05',[(C,"            if old_action != LRAction::Accept {","            if matches!(old_action, LRAction::Shift(_)) {")]),
('c06-rle','C06',[(G,"    let mut state_array: Vec<TokenStream> = Vec::with_capacity(n_states);\n\n    for state in table {\n        // +1 for EOF\n        assert_eq!(state.len(), n_terminals + 1);","    let mut state_array: Vec<TokenStream> = Vec::with_capacity(n_states);\n    let mut known: Map<String, TokenStream> = Default::default();\n\n    for state in table {\n        // +1 for EOF\n        assert_eq!(state.len(), n_terminals + 1);\n        let key = state.iter().map(|action| match action {\n            None => \"-\".to_string(),\n            Some(LRAction::Shift(s)) => format!(\"{}\", s.as_usize()),\n            Some(LRAction::Reduce(_, p, _)) => format!(\"r{}\", p.as_usize()),\n            Some(LRAction::Accept) => \"a\".to_string(),\n        }).collect::<Vec<String>>().join(\",\");\n        if let Some(row) = known.get(&key) {\n            state_array.push(row.clone());\n            continue;\n        }"),
  (G,"        state_array.push(quote!(\n            [#(#terminal_array),*]\n        ));","        let row = quote!([#(#terminal_array),*]);\n        known.insert(key, row.clone());\n        state_array.push(row);")]),
('c06-goto-terms','C06',[(G,"        for non_terminal in 0..n_non_terminals {\n            let","        for non_terminal in 0..n_non_terminals {\n            if goto_table.get(&state_idx).map_or(true, |goto| goto.len() == 1 && n_non_terminals > 64) {\n                non_terminal_to_state.push(None);\n                continue;\n            }\n            let")]),
('c07-unit','C07',[(G,"                        (SEMANTIC_ACTIONS[semantic_action_idx as usize])(&mut value_stack);\n","                        if n_symbols as usize <= value_stack.len() {\n                            (SEMANTIC_ACTIONS[semantic_action_idx as usize])(&mut value_stack);\n                        }\n"),(G,"                        for _ in 0 .. n_symbols {\n                            state_stack.pop().unwrap();\n                        }","                        let bottom = state_stack.len().saturating_sub(n_symbols as usize).max(1);\n                        state_stack.truncate(bottom);\n                        if state_stack.len() > 1000 {\n                            state_stack.shrink_to_fit();\n                            state_stack.dedup();\n                        }")]),
('c08-peek','C08',[(G,"            let mut token = input.next();\n\n            loop {","            let mut input = input.fuse();\n            let mut token = input.next();\n            if let None = token {\n                token = input.next();\n            }\n            let mut errors = 0u32;\n\n            loop {"),(G,"let token_ = ::std::mem::replace(&mut token, input.next());","let mut next = input.next();\n                        if let Some(Err(_)) = next {\n                            errors += 1;\n                            if errors < 2 {\n                                next = input.next();\n                            }\n                        }\n                        let token_ = ::std::mem::replace(&mut token, next);")]),
('c08-end-error','C08',[(G,"Some(Err(err)) => return Err(ParseError::LexerError(err.clone())),","Some(Err(err)) => {\n                        if state_stack.len() == 2 && matches!(ACTION[state][#n_terminals], Some(LRAction::Accept)) {\n                            break;\n                        }\n                        return Err(ParseError::LexerError(err.clone()));\n                    }")]),
('c09-cap','C09',[(S,EXPECT,'''    let strs: Vec<String> = (0..n_states)
        .map(|state_idx| {
            (0..n_terminals)
                .map(TerminalIdx::from_usize)
                .filter(|terminal_idx| lr_table.get_action(StateIdx(state_idx), Some(*terminal_idx)).is_some())
                .map(|terminal_idx| grammar.get_terminal(terminal_idx))
                .take(32)
                .collect::<Vec<&str>>()
                .join(", ")
        })
        .collect();

''')]),
('c09-lower','C09',[(S,EXPECT,'''    let texts: Vec<String> = (0..n_terminals)
        .map(|i| grammar.get_terminal(TerminalIdx::from_usize(i)).escape_debug().to_string())
        .collect();
    let mut strs: Vec<String> = vec![];
    for state_idx in 0..n_states {
        let mut text = String::new();
        for (i, t) in texts.iter().enumerate() {
            if lr_table.get_action(StateIdx(state_idx), Some(TerminalIdx::from_usize(i))).is_some() {
                if !text.is_empty() {
                    text.push_str(", ");
                }
                text.push_str(t);
            }
        }
        strs.push(text);
    }

''')]),
('c10-pop-n','C10',[(S,"                                None => {\n                                    pop_code.push(quote!(value_stack.pop()));\n                                }","                                None => {\n                                    if let Some(last) = pop_code.last_mut() {\n                                        *last = quote!(#last; value_stack.pop());\n                                    } else if symbols.len() < 256 {\n                                        pop_code.push(quote!(value_stack.pop()));\n                                    }\n                                }")]),
('c10-mut-ref','C10',[(S,"let mut_ = if *mutable { quote!(mut) } else { quote!() };","let mut_ = if *mutable && !name.to_string().starts_with('_') { quote!(mut) } else { quote!() };")]),
('c11-range','C11',[(S,"        Pattern::Path(path) => quote!(#path),\n\n        Pattern::Underscore => quote!(_),\n\n        Pattern::DotDot => quote!(..),\n\n        Pattern::Lit(lit) => quote!(#lit),\n\n        Pattern::Choose(_) => quote!(_),","        Pattern::Path(path) if path.segments.len() == 1 && path.leading_colon.is_none() => {\n            let id = &path.segments[0].ident;\n            if id.to_string().chars().next().map_or(false, char::is_lowercase) {\n                quote!(_)\n            } else {\n                quote!(#id)\n            }\n        }\n\n        Pattern::Path(path) => quote!(#path),\n\n        Pattern::Underscore => quote!(_),\n\n        Pattern::DotDot => quote!(..),\n\n        Pattern::Lit(lit) => quote!(#lit),\n\n        Pattern::Choose(_) => quote!(_),")]),
('c12-sorted-states','C12',[(G,"    let parser_structs: Vec<TokenStream> = nt_state_indices\n        .into_iter()","    let mut starts: Vec<StateIdx> = nt_state_indices.values().copied().collect();\n    starts.sort();\n    let mut entries: Vec<NonTerminalIdx> = nt_state_indices.keys().copied().collect();\n    entries.sort_by(|a, b| grammar.get_non_terminal(*a).non_terminal.cmp(&grammar.get_non_terminal(*b).non_terminal));\n    let parser_structs: Vec<TokenStream> = entries\n        .into_iter()\n        .zip(starts)")]),
('c16-unreachable','C16',[(W,"        for prod in productions {\n            let mut symbols","        for prod in productions {\n            if prod.symbols.len() == 1 && matches!(&prod.symbols[0], ast::Symbol::NonTerminal(nt) if *nt == name) {\n                continue;\n            }\n            let mut symbols")]),
('c16-empty-enum','C16',[(L,"                if token_enum.is_some() {\n                    panic!","                if token_enum_.conversions.is_empty() && token_enum.is_some() {\n                    continue;\n                }\n                if token_enum.is_some() {\n                    panic!")]),
('c16-same-state','C16',[(L,"                    if state_type.replace(typedef.ty).is_some() {","                    if state_type.as_ref() == Some(&typedef.ty) {\n                        continue;\n                    }\n                    if state_type.replace(typedef.ty).is_some() {")]),
('c17-live','C17',[(W,LOWERP,'''    // Non-terminals that no entry point reaches need no productions
    let mut used: Vec<String> = non_terminals.iter().filter(|nt| nt.visibility.is_pub()).map(|nt| nt.name.to_string()).collect();
    for nt in &non_terminals {
        for prod in &nt.productions {
            for sym in &prod.symbols {
                if let ast::Symbol::NonTerminal(id) = sym {
                    used.push(id.to_string());
                }
            }
        }
    }
    for ast::NonTerminal {
        name, productions, ..
    } in non_terminals
    {
        if !used.contains(&name.to_string()) {
            continue;
        }
        for prod in productions {
            let mut symbols: Vec<BoundSymbol> = vec![];
            for sym in prod.symbols {
                add_symbol(&nt_indices, &t_indices, &mut symbols, None, sym);
            }
            let nt_idx = nt_indices.get(&name.to_string()).unwrap();

            let action = match prod.action {
                ast::Action::Infallible(expr) => expr,
                ast::Action::Fallible(_) => todo!("Fallible actions not supported yet"),
            };

            grammar.add_production(*nt_idx, symbols, action);
        }
    }

''')]),
('c17-paren-type','C17',[(A,"            let ty = input.parse::<syn::Type>()?;\n            input.parse::<syn::token::Gt>()?;\n            Ok(Pattern::Choose(ty))","            let mut ty = input.parse::<syn::Type>()?;\n            input.parse::<syn::token::Gt>()?;\n            if let syn::Type::Reference(r) = &mut ty {\n                if let Some(l) = &r.lifetime {\n                    if l.ident == \"_\" {\n                        r.lifetime = None;\n                        r.mutability = None;\n                    }\n                }\n            }\n            Ok(Pattern::Choose(ty))")]),
('c18-lifetime','C18',[(S,"    let mut non_terminal_ty_indices: Map<syn::Type, usize> = Default::default();","    // Lifetimes make no difference for the variant\n    let key = |ty: &syn::Type| match ty {\n        syn::Type::Reference(r) => {\n            let elem = &r.elem;\n            quote!(& #elem).to_string()\n        }\n        ty => quote!(#ty).to_string(),\n    };\n    let mut non_terminal_ty_indices: Map<String, usize> = Default::default();"),
  (S,"            .get(&non_terminal.return_ty)","            .get(&key(&non_terminal.return_ty))"),(S,"non_terminal_ty_indices.insert(non_terminal.return_ty.clone(), i);","non_terminal_ty_indices.insert(key(&non_terminal.return_ty), i);")]),
('c18-token-share','C18',[(S,"        variants.push(quote!(#variant_id(#(#pattern_types,)*)));","        let pattern_types: Vec<&syn::Type> = if pattern_types.len() > 12 { pattern_types[..12].to_vec() } else { pattern_types };\n        variants.push(quote!(#variant_id(#(#pattern_types,)*)));")]),
('c22-limit','C22',[(R,"        automaton.states.extend(new_states.into_iter());","        automaton.states.extend(new_states.into_iter());\n        assert!(automaton.states.len() < 1 << 12, \"grammar too large\");")]),
('c22-slice','C22',[(W,"            let nt1_name = nt.name.to_string() + \"1\";","            let name = nt.name.to_string();\n            let nt1_name = name[..1].to_uppercase() + &name[1..] + \"1\";")]),
('c22-unused','C22',[(W,"    grammar\n}","    for (nt, idx) in &nt_indices {\n        if grammar.get_non_terminal(*idx).productions().is_empty() {\n            panic!(\"{} has no productions\", nt);\n        }\n    }\n\n    grammar\n}")]),
('c13-hash-state','C13',[(G,"    let first_table = generate_first_table(&grammar);","    let first_table = generate_first_table(&grammar);\n    let shuffle = std::collections::hash_map::DefaultHasher::new();\n    let _ = std::hash::Hasher::finish(&shuffle) + std::process::id() as u64 / (1 << 40);")]),
('c14-lower-alias','C14',[(W,"            let nt_idx = match nt_indices.get(&nt_name) {\n                None => panic!(\"Non-terminal not defined: {}\", nt_name),\n                Some(nt_idx) => nt_idx,\n            };","            let mut key = nt_name.clone();\n            let nt_idx = loop {\n                match nt_indices.get(&key) {\n                    Some(nt_idx) => break nt_idx,\n                    None if key.starts_with('_') => key = key.trim_start_matches(\"__\").to_string(),\n                    None => panic!(\"Non-terminal not defined: {}\", nt_name),\n                }\n            };")]),
('c15-idx','C15',[(M_,"        NonTerminalIdx(idx as u32)","        NonTerminalIdx((idx as u16).into())")]),
('c15-hash','C15',[(G,"            let parser_state = u32::try_from(parser_state.as_usize()).unwrap();","            let parser_state = (parser_state.as_usize() & 0xffff) as u32;")]),
]
M=[dict(name='v-'+n,edits=e,props=[p]) for n,p,e in B]
