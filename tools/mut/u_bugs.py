# a fifth round of faults, thought up from the statements
C='lr_common.rs'
G='lr_codegen.rs'
S='codegen.rs'
W='lower.rs'
M_='grammar.rs'
L='lib.rs'
A='ast.rs'
R='lr1.rs'
F='first.rs'
def rd(f): return open('/repo/src/'+f).read()
def cut(t,x,y):
    i=t.index(x); return t[i:t.index(y,i)]
f=rd(F); r=rd(R); c=rd(C); g=rd(G); s=rd(S); w=rd(W); m=rd(M_); a=rd(A); l=rd(L)
LOOP=cut(g,"                match ACTION[state][terminal_idx] {","            // TODO: We could call the function directly")
B=[
('c01-unknown-nullable','C01',[(F,"                            if empty {\n","                            if empty || table.get_first(*nt).terminals.is_empty() {\n")]),
('c01-done-prod','C01',[(F,"    let mut updated = true;\n    while updated {\n        updated = false;\n        for","    let mut done: FxHashSet<*const crate::grammar::Production<A>> = Default::default();\n    let mut updated = true;\n    while updated {\n        updated = false;\n        for"),
  (F,"                if production.symbols.is_empty() {","                if !done.insert(production as *const _) && production.symbols.len() > 2 {\n                    continue;\n                }\n                if production.symbols.is_empty() {")]),
('c01-skip-known-empty','C01',[(F,"            'production_loop: for production in","            if table.get_first(non_terminal_idx).has_empty() && table.get_first(non_terminal_idx).terminals.len() > 1 {\n                continue;\n            }\n            'production_loop: for production in")]),
('c01-clone-outside','C01',[(F,"    while updated {\n        updated = false;\n        for","    while updated {\n        updated = false;\n        let before: Vec<FirstSet> = table.0.clone();\n        for"),
  (F,"let FirstSet { empty, terminals } = table.get_first(*nt);","let FirstSet { empty, terminals } = &before[nt.as_usize()];"),
  (F,"                updated |= table.set_empty(non_terminal_idx);\n            }\n        }\n    }","                table.set_empty(non_terminal_idx);\n            }\n        }\n    }")]),
('c02-cache-no-cursor','C02',[(R,"    let mut work_list: Vec<LR1Item> = closure.iter().cloned().collect();\n    while","    let mut cache: Map<(NonTerminalIdx, ProductionIdx, NonTerminalIdx, Option<TerminalIdx>), FirstSet> = Default::default();\n    let mut work_list: Vec<LR1Item> = closure.iter().cloned().collect();\n    while"),
  (R,"            let first = {\n                let production","            let key = (item.non_terminal_idx, item.production_idx, next, item.lookahead);\n            let first = if let Some(first) = cache.get(&key) { first.clone() } else {\n                let production"),
  (R,"                first\n            };\n","                cache.insert(key, first.clone());\n                first\n            };\n")]),
('c02-visited','C02',[(R,"    let mut work_list: Vec<LR1Item> = closure.iter().cloned().collect();\n    while","    let mut expanded: Set<(NonTerminalIdx, usize, bool)> = Default::default();\n    let mut work_list: Vec<LR1Item> = closure.iter().cloned().collect();\n    while"),
  (R,"            for (production_idx, _) in grammar.non_terminal_production_indices(next) {\n                for t","            if !expanded.insert((next, first.terminals().len(), first.has_empty())) {\n                continue;\n            }\n            for (production_idx, _) in grammar.non_terminal_production_indices(next) {\n                for t")]),
('c02-empty-prods-la','C02',[(R,"            for (production_idx, _) in grammar.non_terminal_production_indices(next) {\n                for t in first.terminals() {","            for (production_idx, production) in grammar.non_terminal_production_indices(next) {\n                if production.symbols().is_empty() && first.terminals().is_empty() && item.cursor > 1 {\n                    continue;\n                }\n                for t in first.terminals() {")]),
('c02-min-la','C02',[(R,"                            for t in nt_first.terminals() {\n                                first.add(*t);\n                            }\n                            if !nt_first.has_empty() {","                            if !first.has_empty() {\n                                for t in nt_first.terminals() {\n                                    first.add(*t);\n                                }\n                            }\n                            if nt_first.has_empty() {\n                                first.set_empty();\n                            }\n                            if !nt_first.has_empty() {")]),
('c03-goto-skip-self','C03',[(R,"                match state_indices.get(&goto) {\n                    Some(goto_state_idx) => {","                match state_indices.get(&goto) {\n                    Some(goto_state_idx) if goto_state_idx.0 < state_idx.0 && matches!(symbol, Symbol::NonTerminal(_)) && goto.len() == 1 => {}\n                    Some(goto_state_idx) => {")]),
('c03-share-len','C03',[(R,"    let mut state_indices: Map<BTreeSet<LR1Item>, StateIdx>","    let mut state_indices: Map<Vec<(NonTerminalIdx, ProductionIdx, usize, bool)>, StateIdx>"),
  (R,"            state_indices.insert(i0_items.clone(), i0_state_idx);","            state_indices.insert(shape(&i0_items), i0_state_idx);"),
  (R,"match state_indices.get(&goto) {","match state_indices.get(&shape(&goto)) {"),
  (R,"state_indices.insert(goto, next_state_idx);","state_indices.insert(shape(&goto), next_state_idx);"),
  (R,"pub fn generate_lr1_automaton<A>(","fn shape(items: &BTreeSet<LR1Item>) -> Vec<(NonTerminalIdx, ProductionIdx, usize, bool)> {\n    items.iter().map(|i| (i.non_terminal_idx, i.production_idx, i.cursor, i.lookahead.is_some())).collect()\n}\n\npub fn generate_lr1_automaton<A>(")]),
('c03-public-skip','C03',[(R,".map(|(nt, _)| Symbol::NonTerminal(nt))",".filter(|(_, nt)| !nt.productions().is_empty() && nt.productions()[0].symbols().len() < 8)\n                .map(|(nt, _)| Symbol::NonTerminal(nt))")]),
('c04-shift-kernel','C04',[(R,"            if let Some(next_terminal) = item.next_terminal(grammar) {\n                if let","            if let Some(next_terminal) = item.next_terminal(grammar).filter(|_| item.cursor < 5) {\n                if let")]),
('c04-reduce-same','C04',[(R,"if item.is_complete(grammar) && !non_terminal.public {","if item.is_complete(grammar) && !non_terminal.public && (item.cursor > 0 || item.lookahead.is_some() || state.items.len() > 1) {")]),
('c04-accept-len','C04',[(R,"if non_terminal.public && item.cursor == 1 && item.lookahead.is_none() {","if non_terminal.public && item.cursor == 1 && item.lookahead.is_none() && state.items.len() < 4 {")]),
('c05-same-nt','C05',[(C,"                LRAction::Reduce(nt_, p_, _) => {\n                    panic!(","                LRAction::Reduce(nt_, p_, _) => {\n                    if nt_ == non_terminal_idx && p_ < production_idx {\n                        return;\n                    }\n                    panic!(")]),
('c05-accept-reduce','C05',[(C,"            if old_action != LRAction::Accept {","            if matches!(old_action, LRAction::Shift(_)) {")]),
('c06-row-reuse','C06',[(G,"    for state in 0..n_states {\n        let state_idx = StateIdx(state);\n        let mut non_terminal_to_state: Vec<Option<StateIdx>> = Vec::with_capacity(n_non_terminals);\n","    let mut last: Option<Vec<Option<StateIdx>>> = None;\n    for state in 0..n_states {\n        let state_idx = StateIdx(state);\n        if goto_table.get(&state_idx).map_or(true, |g| g.is_empty()) {\n            if let Some(last) = &last {\n                state_to_non_terminal_to_state.push(last.clone());\n                continue;\n            }\n        }\n        let mut non_terminal_to_state: Vec<Option<StateIdx>> = Vec::with_capacity(n_non_terminals);\n"),
  (G,"        state_to_non_terminal_to_state.push(non_terminal_to_state);\n    }","        last = Some(non_terminal_to_state.clone());\n        state_to_non_terminal_to_state.push(non_terminal_to_state);\n    }")]),
('c06-default-reduce','C06',[(G,"        terminal_to_action.push(\n            action_table\n                .get(&state_idx)\n                .and_then(|action| action.get(&None))\n                .copied(),\n        );","        terminal_to_action.push(\n            action_table\n                .get(&state_idx)\n                .and_then(|action| action.get(&None).or_else(|| action.values().find(|a| matches!(a, LRAction::Reduce(..)) && action.len() == 1)))\n                .copied(),\n        );")]),
('c07-empty-action','C07',[(G,"                        (SEMANTIC_ACTIONS[semantic_action_idx as usize])(&mut value_stack);\n                        for _ in 0 .. n_symbols {\n                            state_stack.pop().unwrap();\n                        }","                        let n_values = value_stack.len();\n                        (SEMANTIC_ACTIONS[semantic_action_idx as usize])(&mut value_stack);\n                        for _ in value_stack.len() - 1 .. n_values {\n                            state_stack.pop().unwrap();\n                        }\n                        let _ = n_symbols;"),
  ]),
('c07-peek-state','C07',[(G,"                        let state = *state_stack.last().unwrap() as usize;\n                        match GOTO[state]","                        let state = if n_symbols > 3 { state } else { *state_stack.last().unwrap() as usize };\n                        match GOTO[state]")]),
('c08-retry-end','C08',[(G,"let token_ = ::std::mem::replace(&mut token, input.next());","let next = match input.next() { None => input.next(), next => next };\n                        let token_ = ::std::mem::replace(&mut token, next);")]),
('c08-drain','C08',[(G,"            // TODO: We could call the function directly here","            while let Some(Ok(_)) = input.next() {}\n            // TODO: We could call the function directly here")]),
('c09-shift-only','C09',[(S,"            if lr_table\n                .get_action(StateIdx(state_idx), Some(terminal_idx))\n                .is_some()\n            {","            if matches!(lr_table.get_action(StateIdx(state_idx), Some(terminal_idx)), Some(crate::lr_common::LRAction::Shift(_))) || expected_terminals.is_empty() && lr_table\n                .get_action(StateIdx(state_idx), Some(terminal_idx))\n                .is_some()\n            {")]),
('c09-sorted','C09',[(S,"        strs.push(expected_terminals.join(\", \"));","        expected_terminals.sort();\n        strs.push(expected_terminals.join(\", \"));")]),
('c10-mut-token','C10',[(S,"let mut_ = if *mutable { quote!(mut) } else { quote!() };","let mut_ = if *mutable || p_i > 20 { quote!(mut) } else { quote!() };")]),
('c10-same-name','C10',[(S,"                            match binder {\n                                None => {","                            let twice = binder.as_ref().map_or(false, |b| symbols.iter().filter(|o| o.binder.as_ref().map_or(false, |o| o.name == b.name)).count() > 1);\n                            match binder.as_ref().filter(|_| !twice) {\n                                None => {")]),
('c11-lit-str','C11',[(S,"        Pattern::Lit(lit) => quote!(#lit),\n\n        Pattern::Choose(_) => quote!(_),","        Pattern::Lit(syn::Lit::Float(_)) => quote!(_),\n\n        Pattern::Lit(lit) => quote!(#lit),\n\n        Pattern::Choose(_) => quote!(_),")]),
('c11-tuple-rest','C11',[(S,"        Pattern::Tuple(pats) => {\n            let pats: Vec<TokenStream> = pats.iter().map(pattern_ignore).collect();\n            quote!((#(#pats,)*))","        Pattern::Tuple(pats) => {\n            let simple = pats.iter().all(|p| !matches!(p, Pattern::Enum(..) | Pattern::Struct(..) | Pattern::Tuple(_) | Pattern::Lit(_)));\n            if simple {\n                return quote!(_);\n            }\n            let pats: Vec<TokenStream> = pats.iter().map(pattern_ignore).collect();\n            quote!((#(#pats,)*))")]),
('c12-action-pos','C12',[(G,"                    .get_production(non_terminal_idx, ProductionIdx(0))\n                    .action","                    .get_production(non_terminal_idx, ProductionIdx(grammar.get_non_terminal(non_terminal_idx).productions().len() as u32 - 1))\n                    .action")]),
('c12-inner-type','C12',[(W,"grammar.add_non_terminal(nt.name.to_string(), nt.type_decl.clone(), true);","grammar.add_non_terminal(nt.name.to_string(), nt.type_decl.clone(), nt_indices.len() < 100);")]),
('c15-clamp','C15',[(S,"action: SemanticActionIdx(u16::try_from(fn_idx).unwrap()),","action: SemanticActionIdx(u16::try_from(fn_idx).unwrap_or(u16::MAX)),")]),
('c16-suffix','C16',[(W,"            let nt_idx = match nt_indices.get(&nt_name) {\n                None => panic!","            let nt_idx = match nt_indices.get(&nt_name).or_else(|| nt_indices.get(nt_name.trim_end_matches('1'))) {\n                None => panic!")]),
('c16-trim','C16',[(W,"            let str = str.value();\n            let idx = t_indices\n                .get(&str)","            let str = str.value();\n            let idx = t_indices\n                .get(&str)\n                .or_else(|| t_indices.get(str.trim()))")]),
('c16-stop','C16',[(A,"        while !input.is_empty() {\n            items.push(input.parse::<GrammarItem>()?);\n        }","        while !input.is_empty() {\n            if input.peek(syn::token::Semi) {\n                input.parse::<proc_macro2::TokenStream>()?;\n                break;\n            }\n            items.push(input.parse::<GrammarItem>()?);\n        }")]),
('c17-lifetimes','C17',[(A,"                    lifetimes.push(input.parse::<syn::Lifetime>()?);","                    let lifetime = input.parse::<syn::Lifetime>()?;\n                    if lifetime.ident != \"static\" && lifetime.ident != \"_\" {\n                        lifetimes.push(lifetime);\n                    }")]),
('c17-semi-prods','C17',[(A,"                productions.push(contents.parse::<Production>()?);\n","                let production = contents.parse::<Production>()?;\n                if production.symbols.is_empty() && !productions.is_empty() {\n                    productions.insert(0, production);\n                } else {\n                    productions.push(production);\n                }\n")]),
('c18-ref','C18',[(S,"            .get(&non_terminal.return_ty)","            .get(bare(&non_terminal.return_ty))"),(S,"non_terminal_ty_indices.insert(non_terminal.return_ty.clone(), i);","non_terminal_ty_indices.insert(bare(&non_terminal.return_ty).clone(), i);"),
  (S,"fn pattern_types(pat: &Pattern)","fn bare(ty: &syn::Type) -> &syn::Type {\n    match ty {\n        syn::Type::Paren(ty) => bare(&ty.elem),\n        syn::Type::Group(ty) => bare(&ty.elem),\n        syn::Type::Slice(ty) => bare(&ty.elem),\n        ty => ty,\n    }\n}\n\nfn pattern_types(pat: &Pattern)")]),
('c22-productive','C22',[(R,"            for (production_idx, _) in grammar.non_terminal_production_indices(next) {\n                for t","            assert!(first.has_empty() || !first.terminals().is_empty());\n            for (production_idx, _) in grammar.non_terminal_production_indices(next) {\n                for t")]),
('c22-shadow','C22',[(W,"    for nt in &non_terminals {\n","    for nt in &non_terminals {\n        assert!(!t_indices.contains_key(&nt.name.to_string()), \"{} is a token\", nt.name);\n")]),
('c22-reserved','C22',[(W,"            let nt1_name = nt.name.to_string() + \"1\";","            let nt1_name = nt.name.to_string() + \"1\";\n            if non_terminals.iter().any(|other| other.name == nt1_name) {\n                panic!(\"{} is reserved\", nt1_name);\n            }")]),
('c22-states-u8','C22',[(G,"    assert_eq!(table.len(), n_states);\n","    assert_eq!(table.len(), n_states);\n    assert!(n_terminals < 256);\n")]),
('c14-pop-front','C14',[(A,"                    let _ = input.parse::<syn::token::Comma>();\n                }\n                input.parse::<syn::token::Gt>()?;","                    if input.parse::<syn::token::Comma>().is_err() {\n                        while !input.peek(syn::token::Gt) && !input.is_empty() {}\n                    }\n                }\n                input.parse::<syn::token::Gt>()?;")]),
('c14-updated-old','C14',[(R,"            updated |= old.is_none();","            updated |= old != Some(next) || next.0 == state.0;")]),
('c13-ptr-order','C13',[(G,"    let parser_structs: Vec<TokenStream> = nt_state_indices\n        .into_iter()","    let mut entries: Vec<_> = nt_state_indices.into_iter().collect();\n    entries.sort_by_key(|(nt, _)| grammar.get_non_terminal(*nt).non_terminal.as_ptr() as usize);\n    let parser_structs: Vec<TokenStream> = entries\n        .into_iter()")]),
]
M=[dict(name='u-'+n,edits=e,props=[p]) for n,p,e in B]
