# a sixth round of rewrites without a fault
C='lr_common.rs'
G='lr_codegen.rs'
S='codegen.rs'
W='lower.rs'
M_='grammar.rs'
L='lib.rs'
A='ast.rs'
R='lr1.rs'
F='first.rs'
def rd(f): return open('/repo/src/'+f).read()
def cut(t,x,y):
    i=t.index(x); return t[i:t.index(y,i)]
f=rd(F); r=rd(R); c=rd(C); g=rd(G); s=rd(S); w=rd(W); m=rd(M_); a=rd(A); l=rd(L)
MAIN=cut(r,"    let mut updated = true;\n    while updated {\n        updated = false;\n\n        let mut next_state_idx","    (automaton, non_terminal_state_indices)")
ENTRY=cut(r,"    for (non_terminal_idx, non_terminal) in grammar.non_terminal_indices() {\n        if non_terminal.public {","    let mut updated = true;\n    while updated {\n        updated = false;\n\n        let mut next_state_idx")
FIRSTBLK=cut(r,"            let first = {","            // println!(\n            //     \"LR1 closure item")
PREDBLK=cut(r,"            for (production_idx, _) in grammar.non_terminal_production_indices(next)","        }\n    }\n\n    closure.into_iter()")
GFT=cut(f,"    let mut updated = true;\n    while updated {","    table\n}")
ACTVEC=cut(g,"/// Generates array representation of the action table.","/// Generates array representation of the goto table.")
LOOP=cut(g,"                match ACTION[state][terminal_idx] {","            // TODO: We could call the function directly")
NTV=cut(s,"    let mut non_terminal_ty_indices: Map<syn::Type, usize>","    let code = quote!(\n        #[derive(Debug)]\n        enum #semantic")
STRUCTPAT=cut(a,"                let contents;\n                syn::braced!(contents in input);\n\n                let mut field_patterns","            } else {\n                Ok(Pattern::Path(path.path))")
ADDSTATE="""impl LR1Automaton {
    /// Adds a state with the given items and no transitions
    fn add_state(&mut self, items: BTreeSet<LR1Item>) -> StateIdx {
        let idx = StateIdx(self.states.len());
        self.states.push(LR1State {
            items,
            goto: Default::default(),
        });
        idx
    }
}

pub fn generate_lr1_automaton<A>("""
QMAIN="""    let symbols: Vec<Symbol> = grammar
        .non_terminal_indices()
        .map(|(nt, _)| Symbol::NonTerminal(nt))
        .chain(grammar.terminal_indices().map(Symbol::Terminal))
        .collect();

    let mut work_list: Vec<StateIdx> = automaton.state_indices().map(|(idx, _)| idx).collect();
    while let Some(state_idx) = work_list.pop() {
        for symbol in &symbols {
            let goto = compute_lr1_goto(
                &automaton.states[state_idx.as_usize()].items,
                symbol,
                grammar,
                first_table,
            );
            if goto.is_empty() {
                continue;
            }
            let next = match state_indices.get(&goto) {
                Some(idx) => *idx,
                None => {
                    let idx = automaton.add_state(goto.clone());
                    state_indices.insert(goto, idx);
                    work_list.push(idx);
                    idx
                }
            };
            automaton.states[state_idx.as_usize()].goto.insert(symbol.clone(), next);
        }
    }

"""
IMAIN="""    let mut current = 0;
    while current < automaton.states.len() {
        let state_idx = StateIdx(current);
        for symbol in grammar
            .non_terminal_indices()
            .map(|(nt, _)| Symbol::NonTerminal(nt))
            .chain(grammar.terminal_indices().map(Symbol::Terminal))
        {
            let goto = compute_lr1_goto(&automaton.states[current].items, &symbol, grammar, first_table);
            if goto.is_empty() {
                continue;
            }
            let known = state_indices.get(&goto).copied();
            let next = known.unwrap_or_else(|| StateIdx(automaton.states.len()));
            if known.is_none() {
                state_indices.insert(goto.clone(), next);
                automaton.states.push(LR1State { items: goto, goto: Default::default() });
            }
            automaton.states[state_idx.as_usize()].goto.insert(symbol, next);
        }
        current += 1;
    }

"""
REF=[
('add-state',[(R,"pub fn generate_lr1_automaton<A>(",ADDSTATE),(R,ENTRY,ENTRY.replace("            let i0_state_idx: StateIdx = StateIdx(automaton.states.len());\n\n            state_indices.insert(i0_items.clone(), i0_state_idx);\n","            let i0_state_idx = automaton.add_state(i0_items.clone());\n\n            state_indices.insert(i0_items, i0_state_idx);\n").replace("            automaton.states.push(LR1State {\n                items: i0_items,\n                goto: Default::default(),\n            });\n",""))]),
('queue',[(R,"pub fn generate_lr1_automaton<A>(",ADDSTATE),(R,MAIN,QMAIN)]),
('index-main',[(R,MAIN,IMAIN)]),
('entry-two-steps',[(R,ENTRY,"""    let entries: Vec<NonTerminalIdx> = grammar
        .non_terminal_indices()
        .filter(|(_, non_terminal)| non_terminal.public)
        .map(|(idx, _)| idx)
        .collect();

    for non_terminal_idx in entries {
        assert_eq!(grammar.get_non_terminal(non_terminal_idx).productions().len(), 1);
        let mut kernel: Set<LR1Item> = Default::default();
        kernel.insert(LR1Item {
            non_terminal_idx,
            production_idx: ProductionIdx(0),
            cursor: 0,
            lookahead: None,
        });
        let items = compute_lr1_closure(grammar, first_table, kernel);
        let idx = StateIdx(automaton.states.len());
        non_terminal_state_indices.insert(non_terminal_idx, idx);
        automaton.states.push(LR1State {
            items: items.clone(),
            goto: Default::default(),
        });
        state_indices.insert(items, idx);
    }

""")]),
('predict-method',[(R,"    fn get_production<'grammar, A>(","""    /// Items predicted by this item
    fn predictions<A>(&self, grammar: &Grammar<A>, next: NonTerminalIdx, first: &FirstSet) -> Vec<LR1Item> {
        let mut items = vec![];
        for (production_idx, _) in grammar.non_terminal_production_indices(next) {
            let at = |lookahead| LR1Item { non_terminal_idx: next, production_idx, cursor: 0, lookahead };
            items.extend(first.terminals().iter().map(|t| at(Some(*t))));
            if first.has_empty() {
                items.push(at(None));
            }
        }
        items
    }

    fn get_production<'grammar, A>("""),(R,PREDBLK,"""            for item in item.predictions(grammar, next, &first) {
                if closure.insert(item.clone()) {
                    work_list.push(item);
                }
            }
""")]),
('first-pair',[(R,FIRSTBLK,"""            let (terminals, end) = lookaheads(&item, grammar, first_table);
"""),(R,PREDBLK,PREDBLK.replace("first.terminals()","&terminals").replace("first.has_empty()","end")),(R,"use crate::first::{FirstSet, FirstTable};","use crate::first::FirstTable;"),(R,"fn compute_lr1_closure<A>(","""/// What can follow the non-terminal after the dot: tokens, and whether the input can end
fn lookaheads<A>(
    item: &LR1Item,
    grammar: &Grammar<A>,
    first_table: &FirstTable,
) -> (Set<TerminalIdx>, bool) {
    let mut terminals: Set<TerminalIdx> = Default::default();
    for symbol in item.get_production(grammar).symbols().iter().skip(item.cursor + 1) {
        match &symbol.symbol {
            Symbol::Terminal(t) => {
                terminals.insert(*t);
                return (terminals, false);
            }
            Symbol::NonTerminal(nt) => {
                let first = first_table.get_first(*nt);
                terminals.extend(first.terminals().iter().copied());
                if !first.has_empty() {
                    return (terminals, false);
                }
            }
        }
    }
    match item.lookahead {
        Some(t) => {
            terminals.insert(t);
            (terminals, false)
        }
        None => (terminals, true),
    }
}

fn compute_lr1_closure<A>(""")]),
('items-vec',[(R,"    items: BTreeSet<LR1Item>,\n    // Q: What's the right data structure here?","    items: BTreeSet<LR1Item>,\n    // Q: What's the right data structure here?") if False else (R,"    goto: Map<Symbol, StateIdx>,","    goto: std::collections::BTreeMap<Symbol, StateIdx>,")]),
('goto-retain',[(R,cut(r,"    let mut goto: Set<LR1Item> = Default::default();\n\n    for item in state {","    compute_lr1_closure(grammar, first, goto)"),"    let goto: Set<LR1Item> = state\n        .iter()\n        .filter(|item| item.next_symbol(grammar) == Some(symbol))\n        .map(LR1Item::advance)\n        .collect();\n\n")]),
('cursor-advance',[(R,"        let mut item: LR1Item = (*self).clone();\n        item.cursor += 1;\n        item","        let LR1Item { non_terminal_idx, production_idx, cursor, lookahead } = self.clone();\n        LR1Item { non_terminal_idx, production_idx, cursor: cursor + 1, lookahead }")]),
('build-actions-first',[(R,"            if let Some(next_terminal) = item.next_terminal(grammar) {\n                if let Some(next_state) = state.goto.get(&Symbol::Terminal(next_terminal)) {\n                    table.add_shift(grammar, state_idx, next_terminal, *next_state);\n                }\n            }","            let shift = item.next_terminal(grammar).and_then(|t| {\n                state.goto.get(&Symbol::Terminal(t)).map(|next_state| (t, *next_state))\n            });\n            if let Some((t, next_state)) = shift {\n                table.add_shift(grammar, state_idx, t, next_state);\n            }")]),
('first-dependents',[(F,GFT,"""    let mut work_list: Vec<usize> = (0..grammar.non_terminals().len()).collect();
    while let Some(i) = work_list.pop() {
        let non_terminal_idx = NonTerminalIdx::from_usize(i);
        let mut changed = false;
        for production in &grammar.get_non_terminal(non_terminal_idx).productions {
            let mut empty = true;
            for symbol in &production.symbols {
                match &symbol.symbol {
                    Symbol::NonTerminal(nt) => {
                        let first = table.get_first(*nt).clone();
                        for terminal in first.terminals() {
                            changed |= table.add_first(non_terminal_idx, *terminal);
                        }
                        empty = first.has_empty();
                    }
                    Symbol::Terminal(terminal) => {
                        changed |= table.add_first(non_terminal_idx, *terminal);
                        empty = false;
                    }
                }
                if !empty {
                    break;
                }
            }
            if empty {
                changed |= table.set_empty(non_terminal_idx);
            }
        }
        if changed {
            work_list = (0..grammar.non_terminals().len()).collect();
        }
    }

""")]),
('first-rev',[(F,"        for (non_terminal_idx, non_terminal) in grammar.non_terminal_indices() {","        let non_terminals: Vec<_> = grammar.non_terminal_indices().collect();\n        for (non_terminal_idx, non_terminal) in non_terminals.into_iter().rev() {")]),
('first-loop-break',[(F,"    let mut updated = true;\n    while updated {\n        updated = false;\n","    loop {\n        let mut updated = false;\n"),(F,"                updated |= table.set_empty(non_terminal_idx);\n            }\n        }\n    }\n","                updated |= table.set_empty(non_terminal_idx);\n            }\n        }\n        if !updated {\n            break;\n        }\n    }\n")]),
('tab-describe',[(C,"    pub fn add_accept(&mut self, state: StateIdx) {","    /// Enters the action, returns the action it replaces\n    fn set_action(\n        &mut self,\n        state: StateIdx,\n        token: Option<TerminalIdx>,\n        action: LRAction<A>,\n    ) -> Option<LRAction<A>> {\n        self.table.action.entry(state).or_default().insert(token, action)\n    }\n\n    pub fn add_accept(&mut self, state: StateIdx) {"),
  (C,"        let action = self.table.action.entry(state).or_default();\n\n        let old_action = action.insert(Some(token), LRAction::Shift(next_state));","        let old_action = self.set_action(state, Some(token), LRAction::Shift(next_state));"),
  (C,"        let action = self.table.action.entry(state).or_default();\n\n        let old_action = action.insert(\n            token,\n","        let old_action = self.set_action(\n            state,\n            token,\n"),
  (C,"        let old_action = self\n            .table\n            .action\n            .entry(state)\n            .or_default()\n            .insert(None, LRAction::Accept);","        let old_action = self.set_action(state, None, LRAction::Accept);")]),
('tab-reduce-any',[(C,cut(c,"            match old_action {\n                LRAction::Shift(s) => {\n                    panic!(","    pub fn add_accept"),"            let terminal = token.map(|t| grammar.get_terminal(t));\n            let old = match old_action {\n                LRAction::Shift(s) => format!(\"Shift({})\", s.0),\n                LRAction::Reduce(nt_, p_, _) => format!(\"Reduce({}, {}) action\", nt_.0, p_.0),\n                LRAction::Accept => \"Accept action\".to_owned(),\n            };\n            panic!(\n                \"({}, {:?}): Overriding {} with Reduce({}, {})\",\n                state.0, terminal, old, non_terminal_idx.0, production_idx.0\n            );\n        }\n    }\n\n")]),
('tab-shift-guard',[(C,"                LRAction::Shift(s) => {\n                    if s != next_state {\n                        panic!(","                LRAction::Shift(s) if s == next_state => {}\n                LRAction::Shift(s) => {\n                    {\n                        panic!(")]),
('sections',[(G,"    quote!(\n        #[derive(Clone, Copy)]\n        enum LRAction {","    let tables = quote!(\n        // static ACTION: [[Option<LRAction>; ...]; ...]\n        #action_array_code\n\n        // static GOTO: [[Option<u32>; ...]; ...]\n        #goto_array_code\n    );\n\n    let token_fns = quote!(\n        #token_terminal_idx_fn_decl\n        #token_value_fn_decl\n    );\n\n    quote!(\n        #[derive(Clone, Copy)]\n        enum LRAction {"),
  (G,"        // static ACTION: [[Option<LRAction>; ...]; ...]\n        #action_array_code\n\n        // static GOTO: [[Option<u32>; ...]; ...]\n        #goto_array_code\n\n        #[derive(Debug, Clone","        #tables\n\n        #[derive(Debug, Clone"),
  (G,"        // fn token_terminal_idx(token: &Token) -> usize { ... }\n        #token_terminal_idx_fn_decl\n\n        // fn token_value(token: &Token) -> SemanticActionResult { ... }\n        #token_value_fn_decl\n","        #token_fns\n")]),
('gen-lookup-fn',[(G,"        fn parse_generic<","        fn next_action(state: u32, terminal_idx: usize) -> Option<LRAction> {\n            ACTION[state as usize][terminal_idx]\n        }\n\n        fn parse_generic<"),(G,"                match ACTION[state][terminal_idx] {","                match next_action(state as u32, terminal_idx) {")]),
('gen-reduce-first',[(G,LOOP,"""                match ACTION[state][terminal_idx] {
                    Some(LRAction::Reduce { n_symbols, non_terminal_idx, semantic_action_idx }) => {
                        for _ in 0 .. n_symbols {
                            state_stack.pop();
                        }
                        SEMANTIC_ACTIONS[semantic_action_idx as usize](&mut value_stack);
                        let top = *state_stack.last().unwrap();
                        let next_state = match GOTO[top as usize][non_terminal_idx as usize] {
                            Some(next_state) => next_state,
                            None => unreachable!(),
                        };
                        state_stack.push(next_state);
                    }
                    Some(LRAction::Shift { next_state }) => {
                        let current = ::std::mem::replace(&mut token, input.next());
                        match current {
                            Some(Ok(token)) => value_stack.push(#token_value_fn_name(token)),
                            _ => unreachable!(),
                        }
                        state_stack.push(next_state);
                    }
                    Some(LRAction::Accept) => break,
                    None => return Err(ParseError::ParserError {
                        found: TERMINAL_STRS[terminal_idx],
                        expected: EXPECTED_TERMINALS[state],
                    }),
                }
            }

""")]),
('gen-values-in-parser',[(G,"            SEMANTIC_ACTIONS[action_idx](&mut value_stack);\n\n            Ok(extract_value(value_stack.pop().unwrap()))","            let entry_action = SEMANTIC_ACTIONS[action_idx];\n            entry_action(&mut value_stack);\n            let result = value_stack.pop().unwrap();\n            Ok(extract_value(result))")]),
('gen-parser-struct',[(G,"            let mut state_stack: Vec<u32> = vec![init_state];\n            let mut value_stack: Vec<SemanticActionResult<#(#token_lifetimes),*>> = vec![];\n","            let mut state_stack: Vec<u32> = vec![];\n            let mut state: u32 = init_state;\n            let mut value_stack: Vec<SemanticActionResult<#(#token_lifetimes),*>> = vec![];\n"),
  (G,"                let state = *state_stack.last().unwrap() as usize;\n                let terminal_idx","                let terminal_idx"),
  (G,"                match ACTION[state][terminal_idx] {","                match ACTION[state as usize][terminal_idx] {"),
  (G,"EXPECTED_TERMINALS[state];","EXPECTED_TERMINALS[state as usize];"),
  (G,"                        state_stack.push(next_state);\n                        let token_","                        state_stack.push(state);\n                        state = next_state;\n                        let token_"),
  (G,"                        for _ in 0 .. n_symbols {\n                            state_stack.pop().unwrap();\n                        }\n                        let state = *state_stack.last().unwrap() as usize;\n                        match GOTO[state][non_terminal_idx as usize] {\n                            None => panic!(\"Stuck! (2)\"),\n                            Some(next_state) => state_stack.push(next_state),\n                        }","                        for _ in 0 .. n_symbols {\n                            state = state_stack.pop().unwrap();\n                        }\n                        state_stack.push(state);\n                        match GOTO[state as usize][non_terminal_idx as usize] {\n                            None => panic!(\"Stuck! (2)\"),\n                            Some(next_state) => state = next_state,\n                        }")]),
('row-fn',[(G,ACTVEC,"""/// Generates array representation of the action table. Reminder: EOF = last terminal.
fn action_table_vec<A: Copy>(
    grammar: &Grammar<A>,
    action_table: &Map<StateIdx, Map<Option<TerminalIdx>, LRAction<A>>>,
    n_states: usize,
) -> Vec<Vec<Option<LRAction<A>>>> {
    (0..n_states)
        .map(|state| action_row(grammar, action_table.get(&StateIdx(state))))
        .collect()
}

fn action_row<A: Copy>(
    grammar: &Grammar<A>,
    actions: Option<&Map<Option<TerminalIdx>, LRAction<A>>>,
) -> Vec<Option<LRAction<A>>> {
    let columns = grammar.terminal_indices().map(Some).chain(std::iter::once(None));
    match actions {
        None => columns.map(|_| None).collect(),
        Some(actions) => columns.map(|column| actions.get(&column).copied()).collect(),
    }
}

""")]),
('array-fn',[(G,"    for state in table {\n        let mut non_terminal_array: Vec<TokenStream> = Vec::with_capacity(n_non_terminals);\n        for next_state in state {","    let array = |elements: &[TokenStream]| quote!([#(#elements),*]);\n    for state in table {\n        let mut non_terminal_array: Vec<TokenStream> = Vec::with_capacity(n_non_terminals);\n        for next_state in state {"),(G,"        state_array.push(quote!(\n            [#(#non_terminal_array),*]\n        ));","        state_array.push(array(&non_terminal_array));")]),
('u16-helper',[(G,"fn generate_action_array<A>(","/// An index as stored in the tables\nfn table_u16(i: usize) -> u16 {\n    u16::try_from(i).unwrap()\n}\n\nfn table_u32(i: usize) -> u32 {\n    u32::try_from(i).unwrap()\n}\n\nfn generate_action_array<A>("),
  (G,"                            let n_symbols: u16 = u16::try_from(\n                                grammar\n                                    .get_production(*non_terminal_idx, *production_idx)\n                                    .symbols()\n                                    .len(),\n                            )\n                            .unwrap();\n                            let non_terminal_idx: u16 =\n                                u16::try_from(non_terminal_idx.as_usize()).unwrap();","                            let production = grammar.get_production(*non_terminal_idx, *production_idx);\n                            let n_symbols = table_u16(production.symbols().len());\n                            let non_terminal_idx = table_u16(non_terminal_idx.as_usize());"),
  (G,"                            let next_state: u32 = u32::try_from(next_state.as_usize()).unwrap();\n                            quote!(LRAction","                            let next_state = table_u32(next_state.as_usize());\n                            quote!(LRAction")]),
('nt-variant-struct',[(S,NTV,"""    let mut non_terminal_ty_indices: Map<&syn::Type, usize> = Default::default();
    let mut distinct_types: Vec<&syn::Type> = vec![];

    for non_terminal in grammar.non_terminals() {
        let ty = &non_terminal.return_ty;
        let next = distinct_types.len();
        let i = *non_terminal_ty_indices.entry(ty).or_insert(next);
        if i == next {
            distinct_types.push(ty);
        }
        non_terminal_action_variant_names.push(i);
    }

    for (i, pattern_ty) in distinct_types.iter().enumerate() {
        let variant_id = syn::Ident::new(&format!("NonTerminal{}", i), Span::call_site());
        variants.push(quote!(#variant_id(#pattern_ty)));
        let method_id = syn::Ident::new(&format!("non_terminal_{}", i), Span::call_site());
        extraction_fns.push(quote!(
            fn #method_id(self) -> #pattern_ty {
                match self {
                    Self::#variant_id(f) => f,
                    _ => unreachable!("{:?}", self),
                }
            }
        ));
    }

""")]),
('sem-loops',[(S,"    let non_terminals: Vec<NonTerminal<SemanticActionIdx>> = non_terminals\n        .into_iter()\n        .enumerate()\n        .map(\n            |(\n                nt_i,\n                NonTerminal {\n                    non_terminal,\n                    productions,\n                    return_ty,\n                    public,\n                },\n            )| {","    let mut new_non_terminals: Vec<NonTerminal<SemanticActionIdx>> = Vec::with_capacity(non_terminals.len());\n    for (nt_i, nt) in non_terminals.into_iter().enumerate() {\n                let NonTerminal {\n                    non_terminal,\n                    productions,\n                    return_ty,\n                    public,\n                } = nt;"),
  (S,"                NonTerminal {\n                    non_terminal,\n                    productions,\n                    return_ty,\n                    public,\n                }\n            },\n        )\n        .collect();","                new_non_terminals.push(NonTerminal {\n                    non_terminal,\n                    productions,\n                    return_ty,\n                    public,\n                });\n    }"),
  (S,"        Grammar {\n            non_terminals,\n            terminals,\n        },\n    )","        Grammar {\n            non_terminals: new_non_terminals,\n            terminals,\n        },\n    )")]),
('exp-join-fold',[(S,"        strs.push(expected_terminals.join(\", \"));","        let expected: String = expected_terminals.join(\", \");\n        strs.push(expected);")]),
('call-site-fn',[(S,"pub fn token_value_fn(","fn ident(name: String) -> syn::Ident {\n    syn::Ident::new(&name, Span::call_site())\n}\n\npub fn token_value_fn("),(S,"        let variant_id = syn::Ident::new(&format!(\"Token{}\", i), Span::call_site());\n        variants.push(quote!(\n            #pattern_code","        let variant_id = ident(format!(\"Token{}\", i));\n        variants.push(quote!(\n            #pattern_code"),(S,"                let variant_id = syn::Ident::new(&format!(\"NonTerminal{}\", i), Span::call_site());","                let variant_id = ident(format!(\"NonTerminal{}\", i));"),(S,"                let method_id = syn::Ident::new(&format!(\"non_terminal_{}\", i), Span::call_site());","                let method_id = ident(format!(\"non_terminal_{}\", i));"),(S,"        let method_id = syn::Ident::new(&format!(\"token_{}\", i), Span::call_site());","        let method_id = ident(format!(\"token_{}\", i));")]),
('low-prods-collected',[(W,"        for prod in productions {\n            let mut symbols: Vec<BoundSymbol> = vec![];\n            for sym in prod.symbols {\n                add_symbol(&nt_indices, &t_indices, &mut symbols, None, sym);\n            }\n            let nt_idx = nt_indices.get(&name.to_string()).unwrap();\n","        let nt_idx = nt_indices[&name.to_string()];\n        for ast::Production { symbols: rhs, action } in productions {\n            let mut symbols: Vec<BoundSymbol> = Vec::with_capacity(rhs.len());\n            rhs.into_iter()\n                .for_each(|sym| add_symbol(&nt_indices, &t_indices, &mut symbols, None, sym));\n"),(W,"            let action = match prod.action {","            let action = match action {"),(W,"grammar.add_production(*nt_idx, symbols, action);","grammar.add_production(nt_idx, symbols, action);")]),
('low-parse-quote',[(W,cut(w,"                syn::Expr::Path(syn::ExprPath {","            );\n        } else {"),"                syn::parse_quote!(#binder_ident),\n")]),
('low-name-first',[(W,"        if nt.visibility.is_pub() {\n","        let nt_name = nt.name.to_string();\n        if nt_indices.contains_key(&nt_name) {\n            panic!(\"Non-terminal {} defined multiple times\", nt.name);\n        }\n        if nt.visibility.is_pub() {\n"),(W,"            let nt1_name = nt.name.to_string() + \"1\";","            let nt1_name = format!(\"{}1\", nt_name);"),(W,"            let old = nt_indices.insert(nt.name.to_string(), nt1_idx);\n            if old.is_some() {\n                panic!(\"Non-terminal {} defined multiple times\", nt.name);\n            }\n","            nt_indices.insert(nt_name, nt1_idx);\n"),(W,"            let nt_name = nt.name.to_string();\n            let nt_idx = grammar.add_non_terminal(nt_name.clone(), nt.type_decl.clone(), false);\n            let old = nt_indices.insert(nt_name, nt_idx);\n            if old.is_some() {\n                panic!(\"Non-terminal {} defined multiple times\", nt.name);\n            }","            let nt_idx = grammar.add_non_terminal(nt_name.clone(), nt.type_decl.clone(), false);\n            nt_indices.insert(nt_name, nt_idx);")]),
('txt-struct-pattern-fn',[(A,STRUCTPAT,"                let (fields, dots) = struct_fields(input)?;\n                Ok(Pattern::Struct(path.path, fields, dots))\n"),(A,"impl Parse for Pattern {","/// `{ field: pattern, .. }`\nfn struct_fields(input: &ParseBuffer) -> syn::Result<(Vec<FieldPattern>, bool)> {\n    let contents;\n    syn::braced!(contents in input);\n    let mut fields = vec![];\n    while !contents.is_empty() {\n        if contents.peek(syn::token::Dot2) {\n            contents.parse::<syn::token::Dot2>()?;\n            assert!(contents.is_empty());\n            return Ok((fields, true));\n        }\n        fields.push(contents.parse::<FieldPattern>()?);\n        if contents.peek(syn::token::Comma) {\n            contents.parse::<syn::token::Comma>()?;\n        } else {\n            assert!(contents.is_empty() || contents.peek(syn::token::Dot2));\n        }\n    }\n    Ok((fields, false))\n}\n\nimpl Parse for Pattern {")]),
('txt-pattern-order',[(A,"        if input.peek(syn::token::Dot2) {\n            input.parse::<syn::token::Dot2>()?;\n            Ok(Pattern::DotDot)\n        } else if input.peek(syn::Lit) {\n            Ok(Pattern::Lit(input.parse::<syn::Lit>()?))\n        } else if input.peek(syn::token::Underscore) {\n            input.parse::<syn::token::Underscore>()?;\n            Ok(Pattern::Underscore)\n        } else if","        if input.peek(syn::token::Underscore) {\n            let _: syn::token::Underscore = input.parse()?;\n            return Ok(Pattern::Underscore);\n        }\n        if input.peek(syn::token::Dot2) {\n            let _: syn::token::Dot2 = input.parse()?;\n            return Ok(Pattern::DotDot);\n        }\n        if input.peek(syn::Lit) {\n            input.parse().map(Pattern::Lit)\n        } else if")]),
('txt-call',[(A,"        let mut symbol = symbol0(input)?;","        let mut symbol = input.call(symbol0)?;"),(A,"field_patterns.push(FieldPattern::parse(&contents)?);","field_patterns.push(contents.call(FieldPattern::parse)?);")]),
('txt-nt-body-fn',[(A,"        let mut productions: Vec<Production> = vec![];\n        if input.peek(syn::token::Brace) {\n            let contents;\n            syn::braced!(contents in input);\n            while !contents.is_empty() {\n                productions.push(contents.parse::<Production>()?);\n                let _ = contents.parse::<syn::token::Comma>();\n            }\n            input.parse::<syn::token::Semi>()?;\n        } else {\n            productions.push(input.parse::<Production>()?);\n            input.parse::<syn::token::Comma>()?;\n        }","        let productions = if input.peek(syn::token::Brace) {\n            let contents;\n            syn::braced!(contents in input);\n            let mut productions = vec![];\n            while !contents.is_empty() {\n                let production: Production = contents.parse()?;\n                productions.push(production);\n                if contents.peek(syn::token::Comma) {\n                    contents.parse::<syn::token::Comma>()?;\n                }\n            }\n            input.parse::<syn::token::Semi>()?;\n            productions\n        } else {\n            let production = input.parse::<Production>()?;\n            input.parse::<syn::token::Comma>()?;\n            vec![production]\n        };")]),
('txt-lifetimes-loop',[(A,"                let mut lifetimes = vec![];\n                while !input.peek(syn::token::Gt) {\n                    lifetimes.push(input.parse::<syn::Lifetime>()?);\n                    let _ = input.parse::<syn::token::Comma>();\n                }\n                input.parse::<syn::token::Gt>()?;\n                lifetimes","                let mut lifetimes: Vec<syn::Lifetime> = vec![];\n                loop {\n                    if input.peek(syn::token::Gt) {\n                        input.parse::<syn::token::Gt>()?;\n                        break lifetimes;\n                    }\n                    lifetimes.push(input.parse()?);\n                    let _ = input.parse::<Option<syn::token::Comma>>()?;\n                }")]),
('txt-production-helper',[(A,"        while !input.peek(syn::token::FatArrow) {\n            symbols.push(input.parse::<Symbol>()?);\n        }\n        let action = input.parse::<Action>()?;\n        Ok(Production { symbols, action })","        loop {\n            if input.peek(syn::token::FatArrow) {\n                return Ok(Production {\n                    symbols,\n                    action: input.parse()?,\n                });\n            }\n            symbols.push(input.parse()?);\n        }")]),
('lib-match-first',[(L,"                    if state_type.replace(typedef.ty).is_some() {\n                        panic!(\"`type State` is declared multiple times\");\n                    }","                    if state_type.is_some() {\n                        panic!(\"`type State` is declared multiple times\");\n                    }\n                    state_type = Some(typedef.ty);"),(L,"    let token_enum = token_enum.expect(\"Token type (`enum Token`) is not defined\");","    let token_enum = match token_enum {\n        Some(token_enum) => token_enum,\n        None => panic!(\"Token type (`enum Token`) is not defined\"),\n    };")]),
('gram-next-idx',[(M_,"        let idx = self.non_terminals.len();\n        self.non_terminals.push(NonTerminal {\n            non_terminal,\n            productions: Default::default(),\n            return_ty,\n            public,\n        });\n        NonTerminalIdx(idx as u32)","        let idx = NonTerminalIdx::from_usize(self.non_terminals.len());\n        let non_terminal = NonTerminal {\n            non_terminal,\n            productions: vec![],\n            return_ty,\n            public,\n        };\n        self.non_terminals.push(non_terminal);\n        idx")]),
]
M=[dict(name='r-t-'+x[0],props=[],edits=x[1],count=1) for x in REF]
