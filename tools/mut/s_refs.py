# a fifth round: rewrites without a fault that reach across functions and change data structures
C='lr_common.rs'
G='lr_codegen.rs'
S='codegen.rs'
W='lower.rs'
M_='grammar.rs'
L='lib.rs'
A='ast.rs'
R='lr1.rs'
F='first.rs'
def rd(f): return open('/repo/src/'+f).read()
def cut(t,x,y):
    i=t.index(x); return t[i:t.index(y,i)]
f=rd(F); r=rd(R); c=rd(C); g=rd(G); s=rd(S); w=rd(W); m=rd(M_); a=rd(A); l=rd(L)
SYMLOOP=cut(r,"            for symbol in grammar\n                .non_terminal_indices()","        if !new_states.is_empty() {")
GOTOFN=cut(r,"fn compute_lr1_goto","#[derive(Debug)]\nstruct LR1State")
CLOSFN=cut(r,"fn compute_lr1_closure<A>(","fn compute_lr1_goto")
SHIFTFN=cut(c,"        let old_action = action.insert(Some(token), LRAction::Shift(next_state));","    pub fn add_reduce(")
ACTVEC=cut(g,"/// Generates array representation of the action table.","/// Generates array representation of the goto table.")
GOTOVEC=cut(g,"/// Generates array representation of the goto table.","fn generate_action_array<A>(")
ACTARR=cut(g,"    for state in table {\n        // +1 for EOF","    // +1 for EOF\n    let terminal_array_len")
POP=cut(s,"                        for BoundSymbol { binder, symbol: kind } in symbols.iter().rev() {","                        let fn_name = syn::Ident::new(")
NTV=cut(s,"    let mut non_terminal_ty_indices: Map<syn::Type, usize>","    let code = quote!(\n        #[derive(Debug)]\n        enum #semantic")
PGEN=cut(g,"            let mut state_stack: Vec<u32> = vec![init_state];","            // TODO: We could call the function directly")
LOOP=cut(g,"                match ACTION[state][terminal_idx] {","            // TODO: We could call the function directly")
EXP=cut(s,"    let mut strs: Vec<String> = vec![];\n\n    for state_idx","    quote!(\n        static EXPECTED")
REF=[
# lr1
('goto-groups',[(R,SYMLOOP,"""            let mut kernels: Map<Symbol, Set<LR1Item>> = Default::default();
            for item in state.items() {
                if let Some(symbol) = item.next_symbol(grammar) {
                    kernels.entry(symbol.clone()).or_default().insert(item.advance());
                }
            }
            for (symbol, kernel) in kernels {
                let goto = compute_lr1_closure(grammar, first_table, kernel);
                match state_indices.get(&goto) {
                    Some(goto_state_idx) => {
                        new_gotos.push((state_idx, symbol, *goto_state_idx));
                    }
                    None => {
                        new_states.push(LR1State {
                            items: goto.clone(),
                            goto: Default::default(),
                        });
                        state_indices.insert(goto, next_state_idx);
                        new_gotos.push((state_idx, symbol, next_state_idx));
                        next_state_idx = StateIdx(next_state_idx.0 + 1);
                    }
                }
            }
        }

"""),(R,GOTOFN,"")]),
('symbols-in-state',[(R,"            for symbol in grammar\n                .non_terminal_indices()\n                .map(|(nt, _)| Symbol::NonTerminal(nt))\n                .chain(grammar.terminal_indices().map(Symbol::Terminal))\n            {","            let symbols: BTreeSet<Symbol> = state\n                .items()\n                .filter_map(|item| item.next_symbol(grammar).cloned())\n                .collect();\n            for symbol in symbols {")]),
('goto-option',[(R,") -> BTreeSet<LR1Item> {\n    let mut goto: Set<LR1Item> = Default::default();",") -> Option<BTreeSet<LR1Item>> {\n    let mut goto: Set<LR1Item> = Default::default();"),(R,"    compute_lr1_closure(grammar, first, goto)\n}","    if goto.is_empty() {\n        return None;\n    }\n    Some(compute_lr1_closure(grammar, first, goto))\n}"),(R,"                let goto = compute_lr1_goto(&state.items, &symbol, grammar, first_table);\n","                let goto = match compute_lr1_goto(&state.items, &symbol, grammar, first_table) {\n                    Some(goto) => goto,\n                    None => continue,\n                };\n"),(R,"                if goto.is_empty() {\n                    continue;\n                }\n\n","")]),
('state-idx-of',[(R,"                match state_indices.get(&goto) {\n                    Some(goto_state_idx) => {\n                        new_gotos.push((state_idx, symbol, *goto_state_idx));\n                    }\n                    None => {","                let target = match state_indices.get(&goto) {\n                    Some(goto_state_idx) => *goto_state_idx,\n                    None => {"),(R,"                        new_gotos.push((state_idx, symbol, next_state_idx));\n                        next_state_idx = StateIdx(next_state_idx.0 + 1);\n                    }\n                }","                        let target = next_state_idx;\n                        next_state_idx = StateIdx(target.0 + 1);\n                        target\n                    }\n                };\n                new_gotos.push((state_idx, symbol, target));")]),
('item-start',[(R,"    /// Get the","    /// The item at the start of the production\n    fn start(nt: NonTerminalIdx, production_idx: ProductionIdx, lookahead: Option<TerminalIdx>) -> Self {\n        Self { non_terminal_idx: nt, production_idx, cursor: 0, lookahead }\n    }\n\n    /// Get the") if "    /// Get the" in r else (R,"    fn next_symbol<'grammar, A>","    fn start(nt: NonTerminalIdx, production_idx: ProductionIdx, lookahead: Option<TerminalIdx>) -> Self {\n        Self { non_terminal_idx: nt, production_idx, cursor: 0, lookahead }\n    }\n\n    fn next_symbol<'grammar, A>"),
  (R,"                    let item = LR1Item {\n                        non_terminal_idx: next,\n                        production_idx,\n                        cursor: 0,\n                        lookahead: Some(*t),\n                    };","                    let item = LR1Item::start(next, production_idx, Some(*t));"),
  (R,"                    let item = LR1Item {\n                        non_terminal_idx: next,\n                        production_idx,\n                        cursor: 0,\n                        lookahead: None,\n                    };","                    let item = LR1Item::start(next, production_idx, None);")]),
('closure-las-fn',[(R,"            for (production_idx, _) in grammar.non_terminal_production_indices(next) {\n                for t in first.terminals() {","            let lookaheads: Vec<Option<TerminalIdx>> = first\n                .terminals()\n                .iter()\n                .map(|t| Some(*t))\n                .chain(if first.has_empty() { Some(None) } else { None })\n                .collect();\n            for (production_idx, _) in grammar.non_terminal_production_indices(next) {\n                for lookahead in &lookaheads {"),
  (R,"                        lookahead: Some(*t),","                        lookahead: *lookahead,"),
  (R,"                if first.has_empty() {\n                    let item = LR1Item {\n                        non_terminal_idx: next,\n                        production_idx,\n                        cursor: 0,\n                        lookahead: None,\n                    };\n                    if closure.insert(item.clone()) {\n                        work_list.push(item);\n                    }\n                }\n","")]),
('closure-rec',[(R,CLOSFN[CLOSFN.index("    let mut closure: Set<LR1Item> = items;"):],CLOSFN[CLOSFN.index("    let mut closure: Set<LR1Item> = items;"):].replace("    let mut work_list: Vec<LR1Item> = closure.iter().cloned().collect();\n","    let mut work_list: Vec<LR1Item> = vec![];\n    work_list.extend(closure.iter().cloned());\n").replace("if let Some(next) = item.next_non_terminal(grammar) {","let next = match item.next_non_terminal(grammar) {\n            Some(next) => next,\n            None => continue,\n        };\n        {"))]),
('reduce-branch',[(R,"            let non_terminal = grammar.get_non_terminal(item.non_terminal_idx);\n","            let non_terminal = grammar.get_non_terminal(item.non_terminal_idx);\n            let entry = non_terminal.public;\n"),(R,"            if item.is_complete(grammar) && !non_terminal.public {\n                let production = grammar.get_production(item.non_terminal_idx, item.production_idx);","            if !entry && item.is_complete(grammar) {\n                let production = item.get_production(grammar);"),(R,"            if non_terminal.public && item.cursor == 1 && item.lookahead.is_none() {","            if entry && item.lookahead == None && item.is_complete(grammar) {")]),
('accept-nested',[(R,"            if non_terminal.public && item.cursor == 1 && item.lookahead.is_none() {\n                // `pub` non-terminals are created in lowering, and should have one production to\n                // the original `pub` non-terminal\n                assert_eq!(non_terminal.productions().len(), 1);\n                table.add_accept(state_idx);\n            }","            match (non_terminal.public, item.cursor, item.lookahead) {\n                (true, 1, None) => {\n                    assert_eq!(non_terminal.productions().len(), 1);\n                    table.add_accept(state_idx);\n                }\n                _ => {}\n            }")]),
('build-reduce-fn',[(R,"pub fn build_lr1_table<","fn add_item_reduce<A: Clone + fmt::Debug + Eq>(\n    table: &mut LRTableBuilder<A>,\n    grammar: &Grammar<A>,\n    state: StateIdx,\n    item: &LR1Item,\n) {\n    let LR1Item { non_terminal_idx, production_idx, lookahead, .. } = *item;\n    let action = grammar.get_production(non_terminal_idx, production_idx).action.clone();\n    table.add_reduce(grammar, state, lookahead, non_terminal_idx, production_idx, action);\n}\n\npub fn build_lr1_table<"),
  (R,cut(r,"                let production = grammar.get_production(item.non_terminal_idx, item.production_idx);\n                table.add_reduce(","            }\n\n            // Rule 2.c"),"                add_item_reduce(&mut table, grammar, state_idx, item);\n")]),
# first
('first-union',[(F,"    /// Returns whether the value is changed\n    fn set_empty","    /// Adds the terminals that `from` can start with to `to`; returns whether anything changed\n    fn add_all(&mut self, to: NonTerminalIdx, from: NonTerminalIdx) -> bool {\n        let terminals = self.0[from.as_usize()].terminals.clone();\n        let mut changed = false;\n        for t in terminals {\n            changed |= self.add_first(to, t);\n        }\n        changed\n    }\n\n    /// Returns whether the value is changed\n    fn set_empty"),
  (F,"                            let FirstSet { empty, terminals } = table.get_first(*nt);\n                            let empty = *empty;\n                            // TODO: clone below to avoid borrowck issues\n                            for terminal in terminals.clone() {\n                                updated |= table.add_first(non_terminal_idx, terminal);\n                            }\n                            if empty {","                            updated |= table.add_all(non_terminal_idx, *nt);\n                            if table.get_first(*nt).has_empty() {")]),
('first-len-changed',[(F,"    fn add_first(&mut self, non_terminal_idx: NonTerminalIdx, terminal: TerminalIdx) -> bool {\n        self.0[non_terminal_idx.as_usize()]\n            .terminals\n            .insert(terminal)\n    }","    fn add_first(&mut self, non_terminal_idx: NonTerminalIdx, terminal: TerminalIdx) -> bool {\n        let terminals = &mut self.0[non_terminal_idx.as_usize()].terminals;\n        let before = terminals.len();\n        terminals.insert(terminal);\n        terminals.len() > before\n    }")]),
('first-prod-bool',[(F,cut(f,"            'production_loop: for production","    }\n\n    table\n}"),"""            for production in &non_terminal.productions {
                let mut all_empty = true;
                for symbol in &production.symbols {
                    match &symbol.symbol {
                        Symbol::NonTerminal(nt) => {
                            let FirstSet { empty, terminals } = table.get_first(*nt).clone();
                            for terminal in terminals {
                                updated |= table.add_first(non_terminal_idx, terminal);
                            }
                            all_empty = empty;
                        }
                        Symbol::Terminal(terminal) => {
                            updated |= table.add_first(non_terminal_idx, *terminal);
                            all_empty = false;
                        }
                    }
                    if !all_empty {
                        break;
                    }
                }
                if all_empty {
                    updated |= table.set_empty(non_terminal_idx);
                }
            }
        }
""")]),
('first-vec-macro',[(F,"        let mut sets = Vec::with_capacity(n_non_terminals);\n        for _ in 0..n_non_terminals {\n            sets.push(FirstSet::default());\n        }\n        FirstTable(sets)","        FirstTable(vec![FirstSet::default(); n_non_terminals])")]),
# lr_common
('tab-vec',[(C,"    action: Map<StateIdx, Map<Option<TerminalIdx>, LRAction<A>>>,\n    goto: Map<StateIdx, Map<NonTerminalIdx, StateIdx>>,","    action: Vec<Map<Option<TerminalIdx>, LRAction<A>>>,\n    goto: Map<StateIdx, Map<NonTerminalIdx, StateIdx>>,"),
  (C,"                action: Default::default(),\n","                action: (0..n_states).map(|_| Default::default()).collect(),\n"),
  (C,"        let action = self.table.action.entry(state).or_default();\n\n        let old_action = action.insert(Some(token)","        let action = &mut self.table.action[state.as_usize()];\n\n        let old_action = action.insert(Some(token)"),
  (C,"        let action = self.table.action.entry(state).or_default();\n\n        let old_action = action.insert(\n","        let action = &mut self.table.action[state.as_usize()];\n\n        let old_action = action.insert(\n"),
  (C,"            .action\n            .entry(state)\n            .or_default()\n            .insert(None","            .action[state.as_usize()]\n            .insert(None"),
  (C,"        self.action\n            .get(&state)\n            .and_then(|action| action.get(&non_terminal))","        self.action\n            .get(state.as_usize())\n            .and_then(|action| action.get(&non_terminal))"),
  (C,"-> &Map<StateIdx, Map<Option<TerminalIdx>, LRAction<A>>> {","-> &[Map<Option<TerminalIdx>, LRAction<A>>] {"),
  (C,"            let actions = self.table.action.get(&state_idx);","            let actions = self.table.action.get(state_idx.as_usize());"),
  (G,"    action_table: &Map<StateIdx, Map<Option<TerminalIdx>, LRAction<A>>>,","    action_table: &[Map<Option<TerminalIdx>, LRAction<A>>],"),
  (G,"        let state_idx = StateIdx(state);\n        // +1","        let state_idx = state;\n        // +1"),
  (G,"                    .get(&state_idx)\n                    .and_then(|action| action.get(&Some(terminal)))","                    .get(state_idx)\n                    .and_then(|action| action.get(&Some(terminal)))"),
  (G,"                .get(&state_idx)\n                .and_then(|action| action.get(&None))","                .get(state_idx)\n                .and_then(|action| action.get(&None))")]),
('tab-old-first',[(C,"        let old_action = self\n            .table\n            .action\n            .entry(state)\n            .or_default()\n            .insert(None, LRAction::Accept);\n\n        if let Some(old_action) = old_action {\n            if old_action != LRAction::Accept {","        let actions = self.table.action.entry(state).or_default();\n        if let Some(old_action) = actions.insert(None, LRAction::Accept) {\n            if !matches!(old_action, LRAction::Accept) {")]),
('tab-goto-assert-fn',[(C,"        let _old = self\n            .table\n            .goto\n            .entry(state)\n            .or_default()\n            .insert(non_terminal_idx, next);","        let gotos = self.table.goto.entry(state).or_default();\n        gotos.insert(non_terminal_idx, next);")]),
('tab-flat',[(C,"    goto: Map<StateIdx, Map<NonTerminalIdx, StateIdx>>,\n    n_states","    goto: Map<(StateIdx, NonTerminalIdx), StateIdx>,\n    n_states"),
  (C,"            .goto\n            .entry(state)\n            .or_default()\n            .insert(non_terminal_idx, next);","            .goto\n            .insert((state, non_terminal_idx), next);"),
  (C,"        self.goto\n            .get(&state)\n            .and_then(|goto| goto.get(&non_terminal))\n            .copied()","        self.goto.get(&(state, non_terminal)).copied()"),
  (C,"&Map<StateIdx, Map<NonTerminalIdx, StateIdx>> {","&Map<(StateIdx, NonTerminalIdx), StateIdx> {"),
  (C,"            let gotos = self.table.goto.get(&state_idx);\n",""),
  (C,cut(c,"            if let Some(gotos) = gotos {","            writeln!(f, \"}}\")?;"),"            for ((state, non_terminal), next_state) in &self.table.goto {\n                if *state == state_idx {\n                    let nt = &self.grammar.get_non_terminal(*non_terminal).non_terminal;\n                    writeln!(f, \"  {} -> {}\", nt, next_state.0)?;\n                }\n            }\n\n"),
  (G,"    goto_table: &Map<StateIdx, Map<NonTerminalIdx, StateIdx>>,","    goto_table: &Map<(StateIdx, NonTerminalIdx), StateIdx>,"),
  (G,"                    .get(&state_idx)\n                    .and_then(|goto| goto.get(&non_terminal_idx))\n                    .copied(),","                    .get(&(state_idx, non_terminal_idx))\n                    .copied(),")]),
# lr_codegen
('act-direct',[(G,ACTVEC,""),(G,"    let action_vec = action_table_vec(&grammar, lr1_table.get_action_table(), lr1_table.n_states());\n\n",""),(G,"generate_action_array(&grammar, &action_vec, lr1_table.n_states(), n_terminals);","generate_action_array(&grammar, lr1_table.get_action_table(), lr1_table.n_states(), n_terminals);"),
  (G,"    table: &[Vec<Option<LRAction<SemanticActionIdx>>>],","    table: &Map<StateIdx, Map<Option<TerminalIdx>, LRAction<SemanticActionIdx>>>,"),
  (G,"    assert_eq!(table.len(), n_states);\n\n",""),
  (G,"    for state in table {\n        // +1 for EOF\n        assert_eq!(state.len(), n_terminals + 1);","    for state in 0..n_states {\n        let actions = table.get(&StateIdx(state));"),
  (G,"        for action in state {\n            match action {","        for terminal in grammar.terminal_indices().map(Some).chain(std::iter::once(None)) {\n            match actions.and_then(|actions| actions.get(&terminal)) {")]),
('goto-direct',[(G,GOTOVEC,""),(G,cut(g,"    let goto_vec = generate_goto_vec(","    let goto_array_code ="),""),(G,"generate_goto_array(&goto_vec, lr1_table.n_states(), grammar.non_terminals.len());","generate_goto_array(lr1_table.get_goto_table(), lr1_table.n_states(), grammar.non_terminals.len());"),
  (G,"    table: &[Vec<Option<StateIdx>>],","    table: &Map<StateIdx, Map<NonTerminalIdx, StateIdx>>,"),
  (G,"    for state in table {\n        let mut non_terminal_array: Vec<TokenStream> = Vec::with_capacity(n_non_terminals);\n        for next_state in state {\n            non_terminal_array.push(match next_state {","    for state in 0..n_states {\n        let mut non_terminal_array: Vec<TokenStream> = Vec::with_capacity(n_non_terminals);\n        for non_terminal in 0..n_non_terminals {\n            let next_state = table\n                .get(&StateIdx(state))\n                .and_then(|goto| goto.get(&NonTerminalIdx::from_usize(non_terminal)));\n            non_terminal_array.push(match next_state {")]),
('act-codes-first',[(G,"                    let action_code = match action {","                    let code = |body: TokenStream| quote!(Some(LRAction::#body));\n                    let action_code = match action {"),
  (G,"quote!(LRAction::Shift { next_state: #next_state })","code(quote!(Shift { next_state: #next_state }))"),
  (G,"                            quote!(LRAction::Reduce {\n                                non_terminal_idx: #non_terminal_idx,\n                                n_symbols: #n_symbols,\n                                semantic_action_idx: #semantic_action_idx,\n                            })","                            code(quote!(Reduce {\n                                non_terminal_idx: #non_terminal_idx,\n                                n_symbols: #n_symbols,\n                                semantic_action_idx: #semantic_action_idx,\n                            }))"),
  (G,"                        LRAction::Accept => quote!(LRAction::Accept),\n                    };\n                    terminal_array.push(quote!(Some(#action_code)));","                        LRAction::Accept => code(quote!(Accept)),\n                    };\n                    terminal_array.push(action_code);")]),
('opt-tokens',[(G,"fn generate_goto_array(","/// `Some(...)` or `None` as code\nfn option_tokens(value: Option<TokenStream>) -> TokenStream {\n    match value {\n        Some(value) => quote!(Some(#value)),\n        None => quote!(None),\n    }\n}\n\nfn generate_goto_array("),
  (G,"            non_terminal_array.push(match next_state {\n                Some(next_state) => {\n                    let next_state: u32 = u32::try_from(next_state.as_usize()).unwrap();\n                    quote!(Some(#next_state))\n                }\n                None => quote!(None),\n            });","            non_terminal_array.push(option_tokens(next_state.map(|next_state| {\n                let next_state: u32 = u32::try_from(next_state.as_usize()).unwrap();\n                quote!(#next_state)\n            })));")]),
('nsym-method',[(M_,"impl<A> Production<A> {\n","impl<A> Production<A> {\n    /// Length of the right-hand side\n    pub fn n_symbols(&self) -> u16 {\n        self.symbols.len().try_into().expect(\"production is too long\")\n    }\n\n"),(G,cut(g,"                            let n_symbols: u16 = u16::try_from(","                            let non_terminal_idx: u16 ="),"                            let n_symbols = grammar\n                                .get_production(*non_terminal_idx, *production_idx)\n                                .n_symbols();\n")]),
('entry-struct-fn',[(G,"            let extract_method_id = syn::Ident::new(\n                &format!(\n                    \"non_terminal_{}\",\n                    non_terminal_action_variant_name[non_terminal_idx.as_usize()]\n                ),\n                Span::call_site(),\n            );","            let variant = non_terminal_action_variant_name[non_terminal_idx.as_usize()];\n            let extract_method_id = format_ident!(\"non_terminal_{}\", variant);")]),
('gen-step-fn',[(G,LOOP,"""                let action = match ACTION[state][terminal_idx] {
                    Some(action) => action,
                    None => {
                        let found = TERMINAL_STRS[terminal_idx];
                        let expected = EXPECTED_TERMINALS[state];
                        return Err(ParseError::ParserError {
                            found, expected
                        });
                    }
                };
                match action {
                    LRAction::Accept => break,
                    LRAction::Shift { next_state } => {
                        state_stack.push(next_state);
                        let token_ = ::std::mem::replace(&mut token, input.next());
                        if let Some(Ok(token)) = token_ {
                            value_stack.push(#token_value_fn_name(token));
                        }
                    }
                    LRAction::Reduce { non_terminal_idx, n_symbols, semantic_action_idx } => {
                        let action = SEMANTIC_ACTIONS[usize::from(semantic_action_idx)];
                        action(&mut value_stack);
                        let remaining = state_stack.len() - usize::from(n_symbols);
                        state_stack.truncate(remaining);
                        let state = state_stack[remaining - 1] as usize;
                        let next_state = GOTO[state][usize::from(non_terminal_idx)].unwrap();
                        state_stack.push(next_state);
                    }
                }
            }

""")]),
('gen-bottom-only',[(G,"            let mut state_stack: Vec<u32> = vec![init_state];","            let mut state_stack: Vec<u32> = Vec::with_capacity(16);\n            state_stack.push(init_state);"),(G,"            let mut value_stack: Vec<SemanticActionResult<#(#token_lifetimes),*>> = vec![];","            let mut value_stack: Vec<SemanticActionResult<#(#token_lifetimes),*>> = Vec::with_capacity(16);")]),
('gen-lexer-early',[(G,"            let mut token = input.next();\n\n            loop {\n                let state = *state_stack.last().unwrap() as usize;\n                let terminal_idx = match &token {\n                    None => #n_terminals,\n                    Some(Err(err)) => return Err(ParseError::LexerError(err.clone())),\n                    Some(Ok(token)) => #token_terminal_idx_fn_name(&token),\n                };","            let mut token = input.next();\n\n            loop {\n                if let Some(Err(err)) = token {\n                    return Err(ParseError::LexerError(err));\n                }\n                let terminal_idx = match &token {\n                    Some(Ok(token)) => #token_terminal_idx_fn_name(token),\n                    _ => #n_terminals,\n                };\n                let state = *state_stack.last().unwrap() as usize;")]),
('gen-transpose',[(G,"            let mut token = input.next();\n\n            loop {\n                let state = *state_stack.last().unwrap() as usize;\n                let terminal_idx = match &token {\n                    None => #n_terminals,\n                    Some(Err(err)) => return Err(ParseError::LexerError(err.clone())),\n                    Some(Ok(token)) => #token_terminal_idx_fn_name(&token),\n                };","            let mut token = input.next().transpose().map_err(ParseError::LexerError)?;\n\n            loop {\n                let state = *state_stack.last().unwrap() as usize;\n                let terminal_idx = match &token {\n                    None => #n_terminals,\n                    Some(token) => #token_terminal_idx_fn_name(token),\n                };"),
  (G,"                        state_stack.push(next_state);\n                        let token_ = ::std::mem::replace(&mut token, input.next());\n                        if let Some(Ok(token)) = token_ {\n                            value_stack.push(#token_value_fn_name(token));\n                        }","                        state_stack.push(next_state);\n                        let next = input.next().transpose().map_err(ParseError::LexerError)?;\n                        if let Some(token) = ::std::mem::replace(&mut token, next) {\n                            value_stack.push(#token_value_fn_name(token));\n                        }")]),
# codegen
('sem-binder-map',[(S,POP,"""                        let pop_code: Vec<TokenStream> = symbols
                            .iter()
                            .rev()
                            .map(|bound| {
                                let Name { mutable, name } = match &bound.binder {
                                    Some(binder) => binder,
                                    None => return quote!(value_stack.pop()),
                                };
                                let mut_ = mutable.then(|| quote!(mut));
                                let extract_method = match &bound.symbol {
                                    Symbol::NonTerminal(nt_idx) => {
                                        let variant = non_terminal_action_variant_name[nt_idx.as_usize()];
                                        format_ident!("non_terminal_{}", variant)
                                    }
                                    Symbol::Terminal(terminal_idx) => {
                                        format_ident!("token_{}", terminal_idx.as_usize())
                                    }
                                };
                                quote!(let #mut_ #name = value_stack.pop().unwrap().#extract_method())
                            })
                            .collect();

"""),(S,"                        let mut pop_code: Vec<TokenStream> = vec![];\n\n","")]),
('ntv-position',[(S,NTV,"""    let mut types: Vec<&syn::Type> = vec![];

    for non_terminal in grammar.non_terminals().iter() {
        let ty = &non_terminal.return_ty;
        let i = types.iter().position(|t| *t == ty).unwrap_or_else(|| {
            types.push(ty);
            types.len() - 1
        });
        non_terminal_action_variant_names.push(i);
    }

    for (i, ty) in types.into_iter().enumerate() {
        let variant_id = format_ident!("NonTerminal{}", i);
        let method_id = format_ident!("non_terminal_{}", i);
        variants.push(quote!(#variant_id(#ty)));
        extraction_fns.push(quote!(
            fn #method_id(self) -> #ty {
                match self {
                    Self::#variant_id(f) => f,
                    _ => unreachable!("{:?}", self),
                }
            }
        ));
    }

""")]),
('exp-table',[(S,EXP,"""    let strs: Vec<String> = (0..n_states)
        .map(|state_idx| {
            let actions = lr_table.get_action_table().get(&StateIdx(state_idx));
            grammar
                .terminal_indices()
                .filter(|t| actions.map_or(false, |actions| actions.contains_key(&Some(*t))))
                .map(|t| grammar.get_terminal(t))
                .collect::<Vec<_>>()
                .join(", ")
        })
        .collect();

"""),(S,"    let n_terminals = grammar.n_terminals();\n    let n_states = lr_table.n_states();\n","    let n_states = lr_table.n_states();\n"),(S,"NonTerminal, Production, Symbol, TerminalIdx};","NonTerminal, Production, Symbol, TerminalIdx};")]),
('pat-walker',[(S,cut(s,"fn pattern_ignore(pattern: &Pattern) -> TokenStream {","/// Declares an `ActionResult` enum"),"fn pattern_ignore(pattern: &Pattern) -> TokenStream {\n    pattern_code(pattern, &mut || quote!(_))\n}\n\n/// The code of a pattern, with the given code for its \"choose\" arguments\nfn pattern_code(pattern: &Pattern, choose: &mut dyn FnMut() -> TokenStream) -> TokenStream {\n    match pattern {\n        Pattern::Enum(path, pats) => {\n            let pats: Vec<TokenStream> = pats.iter().map(|p| pattern_code(p, choose)).collect();\n            quote!(#path(#(#pats,)*))\n        }\n        Pattern::Struct(path, fields, dot) => {\n            let mut pats: Vec<TokenStream> = vec![];\n            for FieldPattern { field_name, pattern } in fields {\n                let pat = pattern_code(pattern, choose);\n                pats.push(quote!(#field_name: #pat,));\n            }\n            if *dot {\n                pats.push(quote!(..));\n            }\n            quote!(#path { #(#pats)* })\n        }\n        Pattern::Tuple(pats) => {\n            let pats: Vec<TokenStream> = pats.iter().map(|p| pattern_code(p, choose)).collect();\n            quote!((#(#pats,)*))\n        }\n        Pattern::Path(path) => quote!(#path),\n        Pattern::Underscore => quote!(_),\n        Pattern::DotDot => quote!(..),\n        Pattern::Lit(lit) => quote!(#lit),\n        Pattern::Choose(_) => choose(),\n    }\n}\n\n"),
  (S,cut(s,"fn generate_pattern_syn_with_idents_(pat: &Pattern, idents","/// Generate a mapping from states to tokens"),"fn generate_pattern_syn_with_idents_(pat: &Pattern, idents: &mut Vec<syn::Ident>) -> TokenStream {\n    pattern_code(pat, &mut || {\n        let ident = format_ident!(\"f{}\", idents.len());\n        let code = quote!(#ident);\n        idents.push(ident);\n        code\n    })\n}\n\n")]),
('types-flat',[(S,cut(s,"fn pattern_types_<'a>(pat","/// Given a pattern, generate the code for it and"),"fn pattern_types_<'a>(pat: &'a Pattern, acc: &mut Vec<&'a syn::Type>) {\n    match pat {\n        Pattern::Choose(ty) => acc.push(ty),\n        Pattern::Enum(_, pats) | Pattern::Tuple(pats) => {\n            pats.iter().for_each(|pat| pattern_types_(pat, acc));\n        }\n        Pattern::Struct(_, pats, _) => {\n            pats.iter().map(|f| &f.pattern).for_each(|pat| pattern_types_(pat, acc));\n        }\n        _ => {}\n    }\n}\n\n")]),
# lower
('low-struct',[(W,"fn add_symbol(\n    nt_indices: &Map<String, NonTerminalIdx>,\n    t_indices: &Map<String, TerminalIdx>,\n    symbols: &mut Vec<BoundSymbol>,\n    binder: Option<ast::Name>,\n    symbol: ast::Symbol,\n) {","struct Indices {\n    nt_indices: Map<String, NonTerminalIdx>,\n    t_indices: Map<String, TerminalIdx>,\n}\n\nimpl Indices {\n    fn non_terminal(&self, name: &str) -> NonTerminalIdx {\n        match self.nt_indices.get(name) {\n            None => panic!(\"Non-terminal not defined: {}\", name),\n            Some(idx) => *idx,\n        }\n    }\n\n    fn terminal(&self, name: &str) -> TerminalIdx {\n        match self.t_indices.get(name) {\n            None => panic!(\"Unknown terminal: {:?}\", name),\n            Some(idx) => *idx,\n        }\n    }\n}\n\nfn add_symbol(\n    indices: &Indices,\n    symbols: &mut Vec<BoundSymbol>,\n    binder: Option<ast::Name>,\n    symbol: ast::Symbol,\n) {"),
  (W,"            let nt_name = nt.to_string();\n            let nt_idx = match nt_indices.get(&nt_name) {\n                None => panic!(\"Non-terminal not defined: {}\", nt_name),\n                Some(nt_idx) => nt_idx,\n            };\n            symbols.push(BoundSymbol {\n                binder,\n                symbol: Symbol::NonTerminal(*nt_idx),\n            });","            let symbol = Symbol::NonTerminal(indices.non_terminal(&nt.to_string()));\n            symbols.push(BoundSymbol { binder, symbol });"),
  (W,"            let str = str.value();\n            let idx = t_indices\n                .get(&str)\n                .unwrap_or_else(|| panic!(\"Unknown non-terminal: {:?}\", str));\n            symbols.push(BoundSymbol {\n                binder,\n                symbol: Symbol::Terminal(*idx),\n            });","            let symbol = Symbol::Terminal(indices.terminal(&str.value()));\n            symbols.push(BoundSymbol { binder, symbol });"),
  (W,"            add_symbol(nt_indices, t_indices, symbols, Some(name), *sym)","            add_symbol(indices, symbols, Some(name), *sym)"),
  (W,"    for ast::NonTerminal {\n        name, productions, ..","    let indices = Indices { nt_indices, t_indices };\n\n    for ast::NonTerminal {\n        name, productions, .."),
  (W,"                add_symbol(&nt_indices, &t_indices, &mut symbols, None, sym);\n            }\n            let nt_idx = nt_indices.get(&name.to_string()).unwrap();","                add_symbol(&indices, &mut symbols, None, sym);\n            }\n            let nt_idx = indices.non_terminal(&name.to_string());"),
  (W,"grammar.add_production(*nt_idx, symbols, action);","grammar.add_production(nt_idx, symbols, action);")]),
('low-peel-name',[(W,cut(w,"fn add_symbol(\n","@@END@@") if False else w[w.index("fn add_symbol(\n"):],"""fn add_symbol(
    nt_indices: &Map<String, NonTerminalIdx>,
    t_indices: &Map<String, TerminalIdx>,
    symbols: &mut Vec<BoundSymbol>,
    symbol: ast::Symbol,
) {
    let (binder, symbol) = match symbol {
        ast::Symbol::NamedSymbol(name, symbol) => (Some(name), *symbol),
        symbol => (None, symbol),
    };
    let symbol = match symbol {
        ast::Symbol::NonTerminal(nt) => {
            let nt_name = nt.to_string();
            match nt_indices.get(&nt_name) {
                None => panic!("Non-terminal not defined: {}", nt_name),
                Some(nt_idx) => Symbol::NonTerminal(*nt_idx),
            }
        }
        ast::Symbol::Terminal(str) => {
            let str = str.value();
            match t_indices.get(&str) {
                None => panic!("Unknown terminal: {:?}", str),
                Some(t_idx) => Symbol::Terminal(*t_idx),
            }
        }
        ast::Symbol::Repeat(_) => todo!("Repeat symbol not supported yet"),
        ast::Symbol::NamedSymbol(name, _) => panic!("Symbol named multiple times: {}", name.name),
    };
    symbols.push(BoundSymbol { binder, symbol });
}
"""),(W,"add_symbol(&nt_indices, &t_indices, &mut symbols, None, sym);","add_symbol(&nt_indices, &t_indices, &mut symbols, sym);")]),
('low-nt-indices-vec',[(W,"    for nt in &non_terminals {\n        if nt.visibility.is_pub() {","    // Index of the non-terminal the productions of each declaration belong to\n    let mut decl_indices: Vec<NonTerminalIdx> = Vec::with_capacity(non_terminals.len());\n\n    for nt in &non_terminals {\n        if nt.visibility.is_pub() {"),
  (W,"            let old = nt_indices.insert(nt.name.to_string(), nt1_idx);\n","            decl_indices.push(nt1_idx);\n            let old = nt_indices.insert(nt.name.to_string(), nt1_idx);\n"),
  (W,"            let old = nt_indices.insert(nt_name, nt_idx);\n","            decl_indices.push(nt_idx);\n            let old = nt_indices.insert(nt_name, nt_idx);\n"),
  (W,"    for ast::NonTerminal {\n        name, productions, ..\n    } in non_terminals\n    {","    for (ast::NonTerminal { productions, .. }, nt_idx) in non_terminals.into_iter().zip(decl_indices) {"),
  (W,"            let nt_idx = nt_indices.get(&name.to_string()).unwrap();\n\n",""),
  (W,"grammar.add_production(*nt_idx, symbols, action);","grammar.add_production(nt_idx, symbols, action);")]),
# ast
('txt-angle',[(A,"    if let Ok(ident) = input.parse::<syn::Ident>() {\n        return Ok(Symbol::NonTerminal(ident));\n    }\n\n    // if input.peek(syn::token::Lt) {\n    input.parse::<syn::token::Lt>()?;","    if !input.peek(syn::token::Lt) {\n        return input.parse::<syn::Ident>().map(Symbol::NonTerminal);\n    }\n\n    input.parse::<syn::token::Lt>()?;")]),
('txt-parens-fn',[(A,"impl Parse for Pattern {","fn patterns(input: &ParseBuffer) -> syn::Result<Vec<Pattern>> {\n    let contents;\n    syn::parenthesized!(contents in input);\n    let mut pats = vec![];\n    while !contents.is_empty() {\n        pats.push(contents.parse::<Pattern>()?);\n        if !contents.is_empty() {\n            contents.parse::<syn::token::Comma>()?;\n        }\n    }\n    Ok(pats)\n}\n\nimpl Parse for Pattern {"),
  (A,cut(a,"            let contents;\n            syn::parenthesized!(contents in input);\n            let pats","        } else if input.peek(syn::Ident) {"),"            Ok(Pattern::Tuple(patterns(input)?))\n"),
  (A,cut(a,"                let contents;\n                syn::parenthesized!(contents in input);","            } else if input.peek(syn::token::Brace) {"),"                Ok(Pattern::Enum(path.path, patterns(input)?))\n")]),
('txt-pattern-err',[(A,"            // TODO: error message\n            panic!()","            Err(input.error(\"expected a pattern\"))")]),
('txt-lookahead1',[(A,"        if input.peek(syn::token::Type) {\n            Ok(GrammarItem::TypeDef(input.parse::<TypeDef>()?))\n        } else if input.peek(syn::token::Enum) {\n            Ok(GrammarItem::TokenEnum(input.parse::<TokenEnum>()?))\n        } else {\n            Ok(GrammarItem::NonTerminal(input.parse::<NonTerminal>()?))\n        }","        if input.peek(syn::token::Enum) {\n            input.parse().map(GrammarItem::TokenEnum)\n        } else if input.peek(syn::token::Type) {\n            input.parse().map(GrammarItem::TypeDef)\n        } else {\n            input.parse().map(GrammarItem::NonTerminal)\n        }")]),
('txt-repeat-ops',[(A,cut(a,"        loop {\n            if input.parse::<syn::token::Add>()","        Ok(symbol)\n    }\n}\n\nfn symbol0"),"        loop {\n            let op = if input.peek(syn::token::Add) {\n                input.parse::<syn::token::Add>()?;\n                RepeatOp::Plus\n            } else if input.peek(syn::token::Star) {\n                input.parse::<syn::token::Star>()?;\n                RepeatOp::Star\n            } else if input.peek(syn::token::Question) {\n                input.parse::<syn::token::Question>()?;\n                RepeatOp::Question\n            } else {\n                break;\n            };\n            symbol = Symbol::Repeat(Box::new(Repeat { op, symbol }));\n        }\n\n")]),
('txt-vis-bool',[(A,"        let visibility = input.parse::<Visibility>()?;\n        let name","        let visibility = match input.parse::<Option<syn::token::Pub>>()? {\n            Some(_) => Visibility::Pub,\n            None => Visibility::Priv,\n        };\n        let name")]),
('txt-action-opt',[(A,"        if input.peek(syn::token::Question) {\n            input.parse::<syn::token::Question>()?;\n            Ok(Action::Fallible(input.parse::<syn::Expr>()?))\n        } else {\n            Ok(Action::Infallible(input.parse::<syn::Expr>()?))\n        }","        let fallible = input.parse::<Option<syn::token::Question>>()?.is_some();\n        let expr = input.parse::<syn::Expr>()?;\n        Ok(if fallible {\n            Action::Fallible(expr)\n        } else {\n            Action::Infallible(expr)\n        })")]),
('txt-conv-into-iter',[(A,"            conversions: conversions\n                .into_pairs()\n                .map(|pair| pair.into_value())\n                .collect(),","            conversions: conversions.into_iter().collect(),")]),
('lib-fold',[(L,"            ast::GrammarItem::TokenEnum(token_enum_) => {\n                if token_enum.is_some() {\n                    panic!(\"`enum Token` is declared multiple times\");\n                }\n                token_enum = Some(token_enum_);\n            }","            ast::GrammarItem::TokenEnum(decl) => {\n                let previous = token_enum.replace(decl);\n                assert!(previous.is_none(), \"`enum Token` is declared multiple times\");\n            }")]),
]
M=[dict(name='r-s-'+x[0],props=[],edits=x[1],count=1) for x in REF]
