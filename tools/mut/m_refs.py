# a further round of edits that keep the behaviour
C='lr_common.rs'
G='lr_codegen.rs'
S='codegen.rs'
W='lower.rs'
M_='grammar.rs'
L='lib.rs'
A='ast.rs'
R='lr1.rs'
F='first.rs'
def rd(f): return open('/repo/src/'+f).read()
def cut(t,x,y):
    i=t.index(x); return t[i:t.index(y,i)]
f=rd(F); r=rd(R); c=rd(C); g=rd(G); s=rd(S); w=rd(W); m=rd(M_); a=rd(A); l=rd(L)
FIRSTBLK=cut(r,"            let first = {","            // println!(\n            //     \"LR1 closure item")
CLOS=cut(r,"fn compute_lr1_closure<A>","fn compute_lr1_goto<A>")
PREDS=cut(r,"            for (production_idx, _) in grammar.non_terminal_production_indices(next) {","\n    closure.into_iter().collect()")
GOTO=cut(r,"    let mut goto: Set<LR1Item> = Default::default();","    compute_lr1_closure(grammar, first, goto)")
AUT=cut(r,"    let mut updated = true;\n    while updated {","    (automaton, non_terminal_state_indices)")
BUILD=cut(r,"    for (state_idx, state) in automaton.state_indices() {\n        for item in state.items() {\n            // Rule 2.a","    table.build()")
GEN1=cut(f,"pub fn generate_first_table<A>","use std::fmt;")
SHIFTM=cut(c,"        if let Some(old_action) = old_action {\n            match old_action {\n                LRAction::Shift(s) => {\n                    if s","    pub fn add_reduce(")
REDM=cut(c,"        if let Some(old_action) = old_action {\n            match old_action {\n                LRAction::Shift(s) => {\n                    panic!","    pub fn add_accept(")
AVEC=cut(g,"    let mut state_to_terminal_to_action","/// Generates array representation of the goto table.")
AARR=cut(g,"    let mut state_array: Vec<TokenStream> = Vec::with_capacity(n_states);\n\n    for state in table {\n        // +1","    // +1 for EOF\n    let terminal_array_len")
GARR=cut(g,"    let mut state_array: Vec<TokenStream> = Vec::with_capacity(n_states);\n\n    for state in table {\n        let mut non_terminal_array","    quote!(\n        static GOTO")
LOOP=cut(g,"            loop {\n                let state = *state_stack","            // TODO: We could call the function")
EXP=cut(s,"    let mut strs: Vec<String> = vec![];\n\n    for state_idx","    quote!(\n        static EXPECTED_TERMINALS")
NTV=cut(s,"    for non_terminal in grammar.non_terminals().iter() {","    let code = quote!(\n        #[derive(Debug)]")
POP=cut(s,"                        for BoundSymbol { binder, symbol: kind } in symbols.iter().rev() {","                        let fn_name = syn::Ident::new(")
LOW1=cut(w,"    for nt in &non_terminals {","    for ast::NonTerminal {")
LOW2=cut(w,"    for ast::NonTerminal {\n","    grammar\n}")
ADDS=cut(w,"    match symbol {\n        ast::Symbol::NonTerminal(nt) => {","\n}\n") if False else w[w.index("    match symbol {\n        ast::Symbol::NonTerminal(nt) => {"):w.rindex("}\n")]
REF=[
# ---- lr1: items and closure
('next-symbol-match',[(R,"        production.symbols().get(self.cursor).map(|s| &s.symbol)","        match production.symbols().get(self.cursor) {\n            Some(bound) => Some(&bound.symbol),\n            None => None,\n        }")]),
('next-symbol-via',[(R,"        let production = grammar.get_production(self.non_terminal_idx, self.production_idx);\n        production.symbols()","        self.get_production(grammar).symbols()")]),
('complete-next',[(R,"        let production = self.get_production(grammar);\n        self.cursor == production.symbols().len()","        self.next_symbol(grammar).is_none()")]),
('complete-ge',[(R,"        self.cursor == production.symbols().len()","        self.cursor >= production.symbols().len()")]),
('next-nt-iflet',[(R,"        match self.next_symbol(grammar) {\n            Some(Symbol::NonTerminal(nt_idx)) => Some(*nt_idx),\n            _ => None,\n        }","        if let Some(Symbol::NonTerminal(nt_idx)) = self.next_symbol(grammar) {\n            return Some(*nt_idx);\n        }\n        None")]),
('next-t-nested',[(R,"        match self.next_symbol(grammar) {\n            Some(Symbol::Terminal(t)) => Some(*t),\n            _ => None,\n        }","        self.next_symbol(grammar).and_then(|symbol| match symbol {\n            Symbol::Terminal(t) => Some(*t),\n            Symbol::NonTerminal(_) => None,\n        })")]),
('advance-lit',[(R,"        let mut item: LR1Item = (*self).clone();\n        item.cursor += 1;\n        item","        LR1Item {\n            cursor: self.cursor + 1,\n            ..self.clone()\n        }")]),
('first-method',[(R,FIRSTBLK,"            let first = item.first_after_next(grammar, first_table);\n\n"),(R,"    fn advance(&self) -> LR1Item {","""    /// First set of what can follow the symbol the item expects
    fn first_after_next<A>(&self, grammar: &Grammar<A>, first_table: &FirstTable) -> FirstSet {
        let mut first: FirstSet = Default::default();
        let symbols = self.get_production(grammar).symbols();
        for symbol in symbols[self.cursor + 1..].iter() {
            match &symbol.symbol {
                Symbol::Terminal(t) => {
                    first.add(*t);
                    return first;
                }
                Symbol::NonTerminal(nt) => {
                    let nt_first = first_table.get_first(*nt);
                    for t in nt_first.terminals() {
                        first.add(*t);
                    }
                    if !nt_first.has_empty() {
                        return first;
                    }
                }
            }
        }
        match self.lookahead {
            Some(lookahead) => first.add(lookahead),
            None => first.set_empty(),
        }
        first
    }

    fn advance(&self) -> LR1Item {""")]),
('first-skip',[(R,"                for symbol in &production.symbols()[item.cursor + 1..] {","                for symbol in production.symbols().iter().skip(item.cursor + 1) {")]),
('first-while',[(R,"                for symbol in &production.symbols()[item.cursor + 1..] {","                let mut pos = item.cursor + 1;\n                while pos < production.symbols().len() {\n                    let symbol = &production.symbols()[pos];\n                    pos += 1;")]),
('first-iflet',[(R,"                if end_allowed {\n                    match &item.lookahead {\n                        Some(lookahead) => first.add(*lookahead),\n                        None => first.set_empty(),\n                    }\n                }","                if end_allowed {\n                    if let Some(lookahead) = item.lookahead {\n                        first.add(lookahead);\n                    } else {\n                        first.set_empty();\n                    }\n                }")]),
('first-extend',[(R,"                            for t in nt_first.terminals() {\n                                first.add(*t);\n                            }\n                            if !nt_first.has_empty() {\n                                end_allowed = false;\n                                break;\n                            }","                            nt_first.terminals().iter().for_each(|t| first.add(*t));\n                            end_allowed = nt_first.has_empty();\n                            if !end_allowed {\n                                break;\n                            }")]),
('preds-chain',[(R,PREDS,"""            let lookaheads: Vec<Option<TerminalIdx>> = first
                .terminals()
                .iter()
                .map(|t| Some(*t))
                .chain(if first.has_empty() { Some(None) } else { None })
                .collect();
            for (production_idx, _) in grammar.non_terminal_production_indices(next) {
                for lookahead in &lookaheads {
                    let item = LR1Item {
                        non_terminal_idx: next,
                        production_idx,
                        cursor: 0,
                        lookahead: *lookahead,
                    };
                    if closure.insert(item.clone()) {
                        work_list.push(item);
                    }
                }
            }
        }
    }
""")]),
('preds-closure',[(R,PREDS,"""            for (production_idx, _) in grammar.non_terminal_production_indices(next) {
                let mut predict = |lookahead: Option<TerminalIdx>| {
                    let item = LR1Item {
                        non_terminal_idx: next,
                        production_idx,
                        cursor: 0,
                        lookahead,
                    };
                    if !closure.contains(&item) {
                        work_list.push(item.clone());
                        closure.insert(item);
                    }
                };
                for t in first.terminals() {
                    predict(Some(*t));
                }
                if first.has_empty() {
                    predict(None);
                }
            }
        }
    }
""")]),
('preds-la-outer',[(R,PREDS,"""            for t in first.terminals() {
                for (production_idx, _) in grammar.non_terminal_production_indices(next) {
                    let item = LR1Item {
                        non_terminal_idx: next,
                        production_idx,
                        cursor: 0,
                        lookahead: Some(*t),
                    };
                    if closure.insert(item.clone()) {
                        work_list.push(item);
                    }
                }
            }
            if first.has_empty() {
                for (production_idx, _) in grammar.non_terminal_production_indices(next) {
                    let item = LR1Item {
                        non_terminal_idx: next,
                        production_idx,
                        cursor: 0,
                        lookahead: None,
                    };
                    if closure.insert(item.clone()) {
                        work_list.push(item);
                    }
                }
            }
        }
    }
""")]),
('closure-guard',[(R,"        if let Some(next) = item.next_non_terminal(grammar) {\n","        let next = match item.next_non_terminal(grammar) {\n            Some(next) => next,\n            None => continue,\n        };\n        {\n")]),
('closure-fn-param',[(R,"    items: Set<LR1Item>,\n) -> BTreeSet<LR1Item> {\n    let mut closure: Set<LR1Item> = items;\n","    mut closure: Set<LR1Item>,\n) -> BTreeSet<LR1Item> {\n")]),
('closure-seed-loop',[(R,"    let mut work_list: Vec<LR1Item> = closure.iter().cloned().collect();","    let mut work_list: Vec<LR1Item> = Vec::with_capacity(closure.len());\n    for item in &closure {\n        work_list.push(item.clone());\n    }")]),
('closure-all-las',[(R,"    closure.into_iter().collect()\n}","    let mut sorted: BTreeSet<LR1Item> = BTreeSet::new();\n    for item in closure {\n        sorted.insert(item);\n    }\n    sorted\n}")]),
# ---- goto
('goto-chain',[(R,GOTO,"    let goto: Set<LR1Item> = state\n        .iter()\n        .filter(|item| item.next_symbol(grammar) == Some(symbol))\n        .map(|item| item.advance())\n        .collect();\n\n")]),
('goto-filter-map',[(R,GOTO,"    let goto: Set<LR1Item> = state\n        .iter()\n        .filter_map(|item| match item.next_symbol(grammar) {\n            Some(next_symbol) if next_symbol == symbol => Some(item.advance()),\n            _ => None,\n        })\n        .collect();\n\n")]),
('goto-method',[(R,"        if let Some(next_symbol) = item.next_symbol(grammar) {\n            if next_symbol == symbol {\n                goto.insert(item.advance());\n            }\n        }","        if item.expects(symbol, grammar) {\n            goto.insert(item.advance());\n        }"),(R,"    fn advance(&self) -> LR1Item {","    fn expects<A>(&self, symbol: &Symbol, grammar: &Grammar<A>) -> bool {\n        match self.next_symbol(grammar) {\n            Some(next_symbol) => next_symbol == symbol,\n            None => false,\n        }\n    }\n\n    fn advance(&self) -> LR1Item {")]),
# ---- automaton
('aut-worklist',[(R,AUT,"""    let mut unexplored: usize = 0;
    while unexplored < automaton.states.len() {
        let state_idx = StateIdx(unexplored);
        unexplored += 1;

        for symbol in grammar
            .non_terminal_indices()
            .map(|(nt, _)| Symbol::NonTerminal(nt))
            .chain(grammar.terminal_indices().map(Symbol::Terminal))
        {
            let goto = compute_lr1_goto(
                &automaton.states[state_idx.as_usize()].items,
                &symbol,
                grammar,
                first_table,
            );
            if goto.is_empty() {
                continue;
            }
            let next = match state_indices.get(&goto) {
                Some(idx) => *idx,
                None => {
                    let idx = StateIdx(automaton.states.len());
                    state_indices.insert(goto.clone(), idx);
                    automaton.states.push(LR1State {
                        items: goto,
                        goto: Default::default(),
                    });
                    idx
                }
            };
            automaton.states[state_idx.as_usize()]
                .goto
                .insert(symbol, next);
        }
    }

""")]),
('aut-entry',[(R,"""                match state_indices.get(&goto) {
                    Some(goto_state_idx) => {
                        new_gotos.push((state_idx, symbol, *goto_state_idx));
                    }
                    None => {
                        let new_state = LR1State {
                            items: goto.clone(),
                            goto: Default::default(),
                        };
                        new_states.push(new_state);
                        state_indices.insert(goto, next_state_idx);
                        new_gotos.push((state_idx, symbol, next_state_idx));
                        next_state_idx = StateIdx(next_state_idx.0 + 1);
                    }
                }""","""                let goto_state_idx = match state_indices.get(&goto).copied() {
                    Some(idx) => idx,
                    None => {
                        let idx = next_state_idx;
                        next_state_idx = StateIdx(next_state_idx.0 + 1);
                        state_indices.insert(goto.clone(), idx);
                        new_states.push(LR1State {
                            items: goto,
                            goto: Default::default(),
                        });
                        idx
                    }
                };
                new_gotos.push((state_idx, symbol, goto_state_idx));""")]),
('aut-len-idx',[(R,"""                        new_states.push(new_state);
                        state_indices.insert(goto, next_state_idx);
                        new_gotos.push((state_idx, symbol, next_state_idx));
                        next_state_idx = StateIdx(next_state_idx.0 + 1);""","""                        let next_state_idx = StateIdx(automaton.states.len() + new_states.len());
                        new_states.push(new_state);
                        state_indices.insert(goto, next_state_idx);
                        new_gotos.push((state_idx, symbol, next_state_idx));"""),(R,"        let mut next_state_idx: StateIdx = StateIdx(automaton.states.len());\n\n","")]),
('aut-symbols-fn',[(R,"""            for symbol in grammar
                .non_terminal_indices()
                .map(|(nt, _)| Symbol::NonTerminal(nt))
                .chain(grammar.terminal_indices().map(Symbol::Terminal))
            {""","""            for symbol in all_symbols(grammar) {"""),(R,"#[derive(Debug)]\nstruct LR1State {","""fn all_symbols<A>(grammar: &Grammar<A>) -> Vec<Symbol> {
    let mut symbols: Vec<Symbol> = Vec::new();
    for terminal in grammar.terminal_indices() {
        symbols.push(Symbol::Terminal(terminal));
    }
    for (non_terminal, _) in grammar.non_terminal_indices() {
        symbols.push(Symbol::NonTerminal(non_terminal));
    }
    symbols
}

#[derive(Debug)]
struct LR1State {""")]),
('aut-entry-fn',[(R,"            let i0_items: Set<LR1Item> = hashset! {\n                LR1Item {\n                    non_terminal_idx,\n                    production_idx: ProductionIdx(0),\n                    cursor: 0,\n                    lookahead: None,\n                }\n            };\n\n            let i0_items = compute_lr1_closure(grammar, first_table, i0_items);","            let i0_items = initial_items(grammar, first_table, non_terminal_idx);"),(R,"#[derive(Debug)]\nstruct LR1State {","""fn initial_items<A>(
    grammar: &Grammar<A>,
    first_table: &FirstTable,
    non_terminal_idx: NonTerminalIdx,
) -> BTreeSet<LR1Item> {
    let mut items: Set<LR1Item> = Default::default();
    items.insert(LR1Item {
        non_terminal_idx,
        production_idx: ProductionIdx(0),
        cursor: 0,
        lookahead: None,
    });
    compute_lr1_closure(grammar, first_table, items)
}

#[derive(Debug)]
struct LR1State {""")]),
('aut-break',[(R,"    let mut updated = true;\n    while updated {\n        updated = false;\n\n        let mut next_state_idx","    loop {\n        let mut updated = false;\n\n        let mut next_state_idx"),(R,"            // assert_eq!(old, None, \"trying to insert {}\", next.0);\n        }\n    }","            // assert_eq!(old, None, \"trying to insert {}\", next.0);\n        }\n\n        if !updated {\n            break;\n        }\n    }")]),
('aut-upd-var',[(R,"        if !new_states.is_empty() {\n            updated = true;\n        }\n","        updated |= !new_states.is_empty();\n")]),
('aut-states-append',[(R,"        automaton.states.extend(new_states.into_iter());","        for new_state in new_states {\n            automaton.states.push(new_state);\n        }")]),
('aut-iter-enum',[(R,"        LR1AutomatonStateIndicesIter {\n            automaton: self,\n            idx: StateIdx(0),\n        }","        self.states\n            .iter()\n            .enumerate()\n            .map(|(idx, state)| (StateIdx(idx), state))"),(R,cut(r,"struct LR1AutomatonStateIndicesIter","impl LR1Automaton {"),"")]),
# ---- table
('build-gotos-first',[(R,"            // Add gotos\n            for (symbol, next) in state.gotos() {\n                if let Symbol::NonTerminal(nt) = symbol {\n                    table.add_goto(state_idx, *nt, *next);\n                }\n            }\n        }",'        }'),(R,"        for item in state.items() {\n            // Rule 2.a","        for (symbol, next) in state.gotos() {\n            match symbol {\n                Symbol::NonTerminal(nt) => table.add_goto(state_idx, *nt, *next),\n                Symbol::Terminal(_) => {}\n            }\n        }\n\n        for item in state.items() {\n            // Rule 2.a")]),
('build-match',[(R,"            if let Some(next_terminal) = item.next_terminal(grammar) {\n                if let Some(next_state) = state.goto.get(&Symbol::Terminal(next_terminal)) {\n                    table.add_shift(grammar, state_idx, next_terminal, *next_state);\n                }\n            }","            let shift = item.next_terminal(grammar).and_then(|t| {\n                state\n                    .goto\n                    .get(&Symbol::Terminal(t))\n                    .map(|next_state| (t, *next_state))\n            });\n            if let Some((t, next_state)) = shift {\n                table.add_shift(grammar, state_idx, t, next_state);\n            }")]),
('build-if-else',[(R,"            // Rule 2.b\n            if item.is_complete(grammar) && !non_terminal.public {","            // Rule 2.b\n            let complete = item.is_complete(grammar);\n            let entry = non_terminal.public;\n            if complete && !entry {"),(R,"            if non_terminal.public && item.cursor == 1 && item.lookahead.is_none() {","            if entry && complete && item.lookahead.is_none() {")]),
('build-item-fn',[(R,"            if item.is_complete(grammar) && !non_terminal.public {\n                let production = grammar.get_production(item.non_terminal_idx, item.production_idx);\n                table.add_reduce(\n                    grammar,\n                    state_idx,\n                    item.lookahead,\n                    item.non_terminal_idx,\n                    item.production_idx,\n                    production.action.clone(),\n                );\n            }","            if item.is_complete(grammar) && !non_terminal.public {\n                add_reduction(&mut table, grammar, state_idx, item);\n            }"),(R,"#[cfg(test)]\nuse crate::lr_common::LRTableDisplay;","fn add_reduction<A: Clone + fmt::Debug + Eq>(\n    table: &mut LRTableBuilder<A>,\n    grammar: &Grammar<A>,\n    state_idx: StateIdx,\n    item: &LR1Item,\n) {\n    let LR1Item {\n        non_terminal_idx,\n        production_idx,\n        lookahead,\n        ..\n    } = item;\n    let action = item.get_production(grammar).action.clone();\n    table.add_reduce(\n        grammar,\n        state_idx,\n        *lookahead,\n        *non_terminal_idx,\n        *production_idx,\n        action,\n    );\n}\n\n#[cfg(test)]\nuse crate::lr_common::LRTableDisplay;")]),
('build-enum',[(R,"    for (state_idx, state) in automaton.state_indices() {\n        for item in state.items() {\n            // Rule 2.a","    for (state_no, state) in automaton.states.iter().enumerate() {\n        let state_idx = StateIdx(state_no);\n        for item in state.items.iter() {\n            // Rule 2.a")]),
# ---- conflicts
('tab-conflict-fn',[(C,REDM,"""        if let Some(old_action) = old_action {
            conflict(
                state,
                token.map(|t| grammar.get_terminal(t)),
                &old_action,
                &format!("Reduce({}, {})", non_terminal_idx.0, production_idx.0),
            );
        }
    }

"""),(C,"impl<A: fmt::Debug + Eq> LRTableBuilder<A> {","""fn conflict<A: fmt::Debug>(
    state: StateIdx,
    token: Option<&str>,
    old: &LRAction<A>,
    new: &str,
) -> ! {
    panic!("({}, {:?}): Overriding {:?} with {}", state.0, token, old, new)
}

impl<A: fmt::Debug + Eq> LRTableBuilder<A> {""")]),
('tab-shift-iflet',[(C,SHIFTM,"""        match old_action {
            Some(LRAction::Shift(s)) if s != next_state => {
                panic!(
                    "({}, {:?}): Overriding Shift({}) with Shift({})",
                    state.0,
                    grammar.get_terminal(token),
                    s.0,
                    next_state.0,
                );
            }
            Some(LRAction::Accept) => {
                panic!(
                    "({}, {:?}): Overriding Accept action with Shift({})",
                    state.0,
                    grammar.get_terminal(token),
                    next_state.0,
                );
            }
            Some(LRAction::Shift(_)) | Some(LRAction::Reduce(..)) | None => {}
        }
    }

""")]),
('tab-record',[(C,"        let old_action = self\n            .table\n            .action\n            .entry(state)\n            .or_default()\n            .insert(None, LRAction::Accept);","        let old_action = self.record(state, None, LRAction::Accept);"),(C,"        let action = self.table.action.entry(state).or_default();\n\n        let old_action = action.insert(Some(token), LRAction::Shift(next_state));","        let old_action = self.record(state, Some(token), LRAction::Shift(next_state));"),(C,"        let action = self.table.action.entry(state).or_default();\n\n        let old_action = action.insert(\n            token,\n            LRAction::Reduce(non_terminal_idx, production_idx, semantic_action),\n        );","        let old_action = self.record(\n            state,\n            token,\n            LRAction::Reduce(non_terminal_idx, production_idx, semantic_action),\n        );"),(C,"    pub fn add_shift(","    /// Records an action, returns the action it replaces\n    fn record(\n        &mut self,\n        state: StateIdx,\n        token: Option<TerminalIdx>,\n        action: LRAction<A>,\n    ) -> Option<LRAction<A>> {\n        let actions = self\n            .table\n            .action\n            .entry(state)\n            .or_insert_with(Default::default);\n        actions.insert(token, action)\n    }\n\n    pub fn add_shift(")]),
('tab-accept-matches',[(C,"            if old_action != LRAction::Accept {\n","            if !matches!(old_action, LRAction::Accept) {\n")]),
('tab-get-q',[(C,"        self.action\n            .get(&state)\n            .and_then(|action| action.get(&non_terminal))\n    }\n\n    #[cfg(test)]","        let actions = self.action.get(&state)?;\n        actions.get(&non_terminal)\n    }\n\n    #[cfg(test)]")]),
]
M=[dict(name='r-m-'+x[0],props=[],edits=x[1],count=1) for x in REF]
