# refactorings of the construction of the automaton, the first sets and the closure
F='first.rs'
R='lr1.rs'
C='lr_common.rs'
LOOKUP="""                match state_indices.get(&goto) {
                    Some(goto_state_idx) => {
                        new_gotos.push((state_idx, symbol, *goto_state_idx));
                    }
                    None => {
                        let new_state = LR1State {
                            items: goto.clone(),
                            goto: Default::default(),
                        };
                        new_states.push(new_state);
                        state_indices.insert(goto, next_state_idx);
                        new_gotos.push((state_idx, symbol, next_state_idx));
                        next_state_idx = StateIdx(next_state_idx.0 + 1);
                    }
                }
"""
import re
src=open('/repo/src/lr1.rs').read()
fsrc=open('/repo/src/first.rs').read()
W0=src.index("    let mut updated = true;\n    while updated {\n        updated = false;\n\n        let mut next_state_idx")
W1=src.index("    (automaton, non_terminal_state_indices)\n")
WHOLE=src[W0:W1]
FIRSTB0=src.index("                let mut first: FirstSet = Default::default();")
FIRSTB=src[FIRSTB0:src.index("                first\n            };")]
GOTO=src[src.index("    let mut goto: Set<LR1Item> = Default::default();"):src.index("    compute_lr1_closure(grammar, first, goto)")]
ADD=src[src.index("                for t in first.terminals() {\n                    let item = LR1Item {"):src.index("    closure.into_iter().collect()")]
PRODS=fsrc[fsrc.index("            'production_loop: for production"):fsrc.index("    table\n}")]
FS0=fsrc.index("    let mut updated = true;"); FSW=fsrc[FS0:fsrc.index("    table\n}")]
M=[
('r-alg-linear',[(R,LOOKUP,"""                let known = automaton
                    .states
                    .iter()
                    .chain(new_states.iter())
                    .position(|state| state.items == goto);
                match known {
                    Some(idx) => new_gotos.push((state_idx, symbol, StateIdx(idx))),
                    None => {
                        new_states.push(LR1State {
                            items: goto,
                            goto: Default::default(),
                        });
                        new_gotos.push((state_idx, symbol, next_state_idx));
                        next_state_idx = StateIdx(next_state_idx.0 + 1);
                    }
                }
""")]),
('r-alg-next-len',[(R,LOOKUP,LOOKUP.replace("state_indices.insert(goto, next_state_idx);","state_indices.insert(goto, next_state_idx);").replace("                        next_state_idx = StateIdx(next_state_idx.0 + 1);\n","").replace("                        new_states.push(new_state);\n","                        let next_state_idx = StateIdx(automaton.states.len() + new_states.len());\n                        new_states.push(new_state);\n")),(R,"        let mut next_state_idx: StateIdx = StateIdx(automaton.states.len());\n\n","")]),
('r-alg-idx-var',[(R,LOOKUP,"""                let next = match state_indices.get(&goto) {
                    Some(known) => *known,
                    None => {
                        let fresh = next_state_idx;
                        next_state_idx = StateIdx(fresh.0 + 1);
                        state_indices.insert(goto.clone(), fresh);
                        new_states.push(LR1State {
                            items: goto,
                            goto: Default::default(),
                        });
                        fresh
                    }
                };
                new_gotos.push((state_idx, symbol, next));
""")]),
('r-alg-helper',[(R,LOOKUP,"""                let next = intern_state(&mut state_indices, &mut new_states, &mut next_state_idx, goto);
                new_gotos.push((state_idx, symbol, next));
"""),(R,"pub fn generate_lr1_automaton<A>(","""fn intern_state(
    state_indices: &mut Map<BTreeSet<LR1Item>, StateIdx>,
    new_states: &mut Vec<LR1State>,
    next_state_idx: &mut StateIdx,
    items: BTreeSet<LR1Item>,
) -> StateIdx {
    if let Some(idx) = state_indices.get(&items) {
        return *idx;
    }
    let idx = *next_state_idx;
    next_state_idx.0 += 1;
    state_indices.insert(items.clone(), idx);
    new_states.push(LR1State {
        items,
        goto: Default::default(),
    });
    idx
}

pub fn generate_lr1_automaton<A>(""")]),
('r-alg-queue',[(R,WHOLE,"""    let mut work: Vec<StateIdx> = (0..automaton.states.len()).map(StateIdx).collect();
    while let Some(state_idx) = work.pop() {
        for symbol in grammar
            .non_terminal_indices()
            .map(|(nt, _)| Symbol::NonTerminal(nt))
            .chain(grammar.terminal_indices().map(Symbol::Terminal))
        {
            let goto = compute_lr1_goto(
                &automaton.states[state_idx.as_usize()].items,
                &symbol,
                grammar,
                first_table,
            );
            if goto.is_empty() {
                continue;
            }
            let next = match state_indices.get(&goto) {
                Some(idx) => *idx,
                None => {
                    let idx = StateIdx(automaton.states.len());
                    automaton.states.push(LR1State {
                        items: goto.clone(),
                        goto: Default::default(),
                    });
                    state_indices.insert(goto, idx);
                    work.push(idx);
                    idx
                }
            };
            automaton.states[state_idx.as_usize()].goto.insert(symbol, next);
        }
    }

""")]),
('r-alg-scan',[(R,WHOLE,"""    let mut current = 0;
    while current < automaton.states.len() {
        for symbol in grammar
            .non_terminal_indices()
            .map(|(nt, _)| Symbol::NonTerminal(nt))
            .chain(grammar.terminal_indices().map(Symbol::Terminal))
        {
            let goto =
                compute_lr1_goto(&automaton.states[current].items, &symbol, grammar, first_table);
            if goto.is_empty() {
                continue;
            }
            let next = match state_indices.get(&goto) {
                Some(idx) => *idx,
                None => {
                    let idx = StateIdx(automaton.states.len());
                    automaton.states.push(LR1State {
                        items: goto.clone(),
                        goto: Default::default(),
                    });
                    state_indices.insert(goto, idx);
                    idx
                }
            };
            automaton.states[current].goto.insert(symbol, next);
        }
        current += 1;
    }

""")]),
('r-alg-two-loops',[(R,"""            for symbol in grammar
                .non_terminal_indices()
                .map(|(nt, _)| Symbol::NonTerminal(nt))
                .chain(grammar.terminal_indices().map(Symbol::Terminal))
            {""","""            let mut symbols: Vec<Symbol> = vec![];
            for (nt, _) in grammar.non_terminal_indices() {
                symbols.push(Symbol::NonTerminal(nt));
            }
            for t in grammar.terminal_indices() {
                symbols.push(Symbol::Terminal(t));
            }
            for symbol in symbols {""")]),
('r-alg-symbols-out',[(R,"    let mut updated = true;\n    while updated {\n        updated = false;\n\n        let mut next","    let symbols: Vec<Symbol> = grammar\n        .non_terminal_indices()\n        .map(|(nt, _)| Symbol::NonTerminal(nt))\n        .chain(grammar.terminal_indices().map(Symbol::Terminal))\n        .collect();\n    let mut updated = true;\n    while updated {\n        updated = false;\n\n        let mut next"),(R,"""            for symbol in grammar
                .non_terminal_indices()
                .map(|(nt, _)| Symbol::NonTerminal(nt))
                .chain(grammar.terminal_indices().map(Symbol::Terminal))
            {""","            for symbol in symbols.iter().cloned() {")]),
('r-alg-goto-filter',[(R,GOTO,"""    let goto: Set<LR1Item> = state
        .iter()
        .filter(|item| item.next_symbol(grammar) == Some(symbol))
        .map(|item| item.advance())
        .collect();

""")]),
('r-alg-goto-match',[(R,GOTO,"""    let mut goto: Set<LR1Item> = Default::default();
    for item in state {
        match item.next_symbol(grammar) {
            Some(next_symbol) if next_symbol == symbol => {
                goto.insert(item.advance());
            }
            _ => {}
        }
    }

""")]),
('r-alg-goto-continue',[(R,GOTO,"""    let mut goto: Set<LR1Item> = Default::default();
    for item in state.iter() {
        if item.next_symbol(grammar) != Some(symbol) {
            continue;
        }
        let mut next = item.clone();
        next.cursor += 1;
        goto.insert(next);
    }

""")]),
('r-alg-goto-empty-early',[(R,"    compute_lr1_closure(grammar, first, goto)","    if goto.is_empty() {\n        return Default::default();\n    }\n    compute_lr1_closure(grammar, first, goto)")]),
('r-alg-advance',[(R,"        let mut item: LR1Item = (*self).clone();\n        item.cursor += 1;\n        item","        LR1Item {\n            cursor: self.cursor + 1,\n            ..self.clone()\n        }")]),
('r-alg-complete',[(R,"        let production = self.get_production(grammar);\n        self.cursor == production.symbols().len()","        self.next_symbol(grammar).is_none()")]),
('r-alg-la-vec',[(R,FIRSTB,"""                let mut first: Vec<Option<TerminalIdx>> = vec![];
                let mut end_allowed = true;
                for symbol in &production.symbols()[item.cursor + 1..] {
                    match &symbol.symbol {
                        Symbol::Terminal(t) => {
                            end_allowed = false;
                            first.push(Some(*t));
                            break;
                        }
                        Symbol::NonTerminal(nt) => {
                            let nt_first = first_table.get_first(*nt);
                            for t in nt_first.terminals() {
                                first.push(Some(*t));
                            }
                            if !nt_first.has_empty() {
                                end_allowed = false;
                                break;
                            }
                        }
                    }
                }
                if end_allowed {
                    first.push(item.lookahead);
                }
"""),(R,ADD,"""                for lookahead in &first {
                    let item = LR1Item {
                        non_terminal_idx: next,
                        production_idx,
                        cursor: 0,
                        lookahead: *lookahead,
                    };
                    if closure.insert(item.clone()) {
                        work_list.push(item);
                    }
                }
            }
        }
    }

"""),(R,"use crate::first::{FirstSet, FirstTable};","use crate::first::FirstTable;")]),
('r-alg-la-set',[(R,FIRSTB,"""                let mut first: Set<Option<TerminalIdx>> = Default::default();
                let mut end_allowed = true;
                for symbol in production.symbols().iter().skip(item.cursor + 1) {
                    match &symbol.symbol {
                        Symbol::Terminal(t) => {
                            end_allowed = false;
                            first.insert(Some(*t));
                            break;
                        }
                        Symbol::NonTerminal(nt) => {
                            let nt_first = first_table.get_first(*nt);
                            first.extend(nt_first.terminals().iter().map(|t| Some(*t)));
                            if !nt_first.has_empty() {
                                end_allowed = false;
                                break;
                            }
                        }
                    }
                }
                if end_allowed {
                    first.insert(item.lookahead);
                }
"""),(R,ADD,"""                for lookahead in first.iter().copied() {
                    let item = LR1Item {
                        non_terminal_idx: next,
                        production_idx,
                        cursor: 0,
                        lookahead,
                    };
                    if closure.insert(item.clone()) {
                        work_list.push(item);
                    }
                }
            }
        }
    }

"""),(R,"use crate::first::{FirstSet, FirstTable};","use crate::first::FirstTable;")]),
('r-alg-la-chain',[(R,ADD,"""                let lookaheads = first
                    .terminals()
                    .iter()
                    .map(|t| Some(*t))
                    .chain(if first.has_empty() { Some(None) } else { None });
                for lookahead in lookaheads {
                    let item = LR1Item {
                        non_terminal_idx: next,
                        production_idx,
                        cursor: 0,
                        lookahead,
                    };
                    if closure.insert(item.clone()) {
                        work_list.push(item);
                    }
                }
            }
        }
    }

""")]),
('r-alg-add-closure',[(R,ADD,"""                let mut add = |lookahead: Option<TerminalIdx>| {
                    let item = LR1Item {
                        non_terminal_idx: next,
                        production_idx,
                        cursor: 0,
                        lookahead,
                    };
                    if closure.insert(item.clone()) {
                        work_list.push(item);
                    }
                };
                for t in first.terminals() {
                    add(Some(*t));
                }
                if first.has_empty() {
                    add(None);
                }
            }
        }
    }

""")]),
('r-alg-add-fn',[(R,ADD,"""                for t in first.terminals() {
                    add_item(&mut closure, &mut work_list, next, production_idx, Some(*t));
                }
                if first.has_empty() {
                    add_item(&mut closure, &mut work_list, next, production_idx, None);
                }
            }
        }
    }

"""),(R,"fn compute_lr1_closure<A>(","""fn add_item(
    closure: &mut Set<LR1Item>,
    work_list: &mut Vec<LR1Item>,
    non_terminal_idx: NonTerminalIdx,
    production_idx: ProductionIdx,
    lookahead: Option<TerminalIdx>,
) {
    let item = LR1Item {
        non_terminal_idx,
        production_idx,
        cursor: 0,
        lookahead,
    };
    if !closure.contains(&item) {
        work_list.push(item.clone());
        closure.insert(item);
    }
}

fn compute_lr1_closure<A>(""")]),
('r-alg-continue-nt',[(R,"        if let Some(next) = item.next_non_terminal(grammar) {\n            // Need","        let next = match item.next_non_terminal(grammar) {\n            Some(next) => next,\n            None => continue,\n        };\n        {\n            // Need")]),
('r-alg-rounds',[(R,"    let mut work_list: Vec<LR1Item> = closure.iter().cloned().collect();\n    while let Some(item) = work_list.pop() {\n","    let mut work_list: Vec<LR1Item> = closure.iter().cloned().collect();\n    loop {\n        let item = match work_list.pop() {\n            Some(item) => item,\n            None => break,\n        };\n")]),
('r-alg-btree-closure',[(R,"    let mut closure: Set<LR1Item> = items;\n","    let mut closure: BTreeSet<LR1Item> = items.into_iter().collect();\n"),(R,"    closure.into_iter().collect()","    closure")]),
('r-alg-first-flag',[(F,PRODS,"""            for production in &non_terminal.productions {
                let mut all_empty = true;
                for symbol in &production.symbols {
                    match &symbol.symbol {
                        Symbol::NonTerminal(nt) => {
                            let first = table.get_first(*nt).clone();
                            for terminal in &first.terminals {
                                updated |= table.add_first(non_terminal_idx, *terminal);
                            }
                            if !first.empty {
                                all_empty = false;
                                break;
                            }
                        }
                        Symbol::Terminal(terminal) => {
                            updated |= table.add_first(non_terminal_idx, *terminal);
                            all_empty = false;
                            break;
                        }
                    }
                }
                if all_empty {
                    updated |= table.set_empty(non_terminal_idx);
                }
            }
        }
    }

""")]),
('r-alg-first-helper',[(F,PRODS,"""            for production in &non_terminal.productions {
                let first = table.first_of(&production.symbols);
                for terminal in &first.terminals {
                    updated |= table.add_first(non_terminal_idx, *terminal);
                }
                if first.empty {
                    updated |= table.set_empty(non_terminal_idx);
                }
            }
        }
    }

"""),(F,"    pub fn get_first(&self,","""    fn first_of(&self, symbols: &[crate::grammar::BoundSymbol]) -> FirstSet {
        let mut first = FirstSet::default();
        for symbol in symbols {
            match &symbol.symbol {
                Symbol::Terminal(terminal) => {
                    first.add(*terminal);
                    return first;
                }
                Symbol::NonTerminal(nt) => {
                    let nt_first = self.get_first(*nt);
                    for terminal in nt_first.terminals() {
                        first.add(*terminal);
                    }
                    if !nt_first.has_empty() {
                        return first;
                    }
                }
            }
        }
        first.set_empty();
        first
    }

    pub fn get_first(&self,""")]),
('r-alg-first-shared',[(F,"    pub fn get_first(&self,","""    pub fn first_of(&self, symbols: &[crate::grammar::BoundSymbol]) -> FirstSet {
        let mut first = FirstSet::default();
        for symbol in symbols {
            match &symbol.symbol {
                Symbol::Terminal(terminal) => {
                    first.add(*terminal);
                    return first;
                }
                Symbol::NonTerminal(nt) => {
                    let nt_first = self.get_first(*nt);
                    first.terminals.extend(nt_first.terminals.iter().copied());
                    if !nt_first.has_empty() {
                        return first;
                    }
                }
            }
        }
        first.set_empty();
        first
    }

    pub fn get_first(&self,"""),(R,FIRSTB,"""                let rest = first_table.first_of(&production.symbols()[item.cursor + 1..]);
                let mut first: FirstSet = Default::default();
                for t in rest.terminals() {
                    first.add(*t);
                }
                if rest.has_empty() {
                    match &item.lookahead {
                        Some(lookahead) => first.add(*lookahead),
                        None => first.set_empty(),
                    }
                }
""")]),
('r-alg-first-before',[(F,"""    let mut updated = true;
    while updated {
        updated = false;
        for (non_terminal_idx, non_terminal) in grammar.non_terminal_indices() {
""","""    loop {
        let mut updated = false;
        for (non_terminal_idx, non_terminal) in grammar.non_terminal_indices() {
"""),(F,"                updated |= table.set_empty(non_terminal_idx);\n            }\n        }\n    }\n\n    table","                updated |= table.set_empty(non_terminal_idx);\n            }\n        }\n        if !updated {\n            return table;\n        }\n    }"),(F,"        }\n    }\n}\n\nuse std::fmt;","        }\n    }\n}\n\nuse std::fmt;")]),
('r-alg-first-skipself',[(F,"                            let FirstSet { empty, terminals } = table.get_first(*nt);\n                            let empty = *empty;\n                            // TODO: clone below to avoid borrowck issues\n                            for terminal in terminals.clone() {\n                                updated |= table.add_first(non_terminal_idx, terminal);\n                            }\n","                            let empty = table.get_first(*nt).empty;\n                            if *nt != non_terminal_idx {\n                                let terminals = table.get_first(*nt).terminals.clone();\n                                for terminal in terminals {\n                                    updated |= table.add_first(non_terminal_idx, terminal);\n                                }\n                            }\n")]),
('r-alg-first-noempty',[(F,"                if production.symbols.is_empty() {\n                    updated |= table.set_empty(non_terminal_idx);\n                }\n","")]),
('r-alg-first-setempty',[(F,"        let empty = &mut self.0[non_terminal_idx.as_usize()].empty;\n        let old_value = *empty;\n        *empty = true;\n        !old_value","        let set = &mut self.0[non_terminal_idx.as_usize()];\n        if set.empty {\n            return false;\n        }\n        set.empty = true;\n        true")]),
('r-alg-first-replace',[(F,"        let empty = &mut self.0[non_terminal_idx.as_usize()].empty;\n        let old_value = *empty;\n        *empty = true;\n        !old_value","        !std::mem::replace(&mut self.0[non_terminal_idx.as_usize()].empty, true)")]),
('r-alg-first-vec',[(F,"        let mut sets = Vec::with_capacity(n_non_terminals);\n        for _ in 0..n_non_terminals {\n            sets.push(FirstSet::default());\n        }\n        FirstTable(sets)","        FirstTable(vec![FirstSet::default(); n_non_terminals])")]),
('r-alg-first-extend',[(F,"                            // TODO: clone below to avoid borrowck issues\n                            for terminal in terminals.clone() {\n                                updated |= table.add_first(non_terminal_idx, terminal);\n                            }\n","                            let terminals = terminals.clone();\n                            let before = table.0[non_terminal_idx.as_usize()].terminals.len();\n                            table.0[non_terminal_idx.as_usize()].terminals.extend(terminals);\n                            updated |= table.0[non_terminal_idx.as_usize()].terminals.len() != before;\n")]),
('r-alg-item-new',[(R,"""                    let item = LR1Item {
                        non_terminal_idx: next,
                        production_idx,
                        cursor: 0,
                        lookahead: Some(*t),
                    };""","                    let item = LR1Item::start(next, production_idx, Some(*t));"),(R,"""                    let item = LR1Item {
                        non_terminal_idx: next,
                        production_idx,
                        cursor: 0,
                        lookahead: None,
                    };""","                    let item = LR1Item::start(next, production_idx, None);"),(R,"    fn advance(&self)","""    fn start(
        non_terminal_idx: NonTerminalIdx,
        production_idx: ProductionIdx,
        lookahead: Option<TerminalIdx>,
    ) -> LR1Item {
        LR1Item {
            non_terminal_idx,
            production_idx,
            cursor: 0,
            lookahead,
        }
    }

    fn advance(&self)""")]),
('r-alg-init-filter',[(R,"    for (non_terminal_idx, non_terminal) in grammar.non_terminal_indices() {\n        if non_terminal.public {\n            assert_eq!(non_terminal.productions().len(), 1);\n","    for (non_terminal_idx, non_terminal) in grammar\n        .non_terminal_indices()\n        .filter(|(_, non_terminal)| non_terminal.public)\n    {\n        {\n            assert_eq!(non_terminal.productions().len(), 1);\n")]),
('r-alg-table-iter',[(R,"    for (state_idx, state) in automaton.state_indices() {\n        for item in state.items() {","    for (idx, state) in automaton.states.iter().enumerate() {\n        let state_idx = StateIdx(idx);\n        for item in state.items() {")]),
('r-alg-table-gotos-out',[(R,"""
            // Add gotos
            for (symbol, next) in state.gotos() {
                if let Symbol::NonTerminal(nt) = symbol {
                    table.add_goto(state_idx, *nt, *next);
                }
            }
        }
""","""        }

        // Add gotos
        for (symbol, next) in state.gotos() {
            if let Symbol::NonTerminal(nt) = symbol {
                table.add_goto(state_idx, *nt, *next);
            }
        }
""")]),
('r-alg-table-match',[(R,"""            if let Some(next_terminal) = item.next_terminal(grammar) {
                if let Some(next_state) = state.goto.get(&Symbol::Terminal(next_terminal)) {
                    table.add_shift(grammar, state_idx, next_terminal, *next_state);
                }
            }
""","""            if let Some(symbol @ Symbol::Terminal(next_terminal)) = item.next_symbol(grammar) {
                if let Some(next_state) = state.goto.get(symbol) {
                    table.add_shift(grammar, state_idx, *next_terminal, *next_state);
                }
            }
""")]),
('r-alg-table-order',[(R,"            if item.is_complete(grammar) && !non_terminal.public {","            if !non_terminal.public && item.is_complete(grammar) {")]),
('r-alg-shift-gotos',[(R,"""            if let Some(next_terminal) = item.next_terminal(grammar) {
                if let Some(next_state) = state.goto.get(&Symbol::Terminal(next_terminal)) {
                    table.add_shift(grammar, state_idx, next_terminal, *next_state);
                }
            }
""",""),(R,"            for (symbol, next) in state.gotos() {\n                if let Symbol::NonTerminal(nt) = symbol {\n                    table.add_goto(state_idx, *nt, *next);\n                }\n            }\n","            for (symbol, next) in state.gotos() {\n                match symbol {\n                    Symbol::NonTerminal(nt) => table.add_goto(state_idx, *nt, *next),\n                    Symbol::Terminal(_) => {}\n                }\n            }\n"),(R,"        for item in state.items() {\n            // Rule 2.a","        for (symbol, next) in state.gotos() {\n            if let Symbol::Terminal(t) = symbol {\n                table.add_shift(grammar, state_idx, *t, *next);\n            }\n        }\n\n        for item in state.items() {\n            // Rule 2.a")]),
]
M=[m for m in M if m and isinstance(m[1],list) and m[1]]
M=[dict(name=m[0],props=[] if m[0].startswith('r-') else ['C14'],edits=m[1],count=m[2] if len(m)>2 else 1) for m in M]
