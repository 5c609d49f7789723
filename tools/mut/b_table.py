L='lr1.rs'
C='lr_common.rs'
M=[
dict(name='c04-pub-reduced',props=['C04'],edits=[(L,'item.is_complete(grammar) && !non_terminal.public','item.is_complete(grammar)')]),
dict(name='r-c04-reduce-pub-unless-none',props=[],edits=[(L,'item.is_complete(grammar) && !non_terminal.public','item.is_complete(grammar) && (!non_terminal.public || item.lookahead.is_some())')]),
dict(name='c04-accept-any-la',props=['C04'],edits=[(L,'non_terminal.public && item.cursor == 1 && item.lookahead.is_none()','non_terminal.public && item.cursor == 1')]),
dict(name='c04-accept-not-pub',props=['C04'],edits=[(L,'non_terminal.public && item.cursor == 1 && item.lookahead.is_none()','item.cursor == 1 && item.is_complete(grammar) && item.lookahead.is_none() && item.production_idx == ProductionIdx(0)')]),
dict(name='c04-accept-cursor0',props=['C04'],edits=[(L,'non_terminal.public && item.cursor == 1 && item.lookahead.is_none()','non_terminal.public && item.cursor <= 1 && item.lookahead.is_none()')]),
dict(name='c04-reduce-eof-too',props=['C04'],edits=[(L,'''                    production.action.clone(),
                );''','''                    production.action.clone(),
                );
                if production.symbols().is_empty() {
                    table.add_reduce(grammar, state_idx, None, item.non_terminal_idx, item.production_idx, production.action.clone());
                }''')]),
dict(name='c04-skip-empty-prod',props=['C04'],edits=[(L,'item.is_complete(grammar) && !non_terminal.public','item.cursor > 0 && item.is_complete(grammar) && !non_terminal.public')]),
dict(name='c04-wrong-prod-action',props=['C04'],edits=[(L,'''                    production.action.clone(),''','''                    grammar.get_production(item.non_terminal_idx, ProductionIdx(0)).action.clone(),''')]),
dict(name='c04-else-if',props=['C04'],edits=[(L,'''            // Rule 2.c
            if non''','''            // Rule 2.c
            if state.gotos().next().is_none() && non''')]),
dict(name='c04-shift-only-first',props=['C04'],edits=[(L,'''        for item in state.items() {
            // Rule''','''        for item in state.items().skip(1) {
            // Rule''')]),
dict(name='c04-break-after-accept',props=['C04'],edits=[(L,'''                table.add_accept(state_idx);
''','''                table.add_accept(state_idx);
                break;
''')]),
dict(name='c04-goto-filter',props=['C04'],edits=[(L,'''                    table.add_goto(state_idx, *nt, *next);''','''                    if *next != state_idx { table.add_goto(state_idx, *nt, *next); }''')]),
dict(name='c04-goto-swap',props=['C04'],edits=[(L,'''                    table.add_goto(state_idx, *nt, *next);''','''                    table.add_goto(*next, *nt, state_idx);''')]),
dict(name='c04-shift-kept-reduce',props=['C04','C05'],edits=[(L,'''                    table.add_shift(grammar,''','''                    if table.has_reduce(state_idx, next_terminal) { continue; }
                    table.add_shift(grammar,'''),(C,'''    pub fn build(self)''','''    pub fn has_reduce(&self, state: StateIdx, t: TerminalIdx) -> bool {
        matches!(self.table.get_action(state, Some(t)), Some(LRAction::Reduce(..)))
    }

    pub fn build(self)''')]),
dict(name='c04-states-skip-last',props=['C04'],edits=[(L,'''    for (state_idx, state) in automaton.state_indices() {
        for item in state.items() {''','''    for (state_idx, state) in automaton.state_indices().take(automaton.states.len() - 1) {
        for item in state.items() {''')]),
dict(name='c04-reduce-continue',props=['C04'],edits=[(L,'''                    production.action.clone(),
                );''','''                    production.action.clone(),
                );
                if !item.lookahead.is_none() { break; }''')]),
# C05
dict(name='c05-rr-first',props=['C05'],edits=[(C,'''        let old_action = action.insert(
            token,
            LRAction::Reduce(non_terminal_idx, production_idx, semantic_action),
        );''','''        if let Some(LRAction::Reduce(nt_, p_, _)) = action.get(&token) {
            if *nt_ == non_terminal_idx && p_.0 <= production_idx.0 {
                return;
            }
        }
        let old_action = action.insert(
            token,
            LRAction::Reduce(non_terminal_idx, production_idx, semantic_action),
        );''')]),
dict(name='c05-rr-same-nt',props=['C05'],edits=[(C,'''                LRAction::Reduce(nt_, p_, _) => {
                    panic!(''','''                LRAction::Reduce(nt_, p_, _) => if nt_ != non_terminal_idx {
                    panic!(''')]),
dict(name='c05-rr-same-idx',props=['C05'],edits=[(C,'''                LRAction::Reduce(nt_, p_, _) => {
                    panic!(''','''                LRAction::Reduce(nt_, p_, _) => if p_ != production_idx {
                    panic!(''')]),
dict(name='c05-sr-reduce-wins',props=['C05'],edits=[(C,'''                LRAction::Shift(s) => {
                    panic!(
                        "({}, {:?}): Overriding Shift({}) with Reduce({}, {})",
                        state.0,
                        token.map(|t| grammar.get_terminal(t)),
                        s.0,
                        non_terminal_idx.0,
                        production_idx.0
                    )
                }''','''                LRAction::Shift(_) => {}''')]),
dict(name='c05-eof-only',props=['C05'],edits=[(C,'''        if let Some(old_action) = old_action {
            match old_action {
                LRAction::Shift(s) => {
                    panic!(
                        "({}, {:?}): Overriding Shift({}) with Reduce''','''        if let (Some(old_action), Some(_)) = (old_action, token) {
            match old_action {
                LRAction::Shift(s) => {
                    panic!(
                        "({}, {:?}): Overriding Shift({}) with Reduce''')]),
dict(name='c05-accept-wins',props=['C05'],edits=[(C,'''            if old_action != LRAction::Accept {''','''            if let LRAction::Shift(_) = old_action {''')]),
dict(name='c05-reduce-over-accept',props=['C05'],edits=[(C,'''                LRAction::Accept => {
                    panic!(
                        "({}, {:?}): Overriding Accept action with Reduce''','''                LRAction::Accept => if token.is_some() {
                    panic!(
                        "({}, {:?}): Overriding Accept action with Reduce''')]),
dict(name='c05-entry-or-insert',props=['C05'],edits=[(C,'''        let old_action = action.insert(
            token,
            LRAction::Reduce(non_terminal_idx, production_idx, semantic_action),
        );

        if let Some(old_action) = old_action {''','''        action.entry(token).or_insert(
            LRAction::Reduce(non_terminal_idx, production_idx, semantic_action),
        );
        let old_action: Option<LRAction<A>> = None;

        if let Some(old_action) = old_action {''')]),
dict(name='c05-debug-assert',props=['C05'],edits=[(C,'''        if let Some(old_action) = old_action {
            if old_action != LRAction::Accept {
                panic!(
                    "({}, EOF): Overriding {:?} action with Accept",
                    state.0, old_action
                );
            }
        }''','''        debug_assert!(old_action.is_none() || old_action == Some(LRAction::Accept));''')]),
dict(name='c05-shift-shift',props=['C05'],edits=[(C,'''                    if s != next_state {
                        panic!(''','''                    if s.0 > next_state.0 {
                        panic!(''')]),
# refactors
dict(name='r-tab-check-first',run=['C04','C05'],edits=[(C,'''        let old_action = action.insert(
            token,
            LRAction::Reduce(non_terminal_idx, production_idx, semantic_action),
        );

        if let Some(old_action) = old_action {''','''        if let Some(old_action) = action.get(&token) {'''),(C,'''                    panic!(
                        "({}, {:?}): Overriding Accept action with Reduce({}, {})",
                        state.0,
                        token.map(|t| grammar.get_terminal(t)),
                        non_terminal_idx.0,
                        production_idx.0
                    );
                }
            }
        }''','''                    panic!(
                        "({}, {:?}): Overriding Accept action with Reduce({}, {})",
                        state.0,
                        token.map(|t| grammar.get_terminal(t)),
                        non_terminal_idx.0,
                        production_idx.0
                    );
                }
            }
        }
        action.insert(
            token,
            LRAction::Reduce(non_terminal_idx, production_idx, semantic_action),
        );''')]),
dict(name='r-tab-helper',run=['C04','C05'],edits=[(C,'''        let old_action = self
            .table
            .action
            .entry(state)
            .or_default()
            .insert(None, LRAction::Accept);
''','''        let old_action = self.put(state, None, LRAction::Accept);
'''),(C,'''        let action = self.table.action.entry(state).or_default();

        let old_action = action.insert(Some(token), LRAction::Shift(next_state));
''','''        let old_action = self.put(state, Some(token), LRAction::Shift(next_state));
'''),(C,'''    pub fn build(self)''','''    fn put(&mut self, state: StateIdx, t: Option<TerminalIdx>, a: LRAction<A>) -> Option<LRAction<A>> {
        self.table.action.entry(state).or_default().insert(t, a)
    }

    pub fn build(self)''')]),
dict(name='r-tab-match',run=['C04','C05'],edits=[(L,'''            if let Some(next_terminal) = item.next_terminal(grammar) {
                if let Some(next_state) = state.goto.get(&Symbol::Terminal(next_terminal)) {
                    table.add_shift(grammar, state_idx, next_terminal, *next_state);
                }
            }
''','''            match item.next_symbol(grammar) {
                Some(sym @ Symbol::Terminal(next_terminal)) => {
                    if let Some(next_state) = state.goto.get(sym) {
                        table.add_shift(grammar, state_idx, *next_terminal, *next_state);
                    }
                    continue;
                }
                Some(Symbol::NonTerminal(_)) => continue,
                None => {}
            }
'''),(L,'''            // Add gotos
            for (symbol, next) in state.gotos() {
                if let Symbol::NonTerminal(nt) = symbol {
                    table.add_goto(state_idx, *nt, *next);
                }
            }
        }
''','''        }
        for (symbol, next) in state.gotos() {
            if let Symbol::NonTerminal(nt) = symbol {
                table.add_goto(state_idx, *nt, *next);
            }
        }
'''),(L,'''            if item.is_complete(grammar) && !non_terminal.public {
''','''            if !non_terminal.public {
'''),(L,'''            if non_terminal.public && item.cursor == 1 && item.lookahead.is_none() {
''','''            else if item.lookahead.is_none() {
''')]),
dict(name='r-tab-two-pass',run=['C04','C05'],edits=[(L,'''            let non_terminal = grammar.get_non_terminal(item.non_terminal_idx);

            // Rule 2.b''','''        }
        for item in state.items() {
            let non_terminal = grammar.get_non_terminal(item.non_terminal_idx);

            // Rule 2.b''')]),
dict(name='r-tab-index-loop',run=['C04','C05'],edits=[(L,'''    for (state_idx, state) in automaton.state_indices() {
        for item in state.items() {
            // Rule''','''    for i in 0..automaton.states.len() {
        let state_idx = StateIdx(i);
        let state = &automaton.states[i];
        for item in &state.items {
            // Rule''')]),
dict(name='r-tab-entry-enum',run=['C04','C05'],edits=[(C,'''        let old_action = self
            .table
            .action
            .entry(state)
            .or_default()
            .insert(None, LRAction::Accept);

        if let Some(old_action) = old_action {
            if old_action != LRAction::Accept {
                panic!(
                    "({}, EOF): Overriding {:?} action with Accept",
                    state.0, old_action
                );
            }
        }''','''        use std::collections::hash_map::Entry;
        match self.table.action.entry(state).or_default().entry(None) {
            Entry::Vacant(v) => {
                v.insert(LRAction::Accept);
            }
            Entry::Occupied(o) => {
                if *o.get() != LRAction::Accept {
                    panic!(
                        "({}, EOF): Overriding {:?} action with Accept",
                        state.0, o.get()
                    );
                }
            }
        }''')]),
]
M+=[dict(name='c04-states-skip1',props=['C04'],edits=[(L,'''    for (state_idx, state) in automaton.state_indices() {
        for item in state.items() {''','''    for (state_idx, state) in automaton.state_indices().skip(1) {
        for item in state.items() {''')])]
