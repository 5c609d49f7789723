L='lr1.rs'
F='first.rs'
M=[
# ---- C02
dict(name='c02-suffix0',props=['C02'],edits=[(L,'[item.cursor + 1..]','[item.cursor..]')]),
dict(name='c02-nobreak',props=['C02'],edits=[(L,'''                            first.add(*t);
                            break;''','''                            first.add(*t);''')]),
dict(name='c02-end-after-term',props=['C02'],edits=[(L,'''                            end_allowed = false;
                            first.add(*t);''','''                            first.add(*t);''')]),
dict(name='c02-nullable-ignored',props=['C02'],edits=[(L,'''                            if !nt_first.has_empty() {
                                end_allowed = false;
                                break;
                            }''','''                            end_allowed = false;
                            if !nt_first.has_empty() {
                                break;
                            }''')]),
dict(name='c02-nullable-stop',props=['C02'],edits=[(L,'''                            if !nt_first.has_empty() {
                                end_allowed = false;
                                break;
                            }''','''                            end_allowed = nt_first.has_empty();
                            break;''')]),
dict(name='c02-hoist-first',props=['C02'],edits=[(L,'''    while let Some(item) = work_list.pop() {
        if let''','''    let mut first: FirstSet = Default::default();
    while let Some(item) = work_list.pop() {
        if let'''),(L,'''            let first = {
                let production = item.get_production(grammar);
                let mut first: FirstSet = Default::default();
''','''            {
                let production = item.get_production(grammar);
'''),(L,'''                        None => first.set_empty(),
                    }
                }
                first
            };''','''                        None => first.set_empty(),
                    }
                }
            }''')]),
dict(name='c02-none-nopush',props=['C02'],edits=[(L,'''                        lookahead: None,
                    };
                    if closure.insert(item.clone()) {
                        work_list.push(item);
                    }''','''                        lookahead: None,
                    };
                    closure.insert(item);''')]),
dict(name='c02-expand-once',props=['C02'],edits=[(L,'''    while let Some(item) = work_list.pop() {
        if let Some(next) = item.next_non_terminal(grammar) {''','''    let mut done: Set<NonTerminalIdx> = Default::default();
    while let Some(item) = work_list.pop() {
        if let Some(next) = item.next_non_terminal(grammar) {
            if !done.insert(next) { continue; }''')]),
dict(name='c02-take-one-la',props=['C02'],edits=[(L,'''                for t in first.terminals() {
                    let item''','''                for t in first.terminals().iter().take(1) {
                    let item''')]),
dict(name='c02-firstset-take',props=['C02'],edits=[(L,'''                            for t in nt_first.terminals() {''','''                            for t in nt_first.terminals().iter().take(8) {''')]),
dict(name='c02-own-la-dropped',props=['C02'],edits=[(L,'''                if end_allowed {
                    match''','''                if end_allowed && first.terminals().is_empty() {
                    match''')]),
dict(name='c02-skip-first-prod',props=['C02'],edits=[(L,'''in grammar.non_terminal_production_indices(next) {''','''in grammar.non_terminal_production_indices(next).skip(1) {''')]),
dict(name='c02-empty-set-own',props=['C02'],edits=[(L,'''                        Some(lookahead) => first.add(*lookahead),
                        None => first.set_empty(),''','''                        Some(lookahead) => {
                            first.add(*lookahead);
                            first.set_empty();
                        }
                        None => first.set_empty(),''')]),
dict(name='c02-early-return',props=['C02'],edits=[(L,'''                    if closure.insert(item.clone()) {
                        work_list.push(item);
                    }
                }
                if first''','''                    if !closure.insert(item.clone()) {
                        break;
                    }
                    work_list.push(item);
                }
                if first''')]),
dict(name='c02-self-recursive-skip',props=['C02'],edits=[(L,'''        if let Some(next) = item.next_non_terminal(grammar) {''','''        if let Some(next) = item.next_non_terminal(grammar).filter(|n| *n != item.non_terminal_idx) {''')]),
# ---- C03
dict(name='c03-lalr-key',props=['C03'],edits=[(L,'let mut state_indices: Map<BTreeSet<LR1Item>, StateIdx> = Default::default();','let mut state_indices: Map<BTreeSet<(NonTerminalIdx, ProductionIdx, usize)>, StateIdx> = Default::default();\n    let core = |s: &BTreeSet<LR1Item>| -> BTreeSet<(NonTerminalIdx, ProductionIdx, usize)> { s.iter().map(|i| (i.non_terminal_idx, i.production_idx, i.cursor)).collect() };'),
 (L,'state_indices.insert(i0_items.clone(), i0_state_idx);','state_indices.insert(core(&i0_items), i0_state_idx);'),
 (L,'state_indices.get(&goto)','state_indices.get(&core(&goto))'),
 (L,'state_indices.insert(goto, next_state_idx);','state_indices.insert(core(&goto), next_state_idx);')]),
dict(name='c03-manual-eq',props=['C03'],edits=[(L,'''#[derive(Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Clone)]
struct LR1Item {''','''#[derive(Debug, PartialEq, Eq, Hash, Clone)]
struct LR1Item {'''),(L,'''impl LR1Item {
    #[cfg(test)]''','''impl PartialOrd for LR1Item {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) }
}
impl Ord for LR1Item {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (self.non_terminal_idx, self.production_idx, self.cursor).cmp(&(o.non_terminal_idx, o.production_idx, o.cursor))
    }
}

impl LR1Item {
    #[cfg(test)]''')]),
dict(name='c03-idx-off',props=['C03'],edits=[(L,'''                        new_gotos.push((state_idx, symbol, next_state_idx));
                        next_state_idx = StateIdx(next_state_idx.0 + 1);''','''                        next_state_idx = StateIdx(next_state_idx.0 + 1);
                        new_gotos.push((state_idx, symbol, next_state_idx));''')]),
dict(name='c03-noindex',props=['C03'],edits=[(L,'''                        state_indices.insert(goto, next_state_idx);
''','')]),
dict(name='c03-first-item',props=['C03'],edits=[(L,'''                goto.insert(item.advance());''','''                goto.insert(item.advance());
                break;''')]),
dict(name='c03-existing-nogoto',props=['C03'],edits=[(L,'''                        new_gotos.push((state_idx, symbol, *goto_state_idx));''','''                        if *goto_state_idx != state_idx {
                            new_gotos.push((state_idx, symbol, *goto_state_idx));
                        }''')]),
dict(name='c03-noclosure',props=['C03'],edits=[(L,'''    compute_lr1_closure(grammar, first, goto)
}''','''    if goto.len() == 1 { return goto.into_iter().collect(); }
    compute_lr1_closure(grammar, first, goto)
}''')]),
dict(name='c03-noupdate',props=['C03'],edits=[(L,'''        if !new_states.is_empty() {
            updated = true;
        }
''',''),(L,'''            updated |= old.is_none();''','''            updated |= old.is_none() && next.0 < 1000;''')]),
dict(name='c03-skip-last-nt',props=['C03'],edits=[(L,'''                .map(|(nt, _)| Symbol::NonTerminal(nt))''','''                .skip(1).map(|(nt, _)| Symbol::NonTerminal(nt))''')]),
dict(name='c03-advance-la',props=['C03'],edits=[(L,'''        item.cursor += 1;
        item''','''        item.cursor += 1;
        if item.cursor > 4 { item.lookahead = None; }
        item''')]),
dict(name='c03-skip-complete',props=['C03'],edits=[(L,'''            if next_symbol == symbol {''','''            if next_symbol == symbol && !(item.cursor == 0 && item.lookahead.is_none() && item.production_idx.0 > 3) {''')]),
dict(name='c03-entry-la',props=['C03'],edits=[(L,'''                    cursor: 0,
                    lookahead: None,
                }
            };''','''                    cursor: 0,
                    lookahead: Some(TerminalIdx::from_usize(0)),
                }
            };''')]),
dict(name='c03-updated-overwrite',props=['C03'],edits=[(L,'''        if !new_states.is_empty() {
            updated = true;
        }
''',''),(L,'''            updated |= old.is_none();''','''            updated = old.is_none();''')]),
]
