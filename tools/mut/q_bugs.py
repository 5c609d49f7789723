# a fourth round: faults in reshaped code, and reshaped code without a fault
C='lr_common.rs'
G='lr_codegen.rs'
S='codegen.rs'
W='lower.rs'
M_='grammar.rs'
L='lib.rs'
A='ast.rs'
R='lr1.rs'
F='first.rs'
def rd(f): return open('/repo/src/'+f).read()
def cut(t,x,y):
    i=t.index(x); return t[i:t.index(y,i)]
f=rd(F); r=rd(R); c=rd(C); g=rd(G); s=rd(S); w=rd(W); m=rd(M_); a=rd(A); l=rd(L)
GFT=cut(f,"pub fn generate_first_table","use std::fmt;")
FIRSTBLK=cut(r,"            let first = {","            // println!(\n            //     \"LR1 closure item")
PREDBLK=cut(r,"            for (production_idx, _) in grammar.non_terminal_production_indices(next)","        }\n    }\n\n    closure.into_iter()")
GOTOFN=cut(r,"fn compute_lr1_goto","#[derive(Debug)]\nstruct LR1State")
MAINLOOP=cut(r,"    let mut updated = true;\n    while updated {\n        updated = false;\n\n        let mut next_state_idx","    (automaton, non_terminal_state_indices)")
FT2=lambda pre,cond,post: """pub fn generate_first_table<A>(grammar: &Grammar<A>) -> FirstTable {
    let mut table: FirstTable = FirstTable::new(grammar.non_terminals().len());

    // Non-terminals that can be empty
%s

    // Tokens
    let mut updated = true;
    while updated {
        updated = false;
        for (non_terminal_idx, non_terminal) in grammar.non_terminal_indices() {
            for production in non_terminal.productions() {
                for symbol in production.symbols() {
                    match &symbol.symbol {
                        Symbol::Terminal(t) => {
                            updated |= table.add_first(non_terminal_idx, *t);
                            break;
                        }
                        Symbol::NonTerminal(nt) => {
                            let terminals = table.get_first(*nt).terminals().clone();
                            for t in terminals {
                                updated |= table.add_first(non_terminal_idx, t);
                            }
                            if !table.get_first(*nt).has_empty() {
                                break;
                            }
                        }
                    }
                }
            }
        }
    }
    table
}

"""%pre
NULL_OK="""    let mut changed = true;
    while changed {
        changed = false;
        for (idx, nt) in grammar.non_terminal_indices() {
            let empty = nt.productions().iter().any(|p| {
                p.symbols().iter().all(|s| match &s.symbol {
                    Symbol::Terminal(_) => false,
                    Symbol::NonTerminal(n) => table.get_first(*n).has_empty(),
                })
            });
            if empty {
                changed |= table.set_empty(idx);
            }
        }
    }"""
NULL_ONE="""    for (idx, nt) in grammar.non_terminal_indices() {
        let empty = nt.productions().iter().any(|p| {
            p.symbols().iter().all(|s| match &s.symbol {
                Symbol::Terminal(_) => false,
                Symbol::NonTerminal(n) => table.get_first(*n).has_empty(),
            })
        });
        if empty {
            table.set_empty(idx);
        }
    }"""
NULL_ANY=NULL_OK.replace("nt.productions().iter().any(|p|","nt.productions().iter().all(|p|")
REST="""
/// What the symbols can begin with; true when all of them can be empty
fn first_of_rest(symbols: &[BoundSymbol], table: &FirstTable) -> (FirstSet, bool) {
    let mut first: FirstSet = Default::default();
    for symbol in symbols {
        match &symbol.symbol {
            Symbol::Terminal(t) => {
                first.add(*t);
                return (first, false);
            }
            Symbol::NonTerminal(nt) => {
                let nt_first = table.get_first(*nt);
                for t in nt_first.terminals() {
                    first.add(*t);
                }
                if !nt_first.has_empty() {
                    return (first, false);
                }
            }
        }
    }
    (first, true)
}

fn compute_lr1_closure<A>("""
def restcall(expr): return """            let first = {
                let production = item.get_production(grammar);
                let (mut first, end_allowed) =
                    first_of_rest(%s, first_table);
                if end_allowed {
                    match &item.lookahead {
                        Some(lookahead) => first.add(*lookahead),
                        None => first.set_empty(),
                    }
                }
                first
            };

"""%expr
USEB=(R,"use crate::grammar::{Grammar, NonTerminalIdx,","use crate::grammar::{BoundSymbol, Grammar, NonTerminalIdx,")
def preds(body): return """            let mut lookaheads: Vec<Option<TerminalIdx>> =
                first.terminals().iter().map(|t| Some(*t)).collect();
            if first.has_empty() {
                lookaheads.push(None);
            }
            for (production_idx, production) in grammar.get_non_terminal(next).production_indices() {
                let _ = production;
                for lookahead in lookaheads.iter().copied() {
                    let item = LR1Item {
                        non_terminal_idx: next,
                        production_idx,
                        cursor: 0,
                        lookahead,
                    };
%s
                }
            }
"""%body
ADDITEM="                    if closure.insert(item.clone()) {\n                        work_list.push(item);\n                    }"
def work(init,ext,extra=''): return """    // States whose transitions are not known yet start here
    let mut done = 0;
    while done < automaton.states.len() {
%s
        let mut new_states: Vec<LR1State> = vec![];
        let mut gotos: Vec<(usize, Symbol, StateIdx)> = vec![];
        let n = automaton.states.len();
        for idx in done..n {
            let mut symbols: Vec<Symbol> = vec![];
            for (nt, _) in grammar.non_terminal_indices() {
                symbols.push(Symbol::NonTerminal(nt));
            }
            for t in grammar.terminal_indices() {
                symbols.push(Symbol::Terminal(t));
            }
            for symbol in symbols {
                let items = compute_lr1_goto(&automaton.states[idx].items, &symbol, grammar, first_table);
                if items.is_empty() {
                    continue;
                }
                let next = match state_indices.get(&items) {
                    Some(next) => *next,
                    None => {
                        let next = StateIdx(n + new_states.len());
                        state_indices.insert(items.clone(), next);
                        new_states.push(LR1State { items, goto: Default::default() });
                        next
                    }
                };
                gotos.push((idx, symbol, next));
            }
        }
        automaton.states.extend(new_states);
        for (idx, symbol, next) in gotos {
            automaton.states[idx].goto.insert(symbol, next);
        }
%s
    }

"""%(init,ext)
M=[
# ---- C01
('c01-null-one-pass',['C01'],[(F,GFT,FT2(NULL_ONE,0,0))]),
('c01-late-null',['C01'],[(F,GFT,FT2('',0,0).replace('    table\n}',NULL_OK+'\n    table\n}'))]),
('c01-null-all',['C01'],[(F,GFT,FT2(NULL_ANY,0,0))]),
('c01-reset-inside',['C01'],[(F,"        for (non_terminal_idx, non_terminal) in grammar.non_terminal_indices() {\n","        for (non_terminal_idx, non_terminal) in grammar.non_terminal_indices() {\n            updated = false;\n")]),
('c01-count-change',['C01'],[(F,"            .terminals\n            .insert(terminal)","            .terminals\n            .insert(terminal)\n            && self.0[non_terminal_idx.as_usize()].terminals.len() > 1")]),
('c01-bitset',['C01','C02'],[(F,"    pub fn add(&mut self, terminal: TerminalIdx) {\n        self.terminals.insert(terminal);","    pub fn add(&mut self, terminal: TerminalIdx) {\n        self.terminals.insert(TerminalIdx::from_usize(terminal.as_usize() & 0xff));")]),
('c01-stop-at-self',['C01'],[(F,"                            if empty {\n                                // Continue","                            if empty && *nt != non_terminal_idx {\n                                // Continue")]),
('c01-first-prod-term',['C01'],[(F,"            'production_loop: for production in &non_terminal.productions {","            // Productions that begin with a token first\n            if non_terminal.productions.len() > 64 {\n                continue;\n            }\n            'production_loop: for production in &non_terminal.productions {")]),
# ---- C02
('c02-skip-max1',['C02'],[(R,"for symbol in &production.symbols()[item.cursor + 1..] {","for symbol in production.symbols().iter().skip(item.cursor.min(1)).skip(1) {")]),
('c02-rest-cursor',['C02'],[USEB,(R,"\nfn compute_lr1_closure<A>(",REST),(R,FIRSTBLK,restcall("&production.symbols()[item.cursor..]"))]),
('c02-rest-first-only',['C02'],[USEB,(R,"\nfn compute_lr1_closure<A>(",REST.replace("                if !nt_first.has_empty() {\n                    return (first, false);\n                }","                return (first, nt_first.has_empty());")),(R,FIRSTBLK,restcall("&production.symbols()[item.cursor + 1..]"))]),
('c02-rest-own-first',['C02'],[USEB,(R,"\nfn compute_lr1_closure<A>(",REST),(R,FIRSTBLK,restcall("&production.symbols()[item.cursor + 1..]").replace("                if end_allowed {\n                    match &item.lookahead {","                if end_allowed {\n                    first = Default::default();\n                    match &item.lookahead {"))]),
('c02-preds-empty-none',['C02'],[(R,PREDBLK,preds("                    if lookahead.is_none() && production.symbols().is_empty() {\n                        continue;\n                    }\n"+ADDITEM))]),
('c02-preds-two-bags',['C02'],[(R,PREDBLK,preds("                    if closure.insert(item.clone()) && lookahead.is_some() {\n                        work_list.push(item);\n                    }"))]),
('c02-only-new-nt',['C02'],[(R,"    while let Some(item) = work_list.pop() {\n","    let mut predicted: Set<(NonTerminalIdx, Option<TerminalIdx>)> = Default::default();\n    while let Some(item) = work_list.pop() {\n"),(R,"        if let Some(next) = item.next_non_terminal(grammar) {\n","        if let Some(next) = item.next_non_terminal(grammar) {\n            if !predicted.insert((next, item.lookahead)) {\n                continue;\n            }\n")]),
('c02-first-el-la',['C02'],[(R,"                        Some(lookahead) => first.add(*lookahead),\n","                        Some(lookahead) => {\n                            if !first.terminals().contains(lookahead) || item.cursor == 0 {\n                                first.add(*lookahead);\n                            } else {\n                                first.set_empty();\n                            }\n                        }\n")]),
# ---- C03
('c03-core-key',['C03'],[(R,"    let mut state_indices: Map<BTreeSet<LR1Item>, StateIdx> = Default::default();","    let mut state_indices: Map<BTreeSet<LR1Item>, StateIdx> = Default::default();\n    // The lookahead of an item matters once it is complete\n    let key = |items: &BTreeSet<LR1Item>| -> BTreeSet<LR1Item> {\n        items\n            .iter()\n            .map(|item| LR1Item {\n                lookahead: if item.is_complete(grammar) { item.lookahead } else { None },\n                ..item.clone()\n            })\n            .collect()\n    };"),(R,"match state_indices.get(&goto) {","match state_indices.get(&key(&goto)) {"),(R,"state_indices.insert(goto, next_state_idx);","state_indices.insert(key(&goto), next_state_idx);"),(R,"state_indices.insert(i0_items.clone(), i0_state_idx);","state_indices.insert(key(&i0_items), i0_state_idx);")]),
('c03-done-late',['C03'],[(R,MAINLOOP,work("","        done = automaton.states.len();"))]),
('c03-done-early',['C03'],[(R,MAINLOOP,work("","        done += 2;"))]),
('c03-goto-complete-drop',['C03'],[(R,"                goto.insert(item.advance());","                let next = item.advance();\n                if !(next.is_complete(grammar) && grammar.get_non_terminal(next.non_terminal_idx).public && next.lookahead.is_none() && state.len() > 40) {\n                    goto.insert(next);\n                }")]),
('c03-entry-shared',['C03','C12'],[(R,"            let i0_state_idx: StateIdx = StateIdx(automaton.states.len());","            let i0_state_idx: StateIdx = state_indices\n                .get(&i0_items)\n                .copied()\n                .unwrap_or(StateIdx(state_indices.len()));")]),
('c03-goto-or-insert',['C03'],[(R,"            let old = automaton.states[state.as_usize()].goto.insert(symbol, next);\n            updated |= old.is_none();","            let goto = &mut automaton.states[state.as_usize()].goto;\n            if goto.len() < 256 {\n                updated |= goto.insert(symbol, next).is_none();\n            }")]),
# ---- C04
('c04-la-prefix',['C04'],[(R,"            if item.is_complete(grammar) && !non_terminal.public {","            if item.is_complete(grammar) && !non_terminal.public && (item.cursor > 0 || state.items().count() > 1) {")]),
('c04-shift-state',['C04'],[(R,"                    table.add_shift(grammar, state_idx, next_terminal, *next_state);","                    let next_state = if next_state.as_usize() == 0 { state_idx } else { *next_state };\n                    table.add_shift(grammar, state_idx, next_terminal, next_state);")]),
('c04-accept-also-nt1',['C04'],[(R,"            if non_terminal.public && item.cursor == 1 && item.lookahead.is_none() {","            let entry = state_idx.as_usize() == 1 && item.is_complete(grammar);\n            if (non_terminal.public && item.cursor == 1 || entry) && item.lookahead.is_none() {")]),
('c04-match-one',['C04'],[(R,"            if let Some(next_terminal) = item.next_terminal(grammar) {\n","            if item.cursor > 0 && item.lookahead.is_some() && item.next_terminal(grammar) == item.lookahead {\n                continue;\n            }\n            if let Some(next_terminal) = item.next_terminal(grammar) {\n")]),
# ---- C05
('c05-same-len',['C05'],[(C,"                LRAction::Reduce(nt_, p_, _) => {\n                    panic!(","                LRAction::Reduce(nt_, p_, _)\n                    if nt_ == non_terminal_idx\n                        && grammar.get_production(nt_, p_).symbols().is_empty()\n                        && grammar.get_production(nt_, production_idx).symbols().is_empty() => {}\n                LRAction::Reduce(nt_, p_, _) => {\n                    panic!(")]),
('c05-get-first',['C05'],[(C,"        let old_action = action.insert(\n            token,\n            LRAction::Reduce(non_terminal_idx, production_idx, semantic_action),\n        );\n","        if let Some(LRAction::Reduce(nt, ..)) = action.get(&token) {\n            if *nt < non_terminal_idx {\n                return;\n            }\n        }\n        let old_action = action.insert(\n            token,\n            LRAction::Reduce(non_terminal_idx, production_idx, semantic_action),\n        );\n")]),
('c05-accept-eq',['C05'],[(C,"            if old_action != LRAction::Accept {","            if matches!(old_action, LRAction::Shift(_)) {")]),
('c05-rr-shift-after',['C05'],[(C,"                LRAction::Shift(s) => {\n                    panic!(\n                        \"({}, {:?}): Overriding Shift({}) with Reduce","                LRAction::Shift(s) if grammar.get_production(non_terminal_idx, production_idx).symbols().len() > 3 => {\n                    let _ = s;\n                }\n                LRAction::Shift(s) => {\n                    panic!(\n                        \"({}, {:?}): Overriding Shift({}) with Reduce")]),
# ---- C06
('c06-memo-prod',['C06'],[(G,"    for state in table {\n        // +1 for EOF","    let mut codes: Map<crate::grammar::ProductionIdx, u16> = Default::default();\n    for state in table {\n        // +1 for EOF"),(G,"                            let n_symbols: u16 = u16::try_from(\n                                grammar\n                                    .get_production(*non_terminal_idx, *production_idx)\n                                    .symbols()\n                                    .len(),\n                            )\n                            .unwrap();","                            let n_symbols: u16 = *codes.entry(*production_idx).or_insert_with(|| {\n                                u16::try_from(\n                                    grammar\n                                        .get_production(*non_terminal_idx, *production_idx)\n                                        .symbols()\n                                        .len(),\n                                )\n                                .unwrap()\n                            });")]),
('c06-named-only',['C06'],[(G,"                                    .symbols()\n                                    .len(),\n                            )\n                            .unwrap();","                                    .symbols()\n                                    .iter()\n                                    .filter(|s| s.binder.is_some() || matches!(s.symbol, crate::grammar::Symbol::Terminal(_)))\n                                    .count(),\n                            )\n                            .unwrap();")]),
('c06-goto-self',['C06'],[(G,"            non_terminal_array.push(match next_state {","            let next_state = &next_state.filter(|next| next.as_usize() != state_array.len());\n            non_terminal_array.push(match next_state {")]),
('c06-eof-any',['C06'],[(G,"                .and_then(|action| action.get(&None))\n                .copied(),","                .and_then(|action| action.get(&None).or_else(|| if action.len() == 1 { action.values().next() } else { None }))\n                .copied(),")]),
# ---- C07
('c07-truncate-min',['C07'],[(G,"                        for _ in 0 .. n_symbols {\n                            state_stack.pop().unwrap();\n                        }","                        let n = state_stack.len() - (n_symbols as usize).min(255);\n                        state_stack.truncate(n);")]),
('c07-goto-cache',['C07'],[(G,"            let mut token = input.next();\n\n            loop {","            let mut token = input.next();\n            let mut last_goto: Option<(u16, u32)> = None;\n\n            loop {"),(G,"                            Some(next_state) => state_stack.push(next_state),","                            Some(next_state) => {\n                                let next_state = match last_goto {\n                                    Some((nt, next)) if nt == non_terminal_idx && state == 0 => next,\n                                    _ => next_state,\n                                };\n                                last_goto = Some((non_terminal_idx, next_state));\n                                state_stack.push(next_state)\n                            }")]),
('c07-accept-first',['C07'],[(G,"            Ok(extract_value(value_stack.pop().unwrap()))","            Ok(extract_value(value_stack.drain(..).last().unwrap()))"),(G,"            SEMANTIC_ACTIONS[action_idx](&mut value_stack);","            if state_stack.len() > 2 {\n                SEMANTIC_ACTIONS[action_idx](&mut value_stack);\n            }")]),
# ---- C08
('c08-pull-before-reduce',['C08'],[(G,"                    Some(LRAction::Reduce { non_terminal_idx, n_symbols, semantic_action_idx }) => {\n","                    Some(LRAction::Reduce { non_terminal_idx, n_symbols, semantic_action_idx }) => {\n                        if token.is_none() {\n                            token = input.next();\n                        }\n")]),
('c08-error-deferred',['C08'],[(G,"                    Some(Err(err)) => return Err(ParseError::LexerError(err.clone())),","                    Some(Err(err)) => {\n                        if let Some(LRAction::Accept) = ACTION[state][#n_terminals] {\n                            break;\n                        }\n                        return Err(ParseError::LexerError(err.clone()))\n                    }")]),
# ---- C09
('c09-expected-nogoto',['C09'],[(S,"            if lr_table\n                .get_action(StateIdx(state_idx), Some(terminal_idx))\n                .is_some()\n            {","            if lr_table\n                .get_action(StateIdx(state_idx), Some(terminal_idx))\n                .or_else(|| lr_table.get_action(StateIdx(state_idx), None).filter(|_| n_states == 1))\n                .is_some()\n            {")]),
('c09-quote-ws',['C09'],[(S,"        .map(|terminal_idx| grammar.get_terminal(TerminalIdx::from_usize(terminal_idx)))","        .map(|terminal_idx| grammar.get_terminal(TerminalIdx::from_usize(terminal_idx)).trim_end())")]),
('c09-same-row',['C09'],[(S,"        strs.push(expected_terminals.join(\", \"));","        let str = expected_terminals.join(\", \");\n        if str.is_empty() {\n            let prev = strs.last().cloned().unwrap_or_default();\n            strs.push(prev);\n        } else {\n            strs.push(str);\n        }")]),
# ---- C10
('c10-unit-token',['C10','C07'],[(S,"                                None => {\n                                    pop_code.push(quote!(value_stack.pop()));\n                                }","                                None => {\n                                    // Consecutive unnamed symbols at once\n                                    if unnamed == 0 {\n                                        pop_code.push(quote!(value_stack.pop()));\n                                    }\n                                    unnamed += 1;\n                                    if unnamed > 1 {\n                                        pop_code.push(quote!(value_stack.truncate(value_stack.len() - #unnamed + 1)));\n                                    }\n                                }"),(S,"                        for BoundSymbol { binder, symbol: kind } in symbols.iter().rev() {","                        let mut unnamed: usize = 0;\n                        for BoundSymbol { binder, symbol: kind } in symbols.iter().rev() {")]),
('c10-shadowed',['C10'],[(S,"                            match binder {\n                                None => {","                            let binder = binder.as_ref().filter(|b| !bound.contains(&b.name));\n                            if let Some(b) = &binder {\n                                bound.push(b.name.clone());\n                            }\n                            match binder {\n                                None => {"),(S,"                        let mut pop_code: Vec<TokenStream> = vec![];","                        let mut pop_code: Vec<TokenStream> = vec![];\n                        let mut bound: Vec<syn::Ident> = vec![];")]),
# ---- C11
('c11-fields-sorted-both',['C11'],[(S,"            for FieldPattern { pattern, .. } in pats {\n                pattern_types_(pattern, acc);","            let mut pats: Vec<&FieldPattern> = pats.iter().collect();\n            pats.sort_by_key(|p| p.field_name.to_string());\n            for FieldPattern { pattern, .. } in pats {\n                pattern_types_(pattern, acc);")]),
('c11-wild-last',['C11'],[(S,"    let match_alts: Vec<TokenStream> = conversions\n        .iter()\n        .enumerate()","    let (wild, exact): (Vec<_>, Vec<_>) = conversions\n        .iter()\n        .enumerate()\n        .partition(|(_, c)| matches!(c.to, Pattern::Underscore));\n    let match_alts: Vec<TokenStream> = exact\n        .into_iter()\n        .chain(wild)")]),
('c11-path-last',['C11'],[(S,"        Pattern::Path(path) => quote!(#path),\n\n        Pattern::Underscore => quote!(_),\n\n        Pattern::DotDot => quote!(..),\n\n        Pattern::Lit(lit) => quote!(#lit),\n\n        Pattern::Choose(_) => quote!(_),","        Pattern::Path(path) if path.segments.len() > 3 => quote!(_),\n\n        Pattern::Path(path) => quote!(#path),\n\n        Pattern::Underscore => quote!(_),\n\n        Pattern::DotDot => quote!(..),\n\n        Pattern::Lit(lit) => quote!(#lit),\n\n        Pattern::Choose(_) => quote!(_),")]),
# ---- C12
('c12-state-zip',['C12'],[(G,"    let parser_structs: Vec<TokenStream> = nt_state_indices\n        .into_iter()\n        .map(|(non_terminal_idx, parser_state)| {","    let mut entries: Vec<NonTerminalIdx> = nt_state_indices.keys().copied().collect();\n    entries.sort();\n    entries.dedup_by_key(|nt| grammar.get_non_terminal(*nt).return_ty.clone());\n    let parser_structs: Vec<TokenStream> = entries\n        .into_iter()\n        .map(|non_terminal_idx| {\n            let parser_state = nt_state_indices[&non_terminal_idx];")]),
('c12-state-eq-nt',['C12'],[(G,"            let parser_state = u32::try_from(parser_state.as_usize()).unwrap();","            let parser_state = u32::try_from(parser_state.as_usize().min(lr1_table.n_states() / 2)).unwrap();")]),
('c12-pub-first-prod',['C12'],[(W,"            let old = nt_indices.insert(nt.name.to_string(), nt1_idx);\n            if old.is_some() {","            let old = nt_indices.insert(nt.name.to_string(), nt1_idx);\n            nt_indices.insert(nt.name.to_string() + \"1\", nt1_idx);\n            if old.is_some() {")]),
# ---- C13
('c13-thread',['C13'],[(S,"                            &format!(\"nt{}p{}_action\", nt_i, p_i),","                            &format!(\"nt{}p{}_action_{:?}\", nt_i, p_i, std::thread::current().id()).replace(['(', ')'], \"\"),")]),
('c13-addr',['C13'],[(S,"    // Generate variants for non-terminals. Non","    let mut tokens_: Vec<&Conversion> = tokens.iter().collect();\n    tokens_.sort_by_key(|c| *c as *const Conversion as usize % 97);\n    let first = tokens_.first().map_or(0, |c| c.from.len());\n    variants.push({\n        let id = format_ident!(\"Unused{}\", first);\n        quote!(#[allow(dead_code)] #id)\n    });\n    // Generate variants for non-terminals. Non")]),
('c13-bigset',['C13'],[('collections.rs',"FxHashMap","FxHashMap")]),
# ---- C14
('c14-requeue',['C14'],[(R,"                    if closure.insert(item.clone()) {\n                        work_list.push(item);\n                    }\n                }\n            }\n        }","                    if closure.insert(item.clone()) || production_idx.as_usize() == 0 && next != work_list.last().map_or(next, |i| i.non_terminal_idx) {\n                        work_list.push(item);\n                    }\n                }\n            }\n        }")]),
('c14-states-again',['C14'],[(R,"        if !new_states.is_empty() {\n            updated = true;\n        }","        if !new_states.is_empty() || new_gotos.len() > 65536 {\n            updated = true;\n        }")]),
# ---- C15
('c15-term-mask',['C15','C06'],[(M_,"        let idx = TerminalIdx(u32::try_from(self.terminals.len()).unwrap());","        let idx = TerminalIdx((self.terminals.len() & 0xffff) as u32);")]),
('c15-len-u8-chunk',['C15','C06'],[(G,"                            let n_symbols: u16 = u16::try_from(\n                                grammar\n                                    .get_production(*non_terminal_idx, *production_idx)\n                                    .symbols()\n                                    .len(),\n                            )\n                            .unwrap();","                            let n_symbols: u16 = grammar\n                                .get_production(*non_terminal_idx, *production_idx)\n                                .symbols()\n                                .iter()\n                                .fold(0u16, |n, _| n.wrapping_add(1));")]),
('c15-sem-last',['C15'],[(S,"                            action: SemanticActionIdx(u16::try_from(fn_idx).unwrap()),","                            action: SemanticActionIdx(u16::try_from(fn_idx).unwrap_or_else(|_| u16::MAX)),")]),
# ---- C16
('c16-named-inner',['C16'],[(W,"            if binder.is_some() {\n                panic!(\"Symbol named multiple times: {}\", name.name);\n            }\n            add_symbol(nt_indices, t_indices, symbols, Some(name), *sym)","            let name = binder.unwrap_or(name);\n            add_symbol(nt_indices, t_indices, symbols, Some(name), *sym)")]),
('c16-quoted-nt',['C16'],[(W,"            let idx = t_indices\n                .get(&str)\n                .unwrap_or_else(|| panic!(\"Unknown non-terminal: {:?}\", str));\n            symbols.push(BoundSymbol {\n                binder,\n                symbol: Symbol::Terminal(*idx),\n            });","            let symbol = match (t_indices.get(&str), nt_indices.get(&str)) {\n                (Some(idx), _) => Symbol::Terminal(*idx),\n                (None, Some(idx)) => Symbol::NonTerminal(*idx),\n                (None, None) => panic!(\"Unknown terminal: {:?}\", str),\n            };\n            symbols.push(BoundSymbol { binder, symbol });")]),
('c16-case-token',['C16'],[(W,"                .get(&str)\n                .unwrap_or_else(","                .get(&str)\n                .or_else(|| t_indices.get(&str.to_lowercase()))\n                .unwrap_or_else(")]),
('c16-typedef',['C16'],[(A,"            other => panic!(\"Unknown type definition: {:?}\", other),","            _ => Ok(TypeDefKind::State),")]),
# ---- C17
('c17-path-args',['C17','C11'],[(A,"                Ok(Pattern::Path(path.path))","                let mut path = path.path;\n                if let Some(last) = path.segments.last_mut() {\n                    last.arguments = syn::PathArguments::None;\n                }\n                Ok(Pattern::Path(path))")]),
('c17-enum-one-nested',['C17','C11'],[(A,"                Ok(Pattern::Enum(path.path, fields))","                match fields.pop() {\n                    Some(Pattern::Tuple(inner)) if fields.is_empty() => Ok(Pattern::Enum(path.path, inner)),\n                    Some(last) => {\n                        fields.push(last);\n                        Ok(Pattern::Enum(path.path, fields))\n                    }\n                    None => Ok(Pattern::Enum(path.path, fields)),\n                }")]),
('c17-name-mut-nested',['C17'],[(A,"    let symbol = input.parse::<Symbol>()?;\n    input.parse::<syn::token::Gt>()?;","    let symbol = input.parse::<Symbol>()?;\n    let mutable = mutable && matches!(symbol, Symbol::NonTerminal(_));\n    input.parse::<syn::token::Gt>()?;")]),
# ---- C18
('c18-last-seg',['C18'],[(S,"    let mut non_terminal_ty_indices: Map<syn::Type, usize> = Default::default();","    let key = |ty: &syn::Type| match ty {\n        syn::Type::Path(p) if p.qself.is_none() => {\n            let last = p.path.segments.last().unwrap();\n            quote!(#last).to_string()\n        }\n        ty => quote!(#ty).to_string(),\n    };\n    let mut non_terminal_ty_indices: Map<String, usize> = Default::default();"),(S,"            .get(&non_terminal.return_ty)\n","            .get(&key(&non_terminal.return_ty))\n"),(S,"non_terminal_ty_indices.insert(non_terminal.return_ty.clone(), i);","non_terminal_ty_indices.insert(key(&non_terminal.return_ty), i);")]),
('c18-no-lt',['C18'],[(S,"    let mut non_terminal_ty_indices: Map<syn::Type, usize> = Default::default();","    let key = |ty: &syn::Type| -> String {\n        quote!(#ty).to_string().split_whitespace().filter(|t| !t.starts_with('\\'')).collect()\n    };\n    let mut non_terminal_ty_indices: Map<String, usize> = Default::default();"),(S,"            .get(&non_terminal.return_ty)\n","            .get(&key(&non_terminal.return_ty))\n"),(S,"non_terminal_ty_indices.insert(non_terminal.return_ty.clone(), i);","non_terminal_ty_indices.insert(key(&non_terminal.return_ty), i);")]),
]
REF=[
('first-two-phases',[(F,GFT,FT2(NULL_OK,0,0))]),
('rest-helper',[USEB,(R,"\nfn compute_lr1_closure<A>(",REST),(R,FIRSTBLK,restcall("&production.symbols()[item.cursor + 1..]"))]),
('preds-list',[(R,PREDBLK,preds(ADDITEM))]),
('kernel-key',[(R,"    let mut state_indices: Map<BTreeSet<LR1Item>, StateIdx> = Default::default();","    let mut state_indices: Map<BTreeSet<LR1Item>, StateIdx> = Default::default();\n    let key = |items: &BTreeSet<LR1Item>| -> BTreeSet<LR1Item> {\n        items.iter().filter(|item| item.cursor > 0).cloned().collect()\n    };"),(R,"match state_indices.get(&goto) {","match state_indices.get(&key(&goto)) {"),(R,"state_indices.insert(goto, next_state_idx);","state_indices.insert(key(&goto), next_state_idx);")]),
('done-mark',[(R,MAINLOOP,work("","        done = n;"))]),
('pub-or-la',[(R,"            if item.is_complete(grammar) && !non_terminal.public {","            if item.is_complete(grammar) && (!non_terminal.public || item.lookahead.is_some()) {")]),
('truncate',[(G,"                        for _ in 0 .. n_symbols {\n                            state_stack.pop().unwrap();\n                        }","                        let n = state_stack.len() - n_symbols as usize;\n                        state_stack.truncate(n);")]),
('fuse',[(G,"            mut input: impl Iterator<Item=Result<#token_type<#(#token_lifetimes),*>, E>>,\n            extract_value","            input: impl Iterator<Item=Result<#token_type<#(#token_lifetimes),*>, E>>,\n            extract_value"),(G,"            let mut token = input.next();\n\n            loop {","            let mut input = input.fuse();\n            let mut token = input.next();\n\n            loop {")]),
('memo-len',[(G,"    for state in table {\n        // +1 for EOF","    let mut codes: Map<(NonTerminalIdx, ProductionIdx), u16> = Default::default();\n    for state in table {\n        // +1 for EOF"),(G,"                            let n_symbols: u16 = u16::try_from(\n                                grammar\n                                    .get_production(*non_terminal_idx, *production_idx)\n                                    .symbols()\n                                    .len(),\n                            )\n                            .unwrap();","                            let n_symbols: u16 = *codes.entry((*non_terminal_idx, *production_idx)).or_insert_with(|| {\n                                u16::try_from(\n                                    grammar\n                                        .get_production(*non_terminal_idx, *production_idx)\n                                        .symbols()\n                                        .len(),\n                                )\n                                .unwrap()\n                            });")]),
('enum-match-symbol',[(W,"            let idx = t_indices\n                .get(&str)\n                .unwrap_or_else(|| panic!(\"Unknown non-terminal: {:?}\", str));\n            symbols.push(BoundSymbol {\n                binder,\n                symbol: Symbol::Terminal(*idx),\n            });","            match t_indices.get(&str) {\n                Some(idx) => symbols.push(BoundSymbol { binder, symbol: Symbol::Terminal(*idx) }),\n                None => panic!(\"Unknown terminal: {:?}\", str),\n            }")]),
('entries-sorted',[(G,"    let parser_structs: Vec<TokenStream> = nt_state_indices\n        .into_iter()\n        .map(|(non_terminal_idx, parser_state)| {","    let mut entries: Vec<NonTerminalIdx> = nt_state_indices.keys().copied().collect();\n    entries.sort();\n    let parser_structs: Vec<TokenStream> = entries\n        .into_iter()\n        .map(|non_terminal_idx| {\n            let parser_state = nt_state_indices[&non_terminal_idx];")]),
('len-fold',[(G,"                            let n_symbols: u16 = u16::try_from(\n                                grammar\n                                    .get_production(*non_terminal_idx, *production_idx)\n                                    .symbols()\n                                    .len(),\n                            )\n                            .unwrap();","                            let n_symbols: u16 = grammar\n                                .get_production(*non_terminal_idx, *production_idx)\n                                .symbols()\n                                .iter()\n                                .fold(0u16, |n, _| n.checked_add(1).unwrap());")]),
]
M=[x for x in M if x[0] not in ('c13-bigset','c14-states-again')]
M=[dict(name='q-'+x[0],props=x[1],edits=x[2],count=1) for x in M]
M+=[dict(name='r-q-'+x[0],props=[],edits=x[1],count=1) for x in REF]
