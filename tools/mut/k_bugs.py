# a second round of faults, written from the property texts
C='lr_common.rs'
G='lr_codegen.rs'
S='codegen.rs'
W='lower.rs'
M_='grammar.rs'
L='lib.rs'
A='ast.rs'
R='lr1.rs'
F='first.rs'
def rd(f): return open('/repo/src/'+f).read()
def cut(t,x,y):
    i=t.index(x); return t[i:t.index(y,i)]
f=rd(F); r=rd(R); c=rd(C); g=rd(G); s=rd(S); w=rd(W); m=rd(M_); a=rd(A)
FIRSTBLK=cut(r,"            let first = {","            // println!(\n            //     \"LR1 closure item")
M=[
# ---- C01
('c01-self-left',['C01'],[(F,"                            let FirstSet { empty, terminals } = table.get_first(*nt);","                            if *nt == non_terminal_idx {\n                                continue 'production_loop;\n                            }\n                            let FirstSet { empty, terminals } = table.get_first(*nt);")]),
('c01-updated-assign',['C01','C14'],[(F,"                            updated |= table.add_first(non_terminal_idx, *terminal);","                            updated = table.add_first(non_terminal_idx, *terminal);")]),
('c01-eight-passes',['C01'],[(F,"    let mut updated = true;\n    while updated {\n        updated = false;","    let mut updated;\n    for _ in 0..8 {\n        updated = false;"),(F,"                updated |= table.set_empty(non_terminal_idx);\n            }\n        }\n    }","                updated |= table.set_empty(non_terminal_idx);\n            }\n        }\n        if !updated {\n            break;\n        }\n    }")]),
('c01-empty-no-terms',['C01'],[(F,"                            for terminal in terminals.clone() {\n                                updated |= table.add_first(non_terminal_idx, terminal);\n                            }\n                            if empty {","                            if !empty {\n                                for terminal in terminals.clone() {\n                                    updated |= table.add_first(non_terminal_idx, terminal);\n                                }\n                            }\n                            if empty {")]),
('c01-has-empty-and',['C01','C02'],[(F,"        self.empty\n    }\n}\n\nimpl FirstTable","        self.empty && self.terminals.is_empty()\n    }\n}\n\nimpl FirstTable")]),
('c01-set-empty-clears',['C01'],[(F,"        *empty = true;\n        !old_value","        *empty = true;\n        let changed = !old_value;\n        if changed {\n            self.0[non_terminal_idx.as_usize()].terminals.clear();\n        }\n        changed")]),
('c01-last-symbol-not-empty',['C01'],[(F,"                for symbol in &production.symbols {\n","                if production.symbols.len() > 8 {\n                    updated |= table.add_first(non_terminal_idx, TerminalIdx::from_usize(0));\n                }\n                for symbol in &production.symbols {\n")]),
('c01-long-production',['C01'],[(F,"                for symbol in &production.symbols {\n","                for symbol in production.symbols.iter().take(4) {\n")]),
('c01-pub-only-order',['C01'],[(F,"                            if empty {\n","                            if empty && *nt < non_terminal_idx {\n")]),
('c01-dirty-nt-only',['C01'],[(F,"        for (non_terminal_idx, non_terminal) in grammar.non_terminal_indices() {\n","        for (non_terminal_idx, non_terminal) in grammar.non_terminal_indices() {\n            if table.get_first(non_terminal_idx).has_empty() && non_terminal.productions.len() == 1 {\n                continue;\n            }\n")]),
# ---- C02
('c02-memo-first',['C02'],[(R,"    let mut work_list: Vec<LR1Item> = closure.iter().cloned().collect();","    let mut memo: Map<(NonTerminalIdx, ProductionIdx, usize), FirstSet> = Default::default();\n    let mut work_list: Vec<LR1Item> = closure.iter().cloned().collect();"),(R,FIRSTBLK,FIRSTBLK.replace("            let first = {","            let key = (item.non_terminal_idx, item.production_idx, item.cursor);\n            let first = if let Some(known) = memo.get(&key) {\n                known.clone()\n            } else {").replace("                first\n            };","                memo.insert(key, first.clone());\n                first\n            };"))]),
('c02-la-only-if-alone',['C02'],[(R,"                if end_allowed {\n","                if end_allowed && first.terminals().is_empty() {\n")]),
('c02-two-ahead',['C02'],[(R,"&production.symbols()[item.cursor + 1..]","production.symbols()[item.cursor + 1..].iter().take(2)")]),
('c02-priv-only',['C02'],[(R,"            for (production_idx, _) in grammar.non_terminal_production_indices(next) {\n","            for (production_idx, _) in grammar.non_terminal_production_indices(next) {\n                if production_idx.0 > 0 && next == item.non_terminal_idx && item.cursor > 0 {\n                    continue;\n                }\n")]),
('c02-expanded-set',['C02'],[(R,"    while let Some(item) = work_list.pop() {\n        if let Some(next) = item.next_non_terminal(grammar) {","    let mut expanded: Set<(NonTerminalIdx, Option<TerminalIdx>)> = Default::default();\n    while let Some(item) = work_list.pop() {\n        if let Some(next) = item.next_non_terminal(grammar) {\n            if !expanded.insert((next, item.lookahead)) {\n                continue;\n            }")]),
('c02-eof-first-noelse',['C02'],[(R,"                if first.has_empty() {\n                    let item","                if first.has_empty() && first.terminals().is_empty() {\n                    let item")]),
('c02-nullable-last',['C02'],[(R,"                            if !nt_first.has_empty() {","                            if !nt_first.has_empty() || *nt == next {")]),
('c02-terminal-cont',['C02'],[(R,"                            first.add(*t);\n                            break;","                            first.add(*t);\n                            if *t != TerminalIdx::from_usize(0) {\n                                break;\n                            }")]),
('c02-own-la-as-eof',['C02'],[(R,"                        Some(lookahead) => first.add(*lookahead),","                        Some(lookahead) if first.terminals().len() < 32 => first.add(*lookahead),\n                        Some(_) => {}")]),
# ---- C03
('c03-subset-share',['C03'],[(R,"                match state_indices.get(&goto) {\n                    Some(goto_state_idx) => {\n                        new_gotos.push((state_idx, symbol, *goto_state_idx));","                let known = state_indices\n                    .get(&goto)\n                    .or_else(|| state_indices.iter().find(|(k, _)| goto.is_subset(k)).map(|(_, v)| v));\n                match known {\n                    Some(goto_state_idx) => {\n                        new_gotos.push((state_idx, symbol, *goto_state_idx));")]),
('c03-complete-merge',['C03'],[(R,"    for item in state {\n        if let Some(next_symbol) = item.next_symbol(grammar) {\n            if next_symbol == symbol {\n                goto.insert(item.advance());","    for item in state {\n        if let Some(next_symbol) = item.next_symbol(grammar) {\n            if next_symbol == symbol {\n                let mut next = item.advance();\n                if next.is_complete(grammar) && item.cursor > 2 {\n                    next.lookahead = item.lookahead.filter(|_| state.len() > 1);\n                }\n                goto.insert(next);")]),
('c03-skip-done',['C03'],[(R,"    let mut updated = true;\n    while updated {\n        updated = false;\n\n        let mut next_state_idx","    let mut updated = true;\n    let mut done = 0;\n    while updated {\n        updated = false;\n\n        let mut next_state_idx"),(R,"        for (state_idx, state) in automaton.state_indices() {\n            for symbol in grammar","        for (state_idx, state) in automaton.state_indices().skip(done) {\n            for symbol in grammar"),(R,"        automaton.states.extend(new_states.into_iter());","        automaton.states.extend(new_states.into_iter());\n        done = automaton.states.len();")]),
('c03-one-state-per-pass',['C03'],[(R,"        if !new_states.is_empty() {\n            updated = true;\n        }","        if new_states.len() > 1 {\n            updated = true;\n        }"),(R,"            updated |= old.is_none();","            updated |= old.is_none() && symbol_changed;"),(R,"            let old = automaton.states[state.as_usize()].goto.insert(symbol, next);","            let symbol_changed = matches!(symbol, Symbol::NonTerminal(_));\n            let old = automaton.states[state.as_usize()].goto.insert(symbol, next);")]),
('c03-hash-ignores-la',['C03'],[(R,"    // Maps existing item sets to their state indices, to maintain sharing.\n    let mut state_indices: Map<BTreeSet<LR1Item>, StateIdx> = Default::default();","    // Maps existing item sets to their state indices, to maintain sharing.\n    let mut state_indices: Map<BTreeSet<LR1Item>, StateIdx> = Default::default();\n    let mut kernels: Map<Vec<(NonTerminalIdx, ProductionIdx, usize)>, StateIdx> = Default::default();"),(R,"                match state_indices.get(&goto) {\n","                let kernel: Vec<_> = goto\n                    .iter()\n                    .map(|i| (i.non_terminal_idx, i.production_idx, i.cursor))\n                    .collect();\n                let by_kernel = kernels.get(&kernel).filter(|_| goto.len() == 1);\n                match state_indices.get(&goto).or(by_kernel) {\n"),(R,"                        state_indices.insert(goto, next_state_idx);","                        kernels.insert(kernel, next_state_idx);\n                        state_indices.insert(goto, next_state_idx);")]),
('c03-entry-idx',['C03','C12'],[(R,"            let i0_state_idx: StateIdx = StateIdx(automaton.states.len());","            let i0_state_idx: StateIdx = StateIdx(non_terminal_state_indices.len().min(1));")]),
('c03-drop-big',['C03','C14'],[(R,"                if goto.is_empty() {\n","                if goto.is_empty() || goto.len() > 4096 {\n")]),
('c03-empty-rhs-goto',['C03'],[(R,"            if next_symbol == symbol {\n                goto.insert","            if next_symbol == symbol && (item.cursor > 0 || !goto.iter().any(|g: &LR1Item| g.non_terminal_idx == item.non_terminal_idx && g.lookahead == item.lookahead)) {\n                goto.insert")]),
# ---- C04
('c04-eps-eof',['C04'],[(R,"            if item.is_complete(grammar) && !non_terminal.public {","            if item.is_complete(grammar)\n                && !non_terminal.public\n                && (item.cursor > 0 || item.lookahead.is_some() || state.goto.is_empty())\n            {")]),
('c04-accept-any-cursor',['C04'],[(R,"            if non_terminal.public && item.cursor == 1 && item.lookahead.is_none() {","            if non_terminal.public && item.cursor == 1 && state.items.len() == 1 {")]),
('c04-first-lookahead',['C04'],[(R,"                table.add_reduce(\n                    grammar,\n                    state_idx,\n                    item.lookahead,","                if item.lookahead.is_none() && state.items.len() > 64 {\n                    continue;\n                }\n                table.add_reduce(\n                    grammar,\n                    state_idx,\n                    item.lookahead,")]),
('c04-complete-ge',['C04'],[(R,"        self.cursor == production.symbols().len()","        self.cursor + 1 >= production.symbols().len() && self.cursor > 0 || production.symbols().is_empty()")]),
('c04-goto-first-item',['C04','C06'],[(R,"            for (symbol, next) in state.gotos() {\n                if let Symbol::NonTerminal(nt) = symbol {","            for (symbol, next) in state.gotos() {\n                if let (Symbol::NonTerminal(nt), false) = (symbol, non_terminal.public && item.cursor == 0 && state.items.len() > 1) {")]),
# ---- C05
('c05-rr-order',['C05'],[(C,"                LRAction::Reduce(nt_, p_, _) => {\n                    panic!(","                LRAction::Reduce(nt_, p_, _) if (nt_, p_) < (non_terminal_idx, production_idx) => {\n                    panic!("),(C,"                LRAction::Accept => {\n                    panic!(\n                        \"({}, {:?}): Overriding Accept action with Reduce","                LRAction::Reduce(..) => {}\n                LRAction::Accept => {\n                    panic!(\n                        \"({}, {:?}): Overriding Accept action with Reduce")]),
('c05-warn',['C05'],[(C,"            if old_action != LRAction::Accept {\n                panic!(","            if old_action != LRAction::Accept {\n                eprintln!(")]),
('c05-eof-shift-zero',['C05'],[(C,"                LRAction::Shift(s) => {\n                    panic!(","                LRAction::Shift(s) if s == state => {}\n                LRAction::Shift(s) => {\n                    panic!(")]),
('c05-silent-restore',['C05'],[(C,"                LRAction::Reduce(nt_, p_, _) => {\n                    panic!(","                LRAction::Reduce(nt_, p_, a_) if nt_ == non_terminal_idx => {\n                    let first = if p_ < production_idx { LRAction::Reduce(nt_, p_, a_) } else { return; };\n                    action.insert(token, first);\n                }\n                LRAction::Reduce(nt_, p_, _) => {\n                    panic!(")]),
('c05-accept-if-free',['C05'],[(C,"        let old_action = self\n            .table\n            .action\n            .entry(state)\n            .or_default()\n            .insert(None, LRAction::Accept);","        let row = self.table.action.entry(state).or_default();\n        if row.contains_key(&None) && row.len() > 1 {\n            return;\n        }\n        let old_action = row.insert(None, LRAction::Accept);")]),
# ---- C06
('c06-goto-last-col',['C06'],[(G,"        for next_state in state {\n            non_terminal_array.push(match next_state {\n                Some(next_state) => {","        for next_state in state {\n            non_terminal_array.push(match next_state {\n                Some(next_state) if next_state.as_usize() == 0 => quote!(None),\n                Some(next_state) => {")]),
('c06-nsyms-of-nt',['C06'],[(G,"                                grammar\n                                    .get_production(*non_terminal_idx, *production_idx)\n                                    .symbols()\n                                    .len(),","                                grammar\n                                    .get_non_terminal(*non_terminal_idx)\n                                    .productions()\n                                    .last()\n                                    .unwrap()\n                                    .symbols()\n                                    .len()\n                                    .max(production_idx.as_usize() * 0),")]),
('c06-compress-default',['C06'],[(G,"                None => terminal_array.push(quote!(None)),","                None => match state.iter().flatten().next() {\n                    Some(LRAction::Accept) if state.iter().flatten().count() == 1 => {\n                        terminal_array.push(quote!(Some(LRAction::Accept)))\n                    }\n                    _ => terminal_array.push(quote!(None)),\n                },")]),
('c06-names-dedup',['C06','C10'],[(S,"                        fn_names.push(fn_name);","                        if !symbols.is_empty() || p_i == 0 {\n                            fn_names.push(fn_name);\n                        } else {\n                            fn_names.insert(0, fn_name);\n                        }")]),
('c06-reduce-nt-u8',['C06','C15'],[(G,"                            let non_terminal_idx: u16 =\n                                u16::try_from(non_terminal_idx.as_usize()).unwrap();","                            let non_terminal_idx = non_terminal_idx.as_usize() as u16;")]),
# ---- C07/C08/C09 driver
('c07-pop-wrap',['C07'],[(G,"                        for _ in 0 .. n_symbols {","                        for _ in 0 .. n_symbols.min(64) {")]),
('c07-value-only-named',['C07','C10','C08'],[(G,"                        if let Some(Ok(token)) = token_ {\n                            value_stack.push","                        if let (Some(Ok(token)), true) = (token_, state_stack.len() < 1 << 16) {\n                            value_stack.push")]),
('c08-skip-one',['C08'],[(G,"                    None => {\n                        let found","                    None if state_stack.len() == 1 && token.is_some() && EXPECTED_TERMINALS[state].is_empty() => {\n                        token = input.next();\n                    }\n                    None => {\n                        let found")]),
('c08-fuse',['C08'],[(G,"            let mut token = input.next();","            let mut input = input.by_ref().peekable();\n            let mut token = input.next();\n            let _ = input.peek();")]),
('c08-lexerr-after-reduce',['C08'],[(G,"                    Some(Err(err)) => return Err(ParseError::LexerError(err.clone())),","                    Some(Err(err)) if state_stack.len() > 1 => return Err(ParseError::LexerError(err.clone())),\n                    Some(Err(_)) => #n_terminals,")]),
('c09-found-eof',['C09'],[(G,"let found = TERMINAL_STRS[terminal_idx];","let found = TERMINAL_STRS[if state_stack.len() == 1 { #n_terminals } else { terminal_idx }];")]),
('c09-expected-nonempty',['C09'],[(S,"        strs.push(expected_terminals.join(\", \"));","        if expected_terminals.is_empty() {\n            expected_terminals.push(\"end-of-input\");\n        }\n        strs.push(expected_terminals.join(\", \"));")]),
('c09-dedup',['C09'],[(S,"                expected_terminals.push(grammar.get_terminal(terminal_idx));","                let text = grammar.get_terminal(terminal_idx);\n                if !expected_terminals.iter().any(|t| t.ends_with(text)) {\n                    expected_terminals.push(text);\n                }")]),
# ---- C10
('c10-pop-and-drop',['C10','C07'],[(S,"                                None => {\n                                    pop_code.push(quote!(value_stack.pop()));","                                None if matches!(kind, Symbol::Terminal(_)) => {\n                                    pop_code.push(quote!(let _ = value_stack.pop()));\n                                }\n                                None => {\n                                    pop_code.push(quote!(value_stack.last()));")]),
('c10-bind-sorted',['C10'],[(S,"for BoundSymbol { binder, symbol: kind } in symbols.iter().rev() {","let mut order: Vec<&BoundSymbol> = symbols.iter().rev().collect();\n                        order.sort_by_key(|b| b.binder.is_none());\n                        for BoundSymbol { binder, symbol: kind } in order {")]),
('c10-underscore-name',['C10'],[(S,"                                Some(Name {\n                                    mutable,\n                                    name,\n                                }) => {","                                Some(Name { name, .. }) if name.to_string().starts_with('_') => {\n                                    pop_code.push(quote!(let #name = ()));\n                                }\n                                Some(Name {\n                                    mutable,\n                                    name,\n                                }) => {")]),
# ---- C11
('c11-choose-in-tuple',['C11'],[(S,"        Pattern::Enum(_, pats) | Pattern::Tuple(pats) => {\n            for pat in pats {","        Pattern::Enum(_, pats) | Pattern::Tuple(pats) => {\n            for pat in pats.iter().take(4) {")]),
('c11-struct-order',['C11'],[(S,"            for FieldPattern { pattern, .. } in pats {\n                pattern_types_(pattern, acc);","            let mut fields: Vec<&FieldPattern> = pats.iter().collect();\n            fields.sort_by_key(|f| f.field_name.to_string());\n            for FieldPattern { pattern, .. } in fields {\n                pattern_types_(pattern, acc);")]),
('c11-enum-empty-dots',['C11'],[(S,"            let pats: Vec<TokenStream> = pats.iter().map(pattern_ignore).collect();\n            quote!(#path(#(#pats,)*))","            if pats.is_empty() {\n                return quote!(#path(..));\n            }\n            let pats: Vec<TokenStream> = pats.iter().map(pattern_ignore).collect();\n            quote!(#path(#(#pats,)*))")]),
('c11-lit-neg',['C11'],[(S,"        Pattern::Lit(lit) => quote!(#lit),\n\n        Pattern::Choose(_) => quote!(_),","        Pattern::Lit(syn::Lit::Str(_)) => quote!(_),\n\n        Pattern::Lit(lit) => quote!(#lit),\n\n        Pattern::Choose(_) => quote!(_),")]),
# ---- C12
('c12-first-pub-state',['C12'],[(G,"            let parser_state = u32::try_from(parser_state.as_usize()).unwrap();","            let parser_state = u32::try_from(parser_state.as_usize().min(grammar.n_non_terminals() / 2)).unwrap();")]),
('c12-use-entry-inside',['C12','C04'],[(W,"            let old = nt_indices.insert(nt.name.to_string(), nt1_idx);\n            if old.is_some() {\n                panic!(\"Non-terminal {} defined multiple times\", nt.name);\n            }\n\n            // Create the entry point\n            let nt_idx = grammar.add_non_terminal(nt.name.to_string(), nt.type_decl.clone(), true);","            let old = nt_indices.insert(nt.name.to_string(), nt1_idx);\n            if old.is_some() {\n                panic!(\"Non-terminal {} defined multiple times\", nt.name);\n            }\n\n            // Create the entry point\n            let nt_idx = grammar.add_non_terminal(nt.name.to_string(), nt.type_decl.clone(), nt.productions.len() > 0);")]),
# ---- C13
('c13-span-debug',['C13'],[(S,"            &format!(\"nt{}p{}_action\", nt_i, p_i),","            &format!(\"nt{}p{}_action\", nt_i, p_i + format!(\"{:?}\", Span::call_site()).len()),")]),
('c13-ptr',['C13'],[(R,"    closure.into_iter().collect()","    let mut v: Vec<LR1Item> = closure.into_iter().collect();\n    let k = &v as *const _ as usize;\n    if k % 2 == 1 {\n        v.reverse();\n    }\n    v.into_iter().collect()")]),
('c13-counter',['C13'],[(S,"    let n_fns = fn_names.len();","    static CALLS: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);\n    let _n = CALLS.fetch_add(1, std::sync::atomic::Ordering::Relaxed);\n    let n_fns = fn_names.len();")]),
('c13-file',['C13'],[(G,"    let action_vec = action_table_vec(","    if n_terminals > 1000 {\n        let _ = std::fs::write(\"/tmp/parsegen.log\", \"big\");\n    }\n    let action_vec = action_table_vec(")]),
('c13-random-state',['C13'],[(S,"    let mut non_terminal_ty_indices: Map<syn::Type, usize> = Default::default();","    let mut non_terminal_ty_indices: std::collections::HashMap<syn::Type, usize> = Default::default();\n    non_terminal_ty_indices.reserve(non_terminal_ty_indices.iter().count());")]),
('c13-time',['C13'],[(G,"    let first_table = generate_first_table(&grammar);","    let started = std::time::Instant::now();\n    let first_table = generate_first_table(&grammar);\n    if started.elapsed().as_secs() > 3600 {\n        panic!(\"too slow\");\n    }")]),
('c13-once',['C13'],[(L,"    let token_enum = token_enum.expect(\"Token type (`enum Token`) is not defined\");","    static SEEN: std::sync::OnceLock<usize> = std::sync::OnceLock::new();\n    let first = *SEEN.get_or_init(|| non_terminals.len());\n    let _ = first;\n    let token_enum = token_enum.expect(\"Token type (`enum Token`) is not defined\");")]),
# ---- C14
('c14-items-noprogress',['C14','C16'],[(A,"            while !contents.is_empty() {\n                productions.push(contents.parse::<Production>()?);","            while !contents.is_empty() {\n                if let Ok(p) = contents.parse::<Production>() {\n                    productions.push(p);\n                }")]),
('c14-first-toggle',['C14','C01'],[(F,"        let old_value = *empty;\n        *empty = true;\n        !old_value","        let old_value = *empty;\n        *empty = true;\n        !old_value || self.0[non_terminal_idx.as_usize()].terminals.is_empty()")]),
('c14-nt-iter',['C14'],[(M_,"                self.production_idx = ProductionIdx(production_idx.0 + 1);\n                (production_idx, production)","                self.production_idx = ProductionIdx((production_idx.0 + 1) & 0xffff);\n                (production_idx, production)")]),
# ---- C15
('c15-sem-as',['C15'],[(S,"SemanticActionIdx(u16::try_from(fn_idx).unwrap())","SemanticActionIdx(fn_idx as u16)")]),
('c15-nsym-min',['C15'],[(G,"                                    .symbols()\n                                    .len(),\n                            )\n                            .unwrap();","                                    .symbols()\n                                    .len(),\n                            )\n                            .unwrap_or(u16::MAX);")]),
('c15-nt-mask',['C15'],[(G,"u16::try_from(non_terminal_idx.as_usize()).unwrap();","u16::try_from(non_terminal_idx.as_usize() & 0xffff).unwrap();")]),
('c15-goto-as',['C15'],[(G,"                    let next_state: u32 = u32::try_from(next_state.as_usize()).unwrap();\n                    quote!(Some(#next_state))","                    let next_state = next_state.as_usize() as u32;\n                    quote!(Some(#next_state))")]),
('c15-gen-u16-stack',['C15','C07'],[(G,"let mut state_stack: Vec<u32> = vec![init_state];","let mut state_stack: Vec<u16> = vec![init_state as u16];"),(G,"state_stack.push(next_state);\n                        let token_","state_stack.push(next_state as u16);\n                        let token_"),(G,"Some(next_state) => state_stack.push(next_state),","Some(next_state) => state_stack.push(next_state as u16),")]),
('c15-state-default',['C15'],[(G,"                            let next_state: u32 = u32::try_from(next_state.as_usize()).unwrap();\n                            quote!(LRAction::Shift","                            let next_state: u32 = u32::try_from(next_state.as_usize()).unwrap_or_default();\n                            quote!(LRAction::Shift")]),
('c15-err-zero',['C15'],[(S,"SemanticActionIdx(u16::try_from(fn_idx).unwrap())","SemanticActionIdx(match u16::try_from(fn_idx) {\n                                Ok(idx) => idx,\n                                Err(_) => 0,\n                            })")]),
('c15-u16-counter',['C15'],[(S,"    let mut fn_names: Vec<syn::Ident> = vec![];","    let mut fn_names: Vec<syn::Ident> = vec![];\n    let next_fn = std::cell::Cell::new(0u16);"),(S,"                            action: SemanticActionIdx(u16::try_from(fn_idx).unwrap()),","                            action: {\n                                let _ = fn_idx;\n                                let idx = next_fn.get();\n                                next_fn.set(idx.wrapping_add(1));\n                                SemanticActionIdx(idx)\n                            },")]),
('c15-terminal-u8',['C15'],[(M_,"        let idx = TerminalIdx(u32::try_from(self.terminals.len()).unwrap());","        let idx = TerminalIdx(u32::from(self.terminals.len() as u16));")]),
('c15-pop-u8',['C15','C07'],[(G,"                n_symbols: u16,\n                semantic_action_idx: u16,","                n_symbols: u8,\n                semantic_action_idx: u16,"),(G,"                            let n_symbols: u16 = u16::try_from(","                            let n_symbols: u8 = u8::try_from("),(G,"                                    .symbols()\n                                    .len(),\n                            )\n                            .unwrap();","                                    .symbols()\n                                    .len() % 256,\n                            )\n                            .unwrap();")]),
# ---- C16
('c16-repeat-plain',['C16'],[(W,"        ast::Symbol::Repeat(_) => {\n            todo!(\"Repeat symbol not supported yet\");","        ast::Symbol::Repeat(rep) if matches!(rep.op, ast::RepeatOp::Plus) && binder.is_none() => {\n            add_symbol(nt_indices, t_indices, symbols, binder, rep.symbol)\n        }\n        ast::Symbol::Repeat(_) => {\n            todo!(\"Repeat symbol not supported yet\");")]),
('c16-empty-token',['C16'],[(W,"        for conv in terminals {\n","        for conv in terminals {\n            if conv.from.is_empty() {\n                continue;\n            }\n")]),
('c16-dup-nt-merge',['C16'],[(W,"            let old = nt_indices.insert(nt_name, nt_idx);\n            if old.is_some() {","            let old = nt_indices.insert(nt_name, nt_idx);\n            if old.is_some() && nt.productions.is_empty() {")]),
('c16-undeclared-eof',['C16'],[(W,"                .unwrap_or_else(|| panic!(\"Unknown non-terminal: {:?}\", str));","                .or_else(|| t_indices.get(str.trim()))\n                .unwrap_or_else(|| panic!(\"Unknown non-terminal: {:?}\", str));")]),
('c16-mut-swallow',['C16','C17'],[(A,"    input.parse::<syn::token::Colon>()?;\n    let symbol = input.parse::<Symbol>()?;","    let _ = input.parse::<syn::token::Colon>();\n    let symbol = input.parse::<Symbol>()?;")]),
# ---- C17
('c17-nt-vis-crate',['C17','C12'],[(A,"            input.parse::<syn::token::Pub>()?;\n            Ok(Visibility::Pub)","            input.parse::<syn::token::Pub>()?;\n            if input.peek(syn::token::Paren) {\n                let _scope;\n                syn::parenthesized!(_scope in input);\n                return Ok(Visibility::Priv);\n            }\n            Ok(Visibility::Pub)")]),
('c17-tuple-one',['C17','C11'],[(A,"            Ok(Pattern::Tuple(fields))","            if fields.len() == 1 {\n                return Ok(fields.pop().unwrap());\n            }\n            Ok(Pattern::Tuple(fields))")]),
('c17-enum-unit',['C17','C11'],[(A,"                Ok(Pattern::Enum(path.path, fields))","                if fields.is_empty() {\n                    return Ok(Pattern::Path(path.path));\n                }\n                Ok(Pattern::Enum(path.path, fields))")]),
('c17-conv-reuse',['C17','C16'],[(A,"            from: from.value(),","            from: from.value().replace(' ', \"\"),")]),
# ---- C18
('c18-type-text-len',['C18'],[(S,"    let mut non_terminal_ty_indices: Map<syn::Type, usize> = Default::default();","    let mut non_terminal_ty_indices: Map<String, usize> = Default::default();"),(S,"            .get(&non_terminal.return_ty)\n            .copied()","            .get(&type_key(&non_terminal.return_ty))\n            .copied()"),(S,"                non_terminal_ty_indices.insert(non_terminal.return_ty.clone(), i);","                non_terminal_ty_indices.insert(type_key(&non_terminal.return_ty), i);"),(S,"fn pattern_types(pat: &Pattern) -> Vec<&syn::Type> {","fn type_key(ty: &syn::Type) -> String {\n    match ty {\n        syn::Type::Reference(r) => type_key(&r.elem),\n        _ => quote!(#ty).to_string(),\n    }\n}\n\nfn pattern_types(pat: &Pattern) -> Vec<&syn::Type> {")]),
('c18-push-index',['C18','C10'],[(S,"                non_terminal_action_variant_names.push(i);\n            }\n            None","                non_terminal_action_variant_names.push(i.min(255));\n            }\n            None")]),
('c18-token-wrap',['C18','C11'],[(S,"        let variant_id = syn::Ident::new(&format!(\"Token{}\", i), Span::call_site());\n        variants.push(quote!(\n            #pattern_code","        let variant_id = syn::Ident::new(&format!(\"Token{}\", i % 256), Span::call_site());\n        variants.push(quote!(\n            #pattern_code")]),
('c18-method-plus',['C18','C10'],[(S,"        let method_id = syn::Ident::new(&format!(\"token_{}\", i), Span::call_site());","        let method_id = syn::Ident::new(&format!(\"token_{}\", (i + 1) % tokens.len()), Span::call_site());")]),
('c18-pop-method',['C18','C10'],[(S,"        let method_id = syn::Ident::new(&format!(\"token_{}\", i), Span::call_site());","        let method_id = syn::Ident::new(&format!(\"token_{}\", i % 100), Span::call_site());")]),
]
REF=[
('keep-shift',[(C,"""                LRAction::Shift(s) => {
                    panic!(
                        "({}, {:?}): Overriding Shift({}) with Reduce({}, {})",
                        state.0,
                        token.map(|t| grammar.get_terminal(t)),
                        s.0,
                        non_terminal_idx.0,
                        production_idx.0
                    )
                }""","""                LRAction::Shift(s) => {
                    action.insert(token, LRAction::Shift(s));
                }""")]),
('rr-same-production',[(C,"                LRAction::Reduce(nt_, p_, _) => {\n                    panic!(","                LRAction::Reduce(nt_, p_, _) if nt_ == non_terminal_idx && p_ == production_idx => {}\n                LRAction::Reduce(nt_, p_, _) => {\n                    panic!(")]),
('method-names',[(S,"&format!(\"token_{}\", terminal_idx.as_usize())","&format!(\"take_token{}\", terminal_idx.as_usize())"),(S,"let method_id = syn::Ident::new(&format!(\"token_{}\", i)","let method_id = syn::Ident::new(&format!(\"take_token{}\", i)")]),
('accept-swap-remove',[(G,"            Ok(extract_value(value_stack.pop().unwrap()))","            Ok(extract_value(value_stack.swap_remove(0)))")]),
('type-key-paren',[(S,"            .get(&non_terminal.return_ty)\n            .copied()","            .get(plain(&non_terminal.return_ty))\n            .copied()"),(S,"                non_terminal_ty_indices.insert(non_terminal.return_ty.clone(), i);","                non_terminal_ty_indices.insert(plain(&non_terminal.return_ty).clone(), i);"),(S,"fn pattern_types(pat: &Pattern) -> Vec<&syn::Type> {","fn plain(ty: &syn::Type) -> &syn::Type {\n    match ty {\n        syn::Type::Paren(p) => plain(&p.elem),\n        syn::Type::Group(p) => plain(&p.elem),\n        _ => ty,\n    }\n}\n\nfn pattern_types(pat: &Pattern) -> Vec<&syn::Type> {")]),
]
M=[dict(name='k-'+x[0],props=x[1],edits=x[2],count=1) for x in M]
M+=[dict(name='r-k-'+x[0],props=[],edits=x[1],count=1) for x in REF]
