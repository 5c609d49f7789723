F='first.rs'
R='lr1.rs'
G='grammar.rs'
A='ast.rs'
W='lower.rs'
INS1="""                    if closure.insert(item.clone()) {
                        work_list.push(item);
                    }
                }
                if first.has_empty() {"""
INS2="""                        lookahead: None,
                    };
                    if closure.insert(item.clone()) {
                        work_list.push(item);
                    }"""
POP="    while let Some(item) = work_list.pop() {"
M=[
('c14-push-tok',[(R,INS1,INS1.replace("if closure.insert(item.clone()) {","closure.insert(item.clone());\n                    {"))]),
('c14-push-eof',[(R,INS2,INS2.replace("if closure.insert(item.clone()) {","closure.insert(item.clone());\n                    {"))]),
('c14-push-if-new-or-self',[(R,INS2,INS2.replace("if closure.insert(item.clone()) {","if closure.insert(item.clone()) || production_idx.as_usize() > 2 {"))]),
('c14-set-empty-true',[(F,"        *empty = true;\n        !old_value","        *empty = true;\n        !old_value || non_terminal_idx.as_usize() > 5")]),
('c14-upd-nullable',[(F,"""                // If we reached here then all symbols in the production are empty, so the
                // non-terminal can be empty
                updated |= table.set_empty(non_terminal_idx);""","""                table.set_empty(non_terminal_idx);
                updated = true;""")]),
('c14-upd-terminal',[(F,"                            updated |= table.add_first(non_terminal_idx, *terminal);\n                            continue 'production_loop;\n                        }\n                    }","                            table.add_first(non_terminal_idx, *terminal);\n                            updated |= non_terminal.productions.len() > 3;\n                            continue 'production_loop;\n                        }\n                    }")]),
('c14-upd-gotos',[(R,"        if !new_states.is_empty() {\n            updated = true;","        if !new_gotos.is_empty() {\n            updated = true;")]),
('c14-no-index',[(R,"                        state_indices.insert(goto, next_state_idx);\n","")]),
('c14-peek-work',[(R,POP,"    while let Some(item) = work_list.last().cloned() {\n        if item.cursor > 1 && item.next_non_terminal(grammar).is_some() {\n            work_list.swap(0, 0);\n        } else {\n            work_list.pop();\n        }")]),
('c14-first-remove',[(F,"                            if empty {\n                                // Continue","                            if !empty {\n                                table.0[non_terminal_idx.as_usize()].terminals.retain(|t| t.as_usize() != 0);\n                            }\n                            if empty {\n                                // Continue")]),
('c14-production-skip',[(A,"            symbols.push(input.parse::<Symbol>()?);","            if let Ok(symbol) = input.parse::<Symbol>() {\n                symbols.push(symbol);\n            }")]),
('c14-parser-skip',[(A,"            items.push(input.parse::<GrammarItem>()?);","            if input.peek(syn::token::Semi) {\n                continue;\n            }\n            items.push(input.parse::<GrammarItem>()?);")]),
('c14-lower-while',[(W,"            for sym in prod.symbols {\n                add_symbol(&nt_indices, &t_indices, &mut symbols, None, sym);\n            }","            let mut k = 0;\n            while k < prod.symbols.len() {\n                if k > 0 && symbols.len() > 9 {\n                    continue;\n                }\n                add_symbol(&nt_indices, &t_indices, &mut symbols, None, prod.symbols[k].clone());\n                k += 1;\n            }")]) if False else None,
# behaviour kept
('r-c14-loop-break',[(F,"    let mut updated = true;\n    while updated {\n        updated = false;","    loop {\n        let mut updated = false;"),(F,"                updated |= table.set_empty(non_terminal_idx);\n            }\n        }\n","                updated |= table.set_empty(non_terminal_idx);\n            }\n        }\n        if !updated {\n            break;\n        }\n")]),
('r-c14-if-insert',[(F,"                            updated |= table.add_first(non_terminal_idx, *terminal);","                            if table.add_first(non_terminal_idx, *terminal) {\n                                updated = true;\n                            }")]),
('r-c14-count',[(F,"    let mut updated = true;\n    while updated {\n        updated = false;","    loop {\n        let mut changes = 0usize;"),(F,"updated |= table.set_empty(non_terminal_idx);","if table.set_empty(non_terminal_idx) {\n                    changes += 1;\n                }"),(F,"updated |= table.add_first(non_terminal_idx, terminal);","if table.add_first(non_terminal_idx, terminal) {\n                    changes += 1;\n                }"),(F,"updated |= table.add_first(non_terminal_idx, *terminal);","if table.add_first(non_terminal_idx, *terminal) {\n                    changes += 1;\n                }"),(F,"                    changes += 1;\n                }\n            }\n        }\n","                    changes += 1;\n                }\n            }\n        }\n        if changes == 0 {\n            break;\n        }\n")],0),
('r-c14-contains',[(R,"if closure.insert(item.clone()) {","if !closure.contains(&item) {\n                        closure.insert(item.clone());")],0),
('r-c14-deque',[(R,"    let mut work_list: Vec<LR1Item> = closure.iter().cloned().collect();\n"+POP,"    let mut work_list: std::collections::VecDeque<LR1Item> = closure.iter().cloned().collect();\n    while let Some(item) = work_list.pop_front() {"),(R,"work_list.push(item)","work_list.push_back(item)")],0),
('r-c14-index',[(R,"    let mut work_list: Vec<LR1Item> = closure.iter().cloned().collect();\n"+POP,"    let mut work_list: Vec<LR1Item> = closure.iter().cloned().collect();\n    let mut done = 0;\n    while done < work_list.len() {\n        let item = work_list[done].clone();\n        done += 1;")]),
('r-c14-upd-assign',[(R,"        if !new_states.is_empty() {\n            updated = true;\n        }","        updated |= !new_states.is_empty();")]),
('r-c14-loop-states',[(R,"    let mut updated = true;\n    while updated {\n        updated = false;\n\n        let mut next","    loop {\n        let mut next"),(R,"        if !new_states.is_empty() {\n            updated = true;\n        }","        let done = new_states.is_empty();"),(R,"""            // assert_eq!(old, None, "trying to insert {}", next.0);
        }
""","""            // assert_eq!(old, None, "trying to insert {}", next.0);
        }
        if done {
            break;
        }
"""),(R,"            updated |= old.is_none();\n",""),(R,"let old = automaton","let _ = automaton")]),
]
M=[m for m in M if m]
M=[dict(name=m[0],props=[] if m[0].startswith('r-') else ['C14'],edits=m[1],count=m[2] if len(m)>2 else 1) for m in M]
