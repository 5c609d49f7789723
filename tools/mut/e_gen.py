G='lr_codegen.rs'
D='codegen.rs'
RED="""                        (SEMANTIC_ACTIONS[semantic_action_idx as usize])(&mut value_stack);
                        for _ in 0 .. n_symbols {
                            state_stack.pop().unwrap();
                        }
                        let state = *state_stack.last().unwrap() as usize;
                        match GOTO[state][non_terminal_idx as usize] {
                            None => panic!("Stuck! (2)"),
                            Some(next_state) => state_stack.push(next_state),
                        }"""
POPS="""                        for _ in 0 .. n_symbols {
                            state_stack.pop().unwrap();
                        }"""
SH="""                        state_stack.push(next_state);
                        let token_ = ::std::mem::replace(&mut token, input.next());
                        if let Some(Ok(token)) = token_ {
                            value_stack.push(#token_value_fn_name(token));
                        }"""
COL="""                let terminal_idx = match &token {
                    None => #n_terminals,
                    Some(Err(err)) => return Err(ParseError::LexerError(err.clone())),
                    Some(Ok(token)) => #token_terminal_idx_fn_name(&token),
                };"""
ERRP="""                        let found = TERMINAL_STRS[terminal_idx];
                        let expected = EXPECTED_TERMINALS[state];
                        return Err(ParseError::ParserError {
                            found, expected
                        });"""
END="""            SEMANTIC_ACTIONS[action_idx](&mut value_stack);

            Ok(extract_value(value_stack.pop().unwrap()))"""
LOOP="""            let mut token = input.next();

            loop {
                let state = *state_stack.last().unwrap() as usize;
"""
EXP="""            if lr_table
                .get_action(StateIdx(state_idx), Some(terminal_idx))
                .is_some()
            {
                expected_terminals.push(grammar.get_terminal(terminal_idx));
            }"""
EXPF="""    for state_idx in 0..n_states {
        let mut expected_terminals: Vec<&str> = vec![];

        for terminal_idx in 0..n_terminals {
            let terminal_idx = TerminalIdx::from_usize(terminal_idx);
"""+EXP+"""
        }

        strs.push(expected_terminals.join(", "));
    }"""
def m(name, props, *edits, **k):
    return dict(name=name, props=props, edits=list(edits), **k)
M=[
 m('c07-pop-one-more',['C07'],(G,'for _ in 0 .. n_symbols {','for _ in 0 .. n_symbols + 1 {')),
 m('c07-pop-one-less',['C07'],(G,'for _ in 0 .. n_symbols {','for _ in 1 .. n_symbols {')),
 m('c07-goto-before-pop',['C07'],(G,RED,RED.replace(POPS+"\n",'').replace("let state = *state_stack.last().unwrap() as usize;\n","let state = *state_stack.last().unwrap() as usize;\n"+POPS+"\n"))),
 m('c07-goto-old-state',['C07'],(G,"                        let state = *state_stack.last().unwrap() as usize;\n                        match GOTO","                        match GOTO")),
 m('c07-empty-production-skips-goto',['C07'],(G,RED,RED.replace("(SEMANTIC_ACTIONS[semantic_action_idx as usize])(&mut value_stack);","(SEMANTIC_ACTIONS[semantic_action_idx as usize])(&mut value_stack);\n if n_symbols == 0 { continue; }"))),
 m('c07-action-twice-when-empty',['C07'],(G,"(SEMANTIC_ACTIONS[semantic_action_idx as usize])(&mut value_stack);","(SEMANTIC_ACTIONS[semantic_action_idx as usize])(&mut value_stack); if n_symbols > 7 { value_stack.pop(); }")),
 m('c07-action-skipped-eoi',['C07'],(G,"(SEMANTIC_ACTIONS[semantic_action_idx as usize])(&mut value_stack);","if token.is_some() || n_symbols > 0 { (SEMANTIC_ACTIONS[semantic_action_idx as usize])(&mut value_stack); }")),
 m('c07-wrong-action-idx',['C07'],(G,"(SEMANTIC_ACTIONS[semantic_action_idx as usize])","(SEMANTIC_ACTIONS[non_terminal_idx as usize])")),
 m('c07-reduce-drains-values',['C07'],(G,"(SEMANTIC_ACTIONS[semantic_action_idx as usize])(&mut value_stack);","(SEMANTIC_ACTIONS[semantic_action_idx as usize])(&mut value_stack); value_stack.truncate(state_stack.len());")),
 m('c07-shift-value-twice',['C07'],(G,"                            value_stack.push(#token_value_fn_name(token));","                            if state_stack.len() > 64 { value_stack.pop(); }\n value_stack.push(#token_value_fn_name(token));")),
 m('c07-accept-no-action',['C07'],(G,END,"if value_stack.len() != 1 { SEMANTIC_ACTIONS[action_idx](&mut value_stack); }\n\n            Ok(extract_value(value_stack.pop().unwrap()))")),
 m('c07-accept-entry-0',['C07'],(G,"SEMANTIC_ACTIONS[action_idx](&mut value_stack);","SEMANTIC_ACTIONS[init_state as usize](&mut value_stack);")),
 m('c07-stale-state-cache',['C07','C09'],(G,"            loop {\n                let state = *state_stack.last().unwrap() as usize;\n","            let mut state = init_state as usize;\n loop {\n"),
    (G,"                        state_stack.push(next_state);\n                        let token_","                        state_stack.push(next_state);\n state = next_state as usize;\n                        let token_"),
    (G,"Some(next_state) => state_stack.push(next_state),","Some(next_state) => state_stack.push(next_state),")),
 m('c07-reuse-state-after-reduce',['C07'],(G,"                        match GOTO[state][non_terminal_idx as usize] {","                        match GOTO[if n_symbols == 0 { init_state as usize } else { state }][non_terminal_idx as usize] {")),
 m('c07-goto-saturating',['C07'],(G,POPS,"                        let keep = state_stack.len() - (n_symbols as usize).min(255);\n state_stack.truncate(keep);")),
 m('c07-reverse-pop',['C07'],(D,"pop_code.push(quote!(value_stack.pop()));","if symbols.len() > 1 { pop_code.push(quote!(value_stack.pop())); }")),
 m('c08-eager-initial',['C08'],(G,"let mut token = input.next();","let mut token = input.next(); let _peek = input.size_hint(); if token.is_none() { token = input.next(); }")),
 m('c08-skip-errors',['C08'],(G,SH,SH.replace("input.next());","{ let mut n = input.next(); if let Some(Err(_)) = n { n = input.next(); } n });"))),
 m('c08-next-on-empty-reduce',['C08'],(G,"(SEMANTIC_ACTIONS[semantic_action_idx as usize])(&mut value_stack);","(SEMANTIC_ACTIONS[semantic_action_idx as usize])(&mut value_stack); if token.is_none() { token = input.next(); }")),
 m('c08-drain-after-accept',['C08'],(G,"            Ok(extract_value(value_stack.pop().unwrap()))","            while let Some(_) = input.next() {}\n            Ok(extract_value(value_stack.pop().unwrap()))")),
 m('c08-lexer-error-as-eoi',['C08'],(G,"Some(Err(err)) => return Err(ParseError::LexerError(err.clone())),","Some(Err(err)) if state_stack.len() == 1 => return Err(ParseError::LexerError(err.clone())), Some(Err(_)) => #n_terminals,")),
 m('c08-no-pull-after-last',['C08'],(G,SH,SH.replace("input.next());\n","if input.size_hint().1 == Some(0) { None } else { input.next() });\n"))),
 m('c08-early-ok',['C08','C07'],(G,"                    None => {\n                        let found","                    None if state_stack.len() == 2 && token.is_none() => break,\n                    None => {\n                        let found")),
 m('c08-two-ahead',['C08'],(G,SH,SH.replace("let token_ = ::std::mem::replace(&mut token, input.next());","let nx = input.next(); let nx = if let None = nx { input.next() } else { nx }; let token_ = ::std::mem::replace(&mut token, nx);"))),
 m('c08-drop-lookahead-on-error-entry',['C08','C09'],(G,"                        let found = TERMINAL_STRS[terminal_idx];","                        if let Some(Err(err)) = input.next() { return Err(ParseError::LexerError(err)); }\n                        let found = TERMINAL_STRS[terminal_idx];")),
 m('c08-stack-overflow-check',['C08'],(G,COL,"""                let terminal_idx = match &token {
                    None => #n_terminals,
                    Some(Err(err)) => return Err(ParseError::LexerError(err.clone())),
                    Some(Ok(token)) => if state_stack.len() > 1000 { #n_terminals } else { #token_terminal_idx_fn_name(&token) },
                };""")),
 m('c09-found-state',['C09'],(G,"TERMINAL_STRS[terminal_idx]","TERMINAL_STRS[if state == 0 { #n_terminals } else { terminal_idx }]")),
 m('c09-expected-init',['C09'],(G,"EXPECTED_TERMINALS[state]","EXPECTED_TERMINALS[init_state as usize]")),
 m('c09-expected-shift-only',['C09'],(D,EXP,"""            if matches!(lr_table.get_action(StateIdx(state_idx), Some(terminal_idx)), Some(LRAction::Shift(_)))
            {
                expected_terminals.push(grammar.get_terminal(terminal_idx));
            }"""),(D,"use crate::lr_common::","use crate::lr_common::LRAction;\nuse crate::lr_common::")),
 m('c09-expected-sorted',['C09'],(D,"        strs.push(expected_terminals.join","        expected_terminals.sort();\n        strs.push(expected_terminals.join")),
 m('c09-expected-dedup-first8',['C09'],(D,"        strs.push(expected_terminals.join","        expected_terminals.truncate(8);\n        strs.push(expected_terminals.join")),
 m('c09-expected-off-by-one',['C09'],(D,"        for terminal_idx in 0..n_terminals {\n            let terminal_idx = TerminalIdx::from_usize(terminal_idx);\n            if lr_table","        for terminal_idx in 1..n_terminals {\n            let terminal_idx = TerminalIdx::from_usize(terminal_idx);\n            if lr_table")),
 m('c09-expected-wrong-state',['C09'],(D,".get_action(StateIdx(state_idx), Some(terminal_idx))",".get_action(StateIdx(state_idx.saturating_sub(1)), Some(terminal_idx))")),
 m('c09-names-skip',['C09'],(D,"""        .map(|terminal_idx| grammar.get_terminal(TerminalIdx::from_usize(terminal_idx)))
        .chain""","""        .map(|terminal_idx| grammar.get_terminal(TerminalIdx::from_usize(terminal_idx)))
        .rev()
        .chain""")),
 m('c09-eoi-first',['C09'],(D,"""    let strs = (0..n_terminals)
        .map(|terminal_idx| grammar.get_terminal(TerminalIdx::from_usize(terminal_idx)))
        .chain(std::iter::once("end-of-input"));""","""    let strs = std::iter::once("end-of-input").chain((0..n_terminals)
        .map(|terminal_idx| grammar.get_terminal(TerminalIdx::from_usize(terminal_idx))));""")),
 m('c09-no-goto-is-error',['C09','C07'],(G,'None => panic!("Stuck! (2)"),','None => return Err(ParseError::ParserError { found: TERMINAL_STRS[terminal_idx], expected: EXPECTED_TERMINALS[state] }),'),(G,'Some(LRAction::Accept) => break,','Some(LRAction::Accept) if state_stack.len() > 2 => return Err(ParseError::ParserError { found: TERMINAL_STRS[terminal_idx], expected: EXPECTED_TERMINALS[state] }),\nSome(LRAction::Accept) => break,')),
 # behaviour-preserving
 m('r-gen-truncate',[],(G,POPS,"                        state_stack.truncate(state_stack.len() - n_symbols as usize);")),
 m('r-gen-while-pop',[],(G,POPS,"                        let mut k = n_symbols;\n while k > 0 { state_stack.pop().unwrap(); k -= 1; }")),
 m('r-gen-goto-unwrap',[],(G,"""                        match GOTO[state][non_terminal_idx as usize] {
                            None => panic!("Stuck! (2)"),
                            Some(next_state) => state_stack.push(next_state),
                        }""","""                        let next_state = GOTO[state][non_terminal_idx as usize].expect("Stuck! (2)");
                        state_stack.push(next_state);""")),
 m('r-gen-pop-first',[],(G,RED,RED.replace("                        (SEMANTIC_ACTIONS[semantic_action_idx as usize])(&mut value_stack);\n","")+"\n                        let action = SEMANTIC_ACTIONS[semantic_action_idx as usize];\n                        action(&mut value_stack);")),
 m('r-gen-cached-state',[],(G,"            loop {\n                let state = *state_stack.last().unwrap() as usize;\n","            let mut current = init_state;\n loop {\n let state = current as usize;\n"),
    (G,"                        state_stack.push(next_state);\n                        let token_","                        state_stack.push(next_state);\n current = next_state;\n                        let token_"),
    (G,"Some(next_state) => state_stack.push(next_state),","Some(next_state) => { state_stack.push(next_state); current = next_state; }")),
 m('r-gen-take-token',[],(G,SH,"""                        state_stack.push(next_state);
                        if let Some(Ok(token)) = token.take() {
                            value_stack.push(#token_value_fn_name(token));
                        }
                        token = input.next();""")),
 m('r-gen-match-token',[],(G,SH,"""                        if let Some(Ok(token)) = token {
                            value_stack.push(#token_value_fn_name(token));
                        }
                        token = input.next();
                        state_stack.push(next_state);""")),
 m('r-gen-err-first',[],(G,COL,"""                if let Some(Err(err)) = token {
                    return Err(ParseError::LexerError(err));
                }
                let terminal_idx = match &token {
                    Some(Ok(token)) => #token_terminal_idx_fn_name(&token),
                    _ => #n_terminals,
                };""")),
 m('r-gen-helper-idx',[],(G,COL,"""                if let Some(Err(err)) = &token {
                    return Err(ParseError::LexerError(err.clone()));
                }
                let terminal_idx = match token.as_ref() {
                    None => #n_terminals,
                    Some(token) => match token { Ok(token) => #token_terminal_idx_fn_name(token), Err(_) => unreachable!() },
                };""")),
 m('r-gen-cooked',[],(G,"            let mut token = input.next();\n","            let mut token = match input.next() { None => None, Some(Ok(t)) => Some(t), Some(Err(e)) => return Err(ParseError::LexerError(e)) };\n"),
   (G,COL,"""                let terminal_idx = match &token {
                    None => #n_terminals,
                    Some(token) => #token_terminal_idx_fn_name(token),
                };"""),
   (G,SH,"""                        state_stack.push(next_state);
                        let next = match input.next() { None => None, Some(Ok(t)) => Some(t), Some(Err(e)) => return Err(ParseError::LexerError(e)) };
                        if let Some(token) = ::std::mem::replace(&mut token, next) {
                            value_stack.push(#token_value_fn_name(token));
                        }""")),
 m('r-gen-accept-return',[],(G,"                    Some(LRAction::Accept) => break,\n                }\n            }\n","                    Some(LRAction::Accept) => {\n SEMANTIC_ACTIONS[action_idx](&mut value_stack);\n return Ok(extract_value(value_stack.pop().unwrap()));\n }\n                }\n            }\n"),
   (G,"            // TODO: We could call the function directly here, instead of going through the\n            // table\n"+END+"\n","")),
 m('r-gen-while-let',[],(G,"                match ACTION[state][terminal_idx] {\n                    None => {","                let action = ACTION[state][terminal_idx];\n                match action {\n                    None => {")),
 m('r-gen-helper-fn',[],(G,"        fn parse_generic<","        fn top(stack: &[u32]) -> usize { stack[stack.len() - 1] as usize }\n\n        fn parse_generic<"),(G,"let state = *state_stack.last().unwrap() as usize;","let state = top(&state_stack);"),count=0),
 m('r-gen-helper-error',[],(G,"        fn parse_generic<","        fn syntax_error<E>(state: usize, terminal_idx: usize) -> ParseError<E> { ParseError::ParserError { found: TERMINAL_STRS[terminal_idx], expected: EXPECTED_TERMINALS[state] } }\n\n        fn parse_generic<"),(G,ERRP,"                        return Err(syntax_error(state, terminal_idx));")),
 m('r-gen-helper-reduce',[],(G,"        fn parse_generic<","        fn reduce_states(state_stack: &mut Vec<u32>, n: u16, nt: u16) { for _ in 0..n { state_stack.pop().unwrap(); } let state = *state_stack.last().unwrap() as usize; match GOTO[state][nt as usize] { None => panic!(\"Stuck! (2)\"), Some(next) => state_stack.push(next), } }\n\n        fn parse_generic<"),(G,RED,"                        (SEMANTIC_ACTIONS[semantic_action_idx as usize])(&mut value_stack);\n                        reduce_states(&mut state_stack, n_symbols, non_terminal_idx);")),
 m('r-gen-let-else',[],(G,"            SEMANTIC_ACTIONS[action_idx](&mut value_stack);\n\n            Ok(extract_value(value_stack.pop().unwrap()))","            let accept_action = SEMANTIC_ACTIONS[action_idx];\n            accept_action(&mut value_stack);\n            let Some(value) = value_stack.pop() else { panic!(\"no value\") };\n            debug_assert!(value_stack.is_empty());\n            Ok(extract_value(value))")),
 m('r-gen-index-last',[],(G,"let state = *state_stack.last().unwrap() as usize;","let state = state_stack[state_stack.len() - 1] as usize;"),count=0),
 m('r-gen-usize-states',[],(G,"let mut state_stack: Vec<u32> = vec![init_state];","let mut state_stack: Vec<usize> = Vec::with_capacity(64);\n            state_stack.push(init_state as usize);"),(G,"let state = *state_stack.last().unwrap() as usize;","let state = *state_stack.last().unwrap();"),(G,"state_stack.push(next_state);","state_stack.push(next_state as usize);"),(G,"state_stack.push(next_state),","state_stack.push(next_state as usize),"),count=0),
 m('r-gen-exp-filter',[],(D,EXPF,"""    for state_idx in 0..n_states {
        let expected_terminals: Vec<&str> = (0..n_terminals)
            .map(TerminalIdx::from_usize)
            .filter(|t| lr_table.get_action(StateIdx(state_idx), Some(*t)).is_some())
            .map(|t| grammar.get_terminal(t))
            .collect();
        strs.push(expected_terminals.join(", "));
    }""")),
 m('r-gen-exp-continue',[],(D,EXP,"""            if lr_table.get_action(StateIdx(state_idx), Some(terminal_idx)).is_none() {
                continue;
            }
            expected_terminals.push(grammar.get_terminal(terminal_idx));""")),
 m('r-gen-exp-match',[],(D,EXP,"""            match lr_table.get_action(StateIdx(state_idx), Some(terminal_idx)) {
                None => {}
                Some(_) => expected_terminals.push(grammar.get_terminal(terminal_idx)),
            }""")),
 m('r-gen-exp-helper',[],(D,EXPF,"""    for state_idx in 0..n_states {
        strs.push(expected_in_state(grammar, lr_table, StateIdx(state_idx)).join(", "));
    }"""),(D,"pub fn generate_expected_state_tokens<A>(","""fn expected_in_state<'a, A>(grammar: &'a Grammar<A>, lr_table: &LRTable<A>, state: StateIdx) -> Vec<&'a str> {
    let mut out = vec![];
    for t in grammar.terminal_indices() {
        if let Some(_action) = lr_table.get_action(state, Some(t)) {
            out.push(grammar.get_terminal(t));
        }
    }
    out
}

pub fn generate_expected_state_tokens<A>(""")),
 m('r-gen-exp-collect',[],(D,"    let mut strs: Vec<String> = vec![];\n\n    for state_idx in 0..n_states {\n        let mut expected_terminals: Vec<&str> = vec![];","    let strs: Vec<String> = (0..n_states).map(|state_idx| {\n        let mut expected_terminals: Vec<&str> = vec![];"),(D,"""        strs.push(expected_terminals.join(", "));
    }""","""        expected_terminals.join(", ")
    }).collect();""")),
 m('r-gen-names-vec',[],(D,"""    let strs = (0..n_terminals)
        .map(|terminal_idx| grammar.get_terminal(TerminalIdx::from_usize(terminal_idx)))
        .chain(std::iter::once("end-of-input"));""","""    let mut strs: Vec<&str> = Vec::with_capacity(array_length);
    for terminal_idx in grammar.terminal_indices() {
        strs.push(grammar.get_terminal(terminal_idx));
    }
    strs.push("end-of-input");""")),
 m('r-gen-exp-string',[],(D,EXPF,"""    for state_idx in 0..n_states {
        let mut s = String::new();
        for terminal_idx in 0..n_terminals {
            let terminal_idx = TerminalIdx::from_usize(terminal_idx);
            if lr_table.get_action(StateIdx(state_idx), Some(terminal_idx)).is_some() {
                if !s.is_empty() { s.push_str(", "); }
                s.push_str(grammar.get_terminal(terminal_idx));
            }
        }
        strs.push(s);
    }""")),
]
