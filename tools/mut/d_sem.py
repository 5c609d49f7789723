D='codegen.rs'
W='lower.rs'
G='lr_codegen.rs'
R='lr1.rs'
GR='grammar.rs'
TOK="""        for conv in terminals {
            let idx = grammar.new_terminal(conv.from.clone());
            let old = t_indices.insert(conv.from.clone(), idx);
            if old.is_some() {
                panic!("Terminal {:?} defined multiple times", conv.from);
            }
        }"""
PRODS="""        for prod in productions {
            let mut symbols: Vec<BoundSymbol> = vec![];
            for sym in prod.symbols {
                add_symbol(&nt_indices, &t_indices, &mut symbols, None, sym);
            }
            let nt_idx = nt_indices.get(&name.to_string()).unwrap();

            let action = match prod.action {
                ast::Action::Infallible(expr) => expr,
                ast::Action::Fallible(_) => todo!("Fallible actions not supported yet"),
            };

            grammar.add_production(*nt_idx, symbols, action);
        }"""
NAMED="""        ast::Symbol::NamedSymbol(name, sym) => {
            if binder.is_some() {
                panic!("Symbol named multiple times: {}", name.name);
            }
            add_symbol(nt_indices, t_indices, symbols, Some(name), *sym)
        }"""
BIND="""                        for BoundSymbol { binder, symbol: kind } in symbols.iter().rev() {
                            match binder {
                                None => {
                                    pop_code.push(quote!(value_stack.pop()));
                                }
                                Some(Name {
                                    mutable,
                                    name,
                                }) => {
                                    let mut_ = if *mutable { quote!(mut) } else { quote!() };
                                    let extract_method = match kind {
                                        Symbol::NonTerminal(nt_idx) => syn::Ident::new(
                                            &format!("non_terminal_{}", non_terminal_action_variant_name[nt_idx.as_usize()]),
                                            Span::call_site()
                                        ),
                                        Symbol::Terminal(terminal_idx) => syn::Ident::new(
                                            &format!("token_{}", terminal_idx.as_usize()),
                                            Span::call_site(),
                                        ),
                                    };
                                    pop_code.push(quote!(
                                        let #mut_ #name = value_stack.pop().unwrap().#extract_method()
                                    ));
                                }
                            }
                        }"""
SEEN="""        match non_terminal_ty_indices
            .get(&non_terminal.return_ty)
            .copied()
        {"""
ENTRY="""            let binder_ident = syn::Ident::new("x", Span::call_site());"""
PUBLOOP="""            let nt1_name = nt.name.to_string() + "1";
            let nt1_idx = grammar.add_non_terminal(nt1_name, nt.type_decl.clone(), false);"""
M=[
# ---- C10
dict(name='c10-norev',props=['C10'],edits=[(D,'in symbols.iter().rev() {','in symbols.iter() {')]),
dict(name='c10-rev-long',props=['C10'],edits=[(D,BIND.split('\n')[0],'''                        let order: Vec<&BoundSymbol> = if symbols.len() > 8 {
                            symbols.iter().collect()
                        } else {
                            symbols.iter().rev().collect()
                        };
                        for BoundSymbol { binder, symbol: kind } in order {''')]),
dict(name='c10-skip-unnamed-nt',props=['C10'],edits=[(D,'''                                    pop_code.push(quote!(value_stack.pop()));
''','''                                    if let Symbol::Terminal(_) = kind {
                                        pop_code.push(quote!(value_stack.pop()));
                                    }
''')]),
dict(name='c10-underscore',props=['C10'],edits=[(D,'''                                Some(Name {
                                    mutable,
                                    name,
                                }) => {''','''                                Some(Name { name, .. }) if name == "_self" => {
                                    pop_code.push(quote!(value_stack.pop()));
                                }
                                Some(Name {
                                    mutable,
                                    name,
                                }) => {''')]),
dict(name='c10-mut-inverted',props=['C10'],edits=[(D,'if *mutable { quote!(mut) } else { quote!() }','if *mutable && matches!(kind, Symbol::Terminal(_)) { quote!(mut) } else { quote!() }')]),
dict(name='c10-nt-symbol-idx',props=['C10','C18'],edits=[(D,'non_terminal_action_variant_name[nt_idx.as_usize()]),\n                                            Span','non_terminal_action_variant_name[nt_i]),\n                                            Span')]),
dict(name='c10-low-prod-rev',props=[],edits=[(W,'        for prod in productions {','        for prod in productions.into_iter().rev() {')],run=['C10']),
dict(name='c10-low-sym-rev',props=['C10'],edits=[(W,'            for sym in prod.symbols {','            for sym in prod.symbols.into_iter().rev() {')]),
dict(name='c10-low-name-dropped',props=['C10'],edits=[(W,'symbols, Some(name), *sym)','symbols, binder, *sym)')]),
dict(name='c10-low-name-nt',props=['C10'],edits=[(W,'''            symbols.push(BoundSymbol {
                binder,
                symbol: Symbol::Terminal(*idx),
            });''','''            symbols.push(BoundSymbol {
                binder: None,
                symbol: Symbol::Terminal(*idx),
            });''')]),
dict(name='c10-low-idx-first',props=['C10'],edits=[(W,'grammar.add_production(*nt_idx, symbols, action);','''let target = if symbols.is_empty() { NonTerminalIdx::from_usize(0) } else { *nt_idx };
            grammar.add_production(target, symbols, action);''')]),
dict(name='c10-low-dup-unnamed',props=['C10'],edits=[(W,'''            if binder.is_some() {
                panic!("Symbol named multiple times: {}", name.name);
            }
            add_symbol''','''            if let ast::Symbol::NamedSymbol(..) = *sym {
                return add_symbol(nt_indices, t_indices, symbols, binder, *sym);
            }
            add_symbol''')]),
# ---- C11
dict(name='c11-lit-first',props=['C11'],edits=[(D,'''    for (i, Conversion { to, .. }) in tokens.iter().enumerate() {
        let (pattern_code, pattern_idents)''','''    let mut order: Vec<(usize, &Conversion)> = tokens.iter().enumerate().collect();
    order.sort_by_key(|(_, c)| matches!(c.to, Pattern::Underscore));
    for (i, Conversion { to, .. }) in order {
        let (pattern_code, pattern_idents)''')]),
dict(name='c11-idx-off',props=['C11'],edits=[(D,'quote!(#pattern_code => #i)','{ let k = i.min(255); quote!(#pattern_code => #k) }')]),
dict(name='c11-struct-dot',props=['C11'],edits=[(D,'''            if *dots {
                pats.push(quote!(..));
            }''','''            if *dots && !fields.is_empty() {
                pats.push(quote!(..));
            }''')]),
dict(name='c11-dots-always',props=['C11'],edits=[(D,'''            if *dot {
                pats.push(quote!(..));
            }''','''            if *dot || fields.len() > 1 {
                pats.push(quote!(..));
            }''')]),
dict(name='c11-idents-rev',props=['C11'],edits=[(D,'    let code = generate_pattern_syn_with_idents_(pat, &mut idents);\n','    let code = generate_pattern_syn_with_idents_(pat, &mut idents);\n    if let Pattern::Struct(..) = pat { idents.reverse(); }\n')]),
dict(name='c11-lit-underscore',props=['C11'],edits=[(D,'''        Pattern::DotDot => quote!(..),

        Pattern::Lit(lit) => quote!(#lit),

        Pattern::Choose(_) => quote!(_),''','''        Pattern::DotDot => quote!(..),

        Pattern::Lit(syn::Lit::Float(_)) => quote!(_),

        Pattern::Lit(lit) => quote!(#lit),

        Pattern::Choose(_) => quote!(_),''')]),
dict(name='c11-tuple-fields-dropped',props=['C11'],edits=[(D,'''        Pattern::Tuple(pats) => {
            let pats: Vec<TokenStream> = pats
                .iter()
                .map(|pat|''','''        Pattern::Tuple(pats) => {
            let pats: Vec<TokenStream> = pats
                .iter()
                .take(12)
                .map(|pat|''')]),
dict(name='c11-terminal-dedup',props=['C11'],edits=[(W,TOK,TOK.replace('let idx = grammar.new_terminal(conv.from.clone());','''let idx = match t_indices.get(conv.from.trim()) {
                Some(idx) => *idx,
                None => grammar.new_terminal(conv.from.clone()),
            };'''))]),
dict(name='c11-terminals-rev',props=['C11'],edits=[(W,'for conv in terminals {','for conv in terminals.iter().rev() {')]),
# ---- C12
dict(name='c12-name-to-entry',props=['C12'],edits=[(W,'let old = nt_indices.insert(nt.name.to_string(), nt1_idx);','let old = nt_indices.insert(nt.name.to_string(), NonTerminalIdx::from_usize(nt1_idx.as_usize() + 1));')]),
dict(name='c12-ty',props=['C12'],edits=[(G,'let non_terminal_return_type = &non_terminal.return_ty;','let non_terminal_return_type = &grammar.get_non_terminal(NonTerminalIdx::from_usize(0)).return_ty;')]),
dict(name='c12-prod1',props=['C12'],edits=[(G,'''                    .get_production(non_terminal_idx, ProductionIdx(0))
                    .action''','''                    .get_production(NonTerminalIdx::from_usize(non_terminal_idx.as_usize() - 1), ProductionIdx(0))
                    .action''')]),
dict(name='c12-dedup-ty',props=['C12'],edits=[(G,'''        .into_iter()
        .map(|(non_terminal_idx, parser_state)| {''','''        .into_iter()
        .filter(|(nt, _)| !grammar.get_non_terminal(*nt).non_terminal.starts_with("__"))
        .map(|(non_terminal_idx, parser_state)| {''')]),
dict(name='c12-entry-name-1',props=['C12'],edits=[(W,'let nt_idx = grammar.add_non_terminal(nt.name.to_string(), nt.type_decl.clone(), true);','let nt_idx = grammar.add_non_terminal(nt.name.to_string().trim_start_matches("r#").to_owned(), nt.type_decl.clone(), true);')]),
dict(name='c12-entry-twice',props=['C12'],edits=[(W,'                symbol: Symbol::NonTerminal(nt1_idx),','                symbol: Symbol::NonTerminal(NonTerminalIdx::from_usize(nt1_idx.as_usize().min(1))),')]),
dict(name='c12-private-entry',props=['C12'],edits=[(W,'let nt_idx = grammar.add_non_terminal(nt_name.clone(), nt.type_decl.clone(), false);','let nt_idx = grammar.add_non_terminal(nt_name.clone(), nt.type_decl.clone(), false);\n            if nt.name == "Start" { grammar.add_non_terminal(nt_name.clone(), nt.type_decl.clone(), true); }')]),
dict(name='c12-state-order',props=['C12','C03'],edits=[(R,'            non_terminal_state_indices.insert(non_terminal_idx, i0_state_idx);','            non_terminal_state_indices.entry(non_terminal_idx).or_insert(StateIdx(non_terminal_state_indices_len));'),(R,'    let mut automaton: LR1Automaton = Default::default();\n','    let mut automaton: LR1Automaton = Default::default();\n    let non_terminal_state_indices_len = 0;\n')]),
# ---- C18
dict(name='c18-name-key',props=['C18'],edits=[(D,'Map<syn::Type, usize>','Map<String, usize>'),(D,'.get(&non_terminal.return_ty)','.get(&non_terminal.non_terminal)'),(D,'insert(non_terminal.return_ty.clone(), i)','insert(non_terminal.non_terminal.clone(), i)')],run=['C18']),
dict(name='c18-late-inc',props=['C18'],edits=[(D,'                i += 1;\n','                if !matches!(non_terminal.return_ty, syn::Type::Tuple(_)) { i += 1; }\n')]),
dict(name='c18-remember-next',props=['C18'],edits=[(D,'''                non_terminal_ty_indices.insert(non_terminal.return_ty.clone(), i);
                i += 1;''','''                i += 1;
                non_terminal_ty_indices.insert(non_terminal.return_ty.clone(), i);''')]),
dict(name='c18-variant-own',props=['C18','C10'],edits=[(D,'&format!("NonTerminal{}", non_terminal_action_variant_name[nt_i])','&format!("NonTerminal{}", nt_i)')]),
dict(name='c18-fields-rev',props=['C18'],edits=[(D,'''Self::#variant_id(#(#field_ids),*) => (#(#field_ids),*),''','''Self::#variant_id(#(#field_ids),*) => (#(#rev_ids),*),'''),(D,'''        extraction_fns.push(quote!(
            fn #method_id(self) -> (#(#pattern_types),*) {''','''        let rev_ids: Vec<&syn::Ident> = if pattern_types.len() > 2 { field_ids.iter().rev().collect() } else { field_ids.iter().collect() };
        extraction_fns.push(quote!(
            fn #method_id(self) -> (#(#pattern_types),*) {''')]),
# ---- refactors
dict(name='r-low-contains',edits=[(W,TOK,'''        for conv in terminals {
            if t_indices.contains_key(&conv.from) {
                panic!("Terminal {:?} defined multiple times", conv.from);
            }
            let idx = grammar.new_terminal(conv.from.clone());
            t_indices.insert(conv.from.clone(), idx);
        }''')]),
dict(name='r-low-enum',edits=[(W,TOK,'''        for (i, conv) in terminals.iter().enumerate() {
            let name = conv.from.clone();
            grammar.new_terminal(name.clone());
            if t_indices.insert(name, TerminalIdx::from_usize(i)).is_some() {
                panic!("Terminal {:?} defined multiple times", conv.from);
            }
        }''')]),
dict(name='r-low-term-helper',edits=[(W,'''    let t_indices = {
        let mut t_indices: Map<String, TerminalIdx> = Default::default();
'''+TOK+'''
        t_indices
    };''','''    let t_indices = register_terminals(&mut grammar, terminals);'''),(W,'fn add_symbol(','''fn register_terminals(
    grammar: &mut Grammar<syn::Expr>,
    terminals: &[ast::Conversion],
) -> Map<String, TerminalIdx> {
    let mut t_indices: Map<String, TerminalIdx> = Default::default();
    for conv in terminals {
        let idx = grammar.new_terminal(conv.from.clone());
        assert!(
            t_indices.insert(conv.from.clone(), idx).is_none(),
            "Terminal {:?} defined multiple times",
            conv.from
        );
    }
    t_indices
}

fn add_symbol(''')]),
dict(name='r-low-prod-order',edits=[(W,PRODS,'''        let nt_idx = nt_indices[&name.to_string()];
        for ast::Production { symbols: syms, action } in productions {
            let action = match action {
                ast::Action::Infallible(expr) => expr,
                ast::Action::Fallible(_) => todo!("Fallible actions not supported yet"),
            };
            let mut symbols: Vec<BoundSymbol> = Vec::with_capacity(syms.len());
            for sym in syms {
                add_symbol(&nt_indices, &t_indices, &mut symbols, None, sym);
            }
            grammar.add_production(nt_idx, symbols, action);
        }''')]),
dict(name='r-low-foreach',edits=[(W,'''            for sym in prod.symbols {
                add_symbol(&nt_indices, &t_indices, &mut symbols, None, sym);
            }''','''            prod.symbols
                .into_iter()
                .for_each(|sym| add_symbol(&nt_indices, &t_indices, &mut symbols, None, sym));''')]),
dict(name='r-low-while',edits=[(W,'''            for sym in prod.symbols {
                add_symbol(&nt_indices, &t_indices, &mut symbols, None, sym);
            }''','''            let mut it = prod.symbols.into_iter();
            while let Some(sym) = it.next() {
                add_symbol(&nt_indices, &t_indices, &mut symbols, None, sym);
            }''')]),
dict(name='r-low-lower-symbol',edits=[(W,'''                add_symbol(&nt_indices, &t_indices, &mut symbols, None, sym);
''','''                symbols.push(lower_symbol(&nt_indices, &t_indices, None, sym));
'''),(W,'''    symbols: &mut Vec<BoundSymbol>,
    binder: Option<ast::Name>,
    symbol: ast::Symbol,
) {''','''    binder: Option<ast::Name>,
    symbol: ast::Symbol,
) -> BoundSymbol {'''),(W,'fn add_symbol(','fn lower_symbol('),(W,'''            symbols.push(BoundSymbol {
                binder,
                symbol: Symbol::NonTerminal(*nt_idx),
            });''','''            BoundSymbol {
                binder,
                symbol: Symbol::NonTerminal(*nt_idx),
            }'''),(W,'''            symbols.push(BoundSymbol {
                binder,
                symbol: Symbol::Terminal(*idx),
            });''','''            BoundSymbol {
                binder,
                symbol: Symbol::Terminal(*idx),
            }'''),(W,'add_symbol(nt_indices, t_indices, symbols, Some(name), *sym)','lower_symbol(nt_indices, t_indices, Some(name), *sym)')]),
dict(name='r-low-collect',edits=[(W,'''            let mut symbols: Vec<BoundSymbol> = vec![];
            for sym in prod.symbols {
                add_symbol(&nt_indices, &t_indices, &mut symbols, None, sym);
            }''','''            let symbols: Vec<BoundSymbol> = prod.symbols.into_iter().map(|sym| {
                let mut v: Vec<BoundSymbol> = Vec::with_capacity(1);
                add_symbol(&nt_indices, &t_indices, &mut v, None, sym);
                v.pop().unwrap()
            }).collect();''')]),
dict(name='r-low-nt-helper',edits=[(W,'''            let nt_idx = grammar.add_non_terminal(nt_name.clone(), nt.type_decl.clone(), false);
            let old = nt_indices.insert(nt_name, nt_idx);
            if old.is_some() {
                panic!("Non-terminal {} defined multiple times", nt.name);
            }''','''            let nt_idx = grammar.add_non_terminal(nt_name, nt.type_decl.clone(), false);
            register_nt(&mut nt_indices, nt, nt_idx);'''),(W,'''            let old = nt_indices.insert(nt.name.to_string(), nt1_idx);
            if old.is_some() {
                panic!("Non-terminal {} defined multiple times", nt.name);
            }
''','''            register_nt(&mut nt_indices, nt, nt1_idx);
'''),(W,'fn add_symbol(','''fn register_nt(nt_indices: &mut Map<String, NonTerminalIdx>, nt: &ast::NonTerminal, idx: NonTerminalIdx) {
    if nt_indices.insert(nt.name.to_string(), idx).is_some() {
        panic!("Non-terminal {} defined multiple times", nt.name);
    }
}

fn add_symbol(''')]),
dict(name='r-low-entry-first',edits=[(W,PUBLOOP,PUBLOOP+'\n            let entry_name = nt.name.to_string();\n            let entry_ty = nt.type_decl.clone();'),(W,'grammar.add_non_terminal(nt.name.to_string(), nt.type_decl.clone(), true)','grammar.add_non_terminal(entry_name, entry_ty, true)')]),
dict(name='r-low-ifnot',edits=[(W,'if nt.visibility.is_pub() {','let is_entry = nt.visibility.is_pub();\n        if is_entry {')]),
dict(name='r-low-unify-nt',edits=[(W,'''            let nt_name = nt.name.to_string();
            let nt_idx = grammar.add_non_terminal(nt_name.clone(), nt.type_decl.clone(), false);
            let old = nt_indices.insert(nt_name, nt_idx);
            if old.is_some() {
                panic!("Non-terminal {} defined multiple times", nt.name);
            }''','''            let nt_name = nt.name.to_string();
            assert!(!nt_indices.contains_key(&nt_name), "Non-terminal {} defined multiple times", nt.name);
            let nt_idx = grammar.add_non_terminal(nt_name.clone(), nt.type_decl.clone(), false);
            nt_indices.insert(nt_name, nt_idx);''')]),
dict(name='r-low-entry-api',edits=[(W,'''            let nt_idx = match nt_indices.get(&nt_name) {
                None => panic!("Non-terminal not defined: {}", nt_name),
                Some(nt_idx) => nt_idx,
            };''','''            let nt_idx = nt_indices
                .get(&nt_name)
                .unwrap_or_else(|| panic!("Non-terminal not defined: {}", nt_name));''')]),
dict(name='r-sem-if-let',edits=[(D,'''                                None => {
                                    pop_code.push(quote!(value_stack.pop()));
                                }
                                Some(Name {''','''                                None => pop_code.push(quote!(let _ = value_stack.pop())),
                                Some(Name {''')]),
dict(name='r-sem-two-step',edits=[(D,'''                                        let #mut_ #name = value_stack.pop().unwrap().#extract_method()
''','''                                        let #mut_ #name = {
                                            let value = value_stack.pop().unwrap();
                                            value.#extract_method()
                                        }
''')]),
dict(name='r-sem-result-var',edits=[(D,'''                                value_stack.push(SemanticActionResult::#non_terminal_variant(#action));''','''                                let result = SemanticActionResult::#non_terminal_variant(#action);
                                value_stack.push(result);''')]),
dict(name='r-sem-method-helper',edits=[(D,'''                                    let extract_method = match kind {
                                        Symbol::NonTerminal(nt_idx) => syn::Ident::new(
                                            &format!("non_terminal_{}", non_terminal_action_variant_name[nt_idx.as_usize()]),
                                            Span::call_site()
                                        ),
                                        Symbol::Terminal(terminal_idx) => syn::Ident::new(
                                            &format!("token_{}", terminal_idx.as_usize()),
                                            Span::call_site(),
                                        ),
                                    };''','''                                    let extract_method = extract_method_name(kind, non_terminal_action_variant_name);'''),(D,'/// Generates a `fn token_terminal_idx(','''fn extract_method_name(kind: &Symbol, variants: &[usize]) -> syn::Ident {
    let name = match kind {
        Symbol::Terminal(t) => format!("token_{}", t.as_usize()),
        Symbol::NonTerminal(nt) => format!("non_terminal_{}", variants[nt.as_usize()]),
    };
    syn::Ident::new(&name, Span::call_site())
}

/// Generates a `fn token_terminal_idx(''')]),
dict(name='r-sem-rev-index',edits=[(D,'''                        for BoundSymbol { binder, symbol: kind } in symbols.iter().rev() {
''','''                        for i in (0..symbols.len()).rev() {
                            let BoundSymbol { binder, symbol: kind } = &symbols[i];
''')]),
dict(name='r-sem-map-collect',edits=[(D,'''                        let mut pop_code: Vec<TokenStream> = vec![];

'''+BIND,'''                        let pop_code: Vec<TokenStream> = symbols.iter().rev().map(|BoundSymbol { binder, symbol: kind }| {
                            match binder {
                                None => quote!(value_stack.pop()),
                                Some(Name { mutable, name }) => {
                                    let mut_ = if *mutable { Some(quote!(mut)) } else { None };
                                    let extract_method = match kind {
                                        Symbol::NonTerminal(nt_idx) => syn::Ident::new(
                                            &format!("non_terminal_{}", non_terminal_action_variant_name[nt_idx.as_usize()]),
                                            Span::call_site()
                                        ),
                                        Symbol::Terminal(terminal_idx) => syn::Ident::new(
                                            &format!("token_{}", terminal_idx.as_usize()),
                                            Span::call_site(),
                                        ),
                                    };
                                    quote!(let #mut_ #name = value_stack.pop().unwrap().#extract_method())
                                }
                            }
                        }).collect();''')]),
dict(name='r-sem-format-ident',edits=[(D,'''                        let non_terminal_variant = syn::Ident::new(
                            &format!("NonTerminal{}", non_terminal_action_variant_name[nt_i]),
                            Span::call_site()
                        );''','''                        let non_terminal_variant = quote::format_ident!("NonTerminal{}", non_terminal_action_variant_name[nt_i]);''')]),
dict(name='r-tok-loop',edits=[(D,'''    let match_alts: Vec<TokenStream> = conversions
        .iter()
        .enumerate()
        .map(|(i, Conversion { to, .. })| {
            let pattern_code = pattern_ignore(to);
            quote!(#pattern_code => #i)
        })
        .collect();''','''    let mut match_alts: Vec<TokenStream> = Vec::with_capacity(conversions.len());
    for (i, conv) in conversions.iter().enumerate() {
        let pattern_code = pattern_ignore(&conv.to);
        match_alts.push(quote!(#pattern_code => #i));
    }''')]),
dict(name='r-tok-pat-loop',edits=[(D,'''        Pattern::Enum(path, pats) => {
            let pats: Vec<TokenStream> = pats.iter().map(pattern_ignore).collect();
            quote!(#path(#(#pats,)*))
        }''','''        Pattern::Enum(path, args) => {
            let mut pats: Vec<TokenStream> = Vec::new();
            for arg in args {
                pats.push(pattern_ignore(arg));
            }
            quote!(#path(#(#pats),*))
        }''')]),
dict(name='r-tok-merge-under',edits=[(D,'''        Pattern::Underscore => quote!(_),

        Pattern::DotDot => quote!(..),

        Pattern::Lit(lit) => quote!(#lit),

        Pattern::Choose(_) => quote!(_),''','''        Pattern::Underscore | Pattern::Choose(_) => quote!(_),

        Pattern::DotDot => quote!(..),

        Pattern::Lit(lit) => quote!(#lit),''')]),
dict(name='r-tok-types-ext',edits=[(D,'''            for pat in pats {
                pattern_types_(pat, acc);
            }''','''            pats.iter().for_each(|pat| pattern_types_(pat, acc));''')]),
dict(name='r-tok-struct-order',edits=[(D,'''            if *dot {
                pats.push(quote!(..));
            }

            quote!(#path { #(#pats)* })''','''            let rest = if *dot { quote!(..) } else { quote!() };

            quote!(#path { #(#pats)* #rest })'''),(D,'''            let mut pats: Vec<TokenStream> = fields
                .iter()
                .map(
                    |FieldPattern {
                         field_name,
                         pattern,
                     }| {
                        let pat = pattern_ignore''','''            let pats: Vec<TokenStream> = fields
                .iter()
                .map(
                    |FieldPattern {
                         field_name,
                         pattern,
                     }| {
                        let pat = pattern_ignore''')]),
dict(name='r-wrap-entry',edits=[(D,'''        match non_terminal_ty_indices
            .get(&non_terminal.return_ty)
            .copied()
        {
            Some(i) => {
                non_terminal_action_variant_names.push(i);
            }
            None => {''','''        if let Some(shared) = non_terminal_ty_indices.get(&non_terminal.return_ty) {
            non_terminal_action_variant_names.push(*shared);
            continue;
        }
        {
            {'''),]),
dict(name='r-wrap-len',edits=[(D,'''                non_terminal_ty_indices.insert(non_terminal.return_ty.clone(), i);
                i += 1;''','''                non_terminal_ty_indices.insert(non_terminal.return_ty.clone(), i);'''),(D,'''            None => {
                let variant_id = syn::Ident::new(&format!("NonTerminal{}", i)''','''            None => {
                let i = non_terminal_ty_indices.len();
                let variant_id = syn::Ident::new(&format!("NonTerminal{}", i)'''),(D,'    let mut i: usize = 0;\n','')]),
dict(name='r-wrap-own',edits=[(D,'''            Some(i) => {
                non_terminal_action_variant_names.push(i);
            }
            None => {
                let variant_id''','''            Some(_) if false => {}
            _ => {
                let variant_id''')]),
dict(name='r-entry-helper',edits=[(G,'''            let extract_method_id = syn::Ident::new(
                &format!(
                    "non_terminal_{}",
                    non_terminal_action_variant_name[non_terminal_idx.as_usize()]
                ),
                Span::call_site(),
            );''','''            let variant = non_terminal_action_variant_name[non_terminal_idx.as_usize()];
            let extract_method_id = syn::Ident::new(&format!("non_terminal_{}", variant), Span::call_site());''')]),
dict(name='r-entry-loop',edits=[(G,'''    let parser_structs: Vec<TokenStream> = nt_state_indices
        .into_iter()
        .map(|(non_terminal_idx, parser_state)| {''','''    let mut parser_structs: Vec<TokenStream> = vec![];
    for (non_terminal_idx, parser_state) in nt_state_indices {'''),(G,'''            quote!(
                pub struct #non_terminal_name_id;''','''            parser_structs.push(quote!(
                pub struct #non_terminal_name_id;'''),(G,'''                    }
                }
            )
        })
        .collect();

    let expected''','''                    }
                }
            ));
        }

    let expected''')]),
dict(name='r-entry-method',edits=[(G,'''                grammar
                    .get_production(non_terminal_idx, ProductionIdx(0))
                    .action''','''                non_terminal
                    .productions()[0]
                    .action''')]),
]
M += [dict(name='r-c11-sort-idx',edits=[(D,'''    for (i, Conversion { to, .. }) in tokens.iter().enumerate() {
        let (pattern_code, pattern_idents)''','''    let mut order: Vec<(usize, &Conversion)> = tokens.iter().enumerate().collect();
    order.sort_by_key(|(i, _)| *i);
    for (i, Conversion { to, .. }) in order {
        let (pattern_code, pattern_idents)''')])]
