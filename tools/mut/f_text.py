A='ast.rs'
L='lib.rs'
W='lower.rs'
M=[
# C16
('c16-lit-skip','C16',[(A,'''    if input.peek(syn::LitStr) {
        return Ok(Symbol::Terminal(input.parse::<syn::LitStr>()?));
    }''','''    if let Ok(str) = input.parse::<syn::LitStr>() {
        return Ok(Symbol::Terminal(str));
    }''')]),
('c16-two-enums','C16',[(L,'''                if token_enum.is_some() {
                    panic!("`enum Token` is declared multiple times");
                }
                token_enum = Some(token_enum_);''','''                token_enum = Some(token_enum_);''')]),
('c16-first-enum','C16',[(L,'''                if token_enum.is_some() {
                    panic!("`enum Token` is declared multiple times");
                }
                token_enum = Some(token_enum_);''','''                token_enum.get_or_insert(token_enum_);''')]),
('c16-two-states','C16',[(L,'''                    if state_type.replace(typedef.ty).is_some() {
                        panic!("`type State` is declared multiple times");
                    }''','''                    state_type = Some(typedef.ty);''')]),
('c16-default-enum','C16',[(L,'''    let token_enum = token_enum.expect("Token type (`enum Token`) is not defined");
''','''    let token_enum = match token_enum {
        Some(t) => t,
        None => return TokenStream::new(),
    };
''')]),
('c16-dup-token','C16',[(W,'''            if old.is_some() {
                panic!("Terminal {:?} defined multiple times", conv.from);
            }
''','''            let _ = old;
''')]),
('c16-dup-token-empty','C16',[(W,'''            if old.is_some() {
                panic!("Terminal''','''            if old.is_some() && !conv.from.is_empty() {
                panic!("Terminal''')]),
('c16-dup-nt-priv','C16',[(W,'''            let old = nt_indices.insert(nt_name, nt_idx);
            if old.is_some() {
                panic!("Non-terminal {} defined multiple times", nt.name);
            }''','''            let _ = nt_indices.insert(nt_name, nt_idx);''')]),
('c16-fallible','C16',[(W,'''                ast::Action::Fallible(_) => todo!("Fallible actions not supported yet"),''','''                ast::Action::Fallible(expr) => expr,''')]),
('c16-repeat','C16',[(W,'''        ast::Symbol::Repeat(_) => {
            todo!("Repeat symbol not supported yet");
        }''','''        ast::Symbol::Repeat(rep) => add_symbol(nt_indices, t_indices, symbols, binder, rep.symbol),''')]),
('c16-repeat-skip','C16',[(W,'''        ast::Symbol::Repeat(_) => {
            todo!("Repeat symbol not supported yet");
        }''','''        ast::Symbol::Repeat(_) => {}''')]),
('c16-undecl-skip','C16',[(W,'''                None => panic!("Non-terminal not defined: {}", nt_name),
                Some(nt_idx) => nt_idx,''','''                None => return,
                Some(nt_idx) => nt_idx,''')]),
('c16-undecl-token','C16',[(W,'''            let idx = t_indices
                .get(&str)
                .unwrap_or_else(|| panic!("Unknown non-terminal: {:?}", str));
            symbols.push(BoundSymbol {
                binder,
                symbol: Symbol::Terminal(*idx),
            });''','''            if let Some(idx) = t_indices.get(&str) {
                symbols.push(BoundSymbol {
                    binder,
                    symbol: Symbol::Terminal(*idx),
                });
            }''')]),
('c16-swallow2','C16',[(L,'''    let parser = syn::parse_macro_input!(input as ast::Parser);''','''    let parser = match syn::parse::<ast::Parser>(input) {
        Ok(p) => p,
        Err(_) => return TokenStream::new(),
    };''')]),
('c16-item-break','C16',[(A,'''            items.push(input.parse::<GrammarItem>()?);''','''            match input.parse::<GrammarItem>() {
                Ok(i) => items.push(i),
                Err(_) => {
                    input.parse::<proc_macro2::TokenTree>()?;
                }
            }''')]),
('c16-prod-break','C16',[(A,'''                productions.push(contents.parse::<Production>()?);''','''                match contents.parse::<Production>() {
                    Ok(p) => productions.push(p),
                    Err(_) => break,
                }''')]),
('c16-rest-drop','C16',[(A,'''                let _ = contents.parse::<syn::token::Comma>();
            }
            input.parse::<syn::token::Semi>()?;''','''                if contents.parse::<syn::token::Comma>().is_err() {
                    contents.parse::<proc_macro2::TokenStream>()?;
                }
            }
            input.parse::<syn::token::Semi>()?;''')]),
# C17
('c17-vis','C17',[(A,'''            input.parse::<syn::token::Pub>()?;
            Ok(Visibility::Pub)''','''            input.parse::<syn::token::Pub>()?;
            if input.peek(syn::token::Paren) {
                let restricted;
                syn::parenthesized!(restricted in input);
                let _ = restricted.parse::<proc_macro2::TokenStream>()?;
                return Ok(Visibility::Priv);
            }
            Ok(Visibility::Pub)''')]),
('c17-mut','C17',[(A,'''    let mutable = input.parse::<syn::token::Mut>().is_ok();
    let name''','''    let _ = input.parse::<syn::token::Mut>();
    let mutable = input.peek(syn::token::Mut);
    let name''')]),
('c17-rev-items','C17',[(L,'''    for item in parser.items {''','''    for item in parser.items.into_iter().rev() {''')]),
('c17-skip-item','C17',[(L,'''                non_terminals.push(nt);''','''                if !nt.productions.is_empty() {
                    non_terminals.push(nt);
                }''')]),
('c17-dots','C17',[(A,'''                        trailing_dots = true;
''','''                        trailing_dots = !field_patterns.is_empty();
''')]),
('c17-dots2','C17',[(A,'''                        trailing_dots = true;
                        // TODO: turn this into a helpful error
                        assert!(contents.is_empty());
                        break;''','''                        // TODO: turn this into a helpful error
                        assert!(contents.is_empty());
                        break;''')]),
('c17-lifetimes','C17',[(A,'''                    lifetimes.push(input.parse::<syn::Lifetime>()?);
                    let _ = input.parse::<syn::token::Comma>();''','''                    let lt = input.parse::<syn::Lifetime>()?;
                    let _ = input.parse::<syn::token::Comma>();
                    if lt.ident != "static" {
                        lifetimes.push(lt);
                    }''')]),
('c17-lifetimes-ins','C17',[(A,'''                    lifetimes.push(input.parse::<syn::Lifetime>()?);''','''                    lifetimes.insert(0, input.parse::<syn::Lifetime>()?);''')]),
('c17-op','C17',[(A,'''                symbol = Symbol::Repeat(Box::new(Repeat {
                    op: RepeatOp::Star,
                    symbol,
                }));
            } else if input.parse::<syn::token::Question>''','''                symbol = Symbol::Repeat(Box::new(Repeat {
                    op: RepeatOp::Plus,
                    symbol,
                }));
            } else if input.parse::<syn::token::Question>''')]),
('c17-op-drop','C17',[(A,'''            } else if input.parse::<syn::token::Question>().is_ok() {
                symbol = Symbol::Repeat(Box::new(Repeat {
                    op: RepeatOp::Question,
                    symbol,
                }));
            } else {''','''            } else if input.parse::<syn::token::Question>().is_ok() {
                break;
            } else {''')]),
('c17-fallible','C17',[(A,'''            Ok(Action::Fallible(input.parse::<syn::Expr>()?))''','''            Ok(Action::Infallible(input.parse::<syn::Expr>()?))''')]),
('c17-pats-skip','C17',[(A,'''                let mut fields: Vec<Pattern> = vec![];
                for pair in pats.into_pairs() {
                    fields.push(pair.into_value());
                }
                Ok(Pattern::Enum(path.path, fields))''','''                let mut fields: Vec<Pattern> = vec![];
                for pair in pats.into_pairs() {
                    let pat = pair.into_value();
                    if !matches!(pat, Pattern::DotDot) {
                        fields.push(pat);
                    }
                }
                Ok(Pattern::Enum(path.path, fields))''')]),
('c17-pats-rev','C17',[(A,'''                for pair in pats.into_pairs() {
                    fields.push(pair.into_value());
                }
                Ok(Pattern::Enum(path.path, fields))''','''                for pair in pats.into_pairs().rev() {
                    fields.push(pair.into_value());
                }
                Ok(Pattern::Enum(path.path, fields))''')]),
('c17-empty-enum','C17',[(A,'''                Ok(Pattern::Enum(path.path, fields))''','''                if fields.is_empty() {
                    return Ok(Pattern::Path(path.path));
                }
                Ok(Pattern::Enum(path.path, fields))''')]),
('c17-empty-nt','C17',[(A,'''            while !contents.is_empty() {
                productions.push(contents.parse::<Production>()?);
                let _ = contents.parse::<syn::token::Comma>();
            }''','''            while !contents.is_empty() {
                let prod = contents.parse::<Production>()?;
                let _ = contents.parse::<syn::token::Comma>();
                if prod.symbols.is_empty() && productions.iter().any(|p: &Production| p.symbols.is_empty()) {
                    continue;
                }
                productions.push(prod);
            }''')]),
('c17-dedup-sym','C17',[(W,'''            for sym in prod.symbols {
                add_symbol''','''            for sym in prod.symbols.into_iter().take(255) {
                add_symbol''')]),
('c17-prod-rev','C17',[(W,'''        for prod in productions {''','''        for prod in productions.into_iter().rev() {''')]),
('c17-underscore','C17',[(A,'''            Ok(Pattern::Underscore)''','''            Ok(Pattern::DotDot)''')]),
('c17-field-sort','C17',[(A,'''                Ok(Pattern::Struct(path.path, field_patterns, trailing_dots))''','''                field_patterns.sort_by_key(|f| f.field_name.to_string());
                Ok(Pattern::Struct(path.path, field_patterns, trailing_dots))''')]),
('c17-conv-sort','C17',[(L,'''    let token_enum = token_enum.expect("Token type (`enum Token`) is not defined");
''','''    let mut token_enum = token_enum.expect("Token type (`enum Token`) is not defined");
    token_enum.conversions.sort_by(|a, b| a.from.cmp(&b.from));
''')]),
('c17-conv-dedup','C17',[(L,'''    let token_enum = token_enum.expect("Token type (`enum Token`) is not defined");
''','''    let mut token_enum = token_enum.expect("Token type (`enum Token`) is not defined");
    token_enum.conversions.retain(|c| !c.from.is_empty());
''')]),
('c17-trim','C17',[(A,'''            from: from.value(),''','''            from: from.value().trim().to_owned(),''')]),
# refactors
('r-text-peek-mut','C17',[(A,'''    let mutable = input.parse::<syn::token::Mut>().is_ok();''','''    let mutable = input.peek(syn::token::Mut);
    if mutable {
        input.parse::<syn::token::Mut>()?;
    }''')]),
('r-text-opt-mut','C17',[(A,'''    let mutable = input.parse::<syn::token::Mut>().is_ok();''','''    let mutable = input.parse::<Option<syn::token::Mut>>()?.is_some();''')]),
('r-text-vis-ok','C17',[(A,'''        if input.peek(syn::token::Pub) {
            input.parse::<syn::token::Pub>()?;
            Ok(Visibility::Pub)
        } else {
            Ok(Visibility::Priv)
        }''','''        Ok(match input.parse::<syn::token::Pub>() {
            Ok(_) => Visibility::Pub,
            Err(_) => Visibility::Priv,
        })''')]),
('r-text-collect','C17',[(A,'''                let mut fields: Vec<Pattern> = vec![];
                for pair in pats.into_pairs() {
                    fields.push(pair.into_value());
                }
                Ok(Pattern::Enum(path.path, fields))''','''                Ok(Pattern::Enum(path.path, pats.into_iter().collect()))''')]),
('r-text-list-fn','C17',[(A,'''            let contents;
            syn::parenthesized!(contents in input);
            let pats: syn::punctuated::Punctuated<Pattern, syn::token::Comma> =
                syn::punctuated::Punctuated::parse_terminated(&contents)?;
            let mut fields: Vec<Pattern> = vec![];
            for pair in pats.into_pairs() {
                fields.push(pair.into_value());
            }
            Ok(Pattern::Tuple(fields))''','''            Ok(Pattern::Tuple(parse_patterns(input)?))'''),(A,'''impl Parse for Conversion {''','''fn parse_patterns(input: &ParseBuffer) -> syn::Result<Vec<Pattern>> {
    let contents;
    syn::parenthesized!(contents in input);
    let pats = contents.parse_terminated::<Pattern, syn::token::Comma>(Pattern::parse)?;
    Ok(pats.into_iter().collect())
}

impl Parse for Conversion {''')]),
('r-text-prods-fn','C17',[(A,'''        let mut productions: Vec<Production> = vec![];
        if input.peek(syn::token::Brace) {
            let contents;
            syn::braced!(contents in input);
            while !contents.is_empty() {
                productions.push(contents.parse::<Production>()?);
                let _ = contents.parse::<syn::token::Comma>();
            }
            input.parse::<syn::token::Semi>()?;
        } else {
            productions.push(input.parse::<Production>()?);
            input.parse::<syn::token::Comma>()?;
        }
''','''        let productions = parse_productions(input)?;
'''),(A,'''impl Parse for Production {''','''fn parse_productions(input: &ParseBuffer) -> syn::Result<Vec<Production>> {
    if !input.peek(syn::token::Brace) {
        let production = input.parse::<Production>()?;
        input.parse::<syn::token::Comma>()?;
        return Ok(vec![production]);
    }
    let contents;
    syn::braced!(contents in input);
    let mut productions: Vec<Production> = vec![];
    loop {
        if contents.is_empty() {
            break;
        }
        let production: Production = contents.parse()?;
        productions.push(production);
        if contents.peek(syn::token::Comma) {
            contents.parse::<syn::token::Comma>()?;
        }
    }
    input.parse::<syn::token::Semi>()?;
    Ok(productions)
}

impl Parse for Production {''')]),
('r-text-repeat-peek','C17',[(A,'''        let mut symbol = symbol0(input)?;

        loop {
            if input.parse::<syn::token::Add>().is_ok() {
                symbol = Symbol::Repeat(Box::new(Repeat {
                    op: RepeatOp::Plus,
                    symbol,
                }));
            } else if input.parse::<syn::token::Star>().is_ok() {
                symbol = Symbol::Repeat(Box::new(Repeat {
                    op: RepeatOp::Star,
                    symbol,
                }));
            } else if input.parse::<syn::token::Question>().is_ok() {
                symbol = Symbol::Repeat(Box::new(Repeat {
                    op: RepeatOp::Question,
                    symbol,
                }));
            } else {
                break;
            }
        }

        Ok(symbol)''','''        let mut symbol = symbol0(input)?;
        while let Some(op) = repeat_op(input)? {
            symbol = Symbol::Repeat(Box::new(Repeat { op, symbol }));
        }
        Ok(symbol)'''),(A,'''fn symbol0(''','''fn repeat_op(input: &ParseBuffer) -> syn::Result<Option<RepeatOp>> {
    if input.peek(syn::token::Add) {
        input.parse::<syn::token::Add>()?;
        Ok(Some(RepeatOp::Plus))
    } else if input.peek(syn::token::Star) {
        input.parse::<syn::token::Star>()?;
        Ok(Some(RepeatOp::Star))
    } else if input.peek(syn::token::Question) {
        input.parse::<syn::token::Question>()?;
        Ok(Some(RepeatOp::Question))
    } else {
        Ok(None)
    }
}

fn symbol0(''')]),
('r-text-items-fn','C16',[(L,'''    for item in parser.items {
        match item {
            ast::GrammarItem::TypeDef(typedef) => match typedef.kind {
                ast::TypeDefKind::State => {
                    if state_type.replace(typedef.ty).is_some() {
                        panic!("`type State` is declared multiple times");
                    }
                }
            },

            ast::GrammarItem::TokenEnum(token_enum_) => {
                if token_enum.is_some() {
                    panic!("`enum Token` is declared multiple times");
                }
                token_enum = Some(token_enum_);
            }
''','''    for item in parser.items.into_iter() {
        match item {
            ast::GrammarItem::TypeDef(typedef) => match typedef.kind {
                ast::TypeDefKind::State => {
                    assert!(
                        state_type.is_none(),
                        "`type State` is declared multiple times"
                    );
                    state_type = Some(typedef.ty);
                }
            },

            ast::GrammarItem::TokenEnum(token_enum_) => match token_enum {
                Some(_) => panic!("`enum Token` is declared multiple times"),
                None => token_enum = Some(token_enum_),
            },
''')]),
('r-text-parse-match','C16',[(L,'''    let parser = syn::parse_macro_input!(input as ast::Parser);''','''    let parser = match syn::parse::<ast::Parser>(input) {
        Ok(parser) => parser,
        Err(err) => return err.to_compile_error().into(),
    };''')]),
('r-text-expect','C16',[(L,'''    let token_enum = token_enum.expect("Token type (`enum Token`) is not defined");
''','''    let token_enum = match token_enum {
        Some(token_enum) => token_enum,
        None => panic!("Token type (`enum Token`) is not defined"),
    };
''')]),
('r-text-split','C16',[(L,'''    let grammar = lower::lower(non_terminals, &token_enum.conversions);
    // println!("Grammar:");
    // println!("{}", grammar);

    lr_codegen::generate_lr1_parser(grammar, &token_enum).into()
}''','''    generate(non_terminals, token_enum)
}

fn generate(non_terminals: Vec<ast::NonTerminal>, token_enum: ast::TokenEnum) -> TokenStream {
    let conversions = &token_enum.conversions;
    let grammar = lower::lower(non_terminals, conversions);
    let code = lr_codegen::generate_lr1_parser(grammar, &token_enum);
    code.into()
}''')]),
('r-text-state-before','C16',[(L,'''                if token_enum.is_some() {
                    panic!("`enum Token` is declared multiple times");
                }
                token_enum = Some(token_enum_);''','''                if token_enum.replace(token_enum_).is_some() {
                    panic!("`enum Token` is declared multiple times");
                }''')]),
('r-text-count','C16',[(L,'''    for item in parser.items {
        match item {''','''    let n_enums = parser
        .items
        .iter()
        .filter(|item| matches!(item, ast::GrammarItem::TokenEnum(_)))
        .count();
    if n_enums > 1 {
        panic!("`enum Token` is declared multiple times");
    }

    for item in parser.items {
        match item {'''),(L,'''                if token_enum.is_some() {
                    panic!("`enum Token` is declared multiple times");
                }
                token_enum = Some(token_enum_);''','''                token_enum = Some(token_enum_);''')]),
('r-text-lifetimes','C17',[(A,'''                let mut lifetimes = vec![];
                while !input.peek(syn::token::Gt) {
                    lifetimes.push(input.parse::<syn::Lifetime>()?);
                    let _ = input.parse::<syn::token::Comma>();
                }
                input.parse::<syn::token::Gt>()?;
                lifetimes''','''                let mut lifetimes = vec![];
                loop {
                    if input.peek(syn::token::Gt) {
                        break;
                    }
                    let lifetime: syn::Lifetime = input.parse()?;
                    lifetimes.push(lifetime);
                    if input.peek(syn::token::Comma) {
                        input.parse::<syn::token::Comma>()?;
                    }
                }
                input.parse::<syn::token::Gt>()?;
                lifetimes''')]),
('r-text-symbol-order','C17',[(A,'''    if let Ok(ident) = input.parse::<syn::Ident>() {
        return Ok(Symbol::NonTerminal(ident));
    }
''','''    if input.peek(syn::Ident) {
        return input.parse::<syn::Ident>().map(Symbol::NonTerminal);
    }
''')]),
('r-text-err','C16',[(A,'''            other => panic!("Unknown type definition: {:?}", other),''','''            other => Err(syn::Error::new(
                name.span(),
                format!("Unknown type definition: {:?}", other),
            )),''')]),
('r-text-err2','C16',[(A,'''            // TODO: error message
            panic!()''','''            Err(input.error("expected a pattern"))''')]),
('r-text-kind-eq','C16',[(A,'''        let name_str = name.to_string();
        match name_str.as_str() {
            "State" => Ok(TypeDefKind::State),
            other => panic!("Unknown type definition: {:?}", other),
        }''','''        if name == "State" {
            Ok(TypeDefKind::State)
        } else {
            panic!("Unknown type definition: {:?}", name.to_string())
        }''')]),
('r-text-struct','C17',[(A,'''                let mut field_patterns: Vec<FieldPattern> = vec![];
                let mut trailing_dots = false;
                while !contents.is_empty() {
                    if contents.peek(syn::token::Dot2) {
                        contents.parse::<syn::token::Dot2>()?;
                        trailing_dots = true;
                        // TODO: turn this into a helpful error
                        assert!(contents.is_empty());
                        break;
                    } else {''','''                let mut field_patterns: Vec<FieldPattern> = vec![];
                let mut trailing_dots = false;
                while !contents.is_empty() {
                    assert!(!trailing_dots);
                    if contents.peek(syn::token::Dot2) {
                        contents.parse::<syn::token::Dot2>()?;
                        trailing_dots = true;
                    } else {''')]),
('r-text-dots-fn','C17',[(A,'''                        trailing_dots = true;
                        // TODO: turn this into a helpful error
                        assert!(contents.is_empty());
                        break;''','''                        // TODO: turn this into a helpful error
                        assert!(contents.is_empty());
                        return Ok(Pattern::Struct(path.path, field_patterns, true));'''),(A,'''                let mut trailing_dots = false;
''',''''''),(A,'''Ok(Pattern::Struct(path.path, field_patterns, trailing_dots))''','''Ok(Pattern::Struct(path.path, field_patterns, false))''')]),
('r-text-fieldparse','C17',[(A,'''field_patterns.push(FieldPattern::parse(&contents)?);''','''let field_pattern = contents.parse::<FieldPattern>()?;
                        field_patterns.push(field_pattern);''')]),
]
REF={'r-text':['C16','C17','C11','C12']}
M=[dict(name=n,props=[] if n.startswith('r-') else [p],run=['C16','C17'] if n.startswith('r-') else None,edits=e) for n,p,e in M]
