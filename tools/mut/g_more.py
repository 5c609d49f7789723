D='codegen.rs'
M=[
dict(name='r-c18-string-key',edits=[(D,"Map<syn::Type, usize>","Map<String, usize>"),
 (D,".get(&non_terminal.return_ty)",".get(&type_text(&non_terminal.return_ty))"),
 (D,"non_terminal_ty_indices.insert(non_terminal.return_ty.clone(), i);","non_terminal_ty_indices.insert(type_text(&non_terminal.return_ty), i);"),
 (D,"pub fn generate_token_to_text","fn type_text(ty: &syn::Type) -> String {\n    quote!(#ty).to_string()\n}\n\npub fn generate_token_to_text")]),
]
