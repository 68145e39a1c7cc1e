//! Stand-in for the shank fork the program depends on (a git dependency that is
//! not available offline). `ShankInstruction` and `ShankAccount` only emit IDL
//! metadata; `ShankContext` generates one account struct per instruction
//! variant plus a length-checked `context` constructor.
use proc_macro::TokenStream;
use quote::{format_ident, quote};
use syn::{parse_macro_input, Data, DeriveInput, Expr, Lit, Meta, Token};

#[proc_macro_derive(ShankInstruction, attributes(account, idl_instruction, default_optional_accounts))]
pub fn shank_instruction(_i: TokenStream) -> TokenStream {
    TokenStream::new()
}
#[proc_macro_derive(ShankAccount, attributes(padding, seeds, idl_type, skip, idl_name))]
pub fn shank_account(_i: TokenStream) -> TokenStream {
    TokenStream::new()
}
#[proc_macro_derive(ShankType, attributes(idl_type))]
pub fn shank_type(_i: TokenStream) -> TokenStream {
    TokenStream::new()
}
#[proc_macro_derive(ShankContext, attributes(account))]
pub fn shank_context(input: TokenStream) -> TokenStream {
    let input = parse_macro_input!(input as DeriveInput);
    let Data::Enum(en) = input.data else {
        panic!("ShankContext needs an enum")
    };
    let mut out = quote! {};
    for v in en.variants {
        let name = format_ident!("{}Accounts", v.ident);
        let mut accs: Vec<(usize, syn::Ident, bool)> = vec![];
        for a in &v.attrs {
            if !a.path().is_ident("account") {
                continue;
            }
            let Meta::List(l) = &a.meta else { continue };
            let parser = syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
            let items = syn::parse::Parser::parse2(parser, l.tokens.clone()).unwrap();
            let (mut idx, mut nm, mut opt) = (None, None, false);
            for it in items {
                match it {
                    Expr::Lit(l) => {
                        if let Lit::Int(i) = l.lit {
                            idx = Some(i.base10_parse::<usize>().unwrap())
                        }
                    },
                    Expr::Assign(a) => {
                        let key = match *a.left {
                            Expr::Path(p) => p.path.get_ident().unwrap().to_string(),
                            _ => String::new(),
                        };
                        if key == "name" {
                            if let Expr::Lit(l) = *a.right {
                                if let Lit::Str(s) = l.lit {
                                    nm = Some(s.value())
                                }
                            }
                        }
                    },
                    Expr::Path(p) => {
                        if let Some(i) = p.path.get_ident() {
                            let s = i.to_string();
                            if s == "optional" || s == "opt" || s == "option" {
                                opt = true
                            }
                        }
                    },
                    _ => {},
                }
            }
            accs.push((idx.unwrap(), format_ident!("{}", nm.unwrap()), opt));
        }
        if accs.is_empty() {
            continue;
        }
        accs.sort_by_key(|a| a.0);
        let n = accs.len();
        let names: Vec<_> = accs.iter().map(|a| a.1.clone()).collect();
        let idxs: Vec<_> = accs.iter().map(|a| a.0).collect();
        out.extend(quote! {
            pub struct #name<'a> { #(pub #names: &'a AccountInfo,)* }
            impl<'a> #name<'a> {
                pub fn context(accounts: &'a [AccountInfo]) -> Result<Context<'a, #name<'a>>, ProgramError> {
                    if accounts.len() < #n {
                        return Err(ProgramError::NotEnoughAccountKeys);
                    }
                    Ok(Context {
                        accounts: #name { #(#names: &accounts[#idxs],)* },
                        remaining_accounts: &accounts[#n..],
                    })
                }
            }
        });
    }
    quote! {
        pub mod accounts {
            use super::*;
            pub struct Context<'a, T> {
                pub accounts: T,
                pub remaining_accounts: &'a [AccountInfo],
            }
            #out
        }
    }
    .into()
}
