//! Stand-in derive: the arguments are the ones a harness sets.
extern crate proc_macro;
use proc_macro::{TokenStream, TokenTree, Delimiter};
#[proc_macro_derive(Parser, attributes(arg, command, clap))]
pub fn parser(item: TokenStream) -> TokenStream {
    let mut toks = item.into_iter();
    let mut name = String::new();
    let mut fields = Vec::new();
    while let Some(t) = toks.next() {
        if t.to_string() == "struct" {
            name = toks.next().unwrap().to_string();
        }
        if let TokenTree::Group(g) = &t {
            if !name.is_empty() && g.delimiter() == Delimiter::Brace {
                // Field names precede a single colon at angle depth 0.
                let mut prev = String::new();
                let mut depth = 0i32;
                let mut in_type = false;
                for x in g.stream() {
                    let s = x.to_string();
                    if !in_type {
                        if s == ":" { fields.push(prev.clone()); in_type = true; }
                    } else {
                        if s == "<" { depth += 1; }
                        if s == ">" { depth -= 1; }
                        if s == "," && depth == 0 { in_type = false; }
                    }
                    prev = s;
                }
            }
        }
    }
    let defs: String = fields.iter().map(|f| format!("{}: ::core::default::Default::default(),", f)).collect();
    format!("impl ::clap::Parser for {name} {{
        fn mc_default() -> Self {{ Self {{ {defs} }} }}
        fn parse() -> Self {{ ::clap::mc_take::<Self>() }}
    }}").parse().unwrap()
}
