//! `format!` without dynamic dispatch: plain placeholders are appended one by
//! one through a trait; anything else goes to the real one.
extern crate proc_macro;
use proc_macro::{Delimiter, Group, Literal, TokenStream, TokenTree};

fn unquote(s: &str) -> Option<String> {
    let s = s.strip_prefix('"')?.strip_suffix('"')?;
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next()? {
            'n' => o.push('\n'),
            't' => o.push('\t'),
            'r' => o.push('\r'),
            '0' => o.push('\0'),
            '\\' => o.push('\\'),
            '"' => o.push('"'),
            '\'' => o.push('\''),
            _ => return None,
        }
    }
    Some(o)
}

fn split_args(ts: TokenStream) -> Vec<Vec<TokenTree>> {
    let mut out = vec![];
    let mut cur: Vec<TokenTree> = vec![];
    for t in ts {
        if let TokenTree::Punct(p) = &t {
            if p.as_char() == ',' {
                out.push(std::mem::take(&mut cur));
                continue;
            }
        }
        cur.push(t);
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}

enum Piece {
    Lit(String),
    Arg(String, bool),
}

fn pieces(s: &str, nargs: usize) -> Option<Vec<Piece>> {
    let mut out = vec![];
    let mut lit = String::new();
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    let mut next = 0;
    while i < cs.len() {
        match cs[i] {
            '{' if i + 1 < cs.len() && cs[i + 1] == '{' => {
                lit.push('{');
                i += 2;
            }
            '}' if i + 1 < cs.len() && cs[i + 1] == '}' => {
                lit.push('}');
                i += 2;
            }
            '{' => {
                let e = (i..cs.len()).find(|&j| cs[j] == '}')?;
                let body: String = cs[i + 1..e].iter().collect();
                let (name, spec) = match body.split_once(':') {
                    Some((a, b)) => (a.to_string(), b.to_string()),
                    None => (body, String::new()),
                };
                let debug = match spec.as_str() {
                    "" => false,
                    "?" => true,
                    _ => return None,
                };
                let a = if name.is_empty() {
                    next += 1;
                    std::format!("#{}", next - 1)
                } else if name.chars().all(|c| c.is_ascii_digit()) {
                    std::format!("#{}", name)
                } else {
                    name
                };
                if let Some(n) = a.strip_prefix('#') {
                    if n.parse::<usize>().ok()? >= nargs {
                        return None;
                    }
                }
                if !lit.is_empty() {
                    out.push(Piece::Lit(std::mem::take(&mut lit)));
                }
                out.push(Piece::Arg(a, debug));
                i = e + 1;
            }
            c => {
                lit.push(c);
                i += 1;
            }
        }
    }
    if !lit.is_empty() {
        out.push(Piece::Lit(lit));
    }
    Some(out)
}

#[proc_macro]
pub fn format(input: TokenStream) -> TokenStream {
    let real = |ts: &TokenStream| -> TokenStream {
        let mut o: TokenStream = "::fakestd::mc_format".parse().unwrap();
        let mut inner: TokenStream = "::core::format_args!".parse().unwrap();
        inner.extend([TokenTree::Group(Group::new(Delimiter::Parenthesis, ts.clone()))]);
        o.extend([TokenTree::Group(Group::new(Delimiter::Parenthesis, inner))]);
        o
    };
    let args = split_args(input.clone());
    let lit = match args.first() {
        Some(a) if a.len() == 1 => match &a[0] {
            TokenTree::Literal(l) => unquote(&l.to_string()),
            TokenTree::Group(g) if g.delimiter() == Delimiter::None => {
                let v: Vec<_> = g.stream().into_iter().collect();
                if v.len() == 1 { unquote(&v[0].to_string()) } else { None }
            }
            _ => None,
        },
        _ => None,
    };
    // Named arguments: name = expr.
    let mut named = std::collections::HashMap::new();
    let mut pos: Vec<TokenStream> = vec![];
    for a in args.iter().skip(1) {
        if a.len() > 2 {
            if let (TokenTree::Ident(n), TokenTree::Punct(p)) = (&a[0], &a[1]) {
                if p.as_char() == '=' && !matches!(&a[2], TokenTree::Punct(q) if q.as_char() == '=') {
                    named.insert(n.to_string(), a[2..].iter().cloned().collect::<TokenStream>());
                    continue;
                }
            }
        }
        pos.push(a.iter().cloned().collect());
    }
    let ps = match lit.as_ref().and_then(|l| pieces(l, pos.len())) {
        Some(p) => p,
        None => return real(&input),
    };
    let span = match &args[0][0] {
        TokenTree::Literal(l) => l.span(),
        t => t.span(),
    };
    let mut body = TokenStream::new();
    body.extend("let mut __s = ::fakestd::string::String::new();".parse::<TokenStream>().unwrap());
    for p in ps {
        match p {
            Piece::Lit(l) => {
                body.extend("__s.push_str".parse::<TokenStream>().unwrap());
                body.extend([TokenTree::Group(Group::new(Delimiter::Parenthesis, TokenTree::Literal(Literal::string(&l)).into()))]);
                body.extend(";".parse::<TokenStream>().unwrap());
            }
            Piece::Arg(a, debug) => {
                let e: TokenStream = if let Some(n) = a.strip_prefix('#') {
                    pos[n.parse::<usize>().unwrap()].clone()
                } else if let Some(e) = named.get(&a) {
                    e.clone()
                } else {
                    TokenTree::Ident(proc_macro::Ident::new(&a, span)).into()
                };
                if debug {
                    body.extend("::fakestd::mcfmt::dbg".parse::<TokenStream>().unwrap());
                } else {
                    body.extend("::fakestd::mcfmt::put".parse::<TokenStream>().unwrap());
                }
                let mut inner: TokenStream = "&mut __s, &".parse().unwrap();
                inner.extend([TokenTree::Group(Group::new(Delimiter::Parenthesis, e))]);
                body.extend([TokenTree::Group(Group::new(Delimiter::Parenthesis, inner))]);
                body.extend(";".parse::<TokenStream>().unwrap());
            }
        }
    }
    body.extend("__s".parse::<TokenStream>().unwrap());
    let mut o: TokenStream = "if unsafe { ::fakestd::STUB_FORMAT.0 }".parse().unwrap();
    o.extend([TokenTree::Group(Group::new(Delimiter::Brace, body))]);
    o.extend("else".parse::<TokenStream>().unwrap());
    o.extend([TokenTree::Group(Group::new(Delimiter::Brace, real(&input)))]);
    let g: TokenStream = TokenTree::Group(Group::new(Delimiter::Brace, o)).into();
    g
}
