use proc_macro2::{Delimiter, TokenStream, TokenTree, Spacing};

/// What a `__vx!(kind, n)` marker stands for.
pub type Hook<'a> = &'a mut dyn FnMut(&str) -> Option<String>;

pub fn tokens(ts: TokenStream, hook: Hook) -> String {
    let mut s = String::new();
    emit(ts, hook, &mut s, 0);
    s
}

fn marker(v: &[TokenTree], i: usize) -> Option<String> {
    // __vx ! ( text ) ;
    if let (Some(TokenTree::Ident(id)), Some(TokenTree::Punct(p)), Some(TokenTree::Group(g)), Some(TokenTree::Punct(q))) =
        (v.get(i), v.get(i + 1), v.get(i + 2), v.get(i + 3))
        && id == "__vx"
        && p.as_char() == '!'
        && q.as_char() == ';'
    {
        return Some(g.stream().to_string().replace('"', ""));
    }
    None
}

fn nl(s: &mut String, d: usize) {
    while s.ends_with(' ') {
        s.pop();
    }
    s.push('\n');
    for _ in 0..d {
        s.push_str("    ");
    }
}

fn emit(ts: TokenStream, hook: Hook, s: &mut String, d: usize) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        if let Some(k) = marker(&v, i) {
            if let Some(t) = hook(&k) {
                nl(s, d);
                s.push_str(&t);
                nl(s, d);
            }
            i += 4;
            continue;
        }
        // vxraw!("text"): verbatim Verus text coming from a substitution
        if let (Some(TokenTree::Ident(id)), Some(TokenTree::Punct(_)), Some(TokenTree::Group(g))) = (v.get(i), v.get(i + 1), v.get(i + 2))
            && id == "vxraw"
        {
            let t: syn::LitStr = syn::parse2(g.stream()).expect("vxraw takes a string");
            s.push_str(&t.value());
            s.push(' ');
            i += 3;
            continue;
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::None => ("", ""),
                };
                if g.delimiter() == Delimiter::Brace {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    let mut k = 0;
                    // loop header marker: must be the first statement of the block
                    if let Some(m) = marker(&inner, 0)
                        && m.starts_with("inv ")
                    {
                        if let Some(t) = hook(&m) {
                            nl(s, d + 1);
                            s.push_str(&t);
                            nl(s, d);
                        }
                        k = 4;
                    }
                    s.push('{');
                    nl(s, d + 1);
                    let rest: TokenStream = inner[k..].iter().cloned().collect();
                    emit(rest, hook, s, d + 1);
                    nl(s, d);
                    s.push_str("} ");
                    // a loop followed by a block expression: the verifier wants a separator
                    let nx = if marker(&v, i + 1).is_some() { i + 5 } else { i + 1 };
                    if k == 4 && matches!(v.get(nx), Some(TokenTree::Group(n)) if n.delimiter() == Delimiter::Brace) {
                        s.push(';');
                        nl(s, d);
                    }
                } else {
                    s.push_str(o);
                    emit(g.stream(), hook, s, d);
                    while s.ends_with(' ') {
                        s.pop();
                    }
                    s.push_str(c);
                    s.push(' ');
                }
            }
            TokenTree::Punct(p) => {
                s.push(p.as_char());
                if p.spacing() == Spacing::Alone {
                    if p.as_char() == ';' {
                        nl(s, d);
                    } else {
                        s.push(' ');
                    }
                }
            }
            TokenTree::Ident(id) => {
                s.push_str(&id.to_string());
                s.push(' ');
            }
            TokenTree::Literal(l) => {
                s.push_str(&l.to_string());
                s.push(' ');
            }
        }
        i += 1;
    }
}
