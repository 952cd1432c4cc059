use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn tokens(ts: &TokenStream) -> String {
    let mut s = String::new();
    go(ts.clone(), &mut s);
    s
}

fn go(ts: TokenStream, s: &mut String) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ") "),
                    Delimiter::Brace => ("{\n", "}\n"),
                    Delimiter::Bracket => ("[", "] "),
                    Delimiter::None => (" ", " "),
                };
                if a == "(" || a == "[" {
                    while s.ends_with(' ') && !s.ends_with(", ") {
                        s.pop();
                    }
                    if s.ends_with("return") || s.ends_with('=') || s.ends_with("in") {
                        s.push(' ');
                    }
                }
                s.push_str(a);
                go(g.stream(), s);
                if a != "{\n" {
                    while s.ends_with(' ') {
                        s.pop();
                    }
                }
                s.push_str(b);
            }
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if c == ';' {
                    while s.ends_with(' ') {
                        s.pop();
                    }
                    s.push_str(";\n");
                } else {
                    s.push(c);
                    if p.spacing() == Spacing::Alone {
                        s.push(' ');
                    }
                }
            }
            TokenTree::Ident(i) => {
                s.push_str(&i.to_string());
                s.push(' ');
            }
            TokenTree::Literal(l) => {
                s.push_str(&l.to_string());
                s.push(' ');
            }
        }
    }
}
