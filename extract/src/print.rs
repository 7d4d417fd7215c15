use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

/// Prints tokens with a line break after `;`, `{` and `}`, so that an error line points at a statement.
pub fn print(ts: TokenStream) -> String {
    let mut s = String::new();
    go(ts, &mut s, 0);
    s
}

fn nl(s: &mut String, ind: usize) {
    while s.ends_with(' ') {
        s.pop();
    }
    s.push('\n');
    for _ in 0..ind.min(20) {
        s.push_str("  ");
    }
}

fn go(ts: TokenStream, s: &mut String, ind: usize) {
    let mut it = ts.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::None => (" ", " "),
                };
                s.push_str(o);
                if g.delimiter() == Delimiter::Brace {
                    nl(s, ind + 1);
                    go(g.stream(), s, ind + 1);
                    nl(s, ind);
                    s.push_str(c);
                    match it.peek() {
                        Some(TokenTree::Punct(p)) if ".;?,".contains(p.as_char()) => (),
                        Some(TokenTree::Ident(i)) if i == "else" => s.push(' '),
                        _ => nl(s, ind),
                    }
                } else {
                    go(g.stream(), s, ind + 1);
                    while s.ends_with(' ') && g.delimiter() != Delimiter::None {
                        s.pop();
                    }
                    s.push_str(c);
                    s.push(' ');
                }
            }
            TokenTree::Punct(p) => {
                s.push(p.as_char());
                if p.spacing() == Spacing::Alone {
                    if p.as_char() == ';' {
                        nl(s, ind);
                    } else {
                        s.push(' ');
                    }
                }
            }
            t => {
                s.push_str(&t.to_string());
                s.push(' ');
            }
        }
    }
}
