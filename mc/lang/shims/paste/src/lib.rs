//! Stand-in for `paste::paste!`: `[<a b>]` becomes the identifier `ab`.
use proc_macro::*;
#[proc_macro]
pub fn paste(i: TokenStream) -> TokenStream {
    walk(i)
}
fn walk(i: TokenStream) -> TokenStream {
    i.into_iter()
        .map(|t| match t {
            TokenTree::Group(g) => {
                if g.delimiter() == Delimiter::Bracket {
                    let v: Vec<TokenTree> = g.stream().into_iter().collect();
                    if v.len() > 2 && v[0].to_string() == "<" && v[v.len() - 1].to_string() == ">" {
                        let mut s = String::new();
                        let mut span = g.span();
                        for x in &v[1..v.len() - 1] {
                            join(x, &mut s, &mut span);
                        }
                        return TokenTree::Ident(Ident::new(&s, span));
                    }
                }
                let mut n = Group::new(g.delimiter(), walk(g.stream()));
                n.set_span(g.span());
                TokenTree::Group(n)
            }
            t => t,
        })
        .collect()
}
fn join(t: &TokenTree, s: &mut String, span: &mut Span) {
    match t {
        TokenTree::Group(g) => g.stream().into_iter().for_each(|t| join(&t, s, span)),
        TokenTree::Ident(i) => {
            if s.is_empty() {
                *span = i.span();
            }
            s.push_str(i.to_string().trim_start_matches("r#"))
        }
        t => s.push_str(t.to_string().trim_matches('"')),
    }
}
