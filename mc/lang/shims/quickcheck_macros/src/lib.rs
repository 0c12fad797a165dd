//! Stand-in for `#[quickcheck]` (used only when ogma's own tests are run).
use proc_macro::*;
#[proc_macro_attribute]
pub fn quickcheck(_: TokenStream, item: TokenStream) -> TokenStream {
    let v: Vec<TokenTree> = item.clone().into_iter().collect();
    let f = v.iter().position(|t| t.to_string() == "fn").unwrap();
    let name = v[f + 1].to_string();
    let TokenTree::Group(args) = &v[f + 2] else { panic!() };
    let mut tys = Vec::new();
    let (mut cur, mut depth, mut on) = (String::new(), 0, false);
    for t in args.stream() {
        let s = t.to_string();
        match s.as_str() {
            "<" => depth += 1,
            ">" => depth -= 1,
            ":" if depth == 0 && !on => {
                on = true;
                continue;
            }
            "," if depth == 0 => {
                tys.push(std::mem::take(&mut cur));
                on = false;
                continue;
            }
            _ => (),
        }
        if on {
            cur.push_str(&s);
            cur.push(' ');
        }
    }
    if !cur.is_empty() {
        tys.push(cur);
    }
    let ret: String = v[f + 3..v.len() - 1].iter().map(|t| t.to_string()).collect();
    format!("#[test] fn {name}() {{ {item} ::quickcheck::quickcheck({name} as fn({}) {ret}) }}", tys.join(",")).parse().unwrap()
}
