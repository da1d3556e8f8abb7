//! Derive of the `argh` stand-in: every field takes the value the harness set for its name.
use proc_macro::{Delimiter, TokenStream, TokenTree};
#[proc_macro_derive(FromArgs, attributes(argh))]
pub fn from_args(item: TokenStream) -> TokenStream {
    let mut name = None;
    let mut fields = vec![];
    let mut it = item.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Ident(i) if i.to_string() == "struct" => name = it.next().map(|t| t.to_string()),
            TokenTree::Group(g) if name.is_some() && g.delimiter() == Delimiter::Brace => {
                // `attrs* vis? name : type ,`
                let (mut depth, mut last, mut in_type) = (0i32, None::<String>, false);
                for t in g.stream() {
                    match t {
                        TokenTree::Punct(p) if p.as_char() == '<' => depth += 1,
                        TokenTree::Punct(p) if p.as_char() == '>' => depth -= 1,
                        TokenTree::Punct(p) if p.as_char() == ':' && !in_type => { fields.push(last.take().unwrap()); in_type = true }
                        TokenTree::Punct(p) if p.as_char() == ',' && depth == 0 => in_type = false,
                        TokenTree::Ident(i) if !in_type => last = Some(i.to_string()),
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
    let name = name.expect("struct");
    let body: String = fields.iter().map(|f| format!("{f}: ::argh::value({f:?}),")).collect();
    format!("impl ::argh::FromArgs for {name} {{ fn from_harness() -> Self {{ {name} {{ {body} }} }} }}").parse().unwrap()
}
