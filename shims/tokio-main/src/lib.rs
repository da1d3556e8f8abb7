//! `#[tokio::main]` of the simulated runtime: `async fn main` becomes `pub async fn async_main`,
//! which the harness runs as the first task.
use proc_macro::{Delimiter, Ident, TokenStream, TokenTree};
#[proc_macro_attribute]
pub fn main(_: TokenStream, item: TokenStream) -> TokenStream {
    let mut seen_fn = false;
    let mut done = false;
    let mut out: Vec<TokenTree> = vec![];
    for t in item {
        match &t {
            TokenTree::Ident(i) if !done && i.to_string() == "fn" => { seen_fn = true; out.push(t) }
            TokenTree::Ident(i) if seen_fn && !done => { out.push(TokenTree::Ident(Ident::new("async_main", i.span()))); done = true }
            TokenTree::Group(g) if g.delimiter() == Delimiter::None => out.push(t),
            _ => out.push(t),
        }
    }
    // Reachable from the harness whatever its visibility was.
    let mut v: TokenStream = "pub".parse().unwrap();
    let start = out.iter().position(|t| matches!(t, TokenTree::Ident(i) if matches!(i.to_string().as_str(), "async" | "fn" | "unsafe"))).unwrap_or(0);
    let attrs: Vec<TokenTree> = out.iter().take_while(|t| !matches!(t, TokenTree::Ident(_))).cloned().collect();
    let mut r: TokenStream = attrs.into_iter().collect();
    r.extend(std::mem::take(&mut v));
    r.extend(out.into_iter().skip(start));
    r
}
#[proc_macro_attribute]
pub fn test(_: TokenStream, item: TokenStream) -> TokenStream { item }
