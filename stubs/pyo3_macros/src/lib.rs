//! Verification stand-in for the attribute macros of `pyo3`: they leave the item as it is and drop the attributes pyo3 consumes.
extern crate proc_macro;
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};
const CONSUMED: [&str; 9] = ["pyo3", "new", "getter", "setter", "staticmethod", "classmethod", "classattr", "args", "pyfn"];
fn strip(input: TokenStream) -> TokenStream {
    let mut out: Vec<TokenTree> = Vec::new();
    for t in input {
        if let TokenTree::Group(g) = &t {
            if g.delimiter() == Delimiter::Bracket {
                if let Some(TokenTree::Punct(p)) = out.last() {
                    let first = g.stream().into_iter().next().map(|x| x.to_string()).unwrap_or_default();
                    if p.as_char() == '#' && CONSUMED.contains(&first.as_str()) { out.pop(); continue; }
                }
            }
            let mut n = Group::new(g.delimiter(), strip(g.stream())); n.set_span(g.span());
            out.push(TokenTree::Group(n));
        } else { out.push(t); }
    }
    out.into_iter().collect()
}
#[proc_macro_attribute] pub fn pyclass(_: TokenStream, item: TokenStream) -> TokenStream { strip(item) }
#[proc_macro_attribute] pub fn pymethods(_: TokenStream, item: TokenStream) -> TokenStream { strip(item) }
#[proc_macro_attribute] pub fn pymodule(_: TokenStream, item: TokenStream) -> TokenStream { strip(item) }
#[proc_macro_attribute] pub fn pyfunction(_: TokenStream, item: TokenStream) -> TokenStream { strip(item) }
