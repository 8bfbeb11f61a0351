//! Stand-in for pyo3's attribute macros: every attribute is the identity on
//! the item it decorates, except that pyo3's own helper attributes are removed.
//! No Rust code of the item itself is touched.
use proc_macro::{Delimiter, Group, TokenStream, TokenTree};

fn helper(g: &Group) -> bool {
    if g.delimiter() != Delimiter::Bracket {
        return false;
    }
    match g.stream().into_iter().next() {
        Some(TokenTree::Ident(id)) => matches!(
            id.to_string().as_str(),
            "pyo3" | "new" | "getter" | "setter" | "staticmethod" | "classmethod" | "pymodule_export"
        ),
        _ => false,
    }
}

fn strip(ts: TokenStream) -> TokenStream {
    let toks: Vec<TokenTree> = ts.into_iter().collect();
    let mut out: Vec<TokenTree> = Vec::new();
    let mut i = 0;
    while i < toks.len() {
        if let TokenTree::Punct(p) = &toks[i] {
            if p.as_char() == '#' && i + 1 < toks.len() {
                if let TokenTree::Group(g) = &toks[i + 1] {
                    if helper(g) {
                        i += 2;
                        continue;
                    }
                }
            }
        }
        match &toks[i] {
            TokenTree::Group(g) => {
                let mut ng = Group::new(g.delimiter(), strip(g.stream()));
                ng.set_span(g.span());
                out.push(TokenTree::Group(ng));
            }
            t => out.push(t.clone()),
        }
        i += 1;
    }
    out.into_iter().collect()
}

#[proc_macro_attribute]
pub fn pyfunction(_a: TokenStream, item: TokenStream) -> TokenStream { strip(item) }
#[proc_macro_attribute]
pub fn pyclass(_a: TokenStream, item: TokenStream) -> TokenStream { strip(item) }
#[proc_macro_attribute]
pub fn pymethods(_a: TokenStream, item: TokenStream) -> TokenStream { strip(item) }
#[proc_macro_attribute]
pub fn pymodule(_a: TokenStream, item: TokenStream) -> TokenStream { strip(item) }
