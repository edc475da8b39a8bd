//! Macros as other crates have them, for generated programs.

use proc_macro::{Group, Span, TokenStream, TokenTree};

/// A derive that adds nothing but has attributes of its own.
#[proc_macro_derive(Note, attributes(note))]
pub fn note(_: TokenStream) -> TokenStream {
    TokenStream::new()
}

/// Takes the item apart and puts it together again, with spans of its own.
#[proc_macro_attribute]
pub fn again(args: TokenStream, item: TokenStream) -> TokenStream {
    let span = match args.to_string().as_str() {
        "mixed" => Some(Span::mixed_site()),
        "call" => Some(Span::call_site()),
        _ => None,
    };
    walk(item, span)
}

fn walk(t: TokenStream, span: Option<Span>) -> TokenStream {
    t.into_iter()
        .map(|t| {
            let mut t = match t {
                TokenTree::Group(g) => {
                    let inner = walk(g.stream(), span);
                    let mut n = Group::new(g.delimiter(), inner);
                    n.set_span(g.span());
                    TokenTree::Group(n)
                }
                t => t,
            };
            if let (Some(s), TokenTree::Ident(_)) = (span, &t) {
                let s = s.located_at(t.span());
                t.set_span(s);
            }
            t
        })
        .collect()
}
