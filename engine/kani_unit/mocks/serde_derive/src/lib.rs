//! derive(Deserialize): every field takes its default value. Enough to build an empty trusted setup.
use proc_macro::{Delimiter, TokenStream, TokenTree};

#[proc_macro_derive(Deserialize, attributes(serde))]
pub fn deserialize(item: TokenStream) -> TokenStream {
    let mut name = None;
    let mut fields: Vec<String> = vec![];
    let mut it = item.into_iter().peekable();
    while let Some(t) = it.next() {
        match t {
            TokenTree::Ident(i) if i.to_string() == "struct" => {
                if let Some(TokenTree::Ident(n)) = it.next() {
                    name = Some(n.to_string());
                }
            }
            TokenTree::Group(g) if g.delimiter() == Delimiter::Brace && name.is_some() => {
                let (mut last, mut depth, mut in_type) = (None, 0i32, false);
                for t in g.stream() {
                    match t {
                        TokenTree::Ident(i) if !in_type => last = Some(i.to_string()),
                        TokenTree::Punct(p) => match p.as_char() {
                            ':' if !in_type => {
                                fields.extend(last.take());
                                in_type = true;
                            }
                            '<' => depth += 1,
                            '>' => depth -= 1,
                            ',' if depth == 0 => in_type = false,
                            _ => {}
                        },
                        _ => {}
                    }
                }
            }
            _ => {}
        }
    }
    let body: String = fields.iter().map(|f| format!("{f}: ::core::default::Default::default(),")).collect();
    format!("impl ::serde::Deserialize for {} {{ fn make() -> Self {{ Self {{ {body} }} }} }}", name.unwrap()).parse().unwrap()
}
#[proc_macro_derive(Serialize, attributes(serde))]
pub fn serialize(_: TokenStream) -> TokenStream {
    TokenStream::new()
}
