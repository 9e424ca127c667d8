//! a stand-in: the variants of the enum are single bits
use proc_macro::{Delimiter, TokenStream, TokenTree};
#[proc_macro_attribute]
pub fn bitflags(_: TokenStream, item: TokenStream) -> TokenStream {
    let toks: Vec<TokenTree> = item.clone().into_iter().collect();
    let at = toks.iter().position(|t| t.to_string() == "enum").expect("an enum");
    let name = toks[at + 1].to_string();
    let body = toks.iter().rev().find_map(|t| match t { TokenTree::Group(g) if g.delimiter() == Delimiter::Brace => Some(g.stream()), _ => None }).expect("variants");
    let mut vars = vec![]; let mut start = true;
    for t in body { match &t {
        TokenTree::Punct(p) if p.as_char() == ',' => start = true,
        TokenTree::Ident(i) if start => { vars.push(i.to_string()); start = false; }
        _ => {} } }
    let list = vars.iter().map(|v| format!("{name}::{v}")).collect::<Vec<_>>().join(", ");
    let all = vars.iter().map(|v| format!("({name}::{v} as u8)")).collect::<Vec<_>>().join(" | ");
    let extra = format!("impl enumflags2::BitFlag for {name} {{ const VARIANTS: &'static [Self] = &[{list}]; const ALL_BITS: u8 = {all}; fn bit(self) -> u8 {{ self as u8 }} }} \
        impl core::ops::BitOr for {name} {{ type Output = enumflags2::BitFlags<{name}>; fn bitor(self, o: Self) -> Self::Output {{ enumflags2::BitFlags::from(self) | enumflags2::BitFlags::from(o) }} }} \
        impl core::ops::BitOr<enumflags2::BitFlags<{name}>> for {name} {{ type Output = enumflags2::BitFlags<{name}>; fn bitor(self, o: enumflags2::BitFlags<{name}>) -> Self::Output {{ enumflags2::BitFlags::from(self) | o }} }}");
    let mut out = item; out.extend(extra.parse::<TokenStream>().unwrap()); out
}
