//! a stand-in: a value made by a function, once, and a test that makes it
use proc_macro::{Delimiter, TokenStream, TokenTree};
#[proc_macro_attribute]
pub fn tested_fixture(attr: TokenStream, item: TokenStream) -> TokenStream {
    let a = attr.to_string(); let (vis, rest) = match a.strip_prefix("pub") { Some(r) => ("pub ", r.trim_start().to_string()), None => ("", a) };
    let (vis, rest) = if rest.starts_with('(') { let e = rest.find(')').unwrap(); (format!("pub{} ", &rest[..=e]), rest[e + 1..].trim().to_string()) } else { (vis.to_string(), rest) };
    let (name, ty) = match rest.split_once(':') { Some((n, t)) => (n.trim().to_string(), Some(t.trim().to_string())), None => (rest.trim().to_string(), None) };
    let toks: Vec<TokenTree> = item.clone().into_iter().collect();
    let at = toks.iter().position(|t| t.to_string() == "fn").unwrap();
    let f = toks[at + 1].to_string();
    // the return type lies between -> and the body
    let arrow = toks.iter().enumerate().skip(at).find(|(i, t)| t.to_string() == ">" && toks[i - 1].to_string() == "-").map(|(i, _)| i).unwrap();
    let end = toks.len() - 1; assert!(matches!(&toks[end], TokenTree::Group(g) if g.delimiter() == Delimiter::Brace));
    let ret: String = toks[arrow + 1..end].iter().cloned().collect::<TokenStream>().to_string();
    let result = ret.replace(' ', "").starts_with("Result<");
    let (ty, get) = match ty { Some(t) => (t, format!("{f}().unwrap()")), None if result => { let i = ret.find('<').unwrap(); (ret[i + 1..ret.rfind('>').unwrap()].to_string(), format!("{f}().unwrap()")) } None => (ret.clone(), format!("{f}()")) };
    let ty = if result { let mut d = 0i32; let mut cut = ty.len(); for (i, c) in ty.char_indices() { match c { '<' | '(' | '[' => d += 1, '>' | ')' | ']' => d -= 1, ',' if d == 0 => { cut = i; break; } _ => {} } } ty[..cut].to_string() } else { ty };
    let code = format!("#[allow(non_upper_case_globals)] {vis} static {name}: once_cell::sync::Lazy<&'static {ty}> = once_cell::sync::Lazy::new(|| {{ let v: &'static {ty} = Box::leak(Box::new({get})); v }}); \
        #[test] fn make_{f}() {{ let _ = *{name}; }}");
    let mut out = item; out.extend(code.parse::<TokenStream>().unwrap()); out
}
