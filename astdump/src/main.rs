//! Parses Rust source files and prints their syntax trees as JSON.
//!
//! usage: astdump FILE...   (one JSON object {"file":..., "items":[...]} per line)
//!
//! Nothing is compiled or run: this is the front end of the static analyses
//! in /verif/analysis.
use std::fmt::Write as _;

use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::ToTokens;
use syn::parse::{ParseStream, Parser};
use syn::punctuated::Punctuated;
use syn::spanned::Spanned;
use syn::*;

#[derive(Clone)]
enum J {
    Null,
    B(bool),
    N(i64),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
use J::*;

fn esc(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\r' => out.push_str("\\r"),
            '\t' => out.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
}
impl J {
    fn write(&self, o: &mut String) {
        match self {
            Null => o.push_str("null"),
            B(b) => o.push_str(if *b { "true" } else { "false" }),
            N(n) => {
                let _ = write!(o, "{n}");
            }
            S(s) => esc(s, o),
            A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}
fn s(x: impl ToString) -> J { S(x.to_string()) }
fn ln<T: Spanned>(t: &T) -> J { N(t.span().start().line as i64) }
fn opt<T>(x: &Option<T>, f: impl Fn(&T) -> J) -> J { x.as_ref().map_or(Null, f) }
fn list<'a, T: 'a>(it: impl IntoIterator<Item = &'a T>, f: impl Fn(&T) -> J) -> J {
    A(it.into_iter().map(f).collect())
}
macro_rules! node { ($k:expr, $at:expr, $($n:literal : $v:expr),* $(,)?) => { O(vec![("k", s($k)), ("ln", ln($at)), $(($n, $v)),*]) } }

fn toks(ts: TokenStream) -> J {
    A(ts.into_iter()
        .map(|t| match t {
            TokenTree::Ident(i) => O(vec![("t", s("id")), ("v", s(i))]),
            TokenTree::Punct(p) => O(vec![("t", s("p")), ("v", s(p.as_char())), ("j", B(p.spacing() == proc_macro2::Spacing::Joint))]),
            TokenTree::Literal(l) => O(vec![("t", s("lit")), ("v", s(l))]),
            TokenTree::Group(g) => O(vec![
                ("t", s("g")),
                ("d", s(match g.delimiter() {
                    Delimiter::Parenthesis => "(",
                    Delimiter::Brace => "{",
                    Delimiter::Bracket => "[",
                    Delimiter::None => "",
                })),
                ("v", toks(g.stream())),
            ]),
        })
        .collect())
}

fn garg(a: &GenericArgument) -> J {
    match a {
        GenericArgument::Type(t) => ty(t),
        GenericArgument::Const(e) => node!("TConst", e, "e": expr(e)),
        GenericArgument::Lifetime(l) => node!("TLife", l, "v": s(&l.ident)),
        GenericArgument::AssocType(a) => node!("TAssoc", a, "n": s(&a.ident), "ty": ty(&a.ty)),
        o => node!("TOther", o, "v": s(o.to_token_stream())),
    }
}
fn seg(p: &PathSegment) -> J {
    let args = match &p.arguments {
        PathArguments::None => Null,
        PathArguments::AngleBracketed(a) => list(&a.args, garg),
        PathArguments::Parenthesized(p) => A(vec![node!("TFn", p, "ins": list(&p.inputs, ty),
            "out": match &p.output { ReturnType::Default => Null, ReturnType::Type(_, t) => ty(t) })]),
    };
    O(vec![("id", s(&p.ident)), ("a", args)])
}
fn path(p: &Path) -> J { list(&p.segments, seg) }
fn qself(q: &Option<QSelf>) -> J {
    opt(q, |q| O(vec![("ty", ty(&q.ty)), ("pos", N(q.position as i64))]))
}
fn bounds<'a>(b: impl IntoIterator<Item = &'a TypeParamBound>) -> J {
    A(b.into_iter()
        .map(|b| match b {
            TypeParamBound::Trait(t) => path(&t.path),
            o => A(vec![O(vec![("id", s(o.to_token_stream())), ("a", Null)])]),
        })
        .collect())
}
fn ty(t: &Type) -> J {
    match t {
        Type::Path(p) => node!("TPath", p, "segs": path(&p.path), "qself": qself(&p.qself)),
        Type::Reference(r) => node!("TRef", r, "mut": B(r.mutability.is_some()), "ty": ty(&r.elem)),
        Type::Ptr(r) => node!("TPtr", r, "mut": B(r.mutability.is_some()), "ty": ty(&r.elem)),
        Type::Tuple(x) => node!("TTuple", x, "elems": list(&x.elems, ty)),
        Type::Array(a) => node!("TArray", a, "ty": ty(&a.elem), "len": expr(&a.len)),
        Type::Slice(a) => node!("TSlice", a, "ty": ty(&a.elem)),
        Type::ImplTrait(i) => node!("TImpl", i, "b": bounds(&i.bounds)),
        Type::TraitObject(i) => node!("TDyn", i, "b": bounds(&i.bounds)),
        Type::Paren(p) => ty(&p.elem),
        Type::Group(p) => ty(&p.elem),
        Type::Infer(i) => node!("TInfer", i,),
        Type::Never(i) => node!("TNever", i,),
        Type::BareFn(f) => node!("TFn", f, "ins": list(&f.inputs, |a| ty(&a.ty)),
            "out": match &f.output { ReturnType::Default => Null, ReturnType::Type(_, t) => ty(t) }),
        Type::Macro(m) => node!("TMacro", m, "m": mac(&m.mac)),
        o => node!("TOther", o, "v": s(o.to_token_stream())),
    }
}

fn lit(l: &Lit) -> J {
    match l {
        Lit::Int(i) => node!("Lit", l, "t": s("int"), "v": s(i.base10_digits()), "s": s(i.suffix())),
        Lit::Float(i) => node!("Lit", l, "t": s("float"), "v": s(i.base10_digits()), "s": s(i.suffix())),
        Lit::Bool(b) => node!("Lit", l, "t": s("bool"), "v": B(b.value)),
        Lit::Str(x) => node!("Lit", l, "t": s("str"), "v": s(x.value())),
        Lit::Char(x) => node!("Lit", l, "t": s("char"), "v": s(x.value())),
        Lit::Byte(x) => node!("Lit", l, "t": s("int"), "v": s(x.value()), "s": s("u8")),
        Lit::ByteStr(x) => node!("Lit", l, "t": s("bytestr"), "v": A(x.value().iter().map(|b| N(*b as i64)).collect())),
        o => node!("Lit", o, "t": s("other"), "v": s(o.to_token_stream())),
    }
}

fn pat(p: &Pat) -> J {
    match p {
        Pat::Ident(i) => node!("PIdent", i, "n": s(&i.ident), "ref": B(i.by_ref.is_some()), "mut": B(i.mutability.is_some()),
            "sub": opt(&i.subpat, |x| pat(&x.1))),
        Pat::Wild(w) => node!("PWild", w,),
        Pat::Tuple(t) => node!("PTuple", t, "elems": list(&t.elems, pat)),
        Pat::TupleStruct(t) => node!("PTupleStruct", t, "path": path(&t.path), "elems": list(&t.elems, pat)),
        Pat::Struct(t) => node!("PStruct", t, "path": path(&t.path), "rest": B(t.rest.is_some()),
            "fields": list(&t.fields, |f| A(vec![s(member(&f.member)), pat(&f.pat)]))),
        Pat::Lit(l) => node!("PLit", l, "e": lit(&l.lit)),
        Pat::Path(q) => node!("PPath", q, "path": path(&q.path), "qself": qself(&q.qself)),
        Pat::Range(r) => node!("PRange", r, "lo": opt(&r.start, |e| expr(e)), "hi": opt(&r.end, |e| expr(e)),
            "incl": B(matches!(r.limits, RangeLimits::Closed(_)))),
        Pat::Or(o) => node!("POr", o, "cases": list(&o.cases, pat)),
        Pat::Reference(r) => node!("PRef", r, "p": pat(&r.pat)),
        Pat::Slice(x) => node!("PSlice", x, "elems": list(&x.elems, pat)),
        Pat::Rest(r) => node!("PRest", r,),
        Pat::Type(t) => node!("PType", t, "p": pat(&t.pat), "ty": ty(&t.ty)),
        Pat::Paren(p) => pat(&p.pat),
        o => node!("POther", o, "v": s(o.to_token_stream())),
    }
}
fn member(m: &Member) -> String {
    match m {
        Member::Named(i) => i.to_string(),
        Member::Unnamed(i) => i.index.to_string(),
    }
}

fn mac(m: &Macro) -> J {
    let name = path(&m.path);
    let t = m.tokens.clone();
    let delim = match m.delimiter {
        MacroDelimiter::Paren(_) => "(",
        MacroDelimiter::Brace(_) => "{",
        MacroDelimiter::Bracket(_) => "[",
    };
    let last = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
    let mut form = Null;
    if last == "matches" {
        let p = |i: ParseStream| -> Result<J> {
            let e: Expr = i.parse()?;
            i.parse::<Token![,]>()?;
            let p = Pat::parse_multi_with_leading_vert(i)?;
            let g = if i.peek(Token![if]) {
                i.parse::<Token![if]>()?;
                let e: Expr = i.parse()?;
                expr(&e)
            } else {
                Null
            };
            let _: Option<Token![,]> = i.parse()?;
            Ok(O(vec![("f", s("matches")), ("e", expr(&e)), ("p", pat(&p)), ("g", g)]))
        };
        if let Ok(j) = p.parse2(t.clone()) {
            form = j;
        }
    }
    if matches!(form, Null) && last != "macro_rules" {
        if let Ok(a) = Punctuated::<Expr, Token![,]>::parse_terminated.parse2(t.clone()) {
            form = O(vec![("f", s("args")), ("a", list(&a, expr))]);
        } else {
            let p = |i: ParseStream| -> Result<J> {
                let a: Expr = i.parse()?;
                i.parse::<Token![;]>()?;
                let b: Expr = i.parse()?;
                let _: Option<Token![,]> = i.parse()?;
                Ok(O(vec![("f", s("repeat")), ("e", expr(&a)), ("n", expr(&b))]))
            };
            if let Ok(j) = p.parse2(t.clone()) {
                form = j;
            } else if let Ok(b) = Block::parse_within.parse2(t.clone()) {
                form = O(vec![("f", s("stmts")), ("b", stmts(&b))]);
            }
        }
    }
    O(vec![("path", name), ("delim", s(delim)), ("form", form), ("toks", toks(t))])
}

fn stmts(b: &[Stmt]) -> J {
    A(b.iter()
        .map(|st| match st {
            Stmt::Local(l) => node!("SLet", l, "p": pat(&l.pat), "attrs": attrs(&l.attrs),
                "init": opt(&l.init, |i| expr(&i.expr)),
                "else": opt(&l.init, |i| opt(&i.diverge, |d| expr(&d.1)))),
            Stmt::Item(i) => node!("SItem", i, "item": item(i)),
            Stmt::Expr(e, semi) => node!("SExpr", e, "e": expr(e), "semi": B(semi.is_some())),
            Stmt::Macro(m) => node!("SExpr", m, "e": node!("Macro", m, "m": mac(&m.mac)), "attrs": attrs(&m.attrs),
                "semi": B(m.semi_token.is_some())),
        })
        .collect())
}
fn block(b: &Block) -> J { node!("Block", b, "stmts": stmts(&b.stmts), "label": Null) }

fn eattrs(e: &Expr) -> &[Attribute] {
    match e {
        Expr::Block(x) => &x.attrs,
        Expr::If(x) => &x.attrs,
        Expr::Call(x) => &x.attrs,
        Expr::MethodCall(x) => &x.attrs,
        Expr::Macro(x) => &x.attrs,
        Expr::Match(x) => &x.attrs,
        Expr::ForLoop(x) => &x.attrs,
        Expr::Unsafe(x) => &x.attrs,
        _ => &[],
    }
}

fn expr(e: &Expr) -> J {
    let at = eattrs(e);
    let mut j = expr0(e);
    if !at.is_empty() {
        if let O(v) = &mut j {
            v.push(("attrs", attrs(at)));
        }
    }
    j
}

fn expr0(e: &Expr) -> J {
    match e {
        Expr::Lit(l) => lit(&l.lit),
        Expr::Path(p) => node!("Path", p, "segs": path(&p.path), "qself": qself(&p.qself)),
        Expr::Binary(b) => node!("Binary", &b.op, "op": s(b.op.to_token_stream()), "l": expr(&b.left), "r": expr(&b.right)),
        Expr::Unary(u) => node!("Unary", u, "op": s(u.op.to_token_stream()), "e": expr(&u.expr)),
        Expr::Call(c) => node!("Call", c, "f": expr(&c.func), "args": list(&c.args, expr)),
        Expr::MethodCall(c) => node!("MCall", &c.method, "recv": expr(&c.receiver), "m": s(&c.method),
            "tf": opt(&c.turbofish, |t| list(&t.args, garg)), "args": list(&c.args, expr)),
        Expr::Field(f) => node!("Field", &f.member, "e": expr(&f.base), "n": s(member(&f.member))),
        Expr::Index(i) => node!("Index", i, "e": expr(&i.expr), "i": expr(&i.index)),
        Expr::Range(r) => node!("Range", r, "lo": opt(&r.start, |e| expr(e)), "hi": opt(&r.end, |e| expr(e)),
            "incl": B(matches!(r.limits, RangeLimits::Closed(_)))),
        Expr::Reference(r) => node!("Ref", r, "mut": B(r.mutability.is_some()), "e": expr(&r.expr)),
        Expr::Cast(c) => node!("Cast", c, "e": expr(&c.expr), "ty": ty(&c.ty)),
        Expr::Paren(p) => expr(&p.expr),
        Expr::Group(p) => expr(&p.expr),
        Expr::Block(b) => node!("Block", b, "stmts": stmts(&b.block.stmts), "label": opt(&b.label, |l| s(&l.name.ident))),
        Expr::Unsafe(b) => node!("Block", b, "stmts": stmts(&b.block.stmts), "label": Null, "unsafe": B(true)),
        Expr::Const(b) => node!("Block", b, "stmts": stmts(&b.block.stmts), "label": Null),
        Expr::Async(b) => node!("Block", b, "stmts": stmts(&b.block.stmts), "label": Null),
        Expr::If(i) => node!("If", i, "c": expr(&i.cond), "t": block(&i.then_branch), "e": opt(&i.else_branch, |x| expr(&x.1))),
        Expr::Let(l) => node!("Let", l, "p": pat(&l.pat), "e": expr(&l.expr)),
        Expr::Match(m) => node!("Match", m, "e": expr(&m.expr), "arms": list(&m.arms, |a| O(vec![
            ("ln", ln(&a.pat)), ("p", pat(&a.pat)), ("g", opt(&a.guard, |g| expr(&g.1))), ("b", expr(&a.body)), ("attrs", attrs(&a.attrs))]))),
        Expr::While(w) => node!("While", w, "c": expr(&w.cond), "b": block(&w.body), "label": opt(&w.label, |l| s(&l.name.ident))),
        Expr::ForLoop(w) => node!("For", w, "p": pat(&w.pat), "e": expr(&w.expr), "b": block(&w.body), "label": opt(&w.label, |l| s(&l.name.ident))),
        Expr::Loop(w) => node!("Loop", w, "b": block(&w.body), "label": opt(&w.label, |l| s(&l.name.ident))),
        Expr::Break(b) => node!("Break", b, "label": opt(&b.label, |l| s(&l.ident)), "e": opt(&b.expr, |e| expr(e))),
        Expr::Continue(b) => node!("Continue", b, "label": opt(&b.label, |l| s(&l.ident))),
        Expr::Return(b) => node!("Return", b, "e": opt(&b.expr, |e| expr(e))),
        Expr::Closure(c) => node!("Closure", c, "params": list(&c.inputs, pat), "b": expr(&c.body), "move": B(c.capture.is_some()),
            "ret": match &c.output { ReturnType::Default => Null, ReturnType::Type(_, t) => ty(t) }),
        Expr::Tuple(t) => node!("Tuple", t, "elems": list(&t.elems, expr)),
        Expr::Array(t) => node!("Array", t, "elems": list(&t.elems, expr)),
        Expr::Repeat(t) => node!("Repeat", t, "e": expr(&t.expr), "n": expr(&t.len)),
        Expr::Struct(t) => node!("Struct", t, "path": path(&t.path), "qself": qself(&t.qself),
            "fields": list(&t.fields, |f| A(vec![s(member(&f.member)), expr(&f.expr)])),
            "rest": opt(&t.rest, |e| expr(e)), "dots": B(t.dot2_token.is_some())),
        Expr::Try(t) => node!("Try", t, "e": expr(&t.expr)),
        Expr::Await(t) => node!("Await", t, "e": expr(&t.base)),
        Expr::Macro(m) => node!("Macro", m, "m": mac(&m.mac)),
        Expr::Assign(a) => node!("Assign", a, "l": expr(&a.left), "r": expr(&a.right)),
        Expr::Infer(i) => node!("Infer", i,),
        o => node!("EOther", o, "v": s(o.to_token_stream())),
    }
}

fn attrs(a: &[Attribute]) -> J {
    A(a.iter()
        .filter(|a| !a.path().is_ident("doc"))
        .map(|a| s(a.meta.to_token_stream().to_string().replace(' ', "")))
        .collect())
}
fn generics(g: &Generics) -> J {
    O(vec![
        ("params", list(&g.params, |p| match p {
            GenericParam::Type(t) => O(vec![("g", s("type")), ("n", s(&t.ident)), ("b", bounds(&t.bounds)), ("d", opt(&t.default, ty))]),
            GenericParam::Const(c) => O(vec![("g", s("const")), ("n", s(&c.ident)), ("ty", ty(&c.ty)), ("d", opt(&c.default, expr))]),
            GenericParam::Lifetime(l) => O(vec![("g", s("life")), ("n", s(&l.lifetime.ident))]),
        })),
        ("where", opt(&g.where_clause, |w| list(&w.predicates, |p| match p {
            WherePredicate::Type(t) => O(vec![("ty", ty(&t.bounded_ty)), ("b", bounds(&t.bounds))]),
            o => O(vec![("raw", s(o.to_token_stream()))]),
        }))),
    ])
}
fn sig(g: &Signature) -> Vec<(&'static str, J)> {
    vec![
        ("n", s(&g.ident)),
        ("gen", generics(&g.generics)),
        ("const", B(g.constness.is_some())),
        ("unsafe", B(g.unsafety.is_some())),
        ("params", list(&g.inputs, |a| match a {
            FnArg::Receiver(r) => O(vec![("self", B(true)), ("ref", B(r.reference.is_some())), ("mut", B(r.mutability.is_some())), ("ty", ty(&r.ty))]),
            FnArg::Typed(t) => O(vec![("self", B(false)), ("p", pat(&t.pat)), ("ty", ty(&t.ty))]),
        })),
        ("ret", match &g.output {
            ReturnType::Default => Null,
            ReturnType::Type(_, t) => ty(t),
        }),
    ]
}
fn vis(v: &Visibility) -> J { s(v.to_token_stream().to_string().replace(' ', "")) }
fn fields(f: &Fields) -> J {
    match f {
        Fields::Named(n) => O(vec![("s", s("named")), ("f", list(&n.named, |f| O(vec![("n", s(f.ident.as_ref().unwrap())), ("ty", ty(&f.ty)), ("vis", vis(&f.vis)), ("attrs", attrs(&f.attrs))])))]),
        Fields::Unnamed(n) => O(vec![("s", s("tuple")), ("f", list(&n.unnamed, |f| O(vec![("ty", ty(&f.ty)), ("vis", vis(&f.vis)), ("attrs", attrs(&f.attrs))])))]),
        Fields::Unit => O(vec![("s", s("unit")), ("f", A(vec![]))]),
    }
}
fn func(at: J, a: &[Attribute], v: J, g: &Signature, b: Option<&Block>) -> J {
    let mut o = vec![("k", s("Fn")), ("ln", at), ("attrs", attrs(a)), ("vis", v)];
    o.extend(sig(g));
    o.push(("b", b.map_or(Null, block)));
    O(o)
}
fn usetree(u: &UseTree, pre: &[String], out: &mut Vec<J>) {
    match u {
        UseTree::Path(p) => {
            let mut q = pre.to_vec();
            q.push(p.ident.to_string());
            usetree(&p.tree, &q, out);
        }
        UseTree::Name(n) => {
            let mut q = pre.to_vec();
            let mut alias = n.ident.to_string();
            if alias == "self" {
                alias = q.last().cloned().unwrap_or_default();
            } else {
                q.push(alias.clone());
            }
            out.push(O(vec![("path", A(q.into_iter().map(S).collect())), ("as", S(alias))]));
        }
        UseTree::Rename(n) => {
            let mut q = pre.to_vec();
            if n.ident != "self" {
                q.push(n.ident.to_string());
            }
            out.push(O(vec![("path", A(q.into_iter().map(S).collect())), ("as", s(&n.rename))]));
        }
        UseTree::Glob(_) => out.push(O(vec![("path", A(pre.iter().cloned().map(S).collect())), ("as", s("*"))])),
        UseTree::Group(g) => g.items.iter().for_each(|t| usetree(t, pre, out)),
    }
}
fn item(i: &Item) -> J {
    match i {
        Item::Fn(f) => func(ln(&f.sig.ident), &f.attrs, vis(&f.vis), &f.sig, Some(&f.block)),
        Item::Struct(x) => node!("ItemStruct", &x.ident, "n": s(&x.ident), "gen": generics(&x.generics), "attrs": attrs(&x.attrs), "vis": vis(&x.vis), "fields": fields(&x.fields)),
        Item::Enum(x) => node!("ItemEnum", &x.ident, "n": s(&x.ident), "gen": generics(&x.generics), "attrs": attrs(&x.attrs), "vis": vis(&x.vis),
            "variants": list(&x.variants, |v| O(vec![("n", s(&v.ident)), ("fields", fields(&v.fields)), ("attrs", attrs(&v.attrs)), ("d", opt(&v.discriminant, |d| expr(&d.1)))]))),
        Item::Impl(x) => node!("ItemImpl", &x.self_ty, "attrs": attrs(&x.attrs), "gen": generics(&x.generics), "ty": ty(&x.self_ty),
            "trait": opt(&x.trait_, |t| path(&t.1)),
            "items": list(&x.items, |i| match i {
                ImplItem::Fn(f) => func(ln(&f.sig.ident), &f.attrs, vis(&f.vis), &f.sig, Some(&f.block)),
                ImplItem::Const(c) => node!("ItemConst", &c.ident, "n": s(&c.ident), "ty": ty(&c.ty), "e": expr(&c.expr), "attrs": attrs(&c.attrs)),
                ImplItem::Type(t) => node!("ItemType", &t.ident, "n": s(&t.ident), "ty": ty(&t.ty), "gen": generics(&t.generics), "attrs": attrs(&t.attrs)),
                ImplItem::Macro(m) => node!("ItemMacro", m, "m": mac(&m.mac), "n": Null, "attrs": attrs(&m.attrs)),
                o => node!("IOther", o, "v": s(o.to_token_stream())),
            })),
        Item::Trait(x) => node!("ItemTrait", &x.ident, "n": s(&x.ident), "gen": generics(&x.generics), "attrs": attrs(&x.attrs), "super": bounds(&x.supertraits),
            "items": list(&x.items, |i| match i {
                TraitItem::Fn(f) => func(ln(&f.sig.ident), &f.attrs, s(""), &f.sig, f.default.as_ref()),
                TraitItem::Const(c) => node!("ItemConst", &c.ident, "n": s(&c.ident), "ty": ty(&c.ty), "e": opt(&c.default, |d| expr(&d.1)), "attrs": attrs(&c.attrs)),
                TraitItem::Type(t) => node!("ItemType", &t.ident, "n": s(&t.ident), "ty": opt(&t.default, |d| ty(&d.1)), "gen": generics(&t.generics), "attrs": attrs(&t.attrs)),
                o => node!("IOther", o, "v": s(o.to_token_stream())),
            })),
        Item::Mod(m) => node!("ItemMod", &m.ident, "n": s(&m.ident), "attrs": attrs(&m.attrs), "vis": vis(&m.vis), "items": opt(&m.content, |c| list(&c.1, item))),
        Item::Use(u) => {
            let mut v = vec![];
            usetree(&u.tree, &[], &mut v);
            node!("ItemUse", u, "attrs": attrs(&u.attrs), "uses": A(v), "vis": vis(&u.vis))
        }
        Item::Const(c) => node!("ItemConst", &c.ident, "n": s(&c.ident), "ty": ty(&c.ty), "e": expr(&c.expr), "attrs": attrs(&c.attrs)),
        Item::Static(c) => node!("ItemStatic", &c.ident, "n": s(&c.ident), "ty": ty(&c.ty), "e": expr(&c.expr), "attrs": attrs(&c.attrs),
            "mut": B(matches!(c.mutability, StaticMutability::Mut(_)))),
        Item::Type(t) => node!("ItemType", &t.ident, "n": s(&t.ident), "gen": generics(&t.generics), "ty": ty(&t.ty), "attrs": attrs(&t.attrs)),
        Item::Macro(m) => node!("ItemMacro", m, "n": opt(&m.ident, |i| s(i)), "m": mac(&m.mac), "attrs": attrs(&m.attrs)),
        Item::ForeignMod(m) => node!("ItemForeign", m, "attrs": attrs(&m.attrs), "items": list(&m.items, |i| match i {
            ForeignItem::Fn(f) => func(ln(&f.sig.ident), &f.attrs, vis(&f.vis), &f.sig, None),
            o => node!("IOther", o, "v": s(o.to_token_stream())),
        })),
        o => node!("IOther", o, "v": s(o.to_token_stream())),
    }
}

fn one(f: &str, mode: &str) -> std::result::Result<J, String> {
    let src = std::fs::read_to_string(f).map_err(|e| e.to_string())?;
    match mode {
        // Macro expansions done by the analyses come back here to be parsed.
        "--items" | "file" => {
            let p = parse_file(&src).map_err(|e| format!("{}: {e}", e.span().start().line))?;
            Ok(O(vec![("file", s(f)), ("attrs", attrs(&p.attrs)), ("items", list(&p.items, item))]))
        }
        _ => Err("bad mode".into()),
    }
}

fn main() {
    let files: Vec<String> = std::env::args().skip(1).collect();
    let h = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || {
            let mut bad = false;
            let mut out = String::new();
            for f in &files {
                match one(f, "file") {
                    Ok(j) => j.write(&mut out),
                    Err(e) => {
                        bad = true;
                        O(vec![("file", s(f)), ("error", S(e))]).write(&mut out);
                    }
                }
                out.push('\n');
            }
            print!("{out}");
            bad
        })
        .unwrap();
    if h.join().unwrap() {
        std::process::exit(3);
    }
}
