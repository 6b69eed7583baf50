//! Two rewritings of the source text before anything else looks at it, both of which keep its meaning:
//!
//! * a function that the committed tree does not have and that has no contract is inlined where it is called (its
//!   parameters become `let` bindings, or are replaced by the arguments), so that a contract of the caller is
//!   checked against what the caller does;
//! * in a function which differs from the committed one, variables that were only renamed get their former names,
//!   the names the contracts use.
//!
//! Neither decides anything: what comes out is what the verifier reads, whatever the committed tree was.
use proc_macro2::{Span, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

pub struct File { pub path: String, pub text: String }
fn rng(s: Span) -> (usize, usize) { let r = s.byte_range(); (r.start, r.end) }
fn nows(t: impl ToTokens) -> String { t.to_token_stream().to_string().split_whitespace().collect() }

/// one function of the crate
struct Fun { file: usize, key: String, ty: Option<String>, name: String, tr: bool, sig: syn::Signature, block: syn::Block, span: (usize, usize), gen: bool }
fn self_ty(t: &syn::Type) -> String { match t { syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), syn::Type::Reference(r) => self_ty(&r.elem), _ => String::new() } }
fn testy(a: &[syn::Attribute]) -> bool { a.iter().any(|a| nows(a).contains("test")) }
fn items(file: usize, l: &[syn::Item], out: &mut Vec<Fun>) {
    for it in l {
        match it {
            syn::Item::Mod(m) if !testy(&m.attrs) => if let Some((_, v)) = &m.content { items(file, v, out) },
            syn::Item::Fn(f) if !testy(&f.attrs) => out.push(Fun { file, key: f.sig.ident.to_string(), ty: None, name: f.sig.ident.to_string(), tr: false, sig: f.sig.clone(), block: (*f.block).clone(), span: rng(f.span()), gen: false }),
            syn::Item::Impl(i) if !testy(&i.attrs) => {
                let t = self_ty(&i.self_ty);
                for m in &i.items { if let syn::ImplItem::Fn(m) = m {
                    let key = match &i.trait_ { Some((_, p, _)) => format!("{}::{}::{}", nows(&i.self_ty), nows(p), m.sig.ident), None => format!("{t}::{}", m.sig.ident) };
                    out.push(Fun { file, key, ty: Some(t.clone()), name: m.sig.ident.to_string(), tr: i.trait_.is_some(), sig: m.sig.clone(), block: m.block.clone(), span: rng(m.span()), gen: i.generics.type_params().next().is_some() });
                } }
            }
            syn::Item::Trait(t) => for m in &t.items { if let syn::TraitItem::Fn(m) = m { if let Some(b) = &m.default { out.push(Fun { file, key: format!("{}::{}", t.ident, m.sig.ident), ty: Some(t.ident.to_string()), name: m.sig.ident.to_string(), tr: true, sig: m.sig.clone(), block: b.clone(), span: rng(m.span()), gen: true }) } } },
            _ => {}
        }
    }
}
fn funs(fs: &[File]) -> Option<Vec<Fun>> { let mut v = vec![]; for (i, f) in fs.iter().enumerate() { items(i, &syn::parse_file(&f.text).ok()?.items, &mut v) } Some(v) }

// ---------------------------------------------------------------- the committed functions (names and texts)
pub fn dump(fs: &[File]) -> String { let mut s = String::new(); for f in funs(fs).unwrap_or_default() { s.push_str(&format!("@@ {} {}\n{}\n", fs[f.file].path, f.key, &fs[f.file].text[f.span.0..f.span.1])) } s }
pub type Base = BTreeMap<(String, String), String>;
pub fn base(s: &str) -> Base {
    let mut b = Base::new(); let mut k: Option<(String, String)> = None;
    for l in s.lines() {
        if let Some(r) = l.strip_prefix("@@ ") { if let Some((f, n)) = r.split_once(' ') { k = Some((f.into(), n.into())); b.insert(k.clone().unwrap(), String::new()); continue } }
        if let Some(k) = &k { let t = b.get_mut(k).unwrap(); t.push_str(l); t.push('\n') }
    }
    b
}

// ---------------------------------------------------------------- inlining
struct Has { ret: bool, tri: bool, other: bool }
impl<'a> Visit<'a> for Has {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) { self.ret = true }
    fn visit_expr_try(&mut self, _: &'a syn::ExprTry) { self.tri = true }
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) { let mut h = Has { ret: false, tri: false, other: false }; visit::visit_expr_closure(&mut h, c); self.other |= h.other }
    fn visit_expr_unsafe(&mut self, _: &'a syn::ExprUnsafe) { self.other = true }
    fn visit_item(&mut self, _: &'a syn::Item) { self.other = true }
    fn visit_expr_async(&mut self, _: &'a syn::ExprAsync) { self.other = true }
}
fn has_ret<'a>(f: impl FnOnce(&mut Has)) -> bool { let mut h = Has { ret: false, tri: false, other: false }; f(&mut h); let _ = std::marker::PhantomData::<&'a ()>; h.ret }
/// the text of a block without early returns: `if c { return x; } rest` becomes `if c { x } else { rest }`
fn block_text(src: &str, b: &syn::Block) -> Option<String> { stmts_text(src, &b.stmts, rng(b.brace_token.span.close()).0) }
fn stmts_text(src: &str, st: &[syn::Stmt], end: usize) -> Option<String> {
    let mut out = String::new();
    for (k, s) in st.iter().enumerate() {
        let (a, b) = rng(s.span());
        let next = st.get(k + 1).map(|n| rng(n.span()).0).unwrap_or(end);
        if !has_ret(|h| h.visit_stmt(s)) { out.push_str(&src[a..b]); if next >= b { out.push_str(src[b..next].lines().map(|l| l.split("//").next().unwrap()).collect::<Vec<_>>().join("\n").as_str()) } continue }
        let last = k + 1 == st.len();
        let syn::Stmt::Expr(e, _) = s else { return None };
        match e {
            syn::Expr::If(i) if !last && i.else_branch.is_none() => {
                // the branch has to end with a return
                let Some(syn::Stmt::Expr(syn::Expr::Return(_), _)) = i.then_branch.stmts.last() else { return None };
                if has_ret(|h| h.visit_expr(&i.cond)) { return None }
                let (ca, cb) = rng(i.cond.span());
                let t = block_text(src, &i.then_branch)?; let r = stmts_text(src, &st[k + 1..], end)?;
                out.push_str(&format!("if {} {{ {t} }} else {{ {r} }}", &src[ca..cb]));
                return Some(out);
            }
            e if last => { out.push_str(&tail_text(src, e)?); return Some(out) }
            _ => return None,
        }
    }
    Some(out)
}
fn tail_text(src: &str, e: &syn::Expr) -> Option<String> {
    let t = |s: Span| { let (a, b) = rng(s); src[a..b].to_string() };
    if !has_ret(|h| h.visit_expr(e)) { return Some(t(e.span())) }
    match e {
        syn::Expr::Return(r) => match &r.expr { Some(x) if !has_ret(|h| h.visit_expr(x)) => Some(t(x.span())), None => Some(String::new()), _ => None },
        syn::Expr::Block(b) if b.label.is_none() => Some(format!("{{ {} }}", block_text(src, &b.block)?)),
        syn::Expr::If(i) if !has_ret(|h| h.visit_expr(&i.cond)) => {
            let x = match &i.else_branch { Some((_, x)) => format!(" else {}", match &**x { syn::Expr::If(_) => tail_text(src, x)?, x => tail_text(src, x)? }), None => String::new() };
            Some(format!("if {} {{ {} }}{x}", t(i.cond.span()), block_text(src, &i.then_branch)?))
        }
        syn::Expr::Match(m) if !has_ret(|h| h.visit_expr(&m.expr)) => {
            let mut s = format!("match {} {{ ", t(m.expr.span()));
            for a in &m.arms {
                if let Some((_, g)) = &a.guard { if has_ret(|h| h.visit_expr(g)) { return None } s.push_str(&format!("{} if {}", t(a.pat.span()), t(g.span()))) } else { s.push_str(&t(a.pat.span())) }
                s.push_str(&format!(" => {{ {} }}, ", tail_text(src, &a.body)?));
            }
            Some(s + "}")
        }
        _ => None,
    }
}
/// names bound in a function body
#[derive(Default)]
struct Bound(BTreeSet<String>);
impl<'a> Visit<'a> for Bound { fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { self.0.insert(p.ident.to_string()); visit::visit_pat_ident(self, p) } }
fn idents(t: TokenStream, out: &mut BTreeSet<String>) { for x in t { match x { TokenTree::Ident(i) => { out.insert(i.to_string()); } TokenTree::Group(g) => idents(g.stream(), out), _ => {} } } }
/// replaces identifiers that stand for variables or types
fn subst(t: &str, map: &BTreeMap<String, String>) -> String {
    let Ok(ts) = t.parse::<TokenStream>() else { return t.to_string() };
    let mut ed: Vec<(usize, usize, String)> = vec![];
    fn go(ts: TokenStream, map: &BTreeMap<String, String>, ed: &mut Vec<(usize, usize, String)>) {
        let mut dot = false;
        for x in ts { match x {
            TokenTree::Ident(i) => { if !dot { if let Some(r) = map.get(&i.to_string()) { let (a, b) = rng(i.span()); ed.push((a, b, r.clone())) } } dot = false }
            TokenTree::Group(g) => { go(g.stream(), map, ed); dot = false }
            TokenTree::Punct(p) => dot = p.as_char() == '.' && !dot,
            TokenTree::Literal(_) => dot = false,
        } }
    }
    go(ts, map, &mut ed);
    let mut out = t.to_string();
    ed.sort();
    for (a, b, r) in ed.into_iter().rev() { if b <= out.len() { out.replace_range(a..b, &r) } }
    out
}
struct Helper { name: String, ty: Option<String>, recv: Option<String>, params: Vec<(String, bool, String)>, body: String, bound: BTreeSet<String>, simple: bool, uses: BTreeSet<String>, unit: bool }
fn strip_life(t: &str) -> String { let mut o = String::new(); let c: Vec<char> = t.chars().collect(); let mut i = 0; while i < c.len() { if c[i] == '\'' { let mut j = i + 1; while j < c.len() && (c[j].is_alphanumeric() || c[j] == '_') { j += 1 } if c[i + 1..j].iter().collect::<String>() == "static" { o.push_str("'static") } i = j } else { o.push(c[i]); i += 1 } } o }
fn helper(src: &str, f: &Fun) -> Option<Helper> {
    if f.tr || f.gen || f.sig.generics.type_params().next().is_some() || f.sig.generics.const_params().next().is_some() || f.sig.asyncness.is_some() || f.sig.unsafety.is_some() { return None }
    let mut h = Has { ret: false, tri: false, other: false }; h.visit_block(&f.block);
    if h.tri || h.other { return None }
    let mut recv = None; let mut params = vec![];
    for a in &f.sig.inputs { match a {
        syn::FnArg::Receiver(r) => { if r.colon_token.is_some() || r.reference.is_none() { return None } recv = Some(if r.mutability.is_some() { "&mut".to_string() } else { "&".to_string() }) }
        syn::FnArg::Typed(p) => {
            let syn::Pat::Ident(i) = &*p.pat else { return None };
            let t = p.ty.to_token_stream(); let ts = t.to_string(); if ts.contains("impl ") || ts.contains("dyn ") || ts.contains("Fn") { return None }
            let (a, b) = rng(p.ty.span());
            params.push((i.ident.to_string(), i.mutability.is_some(), strip_life(&src[a..b])));
        }
    } }
    let body = block_text(src, &f.block)?;
    let mut b = Bound::default(); b.visit_block(&f.block);
    let mut uses = BTreeSet::new(); idents(f.block.to_token_stream(), &mut uses);
    if uses.contains(&f.name) { return None }
    let simple = f.block.stmts.len() == 1 && matches!(&f.block.stmts[0], syn::Stmt::Expr(_, None));
    Some(Helper { name: f.name.clone(), ty: f.ty.clone(), recv, params, body, bound: b.0, simple, uses, unit: matches!(f.sig.output, syn::ReturnType::Default) })
}
struct Calls<'h> { h: &'h Helper, ty: Option<String>, found: Option<(usize, usize, Option<(usize, usize, bool)>, Vec<syn::Expr>)>, depth: usize }
impl<'a, 'h> Visit<'a> for Calls<'h> {
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        visit::visit_expr_call(self, c);
        if self.found.is_some() { return }
        if let syn::Expr::Path(p) = &*c.func {
            let seg: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if *seg.last().unwrap() != self.h.name || p.qself.is_some() { return }
            let q = if seg.len() > 1 { Some(seg[seg.len() - 2].clone()) } else { None };
            let ok = match &self.h.ty { Some(t) => q.as_ref() == Some(t) || (q.as_deref() == Some("Self") && self.ty.as_ref() == Some(t)), None => q.as_deref() != Some("Self") };
            let args: Vec<syn::Expr> = c.args.iter().cloned().collect();
            if ok && self.h.recv.is_none() && args.len() == self.h.params.len() { let (a, b) = rng(c.span()); self.found = Some((a, b, None, args)) }
        }
    }
    fn visit_expr_method_call(&mut self, c: &'a syn::ExprMethodCall) {
        visit::visit_expr_method_call(self, c);
        if self.found.is_some() { return }
        if c.method != self.h.name || self.h.recv.is_none() || c.args.len() != self.h.params.len() { return }
        let me = nows(&c.receiver) == "self" && self.ty == self.h.ty;
        if !me && self.h.recv.as_deref() != Some("&") { return }
        let (a, b) = rng(c.span()); let (ra, rb) = rng(c.receiver.span());
        self.found = Some((a, b, Some((ra, rb, me)), c.args.iter().cloned().collect()))
    }
    fn visit_item(&mut self, i: &'a syn::Item) { self.depth += 1; visit::visit_item(self, i); self.depth -= 1 }
}
fn plain(e: &syn::Expr) -> bool { match e { syn::Expr::Path(p) => p.path.segments.len() == 1, syn::Expr::Lit(l) => !matches!(l.lit, syn::Lit::Str(_)), syn::Expr::Field(f) => plain(&f.base), syn::Expr::Paren(p) => plain(&p.expr), _ => false } }
fn inlined(src: &str, h: &Helper, recv: Option<(usize, usize, bool)>, args: &[syn::Expr], caller_ty: &Option<String>, n: &mut usize) -> String {
    let mut map = BTreeMap::new();
    if h.ty != *caller_ty { if let Some(t) = &h.ty { map.insert("Self".to_string(), t.clone()); } }
    let mut lets = String::new(); let mut late = String::new();
    if let Some((a, b, me)) = recv { if !me { *n += 1; let t = h.ty.clone().unwrap(); lets.push_str(&format!("let vx_self{n}: &{t} = &{}; ", &src[a..b])); map.insert("self".into(), format!("vx_self{n}")); } }
    let pnames: BTreeSet<&String> = h.params.iter().map(|p| &p.0).collect();
    let mut argid = BTreeSet::new(); for a in args { idents(a.to_token_stream(), &mut argid) }
    let clash = argid.iter().any(|i| pnames.contains(i));
    for ((p, m, t), a) in h.params.iter().zip(args) {
        let (x, y) = rng(a.span()); let at = &src[x..y];
        let mut ids = BTreeSet::new(); idents(a.to_token_stream(), &mut ids);
        let rebound = h.bound.contains(p) || ids.iter().any(|i| h.bound.contains(i));
        if !m && plain(a) && !rebound && (!t.trim_start().starts_with('&') || ids.len() == 1) { if at != p { map.insert(p.clone(), at.to_string()); } continue }
        let m = if *m { "mut " } else { "" };
        if clash { *n += 1; lets.push_str(&format!("let vx_arg{n}: {t} = {at}; ")); late.push_str(&format!("let {m}{p}: {t} = vx_arg{n}; ")) }
        else { lets.push_str(&format!("let {m}{p}: {t} = {at}; ")) }
    }
    // a name of the caller may not be caught by a binding of the helper: such arguments were bound above
    let t0 = map.get("Self").cloned(); if let Some(t) = t0 { let m1: BTreeMap<String, String> = [("Self".to_string(), t)].into(); lets = subst(&lets, &m1); late = subst(&late, &m1) }
    let body = subst(&h.body, &map);
    if lets.is_empty() && h.simple { format!("({body})") } else if h.unit && !h.simple { format!("{{ {lets}{late}{body} }}") } else { format!("{{ {lets}{late}{body} }}") }
}
/// inlines the functions that are not in the committed tree; their names
pub fn inline(fs: &mut Vec<File>, b: &Base, contract: &BTreeSet<String>) -> Vec<String> {
    let mut done = vec![]; let mut n = 0;
    let Some(all) = funs(fs) else { return done };
    let known: BTreeSet<&String> = b.keys().map(|k| &k.1).collect();
    let new: Vec<(String, String)> = all.iter().filter(|f| !known.contains(&f.key) && !contract.contains(&f.key)).map(|f| (fs[f.file].path.clone(), f.key.clone())).collect();
    if new.is_empty() { return done }
    for _round in 0..4 { let mut any = false;
        for (path, key) in &new {
            let mut left = 60;
            loop {
                let Some(all) = funs(fs) else { return done };
                let Some(hf) = all.iter().find(|f| fs[f.file].path == *path && f.key == *key) else { break };
                if all.iter().filter(|f| f.name == hf.name).count() > 1 && hf.ty.is_none() { break }
                let Some(h) = helper(&fs[hf.file].text, hf) else { break };
                // helpers of helpers first
                if new.iter().any(|(_, k)| k != key && h.uses.contains(k.rsplit("::").next().unwrap())) && _round == 0 { break }
                let mut hit = None;
                for f in &all {
                    if f.key == *key && fs[f.file].path == *path { continue }
                    let mut c = Calls { h: &h, ty: f.ty.clone(), found: None, depth: 0 }; c.visit_block(&f.block);
                    if let Some((a, e, r, args)) = c.found { hit = Some((f.file, a, e, inlined(&fs[f.file].text, &h, r, &args, &f.ty, &mut n))); break }
                }
                let Some((fi, a, e, t)) = hit else { break };
                let mut text = fs[fi].text.clone(); text.replace_range(a..e, &t);
                if syn::parse_file(&text).is_err() { eprintln!("note: {key} could not be inlined"); break }
                fs[fi].text = text; any = true; if !done.contains(key) { done.push(key.clone()) }
                left -= 1; if left == 0 { break }
            }
        }
        if !any && _round > 0 { break }
    }
    done
}

// ---------------------------------------------------------------- renamed variables
fn flat(t: TokenStream, out: &mut Vec<String>) { for x in t { match x { TokenTree::Group(g) => { let (o, c) = match g.delimiter() { proc_macro2::Delimiter::Parenthesis => ("(", ")"), proc_macro2::Delimiter::Brace => ("{", "}"), proc_macro2::Delimiter::Bracket => ("[", "]"), _ => ("", "") }; out.push(o.into()); flat(g.stream(), out); out.push(c.into()) } x => out.push(x.to_string()) } } }
fn parse_fn(t: &str) -> Option<syn::ImplItemFn> { syn::parse_str::<syn::ImplItemFn>(t).ok().or_else(|| syn::parse_str::<syn::TraitItemFn>(t).ok().and_then(|f| f.default.map(|b| syn::ImplItemFn { attrs: vec![], vis: syn::Visibility::Inherited, defaultness: None, sig: f.sig, block: b }))) }
fn bound(f: &syn::ImplItemFn) -> BTreeSet<String> { let mut b = Bound::default(); b.visit_impl_item_fn(f); b.0.retain(|x| x.chars().next().is_some_and(|c| c.is_lowercase() || c == '_')); b.0 }
fn code(f: &syn::ImplItemFn) -> TokenStream { let mut t = f.sig.inputs.to_token_stream(); f.block.to_tokens(&mut t); t }
pub fn rename(fs: &mut Vec<File>, b: &Base) -> Vec<String> {
    let mut note = vec![];
    let Some(all) = funs(fs) else { return note };
    let mut edits: Vec<(usize, usize, usize, String)> = vec![];
    for f in &all {
        let Some(old) = b.get(&(fs[f.file].path.clone(), f.key.clone())) else { continue };
        let now = &fs[f.file].text[f.span.0..f.span.1];
        if old.trim() == now.trim() { continue }
        let (Some(o), Some(c)) = (parse_fn(old), parse_fn(now)) else { continue };
        let (mut oi, mut ci) = (BTreeSet::new(), BTreeSet::new()); idents(code(&o), &mut oi); idents(code(&c), &mut ci);
        let gone: BTreeSet<String> = bound(&o).into_iter().filter(|x| !ci.contains(x)).collect();
        let come: BTreeSet<String> = bound(&c).into_iter().filter(|x| !oi.contains(x)).collect();
        if gone.is_empty() || come.is_empty() { continue }
        let (mut a, mut d) = (vec![], vec![]); flat(code(&o), &mut a); flat(code(&c), &mut d);
        if a.len() * d.len() > 40_000_000 { continue }
        let key = |x: &String| -> u8 { if gone.contains(x) || come.contains(x) { 1 } else { 0 } };
        let same = |x: &String, y: &String| x == y || (key(x) == 1 && key(y) == 1);
        let w = d.len() + 1; let mut t = vec![0u32; (a.len() + 1) * w];
        for i in (0..a.len()).rev() { for j in (0..d.len()).rev() { t[i * w + j] = if same(&a[i], &d[j]) { t[(i + 1) * w + j + 1] + 1 } else { t[(i + 1) * w + j].max(t[i * w + j + 1]) } } }
        let mut votes: BTreeMap<(String, String), usize> = BTreeMap::new();
        let (mut i, mut j) = (0, 0);
        while i < a.len() && j < d.len() { if same(&a[i], &d[j]) { if key(&a[i]) == 1 && gone.contains(&a[i]) && come.contains(&d[j]) { *votes.entry((d[j].clone(), a[i].clone())).or_default() += 1 } i += 1; j += 1 } else if t[(i + 1) * w + j] >= t[i * w + j + 1] { i += 1 } else { j += 1 } }
        let mut v: Vec<((String, String), usize)> = votes.into_iter().collect(); v.sort_by_key(|x| std::cmp::Reverse(x.1));
        let mut map: BTreeMap<String, String> = BTreeMap::new();
        for ((n, o), _) in v { if !map.contains_key(&n) && !map.values().any(|x| *x == o) { map.insert(n, o); } }
        if map.is_empty() { continue }
        // a field given by its own name would change its meaning
        struct Short(BTreeSet<String>);
        impl<'a> Visit<'a> for Short {
            fn visit_field_value(&mut self, x: &'a syn::FieldValue) { if x.colon_token.is_none() { self.0.insert(nows(&x.member)); } visit::visit_field_value(self, x) }
            fn visit_field_pat(&mut self, x: &'a syn::FieldPat) { if x.colon_token.is_none() { self.0.insert(nows(&x.member)); } visit::visit_field_pat(self, x) }
        }
        let mut s = Short(BTreeSet::new()); s.visit_impl_item_fn(&c); map.retain(|k, _| !s.0.contains(k));
        let renamed = { let (p, q) = (rng(f.sig.span()), rng(f.block.span())); (p.0, q.1, subst(&fs[f.file].text[p.0..q.1], &map)) };
        for (n, o) in &map { note.push(format!("{}: {n} is {o}", f.key)) }
        edits.push((f.file, renamed.0, renamed.1, renamed.2));
    }
    edits.sort_by_key(|e| std::cmp::Reverse((e.0, e.1)));
    for (fi, a, e, t) in edits { let mut text = fs[fi].text.clone(); text.replace_range(a..e, &t); if syn::parse_file(&text).is_ok() { fs[fi].text = text } }
    note
}

// ---------------------------------------------------------------- `for p in e` and `while let Some(p) = it.next()`
/// the loops of a function in the order they begin: (span, Some(name of the iterator) when it is `while let Some(p) = it.next()`, is a `for`)
struct Loops { v: Vec<LoopAt> }
#[derive(Clone)]
struct LoopAt { span: (usize, usize), it: Option<String>, pat: (usize, usize), expr: (usize, usize), body: (usize, usize), is_for: bool, label: bool }
impl<'a> Visit<'a> for Loops {
    fn visit_expr_while(&mut self, w: &'a syn::ExprWhile) {
        let mut l = LoopAt { span: rng(w.span()), it: None, pat: (0, 0), expr: (0, 0), body: rng(w.body.span()), is_for: false, label: w.label.is_some() };
        if let syn::Expr::Let(e) = &*w.cond { if let (syn::Pat::TupleStruct(p), syn::Expr::MethodCall(m)) = (&*e.pat, &*e.expr) { if p.path.is_ident("Some") && p.elems.len() == 1 && m.method == "next" && m.args.is_empty() { if let syn::Expr::Path(q) = &*m.receiver { if let Some(i) = q.path.get_ident() { l.it = Some(i.to_string()); l.pat = rng(p.elems[0].span()) } } } } }
        self.v.push(l); visit::visit_expr_while(self, w)
    }
    fn visit_expr_for_loop(&mut self, f: &'a syn::ExprForLoop) { self.v.push(LoopAt { span: rng(f.span()), it: None, pat: rng(f.pat.span()), expr: rng(f.expr.span()), body: rng(f.body.span()), is_for: true, label: f.label.is_some() }); visit::visit_expr_for_loop(self, f) }
    fn visit_expr_loop(&mut self, f: &'a syn::ExprLoop) { self.v.push(LoopAt { span: rng(f.span()), it: None, pat: (0, 0), expr: (0, 0), body: (0, 0), is_for: false, label: true }); visit::visit_expr_loop(self, f) }
}
/// `let mut it = e;`, with the statements after it
struct Lets<'n> { n: &'n str, found: Vec<((usize, usize), (usize, usize))> }
impl<'a, 'n> Visit<'a> for Lets<'n> { fn visit_local(&mut self, l: &'a syn::Local) { if let (syn::Pat::Ident(i), Some(e)) = (&l.pat, &l.init) { if i.ident == self.n && i.mutability.is_some() && e.diverge.is_none() { self.found.push((rng(l.span()), rng(e.expr.span()))) } } visit::visit_local(self, l) } }
fn count_ident(t: TokenStream, n: &str) -> usize { t.into_iter().map(|x| match x { TokenTree::Ident(i) => (i == n) as usize, TokenTree::Group(g) => count_ident(g.stream(), n), _ => 0 }).sum() }
pub fn loops(fs: &mut Vec<File>, b: &Base) -> Vec<String> {
    let mut note = vec![];
    for _ in 0..20 {
        let Some(all) = funs(fs) else { return note };
        let mut edit: Option<(usize, String, String)> = None;
        for f in &all {
            let Some(old) = b.get(&(fs[f.file].path.clone(), f.key.clone())) else { continue };
            let text = &fs[f.file].text;
            if old.trim() == text[f.span.0..f.span.1].trim() { continue }
            let Some(o) = parse_fn(old) else { continue };
            let (mut lo, mut lc) = (Loops { v: vec![] }, Loops { v: vec![] }); lo.visit_block(&o.block); lc.visit_block(&f.block);
            if lo.v.len() != lc.v.len() { continue }
            for (x, y) in lo.v.iter().zip(&lc.v) {
                let t = |r: (usize, usize)| text[r.0..r.1].to_string();
                if x.is_for && y.it.is_some() && !y.label {
                    // the iterator is made once and used by this loop only
                    let it = y.it.clone().unwrap(); let mut l = Lets { n: &it, found: vec![] }; l.visit_block(&f.block);
                    if l.found.len() != 1 || count_ident(f.block.to_token_stream(), &it) != 2 || l.found[0].0 .1 > y.span.0 { continue }
                    let (ls, le) = l.found[0];
                    let mut n = text.clone();
                    n.replace_range(y.span.0..y.span.1, &format!("for {} in {} {}", t(y.pat), t(le), t(y.body))); n.replace_range(ls.0..ls.1, "");
                    // what stands between must not matter: nothing that could change what the iterator reads
                    if !text[ls.1..y.span.0].trim().is_empty() && !text[ls.1..y.span.0].split(';').all(|s| { let s = s.trim(); s.is_empty() || s.starts_with("let ") || s.starts_with("//") }) { continue }
                    edit = Some((f.file, n, format!("{}: while let is for", f.key)));
                } else if x.it.is_some() && y.is_for && !y.label {
                    let it = x.it.clone().unwrap();
                    let mut bd = Bound::default(); bd.visit_block(&f.block); if bd.0.contains(&it) { continue }
                    let mut n = text.clone();
                    let e = t(y.expr); let e = if e.contains("..") { continue } else if e.trim_start().starts_with('&') { format!("({e}).iter()") } else { e };
                    n.replace_range(y.span.0..y.span.1, &format!("let mut {it} = {e}; while let Some({}) = {it}.next() {}", t(y.pat), t(y.body)));
                    edit = Some((f.file, n, format!("{}: for is while let", f.key)));
                } else { continue }
                break;
            }
            if edit.is_some() { break }
        }
        let Some((fi, t, n)) = edit else { break };
        if syn::parse_file(&t).is_err() { break }
        fs[fi].text = t; note.push(n);
    }
    note
}

/// the functions whose loops have other headers than in the committed tree
pub fn loops_changed(fs: &[File], b: &Base) -> Vec<String> {
    struct H(Vec<String>);
    impl<'a> Visit<'a> for H {
        fn visit_expr_while(&mut self, w: &'a syn::ExprWhile) { self.0.push(format!("while {}", nows(&w.cond))); visit::visit_expr_while(self, w) }
        fn visit_expr_for_loop(&mut self, f: &'a syn::ExprForLoop) { self.0.push(format!("for {} in {}", nows(&f.pat), nows(&f.expr))); visit::visit_expr_for_loop(self, f) }
        fn visit_expr_loop(&mut self, f: &'a syn::ExprLoop) { self.0.push("loop".into()); visit::visit_expr_loop(self, f) }
    }
    let mut out = vec![];
    for f in &funs(fs).unwrap_or_default() {
        let Some(old) = b.get(&(fs[f.file].path.clone(), f.key.clone())) else { continue };
        if old.trim() == fs[f.file].text[f.span.0..f.span.1].trim() { continue }
        let Some(o) = parse_fn(old) else { continue };
        let (mut x, mut y) = (H(vec![]), H(vec![])); x.visit_block(&o.block); y.visit_block(&f.block);
        if x.0 != y.0 { out.push(f.name.clone()) }
    }
    out
}
