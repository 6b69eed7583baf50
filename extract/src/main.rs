//! Mechanical extraction of rphonetic functions into the Verus dialect.
//!
//! usage: extract --repo /repo --contracts unit.vx --out out.rs --meta out.json
//!
//! The tool splices small token-range edits into the ORIGINAL source text of the functions under
//! contract; see DESIGN.md ("What the extraction changes and drops") for the complete rule list.
mod prep;
use proc_macro2::Span;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

/// Method names of std types which are redirected to their contract-carrying stand-in `vx_<name>`.
const RENAMED: &[&str] = &[
    "chars", "char_indices", "next", "next_back", "peek", "peekable", "nth", "enumerate", "filter", "map", "map_or", "collect",
    "any", "all", "position", "find", "zip", "skip", "take", "rev", "cloned", "copied", "count", "chain",
    "starts_with", "ends_with", "contains", "replace", "replace_range", "trim", "to_uppercase", "to_lowercase",
    "to_ascii_uppercase", "to_ascii_lowercase", "is_alphabetic", "is_lowercase", "is_uppercase", "is_whitespace",
    "is_ascii_lowercase", "is_ascii_uppercase", "is_ascii_alphabetic", "is_ascii_digit", "is_numeric", "is_alphanumeric",
    "len", "is_empty", "push", "push_str", "pop", "remove", "insert", "clear", "truncate", "get", "get_mut", "first", "last",
    "iter", "iter_mut", "into_iter", "to_string", "to_owned", "as_str", "clone", "unwrap", "unwrap_or", "unwrap_or_default", "unwrap_or_else",
    "is_some", "is_none", "abs_diff", "min", "max", "join", "split", "split_whitespace", "strip_prefix", "extend",
    "saturating_sub", "wrapping_sub", "checked_sub", "reverse", "sort_by", "contains_key", "entry", "or_default", "for_each",
    "intersection", "union", "difference", "is_ok", "is_err", "parse", "and_then", "filter_map", "flat_map", "take_while", "skip_while", "step_by", "sum", "fold", "retain", "retain_mut", "eq", "ne", "ok", "as_ref", "as_bytes", "bytes", "is_some_and", "is_none_or", "eq_ignore_ascii_case", "try_into", "into", "drain", "append", "resize", "swap", "split_at", "char_at", "then", "then_some", "or", "or_else", "last_mut", "first_mut", "is_char_boundary", "trim_end_matches", "trim_start_matches", "trim_end", "trim_start", "find_map", "max_by", "min_by", "dedup", "windows", "chunks", "values_mut", "values", "keys", "replacen", "repeat", "strip_suffix", "as_deref", "take_if", "insert_str", "rfind", "matches", "splitn", "rsplit", "lines", "concat", "to_vec", "extend_from_slice", "cmp", "partial_cmp", "unzip", "partition", "rposition", "ilog2", "pow", "checked_add", "saturating_add", "wrapping_add", "map_err", "ok_or_else", "ok_or",
];
/// impls of these std traits are emitted as impls of the prelude trait Vx<Name>, which carries the contract
const STD_TRAITS: &[&str] = &["Display", "Default", "FromStr", "TryFrom", "Index", "Ord"];
const BOOL_CLOSURE: &[&str] = &["filter", "any", "all", "position", "find", "skip_while", "take_while", "retain", "is_some_and", "is_none_or"];

#[derive(Clone, Debug)]
struct Edit { start: usize, end: usize, seq: usize, text: String }

#[derive(Default, Clone, Debug)]
struct FnSpec { sig: String, first: String, start: String, end: String, loops: BTreeMap<usize, String>, loop_start: BTreeMap<usize, String>, loop_pre: BTreeMap<usize, String>, loop_end: BTreeMap<usize, String>, before_loop: BTreeMap<usize, String>, after_loop: BTreeMap<usize, String>, closures: BTreeMap<usize, (String, String)>, at: Vec<(String, bool, String)>, attrs: String, line: usize, ret: Option<String>, trusted: bool, abst: bool, used: bool }

#[derive(Default)]
struct Unit { files: Vec<String>, fns: BTreeMap<String, FnSpec>, skip: BTreeSet<String>, text: String, traits: BTreeMap<String, String>, structs: BTreeMap<String, String>, extra: Vec<String>, included: BTreeSet<String>, norename: BTreeSet<String>, rename_fn: BTreeMap<String, String>, litview: bool, vacuity: bool, tries: bool }

fn parse_unit(path: &str, u: &mut Unit) {
    let s = std::fs::read_to_string(path).unwrap_or_else(|e| { eprintln!("E-CONFIG cannot read {path}: {e}"); std::process::exit(3) });
    let dir = std::path::Path::new(path).parent().unwrap().to_path_buf();
    enum T { None, Sig, First, Start, End, Loop(usize), LoopStart(usize), LoopPre(usize), LoopEnd(usize), BeforeLoop(usize), AfterLoop(usize), Closure(usize), At, Text, Trait(String), Struct(String) }
    let mut cur: Option<String> = None;
    let mut tgt = T::None;
    for (ln, line) in s.lines().enumerate() {
        if let Some(rest) = line.strip_prefix('@') {
            let mut w = rest.split_whitespace();
            let k = w.next().unwrap_or("");
            let a: Vec<&str> = w.collect();
            let idx = || a.first().and_then(|x| x.parse::<usize>().ok()).unwrap_or(0);
            match k {
                "use" => { tgt = T::None }
                "litview" => { u.litview = true; tgt = T::None }
                "file" => { if !u.files.iter().any(|x| x == a[0]) { u.files.push(a[0].to_string()); } tgt = T::None }
                "include" => { if u.included.insert(a[0].to_string()) { parse_unit(dir.join(a[0]).to_str().unwrap(), u); } tgt = T::None }
                "extra" => { u.extra.push(a[0].to_string()); tgt = T::None }
                "skip" => { u.skip.insert(a[0].to_string()); tgt = T::None }
                "tries" => { u.tries = true; tgt = T::None }
                "norename" => { u.norename.insert(a[0].to_string()); tgt = T::None }
                "fn" | "trusted" | "abstract" => {
                    cur = Some(a[0].to_string());
                    let f = u.fns.entry(a[0].to_string()).or_default();
                    *f = FnSpec::default();
                    f.line = ln + 1;
                    f.trusted = k == "trusted"; f.abst = k == "abstract";
                    tgt = T::Sig
                }
                "attr" => { u.fns.get_mut(cur.as_ref().unwrap()).unwrap().attrs = rest[4..].trim().to_string(); }
                "ret" => { u.fns.get_mut(cur.as_ref().unwrap()).unwrap().ret = Some(rest[3..].trim().to_string()); }
                "start" => tgt = T::Start,
                "first" => tgt = T::First,
                "end" => tgt = T::End,
                "loop" => tgt = T::Loop(idx()),
                "loopstart" => tgt = T::LoopStart(idx()),
                "looppre" => tgt = T::LoopPre(idx()),
                "loopend" => tgt = T::LoopEnd(idx()),
                "beforeloop" => tgt = T::BeforeLoop(idx()),
                "afterloop" => tgt = T::AfterLoop(idx()),
                "closure" => { let f = u.fns.get_mut(cur.as_ref().unwrap()).unwrap(); f.closures.insert(idx(), (a[1..].join(" "), String::new())); tgt = T::Closure(idx()) }
                "before" | "after" => { let f = u.fns.get_mut(cur.as_ref().unwrap()).unwrap(); f.at.push((rest[k.len()..].trim().to_string(), k == "before", String::new())); tgt = T::At }
                "text" => tgt = T::Text,
                "trait" => tgt = T::Trait(a[0].to_string()),
                "struct" => { u.structs.entry(a[0].to_string()).or_default(); tgt = T::Struct(a[0].to_string()) }
                _ => { eprintln!("E-CONFIG {path}:{}: unknown @{k}", ln + 1); std::process::exit(3) }
            }
            continue;
        }
        let app = |d: &mut String| { d.push_str(line); d.push('\n') };
        let mut f = |g: &mut dyn FnMut(&mut FnSpec)| g(u.fns.get_mut(cur.as_ref().expect("no @fn")).unwrap());
        match &tgt {
            T::None => {}
            T::Sig => f(&mut |f| app(&mut f.sig)),
            T::Start => f(&mut |f| app(&mut f.start)),
            T::First => f(&mut |f| app(&mut f.first)),
            T::End => f(&mut |f| app(&mut f.end)),
            T::Loop(i) => f(&mut |f| app(f.loops.entry(*i).or_default())),
            T::LoopStart(i) => f(&mut |f| app(f.loop_start.entry(*i).or_default())),
            T::LoopPre(i) => f(&mut |f| app(f.loop_pre.entry(*i).or_default())),
            T::LoopEnd(i) => f(&mut |f| app(f.loop_end.entry(*i).or_default())),
            T::BeforeLoop(i) => f(&mut |f| app(f.before_loop.entry(*i).or_default())),
            T::AfterLoop(i) => f(&mut |f| app(f.after_loop.entry(*i).or_default())),
            T::Closure(i) => f(&mut |f| app(&mut f.closures.get_mut(i).unwrap().1)),
            T::At => f(&mut |f| app(&mut f.at.last_mut().unwrap().2)),
            T::Text => app(&mut u.text),
            T::Trait(t) => { let t = t.clone(); app(u.traits.entry(t).or_default()) }
            T::Struct(t) => { let t = t.clone(); app(u.structs.entry(t).or_default()) }
        }
    }
}

struct Src { text: String, path: String }

fn rng(s: Span) -> (usize, usize) { let r = s.byte_range(); (r.start, r.end) }

/// Collects edits for one function body.
struct Cx<'a> {
    tries: bool,
    src: &'a str,
    exec: Vec<Edit>,
    spec: Vec<Edit>,
    seq: usize,
    loops: usize,
    closures: usize,
    fresh: usize,
    fs: Option<&'a FnSpec>,
    norename: &'a BTreeSet<String>,
    lits: BTreeSet<String>,
    lost: Vec<String>,
    pending_closure: Option<String>,
    owned: &'a BTreeSet<String>,
    used_at: BTreeSet<usize>,
    local_fns: Vec<String>,
    str_consts: &'a BTreeSet<String>,
    mut_self: bool,
    lazy: &'a BTreeSet<String>,
    nom: &'a BTreeSet<String>,
}

impl<'a> Cx<'a> {
    fn e(&mut self, s: usize, t: usize, text: impl Into<String>) { self.seq += 1; self.exec.push(Edit { start: s, end: t, seq: self.seq, text: text.into() }) }
    fn sp(&mut self, s: usize, t: usize, text: impl Into<String>) { self.seq += 1; self.spec.push(Edit { start: s, end: t, seq: self.seq, text: text.into() }) }
    fn both(&mut self, s: usize, t: usize, text: &str) { self.e(s, t, text); self.sp(s, t, text) }
    fn txt(&self, s: Span) -> &'a str { let (a, b) = rng(s); &self.src[a..b] }
    /// The three pieces around the iterated expression and the body of a for loop.
    fn for_parts(&mut self, fpat: &syn::Pat, lab: &str) -> (String, String, String) {
        let k = self.loops; self.loops += 1;
        let mut g = vec![]; let mut l = vec![];
        let p = pat(self, fpat, &mut g, &mut l);
        let inv = self.fs.and_then(|s| s.loops.get(&k)).cloned().unwrap_or_default();
        let st = format!("/*VXPRE*/{}", self.fs.and_then(|s| s.loop_start.get(&k)).cloned().unwrap_or_default());
        let en = self.fs.and_then(|s| s.loop_end.get(&k)).cloned().unwrap_or_default();
        let bl = self.fs.and_then(|s| s.before_loop.get(&k)).cloned().unwrap_or_default();
        let al = self.fs.and_then(|s| s.after_loop.get(&k)).cloned().unwrap_or_default();
        (format!("{{ {}let mut vx_it{k} = (", self.fs.and_then(|s| s.loop_pre.get(&k)).cloned().unwrap_or_default()),
         format!(").vx_into_iter();\n{bl}{lab}loop\n{inv}{{ match vx_it{k}.vx_next() {{ None => {{ break; }} Some(vx_x{k}) => {{ let {p} = vx_x{k}; {}\n{st}", l.join(" ")),
         format!("{en}}} }} }}\n{al}}}"))
    }
    /// the name in nom of what a path names
    fn nom_name(&self, p: &syn::Path) -> Option<String> {
        let last = p.segments.last()?.ident.to_string();
        let first = p.segments.first()?.ident.to_string();
        if (p.segments.len() == 1 && self.nom.contains(&last)) || (p.segments.len() > 1 && first == "nom") { Some(last) } else { None }
    }
    fn fresh(&mut self) -> usize { self.fresh += 1; self.fresh }
}

fn render(src: &str, start: usize, end: usize, edits: &[Edit]) -> String {
    let mut es: Vec<&Edit> = edits.iter().filter(|e| e.start >= start && e.end <= end).collect();
    es.sort_by_key(|e| (e.start, e.end, e.seq));
    let mut out = String::new();
    let mut pos = start;
    for e in es {
        if e.start < pos { if e.end <= pos { continue } ; pos = e.end; out.push_str(&e.text); continue }
        out.push_str(&src[pos..e.start]);
        out.push_str(&e.text);
        pos = e.end;
    }
    out.push_str(&src[pos..end]);
    out
}

/// Pattern text for Verus: `&x`/`&'c'` patterns are not supported, they become bindings plus guards/lets.
/// Returns (pattern, guards, lets)
fn pat(cx: &mut Cx, p: &syn::Pat, guards: &mut Vec<String>, lets: &mut Vec<String>) -> String {
    match p {
        syn::Pat::Reference(r) => {
            let n = format!("vx_b{}", cx.fresh());
            match &*r.pat {
                syn::Pat::Lit(_) => guards.push(format!("*{n} == {}", cx.txt(r.pat.span()))),
                syn::Pat::Or(o) => guards.push(format!("({})", o.cases.iter().map(|c| format!("*{n} == {}", cx.txt(c.span()))).collect::<Vec<_>>().join(" || "))),
                syn::Pat::Paren(pp) => { if let syn::Pat::Or(o) = &*pp.pat { guards.push(format!("({})", o.cases.iter().map(|c| format!("*{n} == {}", cx.txt(c.span()))).collect::<Vec<_>>().join(" || "))) } }
                syn::Pat::Wild(_) => {}
                _ => { let inner = pat(cx, &r.pat, guards, lets); lets.push(format!("let {inner} = *{n};")) }
            }
            n
        }
        syn::Pat::Tuple(t) => format!("({})", t.elems.iter().map(|e| pat(cx, e, guards, lets)).collect::<Vec<_>>().join(", ") + if t.elems.len() == 1 { "," } else { "" }),
        syn::Pat::TupleStruct(t) => format!("{}({})", cx.txt(t.path.span()), t.elems.iter().map(|e| pat(cx, e, guards, lets)).collect::<Vec<_>>().join(", ")),
        syn::Pat::Paren(t) => format!("({})", pat(cx, &t.pat, guards, lets)),
        syn::Pat::Ident(i) if cx.str_consts.contains(&i.ident.to_string()) => { let n = format!("vx_b{}", cx.fresh()); guards.push(format!("vx_str_eq({n}, {})", i.ident)); n }
        syn::Pat::Lit(l) => if let syn::Lit::Str(_) = lit_of(l) { let n = format!("vx_b{}", cx.fresh()); guards.push(format!("vx_str_eq({n}, {})", cx.txt(l.span()))); n } else { cx.txt(l.span()).to_string() },
        _ => cx.txt(p.span()).to_string(),
    }
}
fn lit_of(l: &syn::PatLit) -> &syn::Lit { &l.lit }

fn needs_pat(p: &syn::Pat) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V { fn visit_pat(&mut self, p: &'a syn::Pat) { match p { syn::Pat::Reference(_) => self.0 = true, syn::Pat::Lit(l) if matches!(lit_of(l), syn::Lit::Str(_)) => self.0 = true, _ => {} } visit::visit_pat(self, p) } }
    let mut v = V(false); v.visit_pat(p); v.0
}

impl<'a, 'b> Visit<'b> for Cx<'a> {
    fn visit_expr_method_call(&mut self, m: &'b syn::ExprMethodCall) {
        let name = m.method.to_string();
        let (a, b) = rng(m.method.span());
        // `recv.for_each(|p| body)` => `for p in recv { body }`
        if name == "for_each" && m.args.len() == 1 {
            if let syn::Expr::Closure(c) = &m.args[0] {
                if c.inputs.len() == 1 {
                    let (ma, mb) = rng(m.span());
                    let (ra, rb) = rng(m.receiver.span());
                    let (ba, bb) = rng(c.body.span());
                    let (pre, mid, post) = self.for_parts(&c.inputs[0], "");
                    self.e(ma, ra, pre);
                    self.e(rb, ba, mid);
                    self.e(bb, mb, format!(";\n{post}"));
                    self.visit_expr(&m.receiver);
                    self.visit_expr(&c.body);
                    return;
                }
            }
        }
        // `recv.all(|p| body)` / `any`, where the body advances a captured iterator => the loop that defines it
        if (name == "all" || name == "any") && m.args.len() == 1 {
            if let syn::Expr::Closure(c) = &m.args[0] {
                struct N(bool);
                impl<'z> Visit<'z> for N { fn visit_expr_method_call(&mut self, m: &'z syn::ExprMethodCall) { if m.method == "next" || m.method == "next_back" { self.0 = true } visit::visit_expr_method_call(self, m) } }
                let mut n = N(false); n.visit_expr(&c.body);
                if n.0 && c.inputs.len() == 1 {
                    let k = self.loops;
                    let (ma, mb) = rng(m.span());
                    let (ra, rb) = rng(m.receiver.span());
                    let (ba, bb) = rng(c.body.span());
                    let (pre, mid, post) = self.for_parts(&c.inputs[0], "");
                    let (init, not) = if name == "all" { ("true", "!") } else { ("false", "") };
                    let stop = if name == "all" { "false" } else { "true" };
                    self.e(ma, ra, format!("{{ let mut vx_acc{k} = {init}; {pre}"));
                    self.e(rb, ba, format!("{mid} if {not}("));
                    self.e(bb, mb, format!(") {{ vx_acc{k} = {stop}; break; }} {post} vx_acc{k} }}"));
                    self.visit_expr(&m.receiver);
                    self.visit_expr(&c.body);
                    return;
                }
            }
        }
        // `m.entry(K).or_default()`
        if name == "or_default" && m.args.is_empty() {
            if let syn::Expr::MethodCall(e) = &*m.receiver {
                if e.method == "entry" && e.args.len() == 1 {
                    let (ea, eb) = rng(e.method.span()); let (_, rb) = rng(e.span());
                    self.e(ea, eb, "vx_entry_or_default");
                    self.e(rb, rng(m.span()).1, "");
                    self.visit_expr(&e.receiver); self.visit_expr(&e.args[0]);
                    return;
                }
            }
        }
        if RENAMED.contains(&name.as_str()) && !self.norename.contains(&name) && !self.owned.contains(&name) {
            self.e(a, b, format!("vx_{name}"));
            self.sp(a, b, format!("vs_{name}"));
        } else if self.owned.contains(&name) {
            self.sp(a, b, format!("vs_{name}"));
        }
        self.visit_expr(&m.receiver);
        if let Some(t) = &m.turbofish { self.visit_angle_bracketed_generic_arguments(t) }
        for x in &m.args {
            self.pending_closure = Some(name.clone());
            self.visit_expr(x);
            self.pending_closure = None;
        }
    }
    fn visit_expr_call(&mut self, c: &'b syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            if let Some(n) = self.nom_name(&p.path) { let (a, b) = rng(p.span()); self.e(a, b, format!("vx_nom_{n}")); for x in &c.args { self.visit_expr(x) } return }
            let last = p.path.segments.last().unwrap();
            let t = self.txt(p.span()).to_string();
            let (a, b) = rng(last.ident.span());
            let nm = last.ident.to_string();
            if nm.chars().next().unwrap().is_lowercase() && self.local_fns.contains(&nm) {
                self.sp(a, b, format!("vs_{nm}"));
            }
            let (pa, pb) = rng(p.span());
            if p.path.segments.len() > 1 && self.local_fns.contains(&nm) && p.path.segments.iter().rev().skip(1).all(|s| s.ident.to_string().chars().next().unwrap().is_lowercase() && s.ident != "Self") {
                self.both(pa, a, "");
            }
            match t.as_str() {
                _ if nm == "all" && c.args.is_empty() && p.path.segments.len() == 1 && matches!(last.arguments, syn::PathArguments::AngleBracketed(_)) => self.e(a, b, "vx_all_variants"),
                "std::fs::read_to_string" | "fs::read_to_string" => self.e(pa, pb, "vx_read_to_string"),
                "std::fs::read_dir" | "fs::read_dir" => self.e(pa, pb, "vx_read_dir"),
                "OsString::from" => self.e(pa, pb, "vx_os_string_from"),
                "std::cmp::min" | "cmp::min" => self.e(pa, pb, "vx_min"),
                "std::cmp::max" | "cmp::max" => self.e(pa, pb, "vx_max"),
                "String::with_capacity" => self.e(pa, pb, "vx_string_with_capacity"),
                "String::new" => self.e(pa, pb, "vx_string_new"),
                "String::from" => self.e(pa, pb, "vx_string_from"),
                "Vec::new" => self.e(pa, pb, "vx_vec_new"),
                "Vec::with_capacity" => self.e(pa, pb, "vx_vec_with_capacity"),
                "BTreeSet::from_iter" => self.e(pa, pb, "vx_btreeset_from_iter"),
                "BTreeSet::from" => self.e(pa, pb, "vx_btreeset_from"),
                "BTreeSet::new" => self.e(pa, pb, "vx_btreeset_new"),
                "BTreeMap::new" => self.e(pa, pb, "vx_btreemap_new"),
                "BTreeMap::from" => self.e(pa, pb, "vx_btreemap_from"),
                _ if nm == "try_from" && p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident.to_string().starts_with(char::is_uppercase) => { let x = &t[..t.rfind("::").unwrap()]; self.e(pa, pb, format!("<{x} as VxTryFrom<_>>::try_from")) }
                _ if nm == "from" && p.qself.is_none() && p.path.segments.len() == 2 && p.path.segments[0].ident.to_string().starts_with(char::is_uppercase) && !matches!(p.path.segments[0].ident.to_string().as_str(), "Vec" | "Box" | "Option" | "OsString" | "PathBuf") => { let x = &t[..t.rfind("::").unwrap()]; self.e(pa, pb, format!("<{x} as VxFrom<_>>::from")) }
                _ => {}
            }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_binary(&mut self, x: &'b syn::ExprBinary) {
        if let syn::BinOp::Add(op) = &x.op {
            let isstr = match strip_paren(&x.right) {
                syn::Expr::Lit(l) => matches!(l.lit, syn::Lit::Str(_)),
                syn::Expr::Reference(_) => true,
                syn::Expr::Path(p) => p.path.get_ident().map(|i| self.str_consts.contains(&i.to_string())).unwrap_or(false),
                _ => false,
            };
            if isstr {
                let (a, b) = rng(x.span()); let (oa, ob) = rng(op.span());
                self.e(a, a, "vx_string_add("); self.e(oa, ob, ","); self.e(b, b, ")");
            }
        }
        visit::visit_expr_binary(self, x);
    }
    fn visit_expr_reference(&mut self, r: &'b syn::ExprReference) {
        if let syn::Expr::Index(ix) = strip_paren(&r.expr) {
            if matches!(strip_paren(&ix.index), syn::Expr::Range(_)) {
                let (a, b) = rng(r.and_token.span());
                self.both(a, b, "");
            }
        }
        visit::visit_expr_reference(self, r);
    }
    fn visit_expr_index(&mut self, ix: &'b syn::ExprIndex) {
        if let syn::Expr::Range(r) = strip_paren(&ix.index) {
            let (oa, ob) = rng(ix.bracket_token.span.open());
            let (ca, cb) = rng(ix.bracket_token.span.close());
            let (la, lb) = rng(r.limits.span());
            let closed = matches!(r.limits, syn::RangeLimits::Closed(_));
            let n = match (&r.start, &r.end, closed) {
                (Some(_), Some(_), false) => "slice", (Some(_), Some(_), true) => "slice_incl",
                (Some(_), None, _) => "slice_from", (None, Some(_), false) => "slice_to", (None, Some(_), true) => "slice_to_incl",
                (None, None, _) => "slice_full" };
            self.e(oa, ob, format!(".vx_{n}("));
            self.sp(oa, ob, format!(".vs_{n}("));
            let sep = if r.start.is_some() && r.end.is_some() { ", " } else { "" };
            self.both(la, lb, sep);
            self.both(ca, cb, ")");
            self.visit_expr(&ix.expr);
            if let Some(s) = &r.start { self.visit_expr(s) }
            if let Some(s) = &r.end { self.visit_expr(s) }
            return;
        }
        visit::visit_expr_index(self, ix);
    }
    fn visit_pat(&mut self, p: &'b syn::Pat) { if !matches!(p, syn::Pat::Range(_)) { visit::visit_pat(self, p) } }
    fn visit_expr_range(&mut self, r: &'b syn::ExprRange) {
        let (a, b) = rng(r.span());
        let (la, lb) = rng(r.limits.span());
        if let (Some(_), Some(_)) = (&r.start, &r.end) {
            let n = if matches!(r.limits, syn::RangeLimits::Closed(_)) { "vx_range_incl(" } else { "vx_range(" };
            self.e(a, a, n); self.e(la, lb, ", "); self.e(b, b, ")");
        } else if r.start.is_some() {
            self.e(a, a, "vx_range_from("); self.e(la, lb, ""); self.e(b, b, ")");
        } else if r.end.is_some() {
            self.e(la, lb, "vx_range_to("); self.e(b, b, ")");
        }
        visit::visit_expr_range(self, r);
    }
    fn visit_expr_for_loop(&mut self, f: &'b syn::ExprForLoop) {
        let (a, _) = rng(f.span());
        let (ea, eb) = rng(f.expr.span());
        let (_, bb) = rng(f.body.brace_token.span.open());
        let (ca, cb) = rng(f.body.brace_token.span.close());
        let lab = f.label.as_ref().map(|l| format!("'{}: ", l.name.ident)).unwrap_or_default();
        let (pre, mid, post) = self.for_parts(&f.pat, &lab);
        match &*f.expr {
            // the collection iterated over is a temporary: it gets a name, so that it lives as long as the loop
            syn::Expr::MethodCall(m) if m.method == "iter" && matches!(&*m.receiver, syn::Expr::MethodCall(_) | syn::Expr::Call(_)) => {
                let (_, rb) = rng(m.receiver.span());
                self.e(a, ea, "{ let vx_src = ");
                self.visit_expr(&m.receiver);
                self.e(rb, rb, format!(";\n{} vx_src", pre.replacen("{ ", "", 1)));
                let (x, y) = rng(m.method.span());
                self.e(x, y, "vx_iter");
            }
            _ => { self.e(a, ea, pre); self.visit_expr(&f.expr); }
        }
        self.e(eb, bb, mid);
        self.e(ca, cb, post);
        self.visit_block(&f.body);
    }
    fn visit_expr_while(&mut self, w: &'b syn::ExprWhile) {
        let k = self.loops; self.loops += 1;
        let inv = self.fs.and_then(|s| s.loops.get(&k)).cloned().unwrap_or_default();
        let st = format!("/*VXPRE*/{}", self.fs.and_then(|s| s.loop_start.get(&k)).cloned().unwrap_or_default());
        let en = self.fs.and_then(|s| s.loop_end.get(&k)).cloned().unwrap_or_default();
        let bl = self.fs.and_then(|s| s.before_loop.get(&k)).cloned().unwrap_or_default();
        let al = self.fs.and_then(|s| s.after_loop.get(&k)).cloned().unwrap_or_default();
        let (a, b) = rng(w.span());
        let (ba, bb) = rng(w.body.brace_token.span.open());
        let (ca, cb) = rng(w.body.brace_token.span.close());
        let lab = w.label.as_ref().map(|l| format!("'{}: ", l.name.ident)).unwrap_or_default();
        let wa = rng(w.while_token.span()).0;
        let _ = b;
        if let syn::Expr::Let(l) = &*w.cond {
            let (ea, eb) = rng(l.expr.span());
            let mut g = vec![]; let mut ls = vec![];
            let p = if needs_pat(&l.pat) { pat(self, &l.pat, &mut g, &mut ls) } else { self.txt(l.pat.span()).to_string() };
            self.e(a, ea, format!("{{ {bl}{lab}loop\n{inv}{{ match "));
            let gs = if g.is_empty() { String::new() } else { format!(" if {}", g.join(" && ")) };
            self.e(eb, bb, format!(" {{ {p}{gs} => {{ {}\n{st}", ls.join(" ")));
            self.e(ca, cb, format!("{en}}} _ => {{ break; }} }} }}\n{al}}}"));
            self.visit_expr(&l.expr);
        } else {
            let (ea, eb) = rng(w.cond.span());
            // `while c { B }` => `loop { if !(c) { break; } B }`
            self.e(a.min(wa), ea, format!("{{ {bl}{lab}loop\n{inv}{{ /*VXPRE*/{} if !(", self.fs.and_then(|s| s.loop_pre.get(&k)).cloned().unwrap_or_default()));
            self.e(eb, bb, format!(") {{ break; }}\n{}", st.replace("/*VXPRE*/", "")));
            self.e(ca, cb, format!("{en}}}\n{al}}}"));
            self.visit_expr(&w.cond);
        }
        let _ = ba;
        self.visit_block(&w.body);
    }
    // `e?` on a Result => the match it stands for
    fn visit_expr_try(&mut self, t: &'b syn::ExprTry) {
        if self.tries {
            let (a, b) = rng(t.span()); let (_, eb) = rng(t.expr.span());
            self.e(a, a, "(match ");
            self.e(eb, b, " { Ok(vx_v) => vx_v, Err(vx_e) => { return Err(VxFrom::from(vx_e)); } })");
        }
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_loop(&mut self, w: &'b syn::ExprLoop) {
        let k = self.loops; self.loops += 1;
        let inv = self.fs.and_then(|s| s.loops.get(&k)).cloned().unwrap_or_default();
        let st = format!("/*VXPRE*/{}", self.fs.and_then(|s| s.loop_start.get(&k)).cloned().unwrap_or_default());
        let en = self.fs.and_then(|s| s.loop_end.get(&k)).cloned().unwrap_or_default();
        let (ba, bb) = rng(w.body.brace_token.span.open());
        let (ca, _) = rng(w.body.brace_token.span.close());
        self.e(ba, bb, format!("\n{inv}{{\n{st}"));
        self.e(ca, ca, en);
        self.visit_block(&w.body);
    }
    fn visit_expr_closure(&mut self, c: &'b syn::ExprClosure) {
        let k = self.closures; self.closures += 1;
        let method = self.pending_closure.take();
        let (a, _) = rng(c.or1_token.span());
        let (ba, bb) = rng(c.body.span());
        let mut params = vec![]; let mut lets = vec![];
        for (i, p) in c.inputs.iter().enumerate() {
            match p {
                syn::Pat::Ident(id) if id.subpat.is_none() && id.by_ref.is_none() => params.push(id.ident.to_string()),
                syn::Pat::Type(t) if matches!(&*t.pat, syn::Pat::Ident(_)) => params.push(self.txt(p.span()).to_string()),
                syn::Pat::Type(t) => { params.push(format!("vx_p{k}_{i}: {}", self.txt(t.ty.span()))); if !matches!(&*t.pat, syn::Pat::Wild(_)) { lets.push(format!("let {} = vx_p{k}_{i};", self.txt(t.pat.span()))) } }
                syn::Pat::Wild(_) => params.push(format!("vx_p{k}_{i}")),
                syn::Pat::Reference(r) => { params.push(format!("vx_p{k}_{i}")); lets.push(format!("let {} = *vx_p{k}_{i};", self.txt(r.pat.span()))) }
                _ => { params.push(format!("vx_p{k}_{i}")); lets.push(format!("let {} = vx_p{k}_{i};", self.txt(p.span()))) }
            }
        }
        let mut lets = lets;
        if let Some((h, _)) = self.fs.and_then(|s| s.closures.get(&k)) {
            // a header from the contract: its parameter names are bound to the patterns of the source, by position
            if let Ok(hc) = syn::parse_str::<syn::ExprClosure>(&format!("{} ()", h.split("->").next().unwrap_or(""))) {
                lets.clear();
                for (hp, p) in hc.inputs.iter().zip(c.inputs.iter()) {
                    let n = match hp { syn::Pat::Type(t) => quote::ToTokens::to_token_stream(&t.pat).to_string(), x => quote::ToTokens::to_token_stream(x).to_string() };
                    let p = match p { syn::Pat::Type(t) => &*t.pat, x => x };
                    match p { syn::Pat::Wild(_) => {}, syn::Pat::Ident(i) if i.ident == n.as_str() => {}, syn::Pat::Reference(r) => lets.push(format!("let {} = *{n};", self.txt(r.pat.span()))), _ => lets.push(format!("let {} = {n};", self.txt(p.span()))) }
                }
                if hc.inputs.len() != c.inputs.len() { self.lost.push(format!("closure {k}: {} parameters in the code, {} in the contract", c.inputs.len(), hc.inputs.len())) }
            }
        }
        let lets = lets.join(" ");
        self.visit_expr(&c.body);
        let given = self.fs.and_then(|s| s.closures.get(&k)).cloned();
        let (ptypes, body_spec) = match given { Some((h, b)) => (h, b), None => (String::new(), String::new()) };
        let spec_body = render(self.src, ba, bb, &self.spec);
        let isbool = method.as_deref().map(|m| BOOL_CLOSURE.contains(&m)).unwrap_or(false);
        let head = if ptypes.is_empty() {
            format!("|{}| -> (vx_r: {})", params.join(", "), if isbool { "bool" } else { "_" })
        } else { ptypes };
        let ens = if body_spec.trim().is_empty() && spec_body.contains("format!") { "ensures true".to_string() } else if body_spec.trim().is_empty() { format!("ensures vx_same(vx_r, {{ {lets} {spec_body} }})") } else { body_spec };
        self.e(a, ba, format!("{head} {ens} {{ {lets} "));
        self.e(bb, bb, " }");
    }
    fn visit_expr_match(&mut self, m: &'b syn::ExprMatch) {
        for arm in &m.arms {
            if cfg_off(&arm.attrs) { continue }
            if let (syn::Pat::Or(o), Some((_, ge))) = (&arm.pat, &arm.guard) {
                // an or-pattern of character literals with a guard: the alternatives join the guard
                if o.cases.iter().all(|c| matches!(c, syn::Pat::Lit(l) if matches!(lit_of(l), syn::Lit::Char(_)))) {
                    let n = format!("vx_b{}", self.fresh());
                    let (a, b) = rng(arm.pat.span()); let (ga, gb) = rng(ge.span());
                    let g = o.cases.iter().map(|c| format!("{n} == {}", self.txt(c.span()))).collect::<Vec<_>>().join(" || ");
                    self.e(a, b, n); self.e(ga, ga, format!("({g}) && (")); self.e(gb, gb, ")");
                    continue
                }
            }
            if needs_pat(&arm.pat) || matches!(&arm.pat, syn::Pat::Ident(i) if self.str_consts.contains(&i.ident.to_string())) {
                let (a, b) = rng(arm.pat.span());
                let mut g = vec![]; let mut l = vec![];
                // top-level or-patterns of reference/str literals share one binding
                let p = match &arm.pat {
                    syn::Pat::Or(o) if o.cases.iter().all(|c| matches!(c, syn::Pat::Reference(r) if matches!(&*r.pat, syn::Pat::Lit(_))) || matches!(c, syn::Pat::Lit(_))) => {
                        let n = format!("vx_b{}", self.fresh());
                        g.push(format!("({})", o.cases.iter().map(|c| match c { syn::Pat::Reference(r) => format!("*{n} == {}", self.txt(r.pat.span())), _ => format!("vx_str_eq({n}, {})", self.txt(c.span())) }).collect::<Vec<_>>().join(" || ")));
                        n
                    }
                    _ => pat(self, &arm.pat, &mut g, &mut l),
                };
                if let Some((_, ge)) = &arm.guard {
                    let (ga, gb) = rng(ge.span());
                    if !g.is_empty() { self.e(ga, ga, format!("{} && (", g.join(" && "))); self.e(gb, gb, ")"); }
                    self.e(a, b, p);
                } else if !g.is_empty() {
                    self.e(a, b, format!("{p} if {}", g.join(" && ")));
                } else { self.e(a, b, p); }
                if !l.is_empty() {
                    let (ea, eb) = rng(arm.body.span());
                    self.e(ea, ea, format!("{{ {} ", l.join(" "))); self.e(eb, eb, " }");
                }
            }
            collect_pat_lits(&arm.pat, &mut self.lits);
        }
        self.visit_expr(&m.expr);
        for arm in &m.arms {
            if cfg_off(&arm.attrs) { let (a, b) = rng(arm.span()); self.e(a, b, ""); continue }
            self.visit_arm(arm);
        }
    }
    fn visit_expr_path(&mut self, p: &'b syn::ExprPath) {
        if self.mut_self && p.path.is_ident("self") { let (a, b) = rng(p.span()); self.e(a, b, "vx_self"); return }
        // a function of nom used as a parser
        if let Some(n) = self.nom_name(&p.path) { let (a, b) = rng(p.span()); self.e(a, b, format!("vx_nom_{n}()")); return }
        if let Some(i) = p.path.segments.last().map(|s| &s.ident) { if self.lazy.contains(&i.to_string()) { let (a, b) = rng(p.span()); self.e(a, b, format!("vx_lazy_{i}()")); return } }
        visit::visit_expr_path(self, p)
    }
    fn visit_expr_lit(&mut self, l: &'b syn::ExprLit) {
        if let syn::Lit::Str(s) = &l.lit { self.lits.insert(s.value()); }
    }
    fn visit_macro(&mut self, m: &'b syn::Macro) {
        let n = m.path.segments.last().unwrap().ident.to_string();
        let (a, b) = rng(m.span());
        match n.as_str() {
            "unreachable" | "panic" | "todo" => self.e(a, b, "vx_unreachable()"),
            "vec" => {
                let parsed: Result<syn::punctuated::Punctuated<syn::Expr, syn::Token![,]>, _> = m.parse_body_with(syn::punctuated::Punctuated::parse_terminated);
                if let Ok(p) = parsed {
                    let (da, db) = match &m.delimiter { syn::MacroDelimiter::Bracket(x) => (x.span.open(), x.span.close()), syn::MacroDelimiter::Paren(x) => (x.span.open(), x.span.close()), syn::MacroDelimiter::Brace(x) => (x.span.open(), x.span.close()) };
                    self.e(a, rng(da).1, "vx_vec([");
                    let (ca, cb) = rng(db);
                    self.e(ca, cb, "])");
                    for x in &p { self.visit_expr(x) }
                } else { self.lost.push(format!("unsupported macro vec!")) }
            }
            // format!/write! of texts and displayed values => the pieces, one after the other
            "format" | "write" => {
                let parsed: Result<syn::punctuated::Punctuated<syn::Expr, syn::Token![,]>, _> = m.parse_body_with(syn::punctuated::Punctuated::parse_terminated);
                let mut ok = false;
                if let Ok(p) = parsed {
                    let k = if n == "write" { 1 } else { 0 };
                    let args: Vec<&syn::Expr> = p.iter().collect();
                    if let Some(syn::Expr::Lit(l)) = args.get(k) { if let syn::Lit::Str(f) = &l.lit {
                        let f = f.value(); let cs: Vec<char> = f.chars().collect();
                        let (mut i, mut lit, mut pos, mut code, mut good) = (0, String::new(), 0, String::new(), true);
                        let (put, show) = if k == 1 { (format!("vx_put(&mut *{}, ", self.txt(args[0].span())), format!("vx_show(&mut *{}, ", self.txt(args[0].span()))) } else { ("vx_fs.vx_push_str(".to_string(), "vx_show_in(&mut vx_fs, ".to_string()) };
                        let mut flush = |lit: &mut String, code: &mut String, lits: &mut BTreeSet<String>| { if !lit.is_empty() { let _ = write!(code, "{put}{}); ", esc(lit)); lits.insert(lit.clone()); lit.clear() } };
                        while i < cs.len() {
                            if (cs[i] == '{' || cs[i] == '}') && cs.get(i + 1) == Some(&cs[i]) { lit.push(cs[i]); i += 2; continue }
                            if cs[i] == '{' {
                                let e = match cs[i..].iter().position(|c| *c == '}') { Some(e) => i + e, None => { good = false; break } };
                                let nm: String = cs[i + 1..e].iter().collect();
                                flush(&mut lit, &mut code, &mut self.lits);
                                let arg = if nm.is_empty() { pos += 1; args.get(k + pos).map(|a| self.txt(a.span()).to_string()) } else if let Ok(j) = nm.parse::<usize>() { args.get(k + 1 + j).map(|a| self.txt(a.span()).to_string()) } else if nm.chars().all(|c| c.is_alphanumeric() || c == '_') { Some(nm) } else { None };
                                match arg { Some(x) => { let _ = write!(code, "{show}&{x}); "); } None => { good = false; break } }
                                i = e + 1; continue
                            }
                            lit.push(cs[i]); i += 1;
                        }
                        flush(&mut lit, &mut code, &mut self.lits);
                        if good { ok = true; if k == 1 { self.e(a, b, format!("{{ {code} vx_fmt_ok() }}")) } else { self.e(a, b, format!("{{ let mut vx_fs = vx_string_new(); {code} vx_fs }}")) } }
                    } }
                }
                if !ok { self.lost.push(format!("unsupported macro {n}!")) }
            }
            "matches" => {
                struct M(syn::Expr);
                impl syn::parse::Parse for M { fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> { let e = i.parse()?; let _: syn::Token![,] = i.parse()?; let _: proc_macro2::TokenStream = i.parse()?; Ok(M(e)) } }
                if let Ok(x) = m.parse_body::<M>() { self.visit_expr(&x.0) }
            }
            "debug_assert" | "assert" => {
                let parsed: Result<syn::punctuated::Punctuated<syn::Expr, syn::Token![,]>, _> = m.parse_body_with(syn::punctuated::Punctuated::parse_terminated);
                match parsed { Ok(p) if !p.is_empty() => { let (ca, cb) = rng(p[0].span()); self.e(a, ca, "vx_assert("); self.e(cb, b, ")"); self.visit_expr(&p[0]) } _ => self.lost.push(format!("unsupported macro {n}!")) }
            }
            _ => { self.lost.push(format!("unsupported macro {n}!")) }
        }
    }
    fn visit_stmt(&mut self, s: &'b syn::Stmt) {
        let t: String = self.txt(s.span()).split_whitespace().collect::<Vec<_>>().join(" ");
        let (a, b) = rng(s.span());
        if let Some(fs) = self.fs {
            for (i, (anchor, before, text)) in fs.at.iter().enumerate() {
                if !self.used_at.contains(&i) && t.starts_with(anchor.as_str()) {
                    self.used_at.insert(i);
                    if *before { self.e(a, a, format!("{text}\n")) } else { self.e(b, b, format!("\n{text}\n")) }
                }
            }
        }
        visit::visit_stmt(self, s);
    }
    fn visit_attribute(&mut self, a: &'b syn::Attribute) { let (x, y) = rng(a.span()); self.e(x, y, "") }
    fn visit_local(&mut self, l: &'b syn::Local) {
        visit::visit_local(self, l);
    }
}

fn collect_pat_lits(p: &syn::Pat, out: &mut BTreeSet<String>) {
    struct V<'x>(&'x mut BTreeSet<String>);
    impl<'a, 'x> Visit<'a> for V<'x> { fn visit_pat(&mut self, p: &'a syn::Pat) { if let syn::Pat::Lit(l) = p { if let syn::Lit::Str(s) = lit_of(l) { self.0.insert(s.value()); } } visit::visit_pat(self, p) } }
    V(out).visit_pat(p);
}

/// What is left out of the build that is verified: the one with all features.
fn cfg_off(a: &[syn::Attribute]) -> bool { a.iter().any(|a| a.path().is_ident("cfg") && { let t: String = quote::ToTokens::to_token_stream(a).to_string().split_whitespace().collect(); t.contains("not(feature") }) }
/// the items of inline modules (other than tests) join those of the file
fn flatten(items: Vec<syn::Item>, out: &mut Vec<syn::Item>) {
    for i in items { match i {
        syn::Item::Mod(m) if m.content.is_some() => { let t = m.attrs.iter().any(|a| quote::ToTokens::to_token_stream(a).to_string().contains("test")); if !t && !cfg_off(&m.attrs) { flatten(m.content.unwrap().1, out) } }
        syn::Item::Fn(ref f) if cfg_off(&f.attrs) => {}
        syn::Item::Impl(ref f) if cfg_off(&f.attrs) => {}
        i => out.push(i),
    } }
}

fn strip_paren(e: &syn::Expr) -> &syn::Expr { match e { syn::Expr::Paren(p) => strip_paren(&p.expr), _ => e } }

fn char_lit(c: char) -> String { match c { '\'' => "'\\''".into(), '\\' => "'\\\\'".into(), '\n' => "'\\n'".into(), '\r' => "'\\r'".into(), '\t' => "'\\t'".into(), c => format!("'{c}'") } }
fn seq_lit(s: &str) -> String { format!("seq![{}]", s.chars().map(char_lit).collect::<Vec<_>>().join(", ")) }
fn esc(s: &str) -> String { format!("{s:?}") }
fn reveal(l: &str) -> String {
    let e = esc(l);
    if l.is_empty() { return "reveal_strlit(\"\"); assert(\"\"@ =~= Seq::<char>::empty());".into() }
    let ascii = if l.is_ascii() { format!(" assert(is_ascii_seq({e}@)) by {{ reveal(is_ascii_seq); }}") } else { String::new() };
    format!("reveal_strlit({e}); assert({e}@ =~= {});{ascii}", seq_lit(l))
}
/// The facts about a literal which callers get: contents (or, in view mode, only its length) and that it is ASCII.
fn lit_facts(l: &str, view: bool) -> String {
    let e = esc(l);
    let mut s = if l.is_empty() { format!("{e}@ == Seq::<char>::empty()") } else if view && l.chars().count() > 1 { format!("{e}@.len() == {}, {e}@[0] == {}, {e}@.last() == {}", l.chars().count(), char_lit(l.chars().next().unwrap()), char_lit(l.chars().last().unwrap())) } else { format!("{e}@ == {}", seq_lit(l)) };
    if l.is_ascii() && !l.is_empty() { s.push_str(&format!(", is_ascii_seq({e}@)")) }
    s
}

/// Names used in a token stream.
fn idents(ts: proc_macro2::TokenStream, out: &mut BTreeSet<String>) {
    // beside the identifiers, the pairs T::name as they are written
    let (mut ty, mut colons) = (String::new(), 0);
    for t in ts { match t {
        proc_macro2::TokenTree::Ident(i) => { if colons == 2 { out.insert(format!("{ty}::{i}")); } ty = i.to_string(); colons = 0; out.insert(ty.clone()); }
        proc_macro2::TokenTree::Group(g) => { idents(g.stream(), out); ty = "?".to_string(); colons = 0 }
        proc_macro2::TokenTree::Punct(c) if c.as_char() == ':' => colons += 1,
        _ => { ty = "?".to_string(); colons = 0 }
    } }
}

/// `static ref NAME: TYPE = EXPR;` of a lazy_static! invocation
struct Lazies(Vec<(syn::Ident, syn::Type, syn::Expr)>);
impl syn::parse::Parse for Lazies {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Self> {
        let mut v = vec![];
        while !i.is_empty() {
            let _ = i.call(syn::Attribute::parse_outer)?;
            let _: syn::Visibility = i.parse()?;
            let _: syn::Token![static] = i.parse()?;
            let _: syn::Token![ref] = i.parse()?;
            let n: syn::Ident = i.parse()?;
            let _: syn::Token![:] = i.parse()?;
            let ty: syn::Type = i.parse()?;
            let _: syn::Token![=] = i.parse()?;
            let e: syn::Expr = i.parse()?;
            let _: syn::Token![;] = i.parse()?;
            v.push((n, ty, e));
        }
        Ok(Lazies(v))
    }
}
fn lazies(m: &syn::ItemMacro) -> Vec<(syn::Ident, syn::Type, syn::Expr)> { if m.mac.path.segments.last().map(|s| s.ident == "lazy_static").unwrap_or(false) { m.mac.parse_body::<Lazies>().map(|l| l.0).unwrap_or_default() } else { vec![] } }

struct Out { nom: BTreeMap<String, BTreeSet<String>>, lazy: BTreeSet<String>, code: String, fns: Vec<(String, String, usize, bool, bool, usize, usize)>, lost: Vec<String>, consts: Vec<String>, lits: Vec<String>, str_consts: BTreeSet<String> }

/// T of a return type `impl nom::Parser<.., Output = T, ..>`
fn nom_output(src: &Src, ty: &syn::Type) -> Option<String> {
    let syn::Type::ImplTrait(t) = ty else { return None };
    for b in &t.bounds { if let syn::TypeParamBound::Trait(t) = b { let s = t.path.segments.last()?; if s.ident == "Parser" { if let syn::PathArguments::AngleBracketed(a) = &s.arguments { for g in &a.args { if let syn::GenericArgument::AssocType(x) = g { if x.ident == "Output" { let (p, q) = rng(x.ty.span()); return Some(src.text[p..q].to_string()) } } } } } } }
    None
}
/// the names a file imports from nom
fn nom_uses(f: &syn::File) -> BTreeSet<String> {
    fn tree(t: &syn::UseTree, out: &mut BTreeSet<String>) { match t { syn::UseTree::Path(p) => tree(&p.tree, out), syn::UseTree::Name(n) => { let s = n.ident.to_string(); if s.chars().next().unwrap().is_lowercase() { out.insert(s); } }, syn::UseTree::Group(g) => g.items.iter().for_each(|t| tree(t, out)), _ => {} } }
    let mut o = BTreeSet::new();
    for i in &f.items { if let syn::Item::Use(u) = i { if let syn::UseTree::Path(p) = &u.tree { if p.ident == "nom" { tree(&p.tree, &mut o) } } } }
    o
}

fn emit_fn(src: &Src, u: &Unit, name: &str, sig: &syn::Signature, block: Option<&syn::Block>, vis: &str, span: Span, out: &mut Out, owned: &BTreeSet<String>, consts_str: &BTreeMap<String, Vec<String>>, consts_proof: &BTreeSet<String>, local_fns: &[String], in_trait: bool) -> String {
    let fs = u.fns.get(name);
    let line = span.start().line;
    let out_str_consts = out.str_consts.clone();
    let out_lazy = out.lazy.clone();
    let out_nom = out.nom.get(&src.path).cloned().unwrap_or_default();
    let mut cx = Cx { tries: u.tries, nom: &out_nom, lazy: &out_lazy, src: &src.text, exec: vec![], spec: vec![], seq: 10, loops: 0, closures: 0, fresh: 0, fs, norename: &u.norename, lits: BTreeSet::new(), lost: vec![], pending_closure: None, owned, used_at: BTreeSet::new(), local_fns: local_fns.to_vec(), str_consts: &out_str_consts, mut_self: sig.receiver().map(|r| r.reference.is_none() && r.mutability.is_some()).unwrap_or(false) };
    // signature
    let (sa, sb) = rng(sig.span());
    let mut s = format!("// {}:{}\n", src.path, line);
    let mut sigtxt;
    let mut arg_pats = String::new();
    {
        let mut ed = vec![];
        if let syn::ReturnType::Type(_, ty) = &sig.output {
            let (a, b) = rng(ty.span());
            let rt = fs.and_then(|f| f.ret.clone()).unwrap_or_else(|| nom_output(src, ty).map(|o| format!("VxP<{o}>")).unwrap_or_else(|| src.text[a..b].to_string()));
            ed.push(Edit { start: a, end: b, seq: 0, text: format!("(r: {rt})") });
        }
        if let Some(f) = fs { if !f.sig.trim().is_empty() { if let Some(w) = &sig.generics.where_clause { let (a,b) = rng(w.span()); ed.push(Edit{start:a,end:b,seq:0,text:String::new()}); } } }
        if vis == "pub " && sig.receiver().is_some() && RENAMED.contains(&sig.ident.to_string().as_str()) && !u.norename.contains(&sig.ident.to_string()) {
            let (a, b) = rng(sig.ident.span());
            ed.push(Edit { start: a, end: b, seq: 0, text: format!("vx_{}", sig.ident) });
        }
        if cx.mut_self { let (a, b) = rng(sig.receiver().unwrap().mutability.unwrap().span()); ed.push(Edit { start: a, end: b, seq: 0, text: String::new() }); }
        for (k, i) in sig.inputs.iter().enumerate() { if let syn::FnArg::Typed(t) = i { if !matches!(&*t.pat, syn::Pat::Wild(_) | syn::Pat::Ident(_)) { let (a, b) = rng(t.pat.span()); ed.push(Edit { start: a, end: b, seq: 0, text: format!("vx_a{k}") }); let _ = write!(arg_pats, "let {} = vx_a{k};\n", &src.text[a..b]); } } }
        for i in &sig.inputs { if let syn::FnArg::Typed(t) = i { if let syn::Pat::Wild(w) = &*t.pat { let (a, b) = rng(w.span()); ed.push(Edit { start: a, end: b, seq: 0, text: "vx_unused".into() }) } } }
        sigtxt = render(&src.text, sa, sb, &ed);
        if let (Some(f), Some(w)) = (fs, &sig.generics.where_clause) { if !f.sig.trim().is_empty() { sigtxt.push_str(" "); sigtxt.push_str(&src.text[rng(w.span()).0..rng(w.span()).1]); } }
    }
    let mut attrs = fs.map(|f| f.attrs.clone()).unwrap_or_default();
    let trusted = fs.map(|f| f.trusted).unwrap_or(false);
    if trusted { attrs.push_str("#[verifier::external_body]") }
    if !attrs.is_empty() { s.push_str(&attrs); s.push('\n') }
    let _ = write!(s, "{vis}{sigtxt}\n");
    if let Some(f) = fs { s.push_str(&f.sig) }
    match block {
        None => s.push_str(";\n"),
        Some(_) if fs.map(|f| f.abst).unwrap_or(false) => s.push_str(";\n"),
        Some(b) if trusted => { let _ = b; s.push_str("{ unimplemented!() }\n") }
        Some(b) => {
            cx.visit_block(b);
            let (oa, ob) = rng(b.brace_token.span.open());
            let (ca, cb) = rng(b.brace_token.span.close());
            // literal reveals: the ones of the body and of every string constant it names
            let mut lits = cx.lits.clone();
            let mut ids = BTreeSet::new();
            idents(quote::ToTokens::to_token_stream(b), &mut ids);
            for i in &ids { if let Some(l) = consts_str.get(i) { lits.extend(l.iter().cloned()) } }
            let mut pre = String::new();
            for i in &ids { if consts_proof.contains(i) { let _ = write!(pre, "proof {{ vx_const_{i}(); }}\n"); } }
            if !lits.is_empty() { pre.push_str("proof { "); for l in &lits { let n = match out.lits.iter().position(|x| x == l) { Some(n) => n, None => { out.lits.push(l.clone()); out.lits.len() - 1 } }; let _ = write!(pre, "vx_lit_{n}(); "); } pre.push_str("}\n") }
            if u.litview { pre.push_str("proof { vx_spec_lits(); }\n") }
            let mut loop_pre = pre.clone();
            pre.push_str(&arg_pats);
            if let Some(f) = fs { for l in f.start.lines() { if l.trim_start().starts_with("broadcast use") { loop_pre.push_str(l); loop_pre.push('\n') } } }
            if fs.is_some() { for i in &sig.inputs { if let syn::FnArg::Typed(t) = i { if let syn::Pat::Ident(id) = &*t.pat { if !matches!(&*t.ty, syn::Type::Reference(r) if r.mutability.is_some()) { let _ = write!(pre, "let ghost vx_{0} = {0};\n", id.ident); } } } } }
            if let Some(f) = fs { pre.push_str(&f.start) }
            let vac = |k: &str| if u.vacuity && fs.is_some() { format!("\nproof {{ if vx_vac(VXVACID) {{ assert(false); }} }} /*VXVAC {} {k}*/\n", name.replace(' ', "")) } else { String::new() };
            pre.push_str(&vac("entry"));
            if cx.mut_self { pre = format!("let mut vx_self = self;\n{pre}") }
            if let Some(f) = fs { pre = format!("{}{pre}", f.first) }
            cx.e(oa, ob, format!("{{\n{pre}"));
            if let syn::ReturnType::Type(_, ty) = &sig.output { if nom_output(src, ty).is_some() {
                if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() { let (ea, eb) = rng(e.span()); cx.e(ea, ea, "vx_nom_p("); let n = cx.exec.len(); cx.exec[n - 1].seq = 1; cx.e(eb, eb, ")"); }
            } }
            if let Some(f) = fs {
                if !f.end.trim().is_empty() {
                    if let Some(syn::Stmt::Expr(e, None)) = b.stmts.last() {
                        let (ea, eb) = rng(e.span());
                        cx.e(ea, ea, "let vx_ret = ");
                        cx.e(eb, eb, format!(";\n{}\nvx_ret", f.end));
                        // keep insertion order: this prefix must precede edits starting at the same place
                        let n = cx.exec.len();
                        cx.exec[n - 2].seq = 0;
                    } else {
                        cx.e(ca, ca, format!("{}\n", f.end));
                    }
                }
                for k in f.loops.keys() { if *k >= cx.loops { cx.lost.push(format!("{name}: loop {k} not found")) } }
                for k in f.closures.keys() { if *k >= cx.closures { cx.lost.push(format!("{name}: closure {k} not found")) } }
                for (i, a) in f.at.iter().enumerate() { if !cx.used_at.contains(&i) { cx.lost.push(format!("{name}: anchor not found: {}", a.0)) } }
                if cx.loops > f.loops.len() { cx.lost.push(format!("{name}: {} loops in the code, {} invariants in the contract", cx.loops, f.loops.len())) }
            } else if cx.loops > 0 { cx.lost.push(format!("{name}: loop in a function without contract")) }
            let loop_pre = format!("{loop_pre}{}", vac("loop"));
            s.push_str(&render(&src.text, oa, cb, &cx.exec).replace("/*VXPRE*/", &loop_pre));
            s.push('\n');
        }
    }
    let _ = in_trait;
    out.lost.extend(cx.lost);
    out.fns.push((name.to_string(), src.path.clone(), line, fs.is_some(), trusted, cx.loops, cx.closures));
    s
}

/// `proof fn vx_const_NAME()` stating the contents of a constant made of character/string literals.
fn const_proof(c: &syn::ItemConst, name: &str, litview: bool) -> Option<String> {
    fn lits(e: &syn::Expr, chars: &mut Vec<char>, strs: &mut Vec<String>, depth: usize) -> bool {
        match e {
            syn::Expr::Array(a) if depth == 0 => a.elems.iter().all(|x| lits(x, chars, strs, 1)),
            syn::Expr::Reference(r) => lits(&r.expr, chars, strs, depth),
            syn::Expr::Lit(l) => match &l.lit { syn::Lit::Char(c) => { chars.push(c.value()); true } syn::Lit::Str(s) => { strs.push(s.value()); true } _ => false },
            syn::Expr::Tuple(t) => t.elems.iter().all(|x| lits(x, chars, strs, 2)),
            _ => false,
        }
    }
    let (mut ch, mut st) = (vec![], vec![]);
    if !lits(&c.expr, &mut ch, &mut st, 0) { return None }
    let mut cexpr: &syn::Expr = &c.expr;
    while let syn::Expr::Reference(r) = cexpr { cexpr = &r.expr }
    let is_arr = matches!(cexpr, syn::Expr::Array(_));
    let disj = |ch: &[char]| if ch.is_empty() { "false".to_string() } else { ch.iter().map(|x| format!("vx_c == {}", char_lit(*x))).collect::<Vec<_>>().join(" || ") };
    let mut o = String::new();
    if is_arr && st.is_empty() {
        let sl = seq_lit(&ch.iter().collect::<String>());
        let _ = write!(o, "pub proof fn vx_const_{name}()\n    ensures {name}@ == {sl}, {name}@.len() == {}, forall|vx_c: char| (#[trigger] {name}@.contains(vx_c)) <==> ({})\n{{\n    assert({name}@ =~= {sl});\n", ch.len(), disj(&ch));
        for i in 0..ch.len() { let _ = write!(o, "    assert({name}@[{i}] == {});", char_lit(ch[i])); }
        o.push_str("\n}\n");
        return Some(o);
    }
    if let (true, syn::Expr::Array(arr)) = (is_arr && !st.is_empty() && st.len() <= 80, cexpr) {
        let (mut facts, mut pr) = (vec![], String::new());
        let mut one = |e: &syn::Expr, at: String| match e {
            syn::Expr::Lit(l) => match &l.lit {
                syn::Lit::Str(s) => { facts.push(format!("{at}@ == {}", if s.value().is_empty() { "Seq::<char>::empty()".to_string() } else if litview && s.value().chars().count() > 1 { format!("{}@, {}", esc(&s.value()), lit_facts(&s.value(), true)) } else { seq_lit(&s.value()) })); if !s.value().is_empty() && s.value().is_ascii() { facts.push(format!("is_ascii_seq({at}@)")); } pr.push_str(&reveal(&s.value())); }
                syn::Lit::Char(x) => facts.push(format!("{at} == {}", char_lit(x.value()))),
                _ => {}
            },
            _ => {}
        };
        for (i, e) in arr.elems.iter().enumerate() {
            match e { syn::Expr::Tuple(t) => for (k, x) in t.elems.iter().enumerate() { one(x, format!("{name}@[{i}].{k}")) }, x => one(x, format!("{name}@[{i}]")) }
        }
        let _ = write!(o, "pub proof fn vx_const_{name}()\n    ensures {name}@.len() == {}, {}\n{{\n    {pr}\n}}\n", arr.elems.len(), facts.join(", "));
        return Some(o);
    }
    if !is_arr && ch.is_empty() && st.len() == 1 {
        let v = &st[0];
        if v.chars().count() > 64 { return None }
        let cs: Vec<char> = v.chars().collect();
        let sl = if cs.is_empty() { "Seq::<char>::empty()".to_string() } else { seq_lit(v) };
        let _ = write!(o, "pub proof fn vx_const_{name}()\n    ensures {}, {name}@.len() == {}, forall|vx_c: char| (#[trigger] {name}@.contains(vx_c)) <==> ({})\n{{\n    {}\n", lit_facts(v, litview).replace(&format!("{}@", esc(v)), &format!("{name}@")), cs.len(), disj(&cs), reveal(v));
        for i in 0..cs.len() { let _ = write!(o, "    assert({name}@[{i}] == {});", char_lit(cs[i])); }
        o.push_str("\n}\n");
        return Some(o);
    }
    None
}

fn clean_ty_const(ty: &str) -> String { let mut r = String::new(); let b: Vec<char> = ty.chars().collect(); let mut i = 0; while i < b.len() { r.push(b[i]); if b[i] == '&' && i + 1 < b.len() && b[i + 1] != '\'' { r.push_str("'static ") } i += 1 } r }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let repo = get("--repo").unwrap_or("/repo".into());
    let mut sources: Vec<prep::File> = vec![];
    fn walk(root: &str, dir: &str, out: &mut Vec<prep::File>) { let mut l: Vec<_> = std::fs::read_dir(format!("{root}/{dir}")).into_iter().flatten().flatten().collect(); l.sort_by_key(|e| e.file_name()); for e in l { let p = format!("{dir}/{}", e.file_name().to_string_lossy()); if e.path().is_dir() { walk(root, &p, out) } else if p.ends_with(".rs") { if let Ok(t) = std::fs::read_to_string(e.path()) { out.push(prep::File { path: p, text: t }) } } } }
    walk(&repo, "src", &mut sources);
    if let Some(p) = get("--dump-fns") { std::fs::write(p, prep::dump(&sources)).unwrap(); return }
    let contracts = get("--contracts").expect("--contracts");
    let outp = get("--out").expect("--out");
    let metap = get("--meta");
    let mut u = Unit::default();
    parse_unit(&contracts, &mut u);
    u.vacuity = args.iter().any(|a| a == "--vacuity");
    let mut out = Out { nom: BTreeMap::new(), lazy: BTreeSet::new(), code: String::new(), fns: vec![], lost: vec![], consts: vec![], lits: vec![], str_consts: BTreeSet::new() };
    let mut files: Vec<(Src, syn::File)> = vec![];
    let (mut inlined, mut renamed, mut loops_changed) = (vec![], vec![], vec![]);
    if let Some(b) = get("--base").and_then(|p| std::fs::read_to_string(p).ok()) {
        let b = prep::base(&b);
        inlined = prep::inline(&mut sources, &b, &u.fns.keys().cloned().collect());
        renamed = prep::loops(&mut sources, &b);
        renamed.extend(prep::rename(&mut sources, &b));
        loops_changed = prep::loops_changed(&sources, &b);
    }
    for f in &u.files {
        match sources.iter().find(|s| s.path == *f).map(|s| s.text.clone()).ok_or("no such file") {
            Ok(t) => match syn::parse_file(&t) { Ok(mut ast) => { out.nom.insert(f.clone(), nom_uses(&ast)); let mut v = vec![]; flatten(std::mem::take(&mut ast.items), &mut v); ast.items = v; files.push((Src { text: t, path: f.clone() }, ast)) }, Err(e) => { out.lost.push(format!("{f}: {e}")) } },
            Err(e) => out.lost.push(format!("{f}: {e}")),
        }
    }
    // inventory
    fn self_ty(t: &syn::Type) -> String { match t { syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), syn::Type::Reference(r) => self_ty(&r.elem), _ => String::new() } }
    fn is_test(a: &[syn::Attribute]) -> bool { a.iter().any(|a| quote::ToTokens::to_token_stream(a).to_string().contains("test")) }
    let mut defs: BTreeMap<String, (BTreeSet<String>, String)> = BTreeMap::new(); // qualified name -> (idents, simple)
    let mut owned = BTreeSet::new(); // method names defined by the crate (with self)
    let mut tynames = BTreeSet::new();
    let mut consts_str: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut consts_proof: BTreeSet<String> = BTreeSet::new();
    let mut local_fns = vec![];
    let mut trait_of: BTreeMap<String, String> = BTreeMap::new(); // impl method -> trait
    let mut assoc: BTreeSet<String> = BTreeSet::new(); // inherent functions without self: called as T::name
    for (_, f) in &files {
        for it in &f.items {
            match it {
                syn::Item::Fn(i) if !is_test(&i.attrs) => { let mut s = BTreeSet::new(); idents(quote::ToTokens::to_token_stream(i), &mut s); defs.insert(i.sig.ident.to_string(), (s, i.sig.ident.to_string())); local_fns.push(i.sig.ident.to_string()); }
                syn::Item::Const(c) => { let mut s = BTreeSet::new(); idents(quote::ToTokens::to_token_stream(c), &mut s); defs.insert(c.ident.to_string(), (s, c.ident.to_string()));
                    struct L(Vec<String>); impl<'a> Visit<'a> for L { fn visit_lit_str(&mut self, l: &'a syn::LitStr) { self.0.push(l.value()) } }
                    let mut l = L(vec![]); l.visit_item_const(c); if matches!(&*c.ty, syn::Type::Reference(r) if quote::ToTokens::to_token_stream(&r.elem).to_string() == "str") { out.str_consts.insert(c.ident.to_string()); }
                    if const_proof(c, "x", false).is_some() { consts_proof.insert(c.ident.to_string()); } else if !l.0.is_empty() && l.0.iter().all(|x| x.len() < 100) { consts_str.insert(c.ident.to_string(), l.0); } }
                syn::Item::Struct(c) => { tynames.insert(c.ident.to_string()); let mut s = BTreeSet::new(); idents(quote::ToTokens::to_token_stream(&c.fields), &mut s); defs.insert(c.ident.to_string(), (s, c.ident.to_string())); }
                syn::Item::Enum(c) => { tynames.insert(c.ident.to_string()); let mut s = BTreeSet::new(); idents(quote::ToTokens::to_token_stream(&c.variants), &mut s); defs.insert(c.ident.to_string(), (s, c.ident.to_string())); }
                syn::Item::Type(c) => { let mut s = BTreeSet::new(); idents(quote::ToTokens::to_token_stream(c), &mut s); defs.insert(c.ident.to_string(), (s, c.ident.to_string())); }
                syn::Item::Impl(i) => { let t = self_ty(&i.self_ty); for m in &i.items { if let syn::ImplItem::Fn(m) = m { let mut s = BTreeSet::new(); idents(quote::ToTokens::to_token_stream(m), &mut s); s.insert(t.clone()); s.remove("self"); if i.trait_.is_none() && m.sig.receiver().is_none() { assoc.insert(impl_fn_name(i, &t, m)); } if let Some((_, p, _)) = &i.trait_ { trait_of.insert(impl_fn_name(i, &t, m), p.segments.last().unwrap().ident.to_string()); } defs.insert(impl_fn_name(i, &t, m), (s, m.sig.ident.to_string())); local_fns.push(m.sig.ident.to_string()); } } }
                syn::Item::Macro(m) => { for (n, ty, e) in lazies(m) { let mut s = BTreeSet::new(); idents(quote::ToTokens::to_token_stream(&ty), &mut s); idents(quote::ToTokens::to_token_stream(&e), &mut s); out.lazy.insert(n.to_string()); defs.insert(n.to_string(), (s, n.to_string())); } }
                syn::Item::Trait(t) => { for m in &t.items { if let syn::TraitItem::Fn(m) = m { let mut s = BTreeSet::new(); idents(quote::ToTokens::to_token_stream(m), &mut s); s.insert(t.ident.to_string()); defs.insert(format!("{}::{}", t.ident, m.sig.ident), (s, m.sig.ident.to_string())); local_fns.push(m.sig.ident.to_string()); } } }
                _ => {}
            }
        }
    }
    fn impl_fn_name(i: &syn::ItemImpl, t: &str, m: &syn::ImplItemFn) -> String {
        // trait impls with generic arguments (From<..>, TryFrom<..>, Index<..>) are qualified by the argument
        if let Some((_, p, _)) = &i.trait_ {
            let seg = p.segments.last().unwrap();
            if let syn::PathArguments::AngleBracketed(a) = &seg.arguments {
                let s: String = quote::ToTokens::to_token_stream(&a.args).to_string().split_whitespace().collect();
                return format!("{t}::{}<{}>::{}", seg.ident, s, m.sig.ident);
            }
        }
        format!("{t}::{}", m.sig.ident)
    }
    // reachability by identifier from the functions under contract
    let mut keep: BTreeSet<String> = BTreeSet::new();
    let mut work: Vec<String> = vec![];
    for n in u.fns.keys().cloned().chain(u.extra.iter().cloned()) { if defs.contains_key(&n) { work.push(n) } else { out.lost.push(format!("{n}: not found in the source")) } }
    loop {
        // an implementation of a kept trait method by a kept type comes along (overrides of default methods)
        if work.is_empty() { for (q, tr) in &trait_of { if !keep.contains(q) && !u.skip.contains(q) && keep.contains(q.split("::").next().unwrap()) && keep.contains(&format!("{tr}::{}", defs[q].1)) { work.push(q.clone()) } } }
        let Some(n) = work.pop() else { break };
        if !keep.insert(n.clone()) { continue }
        if u.fns.get(&n).map(|f| f.trusted).unwrap_or(false) { continue }
        let ids = &defs[&n].0;
        for (q, (_, simple)) in &defs {
            if keep.contains(q) || u.skip.contains(q) { continue }
            let hit = if q.contains("::") {
                // methods are pulled in only when their name is used and their type is kept or named
                let ty = q.split("::").next().unwrap();
                ids.contains(simple) && (!assoc.contains(q) || ids.contains(q) || ids.contains(&format!("?::{simple}")) || (ids.contains(&format!("Self::{simple}")) && n.split("::").next().unwrap() == ty)) && !q.contains('<') && (ids.contains(ty) || keep.contains(ty)) && (!RENAMED.contains(&simple.as_str()) || u.fns.contains_key(q))
            } else { ids.contains(simple) };
            if hit { work.push(q.clone()) }
        }
    }
    for q in &keep { if q.contains("::") { if let Some(sn) = defs.get(q) { owned.insert(sn.1.clone()); } } }
    // a std method name is only "owned" if the crate method is kept; ambiguous ones must be listed by @norename
    let owned_names: BTreeSet<String> = owned.iter().filter(|n| !RENAMED.contains(&n.as_str()) || u.norename.contains(*n)).cloned().collect();
    let _ = tynames;
    let mut code = String::new();
    for (src, f) in &files {
        for it in &f.items {
            match it {
                syn::Item::Const(c) if keep.contains(&c.ident.to_string()) => {
                    let (ta, tb) = rng(c.ty.span()); let (ea, eb) = rng(c.expr.span());
                    // the text of a file: the one the path names, from the root of the repository
                    if let syn::Expr::Macro(m) = &*c.expr { if m.mac.path.is_ident("include_str") { if let Ok(l) = m.mac.parse_body::<syn::LitStr>() {
                        let mut path: Vec<String> = src.path.split('/').map(|x| x.to_string()).collect(); path.pop();
                        for x in l.value().split('/') { if x == ".." { path.pop(); } else if x != "." { path.push(x.to_string()) } }
                        let _ = write!(code, "// {}:{}\n#[verifier::external_body]\npub exec const {}: &'static str\n    ensures {}@ == vx_included({:?}@)\n{{ \"\" }}\n", src.path, c.span().start().line, c.ident, c.ident, path.join("/"));
                        continue
                    } } }
                    let _ = write!(code, "// {}:{}\npub const {}: {} = {};\n", src.path, c.span().start().line, c.ident, clean_ty_const(&src.text[ta..tb]), &src.text[ea..eb]);
                    out.consts.push(c.ident.to_string());
                    if let Some(p) = const_proof(c, &c.ident.to_string(), u.litview) { code.push_str(&p) }
                }
                syn::Item::Struct(c) if keep.contains(&c.ident.to_string()) => {
                    let mut fields = String::new();
                    for fl in &c.fields { let (ta, tb) = rng(fl.ty.span()); if let Some(id) = &fl.ident { let _ = write!(fields, "    pub {}: {},\n", id, &src.text[ta..tb]); } else { let _ = write!(fields, "pub {}, ", &src.text[ta..tb]); } }
                    let g = quote::ToTokens::to_token_stream(&c.generics).to_string();
                    let hdr = u.structs.get(&c.ident.to_string()).cloned().unwrap_or_default();
                    // derive(Default): the default of every field
                    if c.attrs.iter().any(|a| { let t = quote::ToTokens::to_token_stream(a).to_string(); t.contains("derive") && t.contains("Default") }) && u.structs.contains_key(&format!("{}:Default", c.ident)) {
                        let fs: Vec<(String, String)> = c.fields.iter().filter_map(|f| { let (ta, tb) = rng(f.ty.span()); f.ident.as_ref().map(|i| (i.to_string(), src.text[ta..tb].to_string())) }).collect();
let ens = u.structs.get(&format!("{}:Default", c.ident)).cloned().unwrap_or_default();
                        if !ens.trim().is_empty() { let _ = write!(code, "impl {0} {{ pub fn default() -> (r: Self)\n{ens}{{ {0} {{ {1} }} }} }}\n", c.ident, fs.iter().map(|(i, t)| format!("{i}: {t}::default()")).collect::<Vec<_>>().join(", ")); }
                        else {
                        let _ = write!(code, "impl VxDefault for {0} {{ open spec fn default_spec(r: Self) -> bool {{ {1} }} fn default() -> (r: Self) {{ {0} {{ {2} }} }} }}\n", c.ident,
                            fs.iter().map(|(i, t)| format!("<{t} as VxDefault>::default_spec(r.{i})")).collect::<Vec<_>>().join(" && "), fs.iter().map(|(i, t)| format!("{i}: <{t} as VxDefault>::default()")).collect::<Vec<_>>().join(", "));
                        }
                    }
                    let _ = match &c.fields { syn::Fields::Named(_) => write!(code, "// {}:{}\n{hdr}pub struct {}{} {{\n{}}}\n", src.path, c.span().start().line, c.ident, g, fields), syn::Fields::Unit => write!(code, "// {}:{}\n{hdr}pub struct {}{};\n", src.path, c.span().start().line, c.ident, g), _ => write!(code, "{hdr}pub struct {}{}({});\n", c.ident, g, fields) };
                }
                syn::Item::Enum(c) if keep.contains(&c.ident.to_string()) => {
                    let hdr = u.structs.get(&c.ident.to_string()).cloned().unwrap_or_default();
                    let mut vs = String::new();
                    for v in &c.variants { let (a, b) = rng(v.ident.span()); let _ = (a, b); let fl = match &v.fields { syn::Fields::Unit => String::new(), f => { let (a, b) = rng(f.span()); let mut ed = vec![]; for x in f { for at in &x.attrs { let (p, q) = rng(at.span()); ed.push(Edit { start: p, end: q, seq: 0, text: String::new() }) } } render(&src.text, a, b, &ed) } }; let _ = write!(vs, "    {}{},\n", v.ident, fl); }
                    let g = quote::ToTokens::to_token_stream(&c.generics).to_string();
                    let _ = write!(code, "// {}:{}\n{hdr}pub enum {}{} {{\n{}}}\n", src.path, c.span().start().line, c.ident, g, vs);
                    // derive(Sequence): the variants, in the order they are declared
                    if c.attrs.iter().any(|a| a.path().is_ident("derive") && quote::ToTokens::to_token_stream(a).to_string().contains("Sequence")) && c.variants.iter().all(|v| matches!(v.fields, syn::Fields::Unit)) && u.structs.contains_key(&format!("{}:Sequence", c.ident)) {
                        let _ = write!(code, "impl VxSequence for {0} {{ open spec fn vx_variants() -> Seq<{0}> {{ seq![{1}] }} }}\n", c.ident, c.variants.iter().map(|v| format!("{}::{}", c.ident, v.ident)).collect::<Vec<_>>().join(", "));
                    }
                    // #[from] (thiserror): From of the field's type, and the reflexive From
                    let mut froms = 0;
                    for v in &c.variants { if let syn::Fields::Unnamed(f) = &v.fields { if f.unnamed.len() == 1 && f.unnamed[0].attrs.iter().any(|a| a.path().is_ident("from")) {
                        froms += 1;
                        let (ta, tb) = rng(f.unnamed[0].ty.span()); let ty = &src.text[ta..tb];
                        let _ = write!(code, "impl VxFrom<{ty}> for {0} {{ open spec fn from_spec(t: {ty}, r: Self) -> bool {{ r == {0}::{1}(t) }} fn from(t: {ty}) -> (r: Self) {{ {0}::{1}(t) }} }}\n", c.ident, v.ident);
                    } } }
                    if froms > 0 { let _ = write!(code, "impl VxFrom<{0}> for {0} {{ open spec fn from_spec(t: {0}, r: Self) -> bool {{ r == t }} fn from(t: {0}) -> (r: Self) {{ t }} }}\n", c.ident); }
                }
                syn::Item::Type(c) if keep.contains(&c.ident.to_string()) => { let (a, b) = rng(c.span()); code.push_str(&src.text[a..b]); code.push('\n') }
                syn::Item::Macro(m) => { for (n, ty, e) in lazies(m) { if keep.contains(&n.to_string()) {
                    // the initialiser becomes a function which is verified; its uses call an accessor with the same contract
                    let ty = clean_ty_const(&src.text[rng(ty.span()).0..rng(ty.span()).1]);
                    let sig: syn::Signature = syn::parse_str("fn vx_init()").unwrap();
                    let (ea, eb) = rng(e.span());
                    let fs = u.fns.get(&n.to_string());
                    let no_nom = BTreeSet::new();
                    let mut cx = Cx { tries: u.tries, nom: &no_nom, lazy: &out.lazy, src: &src.text, exec: vec![], spec: vec![], seq: 10, loops: 0, closures: 0, fresh: 0, fs, norename: &u.norename, lits: BTreeSet::new(), lost: vec![], pending_closure: None, owned: &owned_names, used_at: BTreeSet::new(), local_fns: local_fns.to_vec(), str_consts: &out.str_consts, mut_self: false };
                    let _ = sig;
                    cx.visit_expr(&e);
                    let mut pre = String::from("proof { ");
                    for l in cx.lits.clone() { let k = match out.lits.iter().position(|x| *x == l) { Some(k) => k, None => { out.lits.push(l.clone()); out.lits.len() - 1 } }; let _ = write!(pre, "vx_lit_{k}(); "); }
                    pre.push_str("}\n");
                    let body = render(&src.text, ea, eb, &cx.exec);
                    out.lost.extend(cx.lost);
                    let spec = fs.map(|f| f.sig.clone()).unwrap_or_default();
                    let (st, en) = fs.map(|f| (f.start.clone(), f.end.clone())).unwrap_or_default();
                    let at = fs.map(|f| f.attrs.clone()).unwrap_or_default();
                    let _ = write!(code, "// {}:{}\n{at}pub fn vx_init_{n}() -> (r: {ty})\n{spec}{{\n{pre}{st}let vx_ret = {body};\n{en}vx_ret\n}}\n#[verifier::external_body]\npub fn vx_lazy_{n}() -> (r: &'static {ty})\n{spec}{{ unimplemented!() }}\n", src.path, n.span().start().line);
                    out.fns.push((n.to_string(), src.path.clone(), n.span().start().line, fs.is_some(), false, 0, cx.closures));
                } } }
                syn::Item::Fn(i) if keep.contains(&i.sig.ident.to_string()) && !is_test(&i.attrs) => {
                    let n = i.sig.ident.to_string();
                    let s = emit_fn(src, &u, &n, &i.sig, Some(&i.block), "pub ", i.sig.span(), &mut out, &owned_names, &consts_str, &consts_proof, &local_fns, false);
                    code.push_str(&s);
                }
                syn::Item::Impl(i) => {
                    let t = self_ty(&i.self_ty);
                    let mut body = String::new();
                    for m in &i.items { match m {
                        syn::ImplItem::Fn(m) => {
                            let q = impl_fn_name(i, &t, m);
                            if keep.contains(&q) {
                                let vis = if i.trait_.is_some() { "" } else { "pub " };
                                body.push_str(&emit_fn(src, &u, &q, &m.sig, Some(&m.block), vis, m.sig.span(), &mut out, &owned_names, &consts_str, &consts_proof, &local_fns, false));
                            }
                        }
                        syn::ImplItem::Type(ty) => { let (a, b) = rng(ty.span()); if !body.is_empty() || i.trait_.is_some() { body = format!("{}\n{body}", &src.text[a..b]) } }
                        _ => {}
                    } }
                    let has_fn = i.items.iter().any(|m| matches!(m, syn::ImplItem::Fn(m) if keep.contains(&impl_fn_name(i, &t, m))));
                    let tr = i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                    let trkept = tr.as_ref().map(|tr| keep.iter().any(|k| k.starts_with(&format!("{tr}::")))).unwrap_or(false) && (keep.contains(&t));
                    if has_fn || trkept {
                        let (ia, _) = rng(i.impl_token.span());
                        let (oa, _) = rng(i.brace_token.span.open());
                        let key = match &i.trait_ { Some((_, p, _)) => { let seg = p.segments.last().unwrap(); let a: String = match &seg.arguments { syn::PathArguments::AngleBracketed(a) => format!("<{}>", quote::ToTokens::to_token_stream(&a.args)).split_whitespace().collect(), _ => String::new() }; format!("{t}:{}{a}", seg.ident) }, None => t.clone() };
                        let extra = if tr.is_some() || !code.contains(&format!("/*impl-extra {key}*/")) { u.traits.get(&key).cloned().unwrap_or_default() } else { String::new() };
                        let mut hdr = src.text[ia..oa].trim_end().to_string();
                        // std traits whose contract cannot be stated on the std trait itself
                        if let Some((_, p, _)) = &i.trait_ {
                            let seg = p.segments.last().unwrap();
                            let nm = seg.ident.to_string();
                            if STD_TRAITS.contains(&nm.as_str()) || (nm == "From" && u.traits.contains_key(&key)) {
                                let (pa, _) = rng(p.span()); let (_, sb) = rng(seg.ident.span());
                                hdr = format!("{}Vx{}{}", &src.text[ia..pa], nm, src.text[sb..oa].trim_end());
                            }
                        }
                        // a Default without a contract of the trait: an inherent function
                        if tr.as_deref() == Some("Default") && !u.traits.contains_key(&key) { hdr = format!("impl {}", &src.text[rng(i.self_ty.span()).0..rng(i.self_ty.span()).1]); body = body.replacen("\nfn default(", "\npub fn default(", 1); }
                        let _ = write!(code, "{hdr} {{ /*impl-extra {key}*/\n{extra}{body}}}\n");
                    }
                }
                syn::Item::Trait(t) => {
                    let mut body = String::new();
                    let tn = t.ident.to_string();
                    for m in &t.items { if let syn::TraitItem::Fn(m) = m {
                        let q = format!("{tn}::{}", m.sig.ident);
                        if keep.contains(&q) { body.push_str(&emit_fn(src, &u, &q, &m.sig, m.default.as_ref(), "", m.sig.span(), &mut out, &owned_names, &consts_str, &consts_proof, &local_fns, true)) }
                    } }
                    if !body.is_empty() {
                        let sup = if t.supertraits.is_empty() { String::new() } else { format!(": {}", quote::ToTokens::to_token_stream(&t.supertraits)) };
                        let extra = u.traits.get(&tn).cloned().unwrap_or_default();
                        let _ = write!(code, "pub trait {tn}{sup} {{\n{extra}{body}}}\n");
                    }
                }
                _ => {}
            }
        }
    }
    out.code = code;
    let mut lf = String::new();
    for (n, l) in out.lits.iter().enumerate() { let _ = write!(lf, "pub proof fn vx_lit_{n}() ensures {} {{ {} }}\n", lit_facts(l, u.litview), reveal(l)); }
    std::fs::write(&outp, format!("{}\n{lf}\n{}", u.text, out.code)).unwrap();
    if let Some(m) = metap {
        let mut j = String::from("{\n \"fns\": [\n");
        for (i, (n, p, l, c, t, lo, cl)) in out.fns.iter().enumerate() { let _ = write!(j, "  {}{{\"name\": {:?}, \"file\": {:?}, \"line\": {l}, \"contract\": {c}, \"trusted\": {t}, \"loops\": {lo}, \"closures\": {cl}}}\n", if i > 0 { "," } else { "" }, n, p); }
        j.push_str(" ],\n \"lost\": [");
        for (i, l) in out.lost.iter().enumerate() { let _ = write!(j, "{}{:?}", if i > 0 { ", " } else { "" }, l); }
        let _ = write!(j, "],\n \"inlined\": {inlined:?},\n \"renamed\": {renamed:?},\n \"loops_changed\": {loops_changed:?}\n}}\n");
        std::fs::write(m, j).unwrap();
    }
    for l in &out.lost { eprintln!("LOST {l}") }
}
