//! Conformance of the assumed contracts: every contract of verus/prelude on an item of std, regex or nom that has a
//! specification function is evaluated here against the item itself. The specification functions are the text the verifier
//! reads (gen/vdef.rs, made by bin/oracle.py), and the native versions the harness uses (rt.rs) are compared with them too.
use crate::gen::Rng;
use crate::oracle as o;
use crate::rt::{self, clear_arena, seq_str, str_seq, Map, Seq};
use nom::branch::alt;
use nom::bytes::complete::{is_not, tag, take_till1, take_until, take_while1};
use nom::character::complete::{alpha1, anychar, char as nchar, crlf, newline, space0, space1};
use nom::combinator::{eof, map, map_opt, opt, value};
use nom::sequence::{delimited, pair, preceded, separated_pair, terminated};
use nom::{IResult, Parser};
use std::collections::{BTreeMap, BTreeSet};
#[allow(unused, clippy::all)]
pub mod vdef { include!(concat!(env!("CARGO_MANIFEST_DIR"), "/gen/vdef.rs")); }
use vdef as v;

pub struct Out { pub contracts: BTreeMap<&'static str, u64>, pub failures: Vec<String> }
impl Out {
    fn ck(&mut self, name: &'static str, ok: bool, show: impl FnOnce() -> String) {
        *self.contracts.entry(name).or_default() += 1;
        if !ok && self.failures.len() < 40 { self.failures.push(format!("{name}: {}", show())) }
    }
    fn eq<A: PartialEq + std::fmt::Debug>(&mut self, name: &'static str, real: A, spec: A, show: &dyn std::fmt::Debug) { let ok = real == spec; self.ck(name, ok, || format!("{show:?}: really {real:?}, by the contract {spec:?}")) }
}
fn t(s: Seq<char>) -> String { seq_str(s) }
fn ts(s: Seq<Seq<char>>) -> Vec<String> { s.0.iter().map(|x| seq_str(*x)).collect() }
const AL: &[char] = &['a', 'b', 'A', 'B', 'z', 'Z', ' ', '\t', '\n', '\r', '"', '/', '*', '-', '\'', '+', '|', '(', ')', '[', ']', '#', '0', '9', 'é', 'É', 'ß', 'Σ', 'σ', 'İ', 'ŉ', 'ﬁ', '中', '\u{301}', '\u{a0}', '\u{2028}', '😀', '\0', '$', '^', '.', '@', '\u{7f}', '\u{80}'];
fn word(r: &mut Rng, n: usize) -> String { let k = r.below(n + 1); let w = if r.chance(1, 3) { 4 } else { AL.len() }; (0..k).map(|_| AL[r.below(w)]).collect() }

pub fn chars(out: &mut Out) {
    for u in 0..=0x10ffffu32 {
        let Some(c) = char::from_u32(u) else { continue };
        let l: Vec<char> = c.to_lowercase().collect();
        out.eq("char::is_ascii_alphabetic", c.is_ascii_alphabetic(), v::is_az(c) || v::is_AZ(c), &c);
        out.eq("char::is_ascii_uppercase", c.is_ascii_uppercase(), v::is_AZ(c), &c);
        out.eq("char::is_ascii_lowercase", c.is_ascii_lowercase(), v::is_az(c), &c);
        out.eq("char::to_ascii_lowercase", c.to_ascii_lowercase(), v::alow(c), &c);
        out.eq("char::to_ascii_uppercase", c.to_ascii_uppercase(), v::aup(c), &c);
        out.eq("char::len_utf8", c.len_utf8() as i64, v::clen(c), &c);
        out.ck("axiom_slower_low (per char)", l.iter().all(|x| x.to_lowercase().eq(std::iter::once(*x))), || format!("{c:?}"));
        let d = v::alow(c);
        out.eq("axiom_case_char", (c.is_alphabetic(), c.is_whitespace(), c.to_uppercase().collect::<Vec<_>>(), l.clone()), (d.is_alphabetic(), d.is_whitespace(), d.to_uppercase().collect(), d.to_lowercase().collect()), &c);
        out.ck("axiom_lower_some", !l.is_empty(), || format!("{c:?}"));
        if u < 0x80 { out.ck("axiom_lower_ascii", l == [v::alow(c)], || format!("{c:?}")) }
        // the whole string may differ from its characters only at a final sigma, which is its own lower case
        let s = c.to_string();
        out.eq("str::to_lowercase (one char)", s.to_lowercase(), l.iter().collect::<String>(), &c);
        out.eq("str::to_uppercase (one char)", s.to_uppercase(), c.to_uppercase().collect::<String>(), &c);
        if l == [c] {
            let w = format!("a{c}b{c}");
            out.eq("axiom_slower_fixed", w.to_lowercase(), w.clone(), &c);
        }
        let w = format!("a{c}"); out.ck("axiom_slower_low", w.to_lowercase().chars().all(|x| x.to_lowercase().eq(std::iter::once(x))), || w.clone());
        // as used by parsers: blanks and letters of nom are ASCII only
        out.eq("nom alpha1 (one char)", alpha1::<&str, nom::error::Error<&str>>(&s[..]).is_ok(), v::is_az(c) || v::is_AZ(c), &c);
        out.eq("nom space1 (one char)", space1::<&str, nom::error::Error<&str>>(&s[..]).is_ok(), c == ' ' || c == '\t', &c);
    }
}
pub fn strings(out: &mut Out, a: &str, p: &str, b: &str, c: char, n: usize) {
    let (sa, sp, sb) = (str_seq(a), str_seq(p), str_seq(b));
    let show = (a, p, b, c, n);
    out.eq("str::chars", a.chars().collect::<Vec<_>>(), sa.0.to_vec(), &show);
    out.eq("str::len", a.len() as i64, v::blen(sa), &show);
    out.eq("str::char_indices", a.char_indices().collect::<Vec<_>>(), v::sindices(0, sa).0.to_vec(), &show);
    out.eq("str::is_empty", a.is_empty(), sa.len() == 0, &show);
    out.eq("str::starts_with(str)", a.starts_with(p), v::sstarts(sa, sp), &show);
    out.eq("str::starts_with(char)", a.starts_with(c), v::sstarts(sa, rt::sq![c]), &show);
    out.eq("str::ends_with(str)", a.ends_with(p), v::sends(sa, sp), &show);
    out.eq("str::ends_with(char)", a.ends_with(c), v::sends(sa, rt::sq![c]), &show);
    out.eq("str::contains(str)", a.contains(p), v::scontains(sa, sp), &show);
    out.eq("str::contains(char)", a.contains(c), v::scontains(sa, rt::sq![c]), &show);
    if !p.is_empty() {
        out.eq("str::replace(str)", a.replace(p, b), t(v::sreplace(sa, sp, sb)), &show);
        out.eq("str::replacen(str, 1)", a.replacen(p, b, 1), t(v::sreplace1(sa, sp, sb)), &show);
        out.eq("rt sreplace", t(rt::sreplace(sa, sp, sb)), t(v::sreplace(sa, sp, sb)), &show);
        out.eq("rt sreplace1", t(rt::sreplace1(sa, sp, sb)), t(v::sreplace1(sa, sp, sb)), &show);
    }
    out.eq("str::replace(char)", a.replace(c, b), t(v::sreplace(sa, rt::sq![c], sb)), &show);
    out.eq("str::trim", a.trim().to_string(), t(v::strim(sa)), &show);
    out.eq("str::find(str)", a.find(p).map(|k| k as i64), v::sfind(sa, sp).map(|k| v::blen(sa.take(k))), &show);
    out.eq("str::find(char)", a.find(c).map(|k| k as i64), v::sfind(sa, rt::sq![c]).map(|k| v::blen(sa.take(k))), &show);
    out.eq("str::strip_prefix", a.strip_prefix(p).map(|x| x.to_string()), if v::sstarts(sa, sp) { Some(t(sa.skip(sp.len()))) } else { None }, &show);
    out.eq("str::split(char)", a.split(c).map(|x| x.to_string()).collect::<Vec<_>>(), ts(v::ssplit(sa, c)), &show);
    out.eq("str::split_whitespace", a.split_whitespace().map(|x| x.to_string()).collect::<Vec<_>>(), ts(v::swords(sa)), &show);
    let k = v::cidx(sa, n as i64);
    out.eq("str indexing [..n]", a.get(..n).map(|x| x.to_string()), if k >= 0 { Some(t(sa.take(k))) } else { None }, &show);
    out.eq("str indexing [n..]", a.get(n..).map(|x| x.to_string()), if k >= 0 { Some(t(sa.skip(k))) } else { None }, &show);
    for m in 0..=n { let j = v::cidx(sa, m as i64); out.eq("str indexing [m..n]", a.get(m..n).map(|x| x.to_string()), if j >= 0 && k >= 0 { Some(t(sa.subrange(j, k))) } else { None }, &show); }
    if k >= 0 {
        let mut s = a.to_string(); s.replace_range(..n, b);
        out.eq("String::replace_range(..n)", s, t(sb + sa.skip(k)), &show);
        let mut s = a.to_string(); s.replace_range(n.., b);
        out.eq("String::replace_range(n..)", s, t(sa.take(k) + sb), &show);
        if k < sa.len() { let mut s = a.to_string(); let x = s.remove(n); out.eq("String::remove", (x, s), (sa[k], t(sa.remove(k))), &show); }
    }
    let mut s = a.to_string(); s.push(c); out.eq("String::push", s.clone(), t(sa.push(c)), &show);
    s.push_str(b); out.eq("String::push_str", s.clone(), t(sa.push(c) + sb), &show);
    let x = s.pop(); out.eq("String::pop", (x, s), { let w = sa.push(c) + sb; (Some(w.last()), t(w.drop_last())) }, &show);
    out.eq("String + &str", a.to_string() + b, t(sa + sb), &show);
    out.eq("String == str", a.to_string() == *b, sa == sb, &show);
    out.eq("str order", a < b, v::slt(sa, sb), &show);
    out.eq("rt slt", rt::slt(sa, sb), v::slt(sa, sb), &show);
    // lower and upper case: character by character, but for a final sigma
    let low: String = a.chars().flat_map(|x| x.to_lowercase()).collect();
    out.eq("str::to_uppercase", a.to_uppercase(), a.chars().flat_map(|x| x.to_uppercase()).collect::<String>(), &show);
    out.eq("str::to_lowercase", a.to_lowercase().replace('ς', "σ"), low.replace('ς', "σ"), &show);
    out.ck("axiom_slower_low", a.to_lowercase().chars().all(|x| x.to_lowercase().eq(std::iter::once(x))), || a.to_string());
    let l = a.to_lowercase(); out.eq("axiom_slower_fixed", l.to_lowercase(), l.clone(), &show);
    out.eq("axiom_case_upper", a.to_uppercase(), t(o::case_up(sa)), &show);
    let fl: String = a.chars().enumerate().map(|(i, x)| if n >> (i % 4) & 1 == 0 { x } else if x.is_ascii_lowercase() { x.to_ascii_uppercase() } else { x.to_ascii_lowercase() }).collect();
    out.eq("axiom_case_lower", fl.to_lowercase(), a.to_lowercase(), &(a, &fl));
    // iterators
    let va: Vec<char> = a.chars().collect();
    out.eq("Iterator::enumerate", va.iter().copied().enumerate().collect::<Vec<_>>(), v::senum(0, sa).0.to_vec(), &show);
    out.eq("Iterator::zip", a.chars().zip(b.chars()).collect::<Vec<_>>(), v::szip(sa, sb).0.to_vec(), &show);
    out.eq("Iterator::skip", a.chars().skip(n).collect::<String>(), t(sa.skip((n as i64).min(sa.len()))), &show);
    out.eq("Iterator::take", a.chars().take(n).collect::<String>(), t(sa.take((n as i64).min(sa.len()))), &show);
    out.eq("Iterator::chain", a.chars().chain(b.chars()).collect::<String>(), t(sa + sb), &show);
    let mut it = a.chars(); let x = it.nth(n); out.eq("Iterator::nth", (x, it.collect::<String>()), if (n as i64) < sa.len() { (Some(sa[n as i64]), t(sa.skip(n as i64 + 1))) } else { (None, String::new()) }, &show);
    let mut it = a.chars(); let x = it.next(); out.eq("Iterator::next", (x, it.collect::<String>()), (v_first(sa), if sa.len() > 0 { t(sa.skip(1)) } else { String::new() }), &show);
    let mut it = a.chars(); let x = it.next_back(); out.eq("Iterator::next_back", (x, it.collect::<String>()), (sa.0.last().copied(), if sa.len() > 0 { t(sa.drop_last()) } else { String::new() }), &show);
    out.eq("Iterator::filter", a.chars().filter(|x| *x != c).collect::<String>(), t(v::sfilter(sa, |x| x != c)), &show);
    out.eq("Iterator::map", a.chars().map(|x| (x, n)).collect::<Vec<_>>(), v::smap(sa, |x| (x, n)).0.to_vec(), &show);
    let mut it = a.chars(); out.eq("Iterator::any", it.any(|x| x == c), sa.contains(c), &show);
    let mut it = a.chars(); out.eq("Iterator::all", it.all(|x| x != c), !sa.contains(c), &show);
    let mut it = a.chars(); out.eq("Iterator::position", it.position(|x| x == c), (0..va.len()).find(|i| va[*i] == c), &show);
    let mut it = a.chars(); out.eq("Iterator::find", it.find(|x| *x == c), if sa.contains(c) { Some(c) } else { None }, &show);
    out.eq("Iterator::count", a.chars().count() as i64, sa.len(), &show);
    let mut it = a.chars().peekable(); let x = it.peek().copied(); out.eq("Peekable::peek", (x, it.collect::<String>()), (v_first(sa), t(sa)), &show);
    out.eq("Range<usize>", (n..a.len()).collect::<Vec<_>>(), v::srange(n as i64, a.len() as i64).0.to_vec(), &show);
    out.eq("Iterator<String>::collect::<String>", [a.to_string(), b.to_string(), p.to_string()].into_iter().collect::<String>(), t(v::sflatten(rt::sq![sa, sb, sp])), &show);
    for parts in [&[][..], &[a], &[a, b], &[a, p, b]] { out.eq("[String]::join", parts.join(&c.to_string()), t(v::sjoin(Seq::of(parts.iter().map(|x| str_seq(x)).collect()), rt::sq![c])), &show); }
    // sorting, sets and maps
    let mut w: Vec<(i64, char)> = va.iter().enumerate().map(|(i, x)| (*x as i64 % 3, if i % 2 == 0 { *x } else { c })).collect();
    let sw = Seq::of(w.clone());
    w.sort_by(|x, y| x.0.cmp(&y.0)); out.eq("slice::sort_by", w.clone(), v::sstable(sw, |x: (i64, char)| x.0).0.to_vec(), &show);
    out.eq("rt sstable", rt::sstable(sw, |x: (i64, char)| x.0).0.to_vec(), v::sstable(sw, |x: (i64, char)| x.0).0.to_vec(), &show);
    w = sw.0.to_vec(); w.sort_by(|x, y| x.0.cmp(&y.0).reverse()); out.eq("slice::sort_by (reversed)", w, v::sstable(sw, |x: (i64, char)| -x.0).0.to_vec(), &show);
    let (xa, xb): (BTreeSet<char>, BTreeSet<char>) = (a.chars().collect(), b.chars().collect());
    let member = |s: &BTreeSet<char>, f: &dyn Fn(char) -> bool| AL.iter().all(|x| s.contains(x) == f(*x));
    out.ck("BTreeSet::from_iter, contains", member(&xa, &|x| sa.contains(x)), || format!("{show:?}"));
    out.ck("BTreeSet::intersection", member(&xa.intersection(&xb).copied().collect(), &|x| sa.contains(x) && sb.contains(x)), || format!("{show:?}"));
    out.ck("BTreeSet::union", member(&xa.union(&xb).copied().collect(), &|x| sa.contains(x) || sb.contains(x)), || format!("{show:?}"));
    out.ck("BTreeSet::difference", member(&xa.difference(&xb).copied().collect(), &|x| sa.contains(x) && !sb.contains(x)), || format!("{show:?}"));
    let strs: BTreeSet<String> = [a, p, b].iter().map(|x| x.to_string()).collect();
    let inorder: Vec<Seq<char>> = strs.iter().map(|x| str_seq(x)).collect();
    out.ck("BTreeSet<String>::iter in order", inorder.windows(2).all(|w| v::slt(w[0], w[1])), || format!("{show:?}"));
    let mut sx = strs.clone(); out.eq("BTreeSet::insert", (sx.insert(a.to_string() + b), sx.len()), (!strs.contains(&(a.to_string() + b)), strs.len() + !strs.contains(&(a.to_string() + b)) as usize), &show);
    let mut m: BTreeMap<char, Vec<usize>> = BTreeMap::new();
    for (i, x) in va.iter().enumerate() { m.entry(*x).or_default().push(i) }
    out.ck("BTreeMap::entry().or_default()", AL.iter().all(|x| m.get(x).cloned().unwrap_or_default() == (0..va.len()).filter(|i| va[*i] == *x).collect::<Vec<_>>()), || format!("{show:?}"));
    let mut e: BTreeMap<char, Vec<usize>> = m.clone(); e.extend(b.chars().map(|x| (x, vec![7]))); out.ck("BTreeMap::extend", AL.iter().all(|x| e.get(x) == if sb.contains(*x) { Some(&vec![7][..]).map(|_| &SEVEN[0]) } else { m.get(x) }), || format!("{show:?}"));
    // native versions of the harness
    out.eq("rt ssplit", ts(rt::ssplit(sa, c)), ts(v::ssplit(sa, c)), &show);
    out.eq("rt swords", ts(rt::swords(sa)), ts(v::swords(sa)), &show);
    out.eq("rt sfind", rt::sfind(sa, sp), v::sfind(sa, sp), &show);
    out.eq("rt scontains", rt::scontains(sa, sp), v::scontains(sa, sp), &show);
    out.eq("rt strim", t(rt::strim(sa)), t(v::strim(sa)), &show);
    out.eq("rt sspan", rt::sspan(sa, |x| x != c), v::sspan(sa, |x| x != c), &show);
    out.eq("rt sjoin", t(rt::sjoin(rt::sq![sa, sp, sb], rt::sq![c])), t(v::sjoin(rt::sq![sa, sp, sb], rt::sq![c])), &show);
    out.eq("rt blen", rt::blen(sa), v::blen(sa), &show);
    out.eq("rt sflatten", t(rt::sflatten(rt::sq![sa, sp, sb])), t(v::sflatten(rt::sq![sa, sp, sb])), &show);
    // numbers and options
    let q = a.len();
    out.eq("usize::min/max/abs_diff/saturating_sub", (n.min(q), n.max(q), n.abs_diff(q), n.saturating_sub(q)), (if n <= q { n } else { q }, if n >= q { n } else { q }, if n <= q { q - n } else { n - q }, if n <= q { 0 } else { n - q }), &show);
    let (oa, f) = (va.first().copied(), |x: char| x as u32 + 1);
    out.eq("Option::map/map_or/unwrap_or/ok_or", (oa.map(f), oa.map_or(9, f), oa.unwrap_or(c), oa.ok_or(n), oa.ok_or_else(|| n)), match oa { Some(x) => (Some(f(x)), f(x), x, Ok(x), Ok(x)), None => (None, 9, c, Err(n), Err(n)) }, &show);
    let ra: Result<char, usize> = oa.ok_or(n); out.eq("Result::map_err", ra.map_err(|e| e + 1), match ra { Ok(x) => Ok(x), Err(e) => Err(e + 1) }, &show);
    let arr: Result<[char; 2], Vec<char>> = va.clone().try_into(); out.eq("Vec::try_into::<[_; 2]>", arr.map(|x| x.to_vec()), if va.len() == 2 { Ok(va.clone()) } else { Err(va.clone()) }, &show);
}
static SEVEN: std::sync::LazyLock<[Vec<usize>; 1]> = std::sync::LazyLock::new(|| [vec![7]]);
fn v_first(s: Seq<char>) -> Option<char> { s.0.first().copied() }

type R<T> = Option<(T, String)>;
fn got<T>(r: IResult<&str, T>) -> R<T> { r.ok().map(|(rest, x)| (x, rest.to_string())) }
fn sp<T>(r: Option<(T, Seq<char>)>) -> R<T> { r.map(|(x, s)| (x, t(s))) }
fn sps(r: Option<(Seq<char>, Seq<char>)>) -> R<String> { r.map(|(x, s)| (t(x), t(s))) }
fn gots(r: IResult<&str, &str>) -> R<String> { r.ok().map(|(rest, x)| (x.to_string(), rest.to_string())) }
type Sub = (&'static str, fn(&str) -> IResult<&str, &str>, fn(Seq<char>) -> Option<(Seq<char>, Seq<char>)>);
const SUBS: &[Sub] = &[
    ("tag(/*)", |s| tag("/*").parse(s), |s| v::nom_tag(str_seq("/*"), s)),
    ("space0", |s| space0(s), |s| { let k = v::sspan(s, |c| c == ' ' || c == '\t'); Some((s.take(k), s.skip(k))) }),
    ("space1", |s| space1(s), |s| v::nom_span(v::sspan(s, |c| c == ' ' || c == '\t'), s)),
    ("alpha1", |s| alpha1(s), |s| v::nom_span(v::sspan(s, |c| v::is_az(c) || v::is_AZ(c)), s)),
    ("is_not(\"\\n\")", |s| is_not("\"\n").parse(s), |s| v::nom_span(v::sspan(s, |c| !['"', '\n'].contains(&c)), s)),
    ("take_until(*/)", |s| take_until("*/").parse(s), |s| v::sfind(s, str_seq("*/")).map(|k| (s.take(k), s.skip(k)))),
    ("eof", |s| eof(s), |s| if s.len() == 0 { Some((s, s)) } else { None }),
    ("crlf", |s| crlf(s), |s| v::nom_tag(str_seq("\r\n"), s)),
    ("take_till1", |s| take_till1(|c| c == '\n' || c == '/').parse(s), |s| v::nom_span(v::sspan(s, |c| !(c == '\n' || c == '/')), s)),
    ("take_while1", |s| take_while1(|c: char| c.is_alphanumeric() || c == '_').parse(s), |s| v::nom_span(v::sspan(s, |c| c.is_alphanumeric() || c == '_'), s)),
];
fn seq2<A, B>(s: Seq<char>, p: impl Fn(Seq<char>) -> Option<(A, Seq<char>)>, q: impl Fn(Seq<char>) -> Option<(B, Seq<char>)>) -> Option<((A, B), Seq<char>)> { let (a, r) = p(s)?; let (b, u) = q(r)?; Some(((a, b), u)) }
pub fn parsers(out: &mut Out, a: &str, r: &mut Rng) {
    let s = str_seq(a);
    for (_, p, q) in SUBS { out.eq("nom tag/space/alpha1/is_not/take_*/eof/crlf", gots(p(a)), sps(q(s)), &a); }
    for c in ['a', '\n', 'é'] { out.eq("nom char", got(nchar::<&str, nom::error::Error<&str>>(c).parse(a)), if s.len() > 0 && s[0] == c { Some((c, t(s.skip(1)))) } else { None }, &a); }
    out.eq("nom anychar", got(anychar(a)), if s.len() > 0 { Some((s[0], t(s.skip(1)))) } else { None }, &a);
    out.eq("nom newline", got(newline(a)), if s.len() > 0 && s[0] == '\n' { Some(('\n', t(s.skip(1)))) } else { None }, &a);
    let ((np, p, sp1), (nq, q, sq1), (nc, c, sc)) = (r.pick(SUBS), r.pick(SUBS), r.pick(SUBS));
    let show = (a, np, nq, nc);
    let st = |x: Seq<char>| t(x);
    out.eq("nom opt", got(opt(p).parse(a).map(|(x, y)| (x, y.map(|y| y.to_string())))), Some(match sp1(s) { Some((x, y)) => (Some(st(x)), st(y)), None => (None, a.to_string()) }), &show);
    out.eq("nom value", got(value(7, p).parse(a)), sp(sp1(s).map(|(_, y)| (7, y))), &show);
    out.eq("nom map", got(map(p, |x: &str| x.len()).parse(a)), sp(sp1(s).map(|(x, y)| (v::blen(x) as usize, y))), &show);
    out.eq("nom map_opt", got(map_opt(p, |x: &str| x.chars().next()).parse(a)), sp1(s).and_then(|(x, y)| v_first(x).map(|c| (c, st(y)))), &show);
    out.eq("nom pair", got(pair(p, q).parse(a).map(|(r, (x, y))| (r, (x.to_string(), y.to_string())))), sp(seq2(s, sp1, sq1).map(|((x, y), z)| ((st(x), st(y)), z))), &show);
    out.eq("nom (p, q)", got((p, q).parse(a).map(|(r, (x, y))| (r, (x.to_string(), y.to_string())))), sp(seq2(s, sp1, sq1).map(|((x, y), z)| ((st(x), st(y)), z))), &show);
    let three = || seq2(s, |s| seq2(s, sp1, sq1), sc).map(|(((x, y), z), r)| ((x, y, z), r));
    out.eq("nom (p, q, r)", got((p, q, c).parse(a).map(|(r, (x, y, z))| (r, (x.to_string(), y.to_string(), z.to_string())))), sp(three().map(|((x, y, z), r)| ((st(x), st(y), st(z)), r))), &show);
    out.eq("nom (p, q, r, s)", got((p, q, c, p).parse(a).map(|(r, (x, y, z, w))| (r, (x.to_string(), y.to_string(), z.to_string(), w.to_string())))), sp(three().and_then(|((x, y, z), r)| sp1(r).map(|(w, u)| ((st(x), st(y), st(z), st(w)), u)))), &show);
    out.eq("nom terminated", gots(terminated(p, q).parse(a)), sps(seq2(s, sp1, sq1).map(|((x, _), r)| (x, r))), &show);
    out.eq("nom preceded", gots(preceded(p, q).parse(a)), sps(seq2(s, sp1, sq1).map(|((_, y), r)| (y, r))), &show);
    out.eq("nom delimited", gots(delimited(p, q, c).parse(a)), sps(three().map(|((_, y, _), r)| (y, r))), &show);
    out.eq("nom separated_pair", got(separated_pair(p, q, c).parse(a).map(|(r, (x, y))| (r, (x.to_string(), y.to_string())))), sp(three().map(|((x, _, z), r)| ((st(x), st(z)), r))), &show);
    out.eq("nom alt (2)", gots(alt((*p, *q)).parse(a)), sps(sp1(s).or_else(|| sq1(s))), &show);
    out.eq("nom alt (3)", gots(alt((*p, *q, *c)).parse(a)), sps(sp1(s).or_else(|| sq1(s)).or_else(|| sc(s))), &show);
}
/// axiom_embedded: each of the built-in rules, read as the specification reads it, is rules
pub fn embedded(out: &mut Out, repo: &str) {
    let dm = std::fs::read_to_string(format!("{repo}/rules/dmrules.txt")).unwrap_or_else(|_| "?".to_string());
    out.ck("axiom_dm_default", o::dam_build(str_seq(&dm)).bad.is_none(), || "rules/dmrules.txt is not a text of rules".to_string());
    let dir = format!("{repo}/rules/bm");
    let mut files: Vec<(Seq<char>, Seq<char>)> = vec![];
    for e in std::fs::read_dir(&dir).map(|d| d.flatten().collect::<Vec<_>>()).unwrap_or_default() {
        let p = e.path();
        if p.extension().is_some_and(|x| x == "txt") { files.push((str_seq(p.file_stem().unwrap().to_str().unwrap()), str_seq(&std::fs::read_to_string(&p).unwrap_or_default()))) }
    }
    files.sort();
    let m = Map::<Seq<char>, Seq<char>>(rt::keep(files));
    for n in 0..3 { for k in 0..3 { for l in ["any", "common"] {
        if l == "common" && k == 2 { continue }
        let f = o::bm_rules_name(n, k, str_seq(l));
        out.ck("axiom_embedded", matches!(o::bm_file(m, f, 5), o::BmRead::Rules(_)), || format!("{} is not a text of rules", seq_str(f)));
    } } }
}
pub fn run(seed: u64, repo: &str, secs: f64) {
    let t0 = std::time::Instant::now();
    let mut out = Out { contracts: BTreeMap::new(), failures: vec![] };
    embedded(&mut out, repo);
    chars(&mut out);
    clear_arena();
    // short strings: all of them
    const PA: &[char] = &['a', '"', '/', '*', ' ', '\n', '\r', 'é'];
    let mut r = Rng::new(seed, 0xc0);
    let mut n = 0u64;
    for len in 0..=5usize {
        for k in 0..PA.len().pow(len as u32) { let a: String = (0..len).map(|i| PA[k / PA.len().pow(i as u32) % PA.len()]).collect(); parsers(&mut out, &a, &mut r); clear_arena(); }
    }
    while t0.elapsed().as_secs_f64() < secs || n < 20000 {
        let (a, p, b) = (word(&mut r, 9), word(&mut r, 2), word(&mut r, 3));
        let wide = if r.chance(1, 2) { 4 } else { AL.len() }; let (c, k) = (AL[r.below(wide)], r.below(12));
        strings(&mut out, &a, &p, &b, c, k);
        parsers(&mut out, &word(&mut r, 12), &mut r);
        clear_arena(); n += 1;
    }
    println!("{}", serde_json::json!({ "contracts": out.contracts.len(), "evaluations": out.contracts.values().sum::<u64>(), "names": out.contracts.keys().collect::<Vec<_>>(), "failures": out.failures }));
}
