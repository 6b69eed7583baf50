pub mod vx_nom_mod {
use super::*;
// ---- the combinators of nom 8 over &str, in their `complete` forms (ASSUMED contracts) ----
// A parser is what it does to a text: what it gives and the text after it, or None for a recoverable error.
impl VxView for () { type V = (); open spec fn vv(&self) -> () { () } }
impl<T: VxView> VxView for Option<T> { type V = Option<T::V>; open spec fn vv(&self) -> Option<T::V> { match *self { Some(x) => Some(x.vv()), None => None } } }
impl<A: VxView, B: VxView> VxView for (A, B) { type V = (A::V, B::V); open spec fn vv(&self) -> (A::V, B::V) { (self.0.vv(), self.1.vv()) } }
impl<A: VxView, B: VxView, C: VxView> VxView for (A, B, C) { type V = (A::V, B::V, C::V); open spec fn vv(&self) -> (A::V, B::V, C::V) { (self.0.vv(), self.1.vv(), self.2.vv()) } }
impl<A: VxView, B: VxView, C: VxView, D: VxView> VxView for (A, B, C, D) { type V = (A::V, B::V, C::V, D::V); open spec fn vv(&self) -> (A::V, B::V, C::V, D::V) { (self.0.vv(), self.1.vv(), self.2.vv(), self.3.vv()) } }

#[verifier::external_body]
#[verifier::reject_recursive_types(O)]
pub struct VxP<O> { v: Vec<O> }
#[verifier::external_body]
pub struct VxNomError { v: Vec<u8> }
impl<O: VxView> VxP<O> {
    pub uninterp spec fn pf(&self, s: Seq<char>) -> Option<(O::V, Seq<char>)>;
    #[verifier::external_body]
    pub fn vx_parse<'a>(self, s: &'a str) -> (r: Result<(&'a str, O), VxNomError>)
        ensures match self.pf(s@) { None => r is Err, Some(p) => r is Ok && (r->Ok_0).0@ == p.1 && (r->Ok_0).1.vv() == p.0 }
    { unimplemented!() }
}
pub trait VxParser<O: VxView> : Sized { spec fn ps(&self, s: Seq<char>) -> Option<(O::V, Seq<char>)>; }
impl<O: VxView> VxParser<O> for VxP<O> { open spec fn ps(&self, s: Seq<char>) -> Option<(O::V, Seq<char>)> { self.pf(s) } }
impl<A: VxView, B: VxView, P: VxParser<A>, Q: VxParser<B>> VxParser<(A, B)> for (P, Q) {
    open spec fn ps(&self, s: Seq<char>) -> Option<((A::V, B::V), Seq<char>)> {
        match self.0.ps(s) { None => None, Some((a, t)) => match self.1.ps(t) { None => None, Some((b, u)) => Some(((a, b), u)) } }
    }
}
impl<A: VxView, B: VxView, C: VxView, P: VxParser<A>, Q: VxParser<B>, R: VxParser<C>> VxParser<(A, B, C)> for (P, Q, R) {
    open spec fn ps(&self, s: Seq<char>) -> Option<((A::V, B::V, C::V), Seq<char>)> {
        match self.0.ps(s) { None => None, Some((a, t)) => match self.1.ps(t) { None => None, Some((b, u)) => match self.2.ps(u) { None => None, Some((c, v)) => Some(((a, b, c), v)) } } }
    }
}
impl<A: VxView, B: VxView, C: VxView, D: VxView, P: VxParser<A>, Q: VxParser<B>, R: VxParser<C>, S: VxParser<D>> VxParser<(A, B, C, D)> for (P, Q, R, S) {
    open spec fn ps(&self, s: Seq<char>) -> Option<((A::V, B::V, C::V, D::V), Seq<char>)> {
        match self.0.ps(s) { None => None, Some((a, t)) => match self.1.ps(t) { None => None, Some((b, u)) => match self.2.ps(u) { None => None, Some((c, v)) => match self.3.ps(v) { None => None, Some((d, w)) => Some(((a, b, c, d), w)) } } } }
    }
}
/// the parser a function gives back (an impl nom::Parser in the source)
#[verifier::external_body] pub fn vx_nom_p<O: VxView, P: VxParser<O>>(p: P) -> (r: VxP<O>) ensures forall|s: Seq<char>| #[trigger] r.pf(s) == p.ps(s) { unimplemented!() }
pub open spec fn nom_tag(t: Seq<char>, s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> { if sstarts(s, t) { Some((t, s.skip(t.len() as int))) } else { None } }
pub open spec fn nom_span(n: int, s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> { if n > 0 { Some((s.take(n), s.skip(n))) } else { None } }
pub open spec fn nom_blank() -> spec_fn(char) -> bool { |c: char| c == ' ' || c == '\t' }
pub open spec fn nom_alpha() -> spec_fn(char) -> bool { |c: char| is_az(c) || is_AZ(c) }
pub open spec fn nom_none_of(t: Seq<char>) -> spec_fn(char) -> bool { |c: char| !t.contains(c) }
pub open spec fn nom_not(p: spec_fn(char) -> bool) -> spec_fn(char) -> bool { |c: char| !p(c) }
#[verifier::external_body] pub fn vx_nom_tag<'a>(t: &'a str) -> (r: VxP<&'a str>) ensures forall|s: Seq<char>| #[trigger] r.pf(s) == nom_tag(t@, s) { unimplemented!() }
#[verifier::external_body] pub fn vx_nom_char(c: char) -> (r: VxP<char>) ensures forall|s: Seq<char>| #[trigger] r.pf(s) == (if s.len() > 0 && s[0] == c { Some((c, s.skip(1))) } else { None }) { unimplemented!() }
#[verifier::external_body] pub fn vx_nom_anychar() -> (r: VxP<char>) ensures forall|s: Seq<char>| #[trigger] r.pf(s) == (if s.len() > 0 { Some((s[0], s.skip(1))) } else { None }) { unimplemented!() }
#[verifier::external_body] pub fn vx_nom_space1<'a>() -> (r: VxP<&'a str>) ensures forall|s: Seq<char>| #[trigger] r.pf(s) == nom_span(sspan(s, nom_blank()), s) { unimplemented!() }
#[verifier::external_body] pub fn vx_nom_space0<'a>() -> (r: VxP<&'a str>) ensures forall|s: Seq<char>| #[trigger] r.pf(s) == Some((s.take(sspan(s, nom_blank())), s.skip(sspan(s, nom_blank())))) { unimplemented!() }
#[verifier::external_body] pub fn vx_nom_alpha1<'a>() -> (r: VxP<&'a str>) ensures forall|s: Seq<char>| #[trigger] r.pf(s) == nom_span(sspan(s, nom_alpha()), s) { unimplemented!() }
#[verifier::external_body] pub fn vx_nom_is_not<'a>(t: &'a str) -> (r: VxP<&'a str>) ensures forall|s: Seq<char>| #[trigger] r.pf(s) == nom_span(sspan(s, nom_none_of(t@)), s) { unimplemented!() }
#[verifier::external_body] pub fn vx_nom_take_until<'a>(t: &'a str) -> (r: VxP<&'a str>) ensures forall|s: Seq<char>| #[trigger] r.pf(s) == (match sfind(s, t@) { Some(k) => Some((s.take(k), s.skip(k))), None => None }) { unimplemented!() }
#[verifier::external_body] pub fn vx_nom_eof<'a>() -> (r: VxP<&'a str>) ensures forall|s: Seq<char>| #[trigger] r.pf(s) == (if s.len() == 0 { Some((s, s)) } else { None }) { unimplemented!() }
#[verifier::external_body] pub fn vx_nom_crlf<'a>() -> (r: VxP<&'a str>) ensures forall|s: Seq<char>| #[trigger] r.pf(s) == nom_tag(seq!['\r', '\n'], s) { unimplemented!() }
#[verifier::external_body] pub fn vx_nom_newline() -> (r: VxP<char>) ensures forall|s: Seq<char>| #[trigger] r.pf(s) == (if s.len() > 0 && s[0] == '\n' { Some(('\n', s.skip(1))) } else { None }) { unimplemented!() }
#[verifier::external_body] pub fn vx_nom_take_till1<'a, F: Fn(char) -> bool>(f: F) -> (r: VxP<&'a str>)
    requires forall|c: char| f.requires((c,)),
    ensures forall|q: spec_fn(char) -> bool| #[trigger] vx_hint(q) && (forall|c: char, b: bool| f.ensures((c,), b) ==> b == q(c)) ==> forall|s: Seq<char>| #[trigger] r.pf(s) == nom_span(sspan(s, nom_not(q)), s)
{ unimplemented!() }
#[verifier::external_body] pub fn vx_nom_take_while1<'a, F: Fn(char) -> bool>(f: F) -> (r: VxP<&'a str>)
    requires forall|c: char| f.requires((c,)),
    ensures forall|q: spec_fn(char) -> bool| #[trigger] vx_hint(q) && (forall|c: char, b: bool| f.ensures((c,), b) ==> b == q(c)) ==> forall|s: Seq<char>| #[trigger] r.pf(s) == nom_span(sspan(s, q), s)
{ unimplemented!() }
#[verifier::external_body] pub fn vx_nom_opt<O: VxView, P: VxParser<O>>(p: P) -> (r: VxP<Option<O>>)
    ensures forall|s: Seq<char>| #[trigger] r.pf(s) == (match p.ps(s) { Some((v, t)) => Some((Some(v), t)), None => Some((None, s)) }) { unimplemented!() }
#[verifier::external_body] pub fn vx_nom_value<V: VxView, O: VxView, P: VxParser<O>>(v: V, p: P) -> (r: VxP<V>)
    ensures forall|s: Seq<char>| #[trigger] r.pf(s) == (match p.ps(s) { Some((x, t)) => Some((v.vv(), t)), None => None }) { unimplemented!() }
#[verifier::external_body] pub fn vx_nom_map<O: VxView, P: VxParser<O>, R: VxView, F: Fn(O) -> R>(p: P, f: F) -> (r: VxP<R>)
    requires forall|x: O| f.requires((x,)),
    ensures forall|s: Seq<char>| (#[trigger] r.pf(s) is Some) == (p.ps(s) is Some), forall|q: spec_fn(O::V) -> R::V| #[trigger] vx_hint(q) && (forall|x: O, y: R| f.ensures((x,), y) ==> y.vv() == q(x.vv())) ==> forall|s: Seq<char>| #[trigger] r.pf(s) == (match p.ps(s) { Some((v, t)) => Some((q(v), t)), None => None })
{ unimplemented!() }
#[verifier::external_body] pub fn vx_nom_map_opt<O: VxView, P: VxParser<O>, R: VxView, F: Fn(O) -> Option<R>>(p: P, f: F) -> (r: VxP<R>)
    requires forall|x: O| f.requires((x,)),
    ensures forall|q: spec_fn(O::V) -> Option<R::V>| #[trigger] vx_hint(q) && (forall|x: O, y: Option<R>| f.ensures((x,), y) ==> y.vv() == q(x.vv())) ==> forall|s: Seq<char>| #[trigger] r.pf(s) == (match p.ps(s) { Some((v, t)) => match q(v) { Some(w) => Some((w, t)), None => None }, None => None })
{ unimplemented!() }
#[verifier::external_body] pub fn vx_nom_pair<A: VxView, B: VxView, P: VxParser<A>, Q: VxParser<B>>(p: P, q: Q) -> (r: VxP<(A, B)>) ensures forall|s: Seq<char>| #[trigger] r.pf(s) == (p, q).ps(s) { unimplemented!() }
#[verifier::external_body] pub fn vx_nom_terminated<A: VxView, B: VxView, P: VxParser<A>, Q: VxParser<B>>(p: P, q: Q) -> (r: VxP<A>)
    ensures forall|s: Seq<char>| #[trigger] r.pf(s) == (match p.ps(s) { None => None, Some((a, t)) => match q.ps(t) { None => None, Some((b, u)) => Some((a, u)) } }) { unimplemented!() }
#[verifier::external_body] pub fn vx_nom_preceded<A: VxView, B: VxView, P: VxParser<A>, Q: VxParser<B>>(p: P, q: Q) -> (r: VxP<B>)
    ensures forall|s: Seq<char>| #[trigger] r.pf(s) == (match p.ps(s) { None => None, Some((a, t)) => match q.ps(t) { None => None, Some((b, u)) => Some((b, u)) } }) { unimplemented!() }
#[verifier::external_body] pub fn vx_nom_delimited<A: VxView, B: VxView, C: VxView, P: VxParser<A>, Q: VxParser<B>, R: VxParser<C>>(p: P, q: Q, c: R) -> (r: VxP<B>)
    ensures forall|s: Seq<char>| #[trigger] r.pf(s) == (match p.ps(s) { None => None, Some((a, t)) => match q.ps(t) { None => None, Some((b, u)) => match c.ps(u) { None => None, Some((d, v)) => Some((b, v)) } } }) { unimplemented!() }
#[verifier::external_body] pub fn vx_nom_separated_pair<A: VxView, B: VxView, C: VxView, P: VxParser<A>, Q: VxParser<B>, R: VxParser<C>>(p: P, q: Q, c: R) -> (r: VxP<(A, C)>)
    ensures forall|s: Seq<char>| #[trigger] r.pf(s) == (match p.ps(s) { None => None, Some((a, t)) => match q.ps(t) { None => None, Some((b, u)) => match c.ps(u) { None => None, Some((d, v)) => Some(((a, d), v)) } } }) { unimplemented!() }
pub trait VxAlt<O: VxView> : Sized { spec fn al(&self, s: Seq<char>) -> Option<(O::V, Seq<char>)>; }
impl<O: VxView, P: VxParser<O>, Q: VxParser<O>> VxAlt<O> for (P, Q) { open spec fn al(&self, s: Seq<char>) -> Option<(O::V, Seq<char>)> { match self.0.ps(s) { Some(x) => Some(x), None => self.1.ps(s) } } }
impl<O: VxView, P: VxParser<O>, Q: VxParser<O>, R: VxParser<O>> VxAlt<O> for (P, Q, R) { open spec fn al(&self, s: Seq<char>) -> Option<(O::V, Seq<char>)> { match self.0.ps(s) { Some(x) => Some(x), None => match self.1.ps(s) { Some(x) => Some(x), None => self.2.ps(s) } } } }
#[verifier::external_body] pub fn vx_nom_alt<O: VxView, L: VxAlt<O>>(l: L) -> (r: VxP<O>) ensures forall|s: Seq<char>| #[trigger] r.pf(s) == l.al(s) { unimplemented!() }

pub proof fn lemma_sspan_ext(s: Seq<char>, p: spec_fn(char) -> bool, q: spec_fn(char) -> bool)
    requires forall|c: char| #[trigger] p(c) == q(c)
    ensures sspan(s, p) == sspan(s, q)
{ assert(p =~= q); }
pub proof fn lemma_sspan_bound(s: Seq<char>, p: spec_fn(char) -> bool)
    ensures 0 <= sspan(s, p) <= s.len()
    decreases s.len()
{ if s.len() > 0 && p(s[0]) { lemma_sspan_bound(s.skip(1), p); } }
pub proof fn lemma_sfind_bound(s: Seq<char>, t: Seq<char>)
    ensures match sfind(s, t) { Some(k) => 0 <= k && k + t.len() <= s.len() && s.skip(k).take(t.len() as int) == t, None => true }
    decreases s.len()
{ if !sstarts(s, t) && s.len() > 0 { lemma_sfind_bound(s.skip(1), t); match sfind(s.skip(1), t) { Some(k) => { assert(s.skip(1).skip(k) =~= s.skip(k + 1)); } None => {} } } else { assert(s.skip(0) =~= s); } }
}
pub use vx_nom_mod::*;
