// assumption: 64-bit target
global size_of usize == 8;
pub mod vx_core {
use super::*;
// ---------------------------------------------------------------------------------------------
// Contracts of the std items the extracted code calls (ASSUMED: #[verifier::external_body]).
// Every one of them is exercised against the real std function by the conformance tests of the
// harness (harness/src/conform.rs).
// ---------------------------------------------------------------------------------------------
pub open spec fn vx_same<A>(a: A, b: A) -> bool { a == b }

/// always true: names the predicate a closure computes, where no specification term does
pub open spec fn vx_hint<A>(a: A) -> bool { true }

#[verifier::external_body]
pub fn vx_assert(b: bool)
    requires b,
{ unimplemented!() }
#[verifier::external_body]
pub fn vx_unreachable() -> (r: !)
    requires false,
{ unimplemented!() }

// ---- sequence functions used by the specifications ----
pub open spec fn sfilter<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { s } else if p(s[0]) { seq![s[0]] + sfilter(s.skip(1), p) } else { sfilter(s.skip(1), p) }
}
pub open spec fn smap<T, U>(s: Seq<T>, f: spec_fn(T) -> U) -> Seq<U>
{
    Seq::new(s.len(), |i: int| f(s[i]))
}
pub open spec fn sflatten(s: Seq<Seq<char>>) -> Seq<char>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { s[0] + sflatten(s.skip(1)) }
}
pub open spec fn senum<T>(k: int, s: Seq<T>) -> Seq<(usize, T)> { Seq::new(s.len(), |i: int| ((k + i) as usize, s[i])) }
pub open spec fn szip<T, U>(a: Seq<T>, b: Seq<U>) -> Seq<(T, U)> { Seq::new(if a.len() <= b.len() { a.len() } else { b.len() }, |i: int| (a[i], b[i])) }
pub open spec fn sspan<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> int
    decreases s.len()
{ if s.len() > 0 && p(s[0]) { 1 + sspan(s.skip(1), p) } else { 0 } }
/// the pieces between the separators: always at least one
pub open spec fn ssplit(s: Seq<char>, c: char) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { seq![Seq::empty()] }
    else if s[0] == c { seq![Seq::<char>::empty()] + ssplit(s.skip(1), c) }
    else { let r = ssplit(s.skip(1), c); seq![seq![s[0]] + r[0]] + r.skip(1) }
}
/// the position of the first `t`
pub open spec fn sfind(s: Seq<char>, t: Seq<char>) -> Option<int>
    decreases s.len()
{ if sstarts(s, t) { Some(0) } else if s.len() == 0 { None } else { match sfind(s.skip(1), t) { Some(k) => Some(k + 1), None => None } } }
/// the words between white space
pub open spec fn swords(s: Seq<char>) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if is_ws(s[0]) { swords(s.skip(1)) }
    else { let n = sspan(s, |c: char| !is_ws(c)); if 1 <= n <= s.len() { seq![s.take(n)] + swords(s.skip(n)) } else { Seq::empty() } }
}
/// stable insertion by key, and the stable sort
pub open spec fn sinsert<T>(s: Seq<T>, x: T, key: spec_fn(T) -> int) -> Seq<T>
    decreases s.len()
{ if s.len() > 0 && key(s.last()) > key(x) { sinsert(s.drop_last(), x, key).push(s.last()) } else { s.push(x) } }
pub open spec fn sstable<T>(s: Seq<T>, key: spec_fn(T) -> int) -> Seq<T>
    decreases s.len()
{ if s.len() == 0 { s } else { sinsert(sstable(s.drop_last(), key), s.last(), key) } }
pub open spec fn opt<T>(b: bool, t: T) -> Option<T> { if b { Some(t) } else { None } }
pub open spec fn first_opt<T>(s: Seq<T>) -> Option<T> { if s.len() > 0 { Some(s[0]) } else { None } }

// ---- chars ----
pub uninterp spec fn is_alpha(c: char) -> bool;
pub uninterp spec fn is_ws(c: char) -> bool;
pub uninterp spec fn is_alnum(c: char) -> bool;
pub uninterp spec fn upper(c: char) -> Seq<char>;
pub uninterp spec fn lower(c: char) -> Seq<char>;
pub open spec fn is_az(c: char) -> bool { 'a' <= c && c <= 'z' }
#[allow(non_snake_case)]
pub open spec fn is_AZ(c: char) -> bool { 'A' <= c && c <= 'Z' }
pub open spec fn is_09(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn alow(c: char) -> char { if is_AZ(c) { ((c as u32) + 32) as char } else { c } }
pub open spec fn aup(c: char) -> char { if is_az(c) { ((c as u32) - 32) as char } else { c } }
pub open spec fn clen(c: char) -> int { if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 } }
#[verifier::opaque]
pub open spec fn blen(s: Seq<char>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { clen(s[0]) + blen(s.skip(1)) }
}
/// the characters with the byte position at which each begins
pub open spec fn sindices(k: int, s: Seq<char>) -> Seq<(usize, char)>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { seq![(k as usize, s[0])] + sindices(k + clen(s[0]), s.skip(1)) }
}
/// number of chars in the first `n` bytes, when `n` is a char boundary; -1 otherwise
#[verifier::opaque]
pub open spec fn cidx(s: Seq<char>, n: int) -> int
    decreases s.len()
{
    if n == 0 { 0 } else if s.len() == 0 || n < clen(s[0]) { -1 } else if cidx(s.skip(1), n - clen(s[0])) < 0 { -1 } else { 1 + cidx(s.skip(1), n - clen(s[0])) }
}
#[verifier::opaque]
pub open spec fn is_ascii_seq(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 0x80 }

// ---- views ----
pub trait VxView { type V; spec fn vv(&self) -> Self::V; }
impl VxView for char { type V = char; open spec fn vv(&self) -> char { *self } }
impl VxView for bool { type V = bool; open spec fn vv(&self) -> bool { *self } }
impl VxView for usize { type V = usize; open spec fn vv(&self) -> usize { *self } }
impl VxView for String { type V = Seq<char>; open spec fn vv(&self) -> Seq<char> { self@ } }
impl<'a> VxView for &'a str { type V = Seq<char>; open spec fn vv(&self) -> Seq<char> { (*self)@ } }
impl<'a> VxView for &'a char { type V = char; open spec fn vv(&self) -> char { **self } }
impl<'a> VxView for &'a String { type V = Seq<char>; open spec fn vv(&self) -> Seq<char> { (*self)@ } }

// ---- iterators: the sequence of what is still to come ----
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VxIter<T> { v: Vec<T> }
impl<T> VxIter<T> {
    pub uninterp spec fn rest(&self) -> Seq<T>;

    #[verifier::external_body]
    pub fn vx_next(&mut self) -> (r: Option<T>)
        ensures
            r == first_opt(old(self).rest()),
            r is None ==> final(self).rest() == old(self).rest() && old(self).rest().len() == 0,
            r is Some ==> old(self).rest().len() > 0 && final(self).rest() == old(self).rest().skip(1) && final(self).rest().len() == old(self).rest().len() - 1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_next_back(&mut self) -> (r: Option<T>)
        ensures
            r == (if old(self).rest().len() == 0 { None } else { Some(old(self).rest().last()) }),
            final(self).rest() == (if old(self).rest().len() == 0 { old(self).rest() } else { old(self).rest().drop_last() }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_peek<'a>(&'a mut self) -> (r: Option<&'a T>)
        ensures
            final(self).rest() == old(self).rest(),
            r is None <==> old(self).rest().len() == 0,
            r is Some ==> *r->0 == old(self).rest()[0],
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_nth(&mut self, n: usize) -> (r: Option<T>)
        ensures
            r == (if n < old(self).rest().len() { Some(old(self).rest()[n as int]) } else { None }),
            final(self).rest() == (if n < old(self).rest().len() { old(self).rest().skip(n + 1) } else { old(self).rest().skip(old(self).rest().len() as int) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_iter(self) -> (r: VxIter<T>) ensures r == self { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_peekable(self) -> (r: VxIter<T>) ensures r.rest() == self.rest() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_enumerate(self) -> (r: VxIter<(usize, T)>) ensures r.rest() == senum(0, self.rest()), r.rest().len() <= MAXLEN() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_skip(self, n: usize) -> (r: VxIter<T>) ensures r.rest() == self.rest().skip(if n as int <= self.rest().len() { n as int } else { self.rest().len() as int }) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_take(self, n: usize) -> (r: VxIter<T>) ensures r.rest() == self.rest().take(if n as int <= self.rest().len() { n as int } else { self.rest().len() as int }) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_chain(self, o: VxIter<T>) -> (r: VxIter<T>) ensures r.rest() == self.rest() + o.rest() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_zip<U>(self, o: VxIter<U>) -> (r: VxIter<(T, U)>) ensures r.rest() == szip(self.rest(), o.rest()), r.rest().len() <= MAXLEN() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_count(self) -> (r: usize) ensures r == self.rest().len(), r <= MAXLEN() { unimplemented!() }

    #[verifier::external_body]
    pub fn vx_any<F: FnMut(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|x: T| f.requires((x,)),
        ensures
            r ==> exists|i: int| 0 <= i < old(self).rest().len() && f.ensures((#[trigger] old(self).rest()[i],), true),
            !r ==> forall|i: int| 0 <= i < old(self).rest().len() ==> f.ensures((#[trigger] old(self).rest()[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_find<F: FnMut(&T) -> bool>(&mut self, f: F) -> (r: Option<T>)
        requires forall|x: &T| f.requires((x,)),
        ensures
            r is Some ==> exists|k: int| #![trigger old(self).rest()[k]] 0 <= k < old(self).rest().len() && r->0 == old(self).rest()[k] && f.ensures((&old(self).rest()[k],), true) && forall|i: int| #![trigger old(self).rest()[i]] 0 <= i < k ==> f.ensures((&old(self).rest()[i],), false),
            r is None ==> forall|i: int| #![trigger old(self).rest()[i]] 0 <= i < old(self).rest().len() ==> f.ensures((&old(self).rest()[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_all<F: FnMut(T) -> bool>(&mut self, f: F) -> (r: bool)
        requires forall|x: T| f.requires((x,)),
        ensures
            !r ==> exists|i: int| 0 <= i < old(self).rest().len() && f.ensures((#[trigger] old(self).rest()[i],), false),
            r ==> forall|i: int| 0 <= i < old(self).rest().len() ==> f.ensures((#[trigger] old(self).rest()[i],), true),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_position<F: FnMut(T) -> bool>(&mut self, f: F) -> (r: Option<usize>)
        requires forall|x: T| f.requires((x,)),
        ensures
            r is Some ==> r->0 < old(self).rest().len() && f.ensures((old(self).rest()[r->0 as int],), true) && forall|i: int| 0 <= i < r->0 ==> f.ensures((#[trigger] old(self).rest()[i],), false),
            r is None ==> forall|i: int| 0 <= i < old(self).rest().len() ==> f.ensures((#[trigger] old(self).rest()[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_filter<F: FnMut(&T) -> bool>(self, f: F) -> (r: VxIter<T>)
        requires forall|x: &T| f.requires((x,)),
        ensures
            forall|q: spec_fn(T) -> bool| #![trigger sfilter(self.rest(), q)] #![trigger vx_hint(q)] (forall|x: &T, b: bool| f.ensures((x,), b) ==> b == q(*x)) ==> r.rest() == sfilter(self.rest(), q),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_map<R: VxView, F: FnMut(T) -> R>(self, f: F) -> (r: VxIter<R>)
        requires forall|i: int| 0 <= i < self.rest().len() ==> f.requires((#[trigger] self.rest()[i],)),
        ensures
            r.rest().len() == self.rest().len(),
            forall|i: int| #![trigger r.rest()[i]] #![trigger self.rest()[i]] 0 <= i < self.rest().len() ==> f.ensures((self.rest()[i],), r.rest()[i]),
            forall|q: spec_fn(T) -> R::V| (forall|x: T, y: R| f.ensures((x,), y) ==> y.vv() == q(x)) ==> vrest(r) == #[trigger] smap(self.rest(), q),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_collect<C: VxCollect<T>>(self) -> (r: C)
        ensures C::collected(self, r),
    { unimplemented!() }
}
impl VxIter<char> {
    #[verifier::external_body]
    pub fn vx_to_string(&self) -> (r: String) ensures r@ == self.rest() { unimplemented!() }
}
pub open spec fn vrest<T: VxView>(it: VxIter<T>) -> Seq<T::V> { smap(it.rest(), |t: T| t.vv()) }
pub open spec fn vrest_ref<'a, T>(it: VxIter<&'a T>) -> Seq<T> { smap(it.rest(), |t: &'a T| *t) }
/// `it` still gives the end of `v`
pub open spec fn iter_of<'a, T>(it: VxIter<&'a T>, v: Seq<T>) -> bool { it.rest().len() <= v.len() && forall|i: int| 0 <= i < it.rest().len() ==> *(#[trigger] it.rest()[i]) == v[i + v.len() - it.rest().len()] }
pub trait VxCollect<T> : Sized { spec fn collected(it: VxIter<T>, r: Self) -> bool; }
impl VxCollect<char> for String { open spec fn collected(it: VxIter<char>, r: String) -> bool { r@ == it.rest() && r@ == vrest(it) } }
impl<'a> VxCollect<&'a char> for String { open spec fn collected(it: VxIter<&'a char>, r: String) -> bool { r@ == vrest_ref(it) } }
impl VxCollect<String> for String { open spec fn collected(it: VxIter<String>, r: String) -> bool { r@ == sflatten(vrest(it)) } }
impl<T> VxCollect<T> for Vec<T> { open spec fn collected(it: VxIter<T>, r: Vec<T>) -> bool { r@ == it.rest() && r@.len() <= MAXLEN() } }

// ---- str / String ----
/// Nothing in memory is longer than 2^61 bytes (assumed: the address space is far smaller).
pub open spec fn MAXLEN() -> int { 0x2000_0000_0000_0000 }
#[verifier::external_body] pub fn vx_str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
pub trait VxPat { spec fn pv(&self) -> Seq<char>; }
impl<'a> VxPat for &'a str { open spec fn pv(&self) -> Seq<char> { (*self)@ } }
impl<'a, 'b> VxPat for &'b &'a str { open spec fn pv(&self) -> Seq<char> { (**self)@ } }
impl VxPat for char { open spec fn pv(&self) -> Seq<char> { seq![*self] } }
impl<'a> VxPat for &'a String { open spec fn pv(&self) -> Seq<char> { (*self)@ } }
pub open spec fn sstarts(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.take(p.len() as int) == p }
pub open spec fn sends(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.skip(s.len() - p.len()) == p }
/// leftmost non-overlapping replacement of the non-empty pattern `p`
#[verifier::opaque]
pub open spec fn sreplace(s: Seq<char>, p: Seq<char>, r: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if p.len() == 0 || s.len() < p.len() { s }
    else if s.take(p.len() as int) == p { r + sreplace(s.skip(p.len() as int), p, r) }
    else { seq![s[0]] + sreplace(s.skip(1), p, r) }
}
#[verifier::opaque]
pub open spec fn sreplace1(s: Seq<char>, p: Seq<char>, r: Seq<char>) -> Seq<char>
    decreases s.len()
{
    if p.len() == 0 || s.len() < p.len() { s }
    else if s.take(p.len() as int) == p { r + s.skip(p.len() as int) }
    else { seq![s[0]] + sreplace1(s.skip(1), p, r) }
}
#[verifier::opaque]
pub open spec fn scontains(s: Seq<char>, p: Seq<char>) -> bool
    decreases s.len()
{
    if s.len() < p.len() { false } else if s.take(p.len() as int) == p { true } else if s.len() == 0 { false } else { scontains(s.skip(1), p) }
}
pub uninterp spec fn supper(s: Seq<char>) -> Seq<char>;
pub uninterp spec fn slower(s: Seq<char>) -> Seq<char>;
pub open spec fn strim_start(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && is_ws(s[0]) { strim_start(s.skip(1)) } else { s } }
pub open spec fn strim_end(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && is_ws(s.last()) { strim_end(s.drop_last()) } else { s } }
#[verifier::opaque]
pub open spec fn strim(s: Seq<char>) -> Seq<char> { strim_end(strim_start(s)) }

pub trait VxStr {
    spec fn sv(&self) -> Seq<char>;
    spec fn vs_len(&self) -> int;
    spec fn vs_contains<P: VxPat>(&self, p: P) -> bool;
    spec fn vs_starts_with<P: VxPat>(&self, p: P) -> bool;
    spec fn vs_ends_with<P: VxPat>(&self, p: P) -> bool;
    spec fn vs_is_empty(&self) -> bool;
    fn vx_chars(&self) -> (r: VxIter<char>) ensures r.rest() == self.sv(), self.sv().len() <= MAXLEN();
    fn vx_char_indices(&self) -> (r: VxIter<(usize, char)>) ensures r.rest() == sindices(0, self.sv()), self.sv().len() <= MAXLEN(), blen(self.sv()) <= MAXLEN();
    fn vx_len(&self) -> (r: usize) ensures r == blen(self.sv()), r <= MAXLEN();
    fn vx_is_empty(&self) -> (r: bool) ensures r == (self.sv().len() == 0);
    fn vx_to_uppercase(&self) -> (r: String) ensures r@ == supper(self.sv());
    fn vx_to_lowercase(&self) -> (r: String) ensures r@ == slower(self.sv());
    fn vx_starts_with<P: VxPat>(&self, p: P) -> (r: bool) ensures r == sstarts(self.sv(), p.pv());
    fn vx_ends_with<P: VxPat>(&self, p: P) -> (r: bool) ensures r == sends(self.sv(), p.pv());
    fn vx_contains<P: VxPat>(&self, p: P) -> (r: bool) ensures r == scontains(self.sv(), p.pv());
    fn vx_replace<P: VxPat>(&self, p: P, t: &str) -> (r: String) requires p.pv().len() > 0 ensures r@ == sreplace(self.sv(), p.pv(), t@);
    fn vx_replacen<P: VxPat>(&self, p: P, t: &str, n: usize) -> (r: String) requires n == 1, p.pv().len() > 0 ensures r@ == sreplace1(self.sv(), p.pv(), t@);
    fn vx_to_string(&self) -> (r: String) ensures r@ == self.sv();
    fn vx_slice_to<'a>(&'a self, n: usize) -> (r: &'a str) requires cidx(self.sv(), n as int) >= 0 ensures r@ == self.sv().take(cidx(self.sv(), n as int));
    fn vx_slice_from<'a>(&'a self, n: usize) -> (r: &'a str) requires cidx(self.sv(), n as int) >= 0 ensures r@ == self.sv().skip(cidx(self.sv(), n as int));
    fn vx_slice<'a>(&'a self, m: usize, n: usize) -> (r: &'a str) requires m <= n, cidx(self.sv(), m as int) >= 0, cidx(self.sv(), n as int) >= 0 ensures r@ == self.sv().subrange(cidx(self.sv(), m as int), cidx(self.sv(), n as int));
    fn vx_trim<'a>(&'a self) -> (r: &'a str) ensures r@ == strim(self.sv());
    fn vx_as_str<'a>(&'a self) -> (r: &'a str) ensures r@ == self.sv();
    fn vx_find<P: VxPat>(&self, p: P) -> (r: Option<usize>) ensures (match sfind(self.sv(), p.pv()) { None => r is None, Some(k) => r is Some && r->0 == blen(self.sv().take(k)) && cidx(self.sv(), r->0 as int) == k }), r is Some ==> r->0 + blen(p.pv()) <= MAXLEN();
    fn vx_strip_prefix<'a, P: VxPat>(&'a self, p: P) -> (r: Option<&'a str>) ensures r is Some <==> sstarts(self.sv(), p.pv()), r is Some ==> (r->0)@ == self.sv().skip(p.pv().len() as int);
    fn vx_split<'a>(&'a self, c: char) -> (r: VxIter<&'a str>) ensures vrest(r) == ssplit(self.sv(), c);
    fn vx_split_whitespace<'a>(&'a self) -> (r: VxIter<&'a str>) ensures vrest(r) == swords(self.sv());
}
MACRO_STR!(str)
MACRO_STR!(String)

pub trait VxString {
    spec fn ss(&self) -> Seq<char>;
    fn vx_push(&mut self, c: char) ensures final(self).ss() == old(self).ss().push(c);
    fn vx_push_str(&mut self, s: &str) ensures final(self).ss() == old(self).ss() + s@;
    fn vx_pop(&mut self) -> (r: Option<char>) ensures final(self).ss() == (if old(self).ss().len() > 0 { old(self).ss().drop_last() } else { old(self).ss() }), r == (if old(self).ss().len() > 0 { Some(old(self).ss().last()) } else { None });
    fn vx_replace_range<R: VxRange>(&mut self, g: R, t: &str) requires 0 <= cidx(old(self).ss(), g.lo(blen(old(self).ss()))) <= cidx(old(self).ss(), g.hi(blen(old(self).ss()))) ensures final(self).ss() == old(self).ss().take(cidx(old(self).ss(), g.lo(blen(old(self).ss())))) + t@ + old(self).ss().skip(cidx(old(self).ss(), g.hi(blen(old(self).ss()))));
    fn vx_remove(&mut self, n: usize) -> (r: char) requires 0 <= cidx(old(self).ss(), n as int) < old(self).ss().len() ensures r == old(self).ss()[cidx(old(self).ss(), n as int)], final(self).ss() == old(self).ss().remove(cidx(old(self).ss(), n as int));
}
impl VxString for String {
    open spec fn ss(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vx_push(&mut self, c: char) { unimplemented!() }
    #[verifier::external_body] fn vx_push_str(&mut self, s: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_pop(&mut self) -> (r: Option<char>) { unimplemented!() }
    #[verifier::external_body] fn vx_replace_range<R: VxRange>(&mut self, g: R, t: &str) { unimplemented!() }
    #[verifier::external_body] fn vx_remove(&mut self, n: usize) -> (r: char) { unimplemented!() }
}
#[verifier::external_body] pub fn vx_string_add(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body] pub fn vx_string_new() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body] pub fn vx_string_with_capacity(n: usize) -> (r: String) requires n <= isize::MAX ensures r@ == Seq::<char>::empty() { unimplemented!() }

// ---- slices, arrays, vectors ----
pub trait VxSlice<T> {
    spec fn slv(&self) -> Seq<T>;
    fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a T>) ensures r.rest().len() == self.slv().len(), forall|i: int| #![trigger r.rest()[i]] #![trigger self.slv()[i]] 0 <= i < self.slv().len() ==> *r.rest()[i] == self.slv()[i], vrest_ref(r) == self.slv();
    fn vx_len(&self) -> (r: usize) ensures r == self.slv().len(), r <= MAXLEN();
    fn vx_get<'a>(&'a self, i: usize) -> (r: Option<&'a T>) ensures r is Some <==> i < self.slv().len(), r is Some ==> *r->0 == self.slv()[i as int];
}
MACRO_SLICE!([T; N], const N: usize)
MACRO_SLICE!(Vec<T>)
MACRO_SLICE!([T])
pub trait VxContains<T> { spec fn vs_contains(&self, x: &T) -> bool; fn vx_contains(&self, x: &T) -> (r: bool) ensures r == self.vs_contains(x); }
MACRO_CONTAINS!(char, contains(*x))
MACRO_CONTAINS!(&'a str, has_str(*x))
pub open spec fn has_str(s: Seq<&str>, x: &str) -> bool { exists|j: int| 0 <= j < s.len() && (#[trigger] s[j])@ == x@ }
pub trait VxArr<T> : Sized { spec fn arv(&self) -> Seq<T>; fn vx_into_iter(self) -> (r: VxIter<T>) ensures r.rest() == self.arv(); }
impl<T, const N: usize> VxArr<T> for [T; N] { open spec fn arv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<T>) { unimplemented!() } }
impl<T> VxArr<T> for Vec<T> { open spec fn arv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<T>) { unimplemented!() } }
pub trait VxUsize : Sized { spec fn uv(&self) -> int; spec fn vs_min(self, o: usize) -> usize; spec fn vs_max(self, o: usize) -> usize; fn vx_min(self, o: usize) -> (r: usize) ensures r == self.vs_min(o); fn vx_max(self, o: usize) -> (r: usize) ensures r == self.vs_max(o); fn vx_abs_diff(self, o: usize) -> (r: usize) ensures r == (if self.uv() <= o { o - self.uv() } else { self.uv() - o }); fn vx_saturating_sub(self, o: usize) -> (r: usize) ensures r == (if self.uv() <= o { 0 } else { self.uv() - o }); }
impl VxUsize for usize { open spec fn uv(&self) -> int { *self as int } open spec fn vs_min(self, o: usize) -> usize { if self <= o { self } else { o } } open spec fn vs_max(self, o: usize) -> usize { if self >= o { self } else { o } } #[verifier::external_body] fn vx_min(self, o: usize) -> (r: usize) { unimplemented!() } #[verifier::external_body] fn vx_max(self, o: usize) -> (r: usize) { unimplemented!() } #[verifier::external_body] fn vx_abs_diff(self, o: usize) -> (r: usize) { unimplemented!() } #[verifier::external_body] fn vx_saturating_sub(self, o: usize) -> (r: usize) { unimplemented!() } }
impl<'a, T> VxArr<&'a T> for &'a Vec<T> { open spec fn arv(&self) -> Seq<&'a T> { Seq::new(self@.len(), |i: int| &self@[i]) } #[verifier::external_body] fn vx_into_iter(self) -> (r: VxIter<&'a T>) { unimplemented!() } }
pub trait VxVec<T> : Sized {
    spec fn vev(&self) -> Seq<T>;
    fn vx_push(&mut self, x: T) ensures final(self).vev() == old(self).vev().push(x);
    fn vx_iter_mut<'a>(&'a mut self) -> (r: VxIter<&'a mut T>) ensures r.rest().len() == old(self).vev().len(), forall|i: int| 0 <= i < r.rest().len() ==> *(#[trigger] r.rest()[i]) == old(self).vev()[i];
    fn vx_first<'a>(&'a self) -> (r: Option<&'a T>) ensures r is Some <==> self.vev().len() > 0, r is Some ==> *r->0 == self.vev()[0];
    fn vx_last<'a>(&'a self) -> (r: Option<&'a T>) ensures r is Some <==> self.vev().len() > 0, r is Some ==> *r->0 == self.vev().last();
}
impl<T> VxVec<T> for Vec<T> {
    open spec fn vev(&self) -> Seq<T> { self@ }
    #[verifier::external_body] fn vx_push(&mut self, x: T) { unimplemented!() }
    #[verifier::external_body] fn vx_iter_mut<'a>(&'a mut self) -> (r: VxIter<&'a mut T>) { unimplemented!() }
    #[verifier::external_body] fn vx_first<'a>(&'a self) -> (r: Option<&'a T>) { unimplemented!() }
    #[verifier::external_body] fn vx_last<'a>(&'a self) -> (r: Option<&'a T>) { unimplemented!() }
}
pub open spec fn sjoin(s: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0] } else { s[0] + sep + sjoin(s.skip(1), sep) } }
pub trait VxJoin { spec fn jv(&self) -> Seq<Seq<char>>; fn vx_join(&self, sep: &str) -> (r: String) ensures r@ == sjoin(self.jv(), sep@); }
impl VxJoin for Vec<String> { open spec fn jv(&self) -> Seq<Seq<char>> { smap(self@, |s: String| s@) } #[verifier::external_body] fn vx_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
impl<'a> VxJoin for Vec<&'a str> { open spec fn jv(&self) -> Seq<Seq<char>> { smap(self@, |s: &'a str| s@) } #[verifier::external_body] fn vx_join(&self, sep: &str) -> (r: String) { unimplemented!() } }
pub trait VxOptDefault { type T; spec fn odv(&self) -> Seq<char>; fn vx_unwrap_or_default(self) -> (r: String) ensures r@ == self.odv(); }
impl VxOptDefault for Option<String> { type T = String; open spec fn odv(&self) -> Seq<char> { match *self { Some(s) => s@, None => Seq::empty() } } #[verifier::external_body] fn vx_unwrap_or_default(self) -> (r: String) { unimplemented!() } }
#[verifier::external_body] pub fn vx_vec_new<T>() -> (r: Vec<T>) ensures r@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body] pub fn vx_vec_with_capacity<T>(n: usize) -> (r: Vec<T>) requires n <= MAXLEN() ensures r@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body] pub fn vx_vec<T, const N: usize>(a: [T; N]) -> (r: Vec<T>) ensures r@ == a@ { unimplemented!() }

// comparison of a String with a str (ASSUMED)
/// no string is longer than isize::MAX bytes (ASSUMED: Rust's allocation limit)
pub axiom fn axiom_str_len(s: &str) ensures blen(s@) <= MAXLEN(), s@.len() <= MAXLEN();
pub broadcast axiom fn axiom_eq_string_str(a: &String)
    ensures #![trigger a@] <String as vstd::std_specs::cmp::PartialEqSpec<str>>::obeys_eq_spec(), forall|b: &str| #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec<str>>::eq_spec(a, b) == (a@ == b@);
pub broadcast axiom fn axiom_eq_str_string(a: &String)
    ensures #![trigger a@] <str as vstd::std_specs::cmp::PartialEqSpec<String>>::obeys_eq_spec(), forall|b: &str| #[trigger] <str as vstd::std_specs::cmp::PartialEqSpec<String>>::eq_spec(b, a) == (a@ == b@);
pub broadcast axiom fn axiom_eq_ref_string(a: &String)
    ensures #![trigger a@] <&str as vstd::std_specs::cmp::PartialEqSpec<String>>::obeys_eq_spec(), forall|b: &&str| #[trigger] <&str as vstd::std_specs::cmp::PartialEqSpec<String>>::eq_spec(b, a) == (a@ == (*b)@);
pub broadcast group vx_eqs { axiom_eq_string_str, axiom_eq_str_string }

// ---- char ----
pub trait VxChar {
    spec fn cv(&self) -> char;
    spec fn vs_is_alphabetic(&self) -> bool;
    spec fn vs_is_alphanumeric(&self) -> bool;
    spec fn vs_is_ascii_alphabetic(&self) -> bool;
    spec fn vs_is_ascii_uppercase(&self) -> bool;
    spec fn vs_is_ascii_lowercase(&self) -> bool;
    spec fn vs_to_ascii_lowercase(&self) -> char;
    spec fn vs_to_ascii_uppercase(&self) -> char;
    spec fn vs_is_whitespace(&self) -> bool;
    fn vx_is_alphabetic(&self) -> (r: bool) ensures r == is_alpha(self.cv());
    fn vx_is_alphanumeric(&self) -> (r: bool) ensures r == is_alnum(self.cv());
    fn vx_is_ascii_alphabetic(&self) -> (r: bool) ensures r == (is_az(self.cv()) || is_AZ(self.cv()));
    fn vx_is_ascii_uppercase(&self) -> (r: bool) ensures r == is_AZ(self.cv());
    fn vx_is_ascii_lowercase(&self) -> (r: bool) ensures r == is_az(self.cv());
    fn vx_is_whitespace(&self) -> (r: bool) ensures r == is_ws(self.cv());
    fn vx_to_uppercase(&self) -> (r: VxIter<char>) ensures r.rest() == upper(self.cv());
    fn vx_to_lowercase(&self) -> (r: VxIter<char>) ensures r.rest() == lower(self.cv());
    fn vx_to_ascii_lowercase(&self) -> (r: char) ensures r == alow(self.cv());
    fn vx_to_ascii_uppercase(&self) -> (r: char) ensures r == aup(self.cv());
    fn vx_to_string(&self) -> (r: String) ensures r@ == seq![self.cv()];
}
impl VxChar for char {
    open spec fn cv(&self) -> char { *self }
    open spec fn vs_is_alphabetic(&self) -> bool { is_alpha(*self) }
    open spec fn vs_is_alphanumeric(&self) -> bool { is_alnum(*self) }
    open spec fn vs_is_ascii_alphabetic(&self) -> bool { is_az(*self) || is_AZ(*self) }
    open spec fn vs_is_ascii_uppercase(&self) -> bool { is_AZ(*self) }
    open spec fn vs_is_ascii_lowercase(&self) -> bool { is_az(*self) }
    open spec fn vs_to_ascii_lowercase(&self) -> char { alow(*self) }
    open spec fn vs_to_ascii_uppercase(&self) -> char { aup(*self) }
    open spec fn vs_is_whitespace(&self) -> bool { is_ws(*self) }
    #[verifier::external_body] fn vx_is_alphabetic(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_alphanumeric(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_ascii_alphabetic(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_ascii_uppercase(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_ascii_lowercase(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_whitespace(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_to_uppercase(&self) -> (r: VxIter<char>) { unimplemented!() }
    #[verifier::external_body] fn vx_to_lowercase(&self) -> (r: VxIter<char>) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_lowercase(&self) -> (r: char) { unimplemented!() }
    #[verifier::external_body] fn vx_to_ascii_uppercase(&self) -> (r: char) { unimplemented!() }
    #[verifier::external_body] fn vx_to_string(&self) -> (r: String) { unimplemented!() }
}

// ---- Option ----
pub trait VxOpt<T> : Sized {
    spec fn ov(&self) -> Option<T>;
    spec fn vs_is_none(&self) -> bool;
    spec fn vs_is_some(&self) -> bool;
    fn vx_is_some(&self) -> (r: bool) ensures r == (self.ov() is Some);
    fn vx_is_none(&self) -> (r: bool) ensures r == (self.ov() is None);
    fn vx_unwrap(self) -> (r: T) requires self.ov() is Some ensures r == self.ov()->0;
    fn vx_unwrap_or(self, d: T) -> (r: T) ensures r == (match self.ov() { Some(x) => x, None => d });
    fn vx_map<R, F: FnOnce(T) -> R>(self, f: F) -> (r: Option<R>) requires self.ov() is Some ==> f.requires((self.ov()->0,)) ensures r is Some <==> self.ov() is Some, self.ov() is Some ==> f.ensures((self.ov()->0,), r->0);
    fn vx_map_or<R, F: FnOnce(T) -> R>(self, d: R, f: F) -> (r: R) requires self.ov() is Some ==> f.requires((self.ov()->0,)) ensures self.ov() is None ==> r == d, self.ov() is Some ==> f.ensures((self.ov()->0,), r);
}
impl<T> VxOpt<T> for Option<T> {
    open spec fn ov(&self) -> Option<T> { *self }
    open spec fn vs_is_none(&self) -> bool { self is None }
    open spec fn vs_is_some(&self) -> bool { self is Some }
    #[verifier::external_body] fn vx_is_some(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_is_none(&self) -> (r: bool) { unimplemented!() }
    #[verifier::external_body] fn vx_unwrap(self) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn vx_unwrap_or(self, d: T) -> (r: T) { unimplemented!() }
    #[verifier::external_body] fn vx_map<R, F: FnOnce(T) -> R>(self, f: F) -> (r: Option<R>) { unimplemented!() }
    #[verifier::external_body] fn vx_map_or<R, F: FnOnce(T) -> R>(self, d: R, f: F) -> (r: R) { unimplemented!() }
}
pub trait VxResUnwrap<T, E> : Sized { spec fn resv(&self) -> Result<T, E>; fn vx_unwrap(self) -> (r: T) requires self.resv() is Ok ensures r == self.resv()->Ok_0; }
impl<T, E> VxResUnwrap<T, E> for Result<T, E> { open spec fn resv(&self) -> Result<T, E> { *self } #[verifier::external_body] fn vx_unwrap(self) -> (r: T) { unimplemented!() } }
#[verifier::external_body] pub fn vx_string_from(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
pub trait VxOptOr<T> : Sized {
    spec fn oov(&self) -> Option<T>;
    fn vx_ok_or_else<E, F: FnOnce() -> E>(self, f: F) -> (r: Result<T, E>) requires self.oov() is None ==> f.requires(()) ensures match self.oov() { Some(x) => r == Ok::<T, E>(x), None => r is Err && f.ensures((), r->Err_0) };
    fn vx_ok_or<E>(self, e: E) -> (r: Result<T, E>) ensures r == (match self.oov() { Some(x) => Ok::<T, E>(x), None => Err::<T, E>(e) });
}
impl<T> VxOptOr<T> for Option<T> {
    open spec fn oov(&self) -> Option<T> { *self }
    #[verifier::external_body] fn vx_ok_or_else<E, F: FnOnce() -> E>(self, f: F) -> (r: Result<T, E>) { unimplemented!() }
    #[verifier::external_body] fn vx_ok_or<E>(self, e: E) -> (r: Result<T, E>) { unimplemented!() }
}
pub trait VxOptRef<'a, T> : Sized {
    spec fn orv(&self) -> Option<T>;
    fn vx_copied(self) -> (r: Option<T>) ensures r == self.orv();
    fn vx_cloned(self) -> (r: Option<T>) ensures r == self.orv();
}
pub open spec fn oderef<'a, T>(o: Option<&'a T>) -> Option<T> { match o { Some(x) => Some(*x), None => None } }
impl<'a, T> VxOptRef<'a, T> for Option<&'a T> {
    open spec fn orv(&self) -> Option<T> { match *self { Some(x) => Some(*x), None => None } }
    #[verifier::external_body] fn vx_copied(self) -> (r: Option<T>) { unimplemented!() }
    #[verifier::external_body] fn vx_cloned(self) -> (r: Option<T>) { unimplemented!() }
}
// ---- ranges of bytes ----
pub trait VxRange { spec fn lo(&self, n: int) -> int; spec fn hi(&self, n: int) -> int; }
pub struct VxRangeTo { pub b: usize }
pub struct VxRangeFrom { pub a: usize }
impl VxRange for VxRangeTo { open spec fn lo(&self, n: int) -> int { 0 } open spec fn hi(&self, n: int) -> int { self.b as int } }
impl VxRange for VxRangeFrom { open spec fn lo(&self, n: int) -> int { self.a as int } open spec fn hi(&self, n: int) -> int { n } }
pub fn vx_range_to(b: usize) -> (r: VxRangeTo) ensures r.b == b { VxRangeTo { b } }
pub fn vx_range_from(a: usize) -> (r: VxRangeFrom) ensures r.a == a { VxRangeFrom { a } }
pub fn vx_range(a: usize, b: usize) -> (r: VxIter<usize>) ensures r.rest() == srange(a as int, b as int) { vx_range_ext(a, b) }
#[verifier::external_body] pub fn vx_range_ext(a: usize, b: usize) -> (r: VxIter<usize>) ensures r.rest() == srange(a as int, b as int) { unimplemented!() }
pub open spec fn srange(a: int, b: int) -> Seq<usize> { Seq::new(if a <= b { (b - a) as nat } else { 0 }, |i: int| (a + i) as usize) }
/// the text of a file of the repository, when it is built (include_str)
pub uninterp spec fn vx_included(p: Seq<char>) -> Seq<char>;
pub trait VxDefault : Sized { spec fn default_spec(r: Self) -> bool; fn default() -> (r: Self) ensures Self::default_spec(r); }
pub trait VxFrom<T> : Sized { spec fn from_spec(t: T, r: Self) -> bool; fn from(t: T) -> (r: Self) ensures Self::from_spec(t, r); }
pub trait VxIndex<I> { type Output: ?Sized; spec fn index_req(&self, i: I) -> bool; spec fn index_spec(&self, i: I, r: &Self::Output) -> bool; fn index(&self, i: I) -> (r: &Self::Output) requires self.index_req(i) ensures self.index_spec(i, r); }
pub trait VxInto<R> : Sized { spec fn into_spec(t: Self, r: R) -> bool; fn vx_into(self) -> (r: R) ensures Self::into_spec(self, r); }
impl<T, R: VxFrom<T>> VxInto<R> for T { open spec fn into_spec(t: T, r: R) -> bool { R::from_spec(t, r) } fn vx_into(self) -> (r: R) { <R as VxFrom<T>>::from(self) } }
pub trait VxFromStr : Sized { type Err; spec fn from_str_spec(s: Seq<char>, r: Result<Self, Self::Err>) -> bool; fn from_str(s: &str) -> (r: Result<Self, Self::Err>) ensures Self::from_str_spec(s@, r); }
pub trait VxTryFrom<T> : Sized { type Error; spec fn try_from_spec(t: T, r: Result<Self, Self::Error>) -> bool; fn try_from(t: T) -> (r: Result<Self, Self::Error>) ensures Self::try_from_spec(t, r); }
pub trait VxParse { fn vx_parse<F: VxFromStr>(&self) -> (r: Result<F, F::Err>) ensures F::from_str_spec(self.vxp(), r); spec fn vxp(&self) -> Seq<char>; }
impl VxParse for str { open spec fn vxp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_parse<F: VxFromStr>(&self) -> (r: Result<F, F::Err>) { unimplemented!() } }
impl VxParse for String { open spec fn vxp(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vx_parse<F: VxFromStr>(&self) -> (r: Result<F, F::Err>) { unimplemented!() } }
pub trait VxTryInto<T> : Sized { spec fn tiv(&self) -> Seq<T>; fn vx_try_into<const N: usize>(self) -> (r: Result<[T; N], Self>) ensures r is Ok <==> self.tiv().len() == N, r is Ok ==> r->Ok_0@ == self.tiv(), r is Err ==> r->Err_0 == self; }
impl<T> VxTryInto<T> for Vec<T> { open spec fn tiv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_try_into<const N: usize>(self) -> (r: Result<[T; N], Vec<T>>) { unimplemented!() } }
pub trait VxClone : Sized { fn vx_clone(&self) -> (r: Self) ensures r == *self; }
pub trait VxCloneMut<T> : Sized { spec fn cmv(&self) -> T; fn vx_clone(self) -> (r: T) ensures r == self.cmv(); }
impl<'a, T> VxCloneMut<T> for &'a mut T { open spec fn cmv(&self) -> T { **self } #[verifier::external_body] fn vx_clone(self) -> (r: T) ensures *final(self) == *old(self) { unimplemented!() } }
impl<T> VxClone for T { #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() } }

}
pub use vx_core::*;
