@use spec/char_sequence.rs proof/char_sequence.rs
@file src/helper.rs
@text
// the range types of std::ops, as far as they are used
pub struct Range<T> { pub start: T, pub end: T }
pub struct RangeFrom<T> { pub start: T }
pub struct RangeTo<T> { pub end: T }
pub struct RangeToInclusive<T> { pub end: T }
pub struct RangeFull;
pub struct RangeInclusive<T> { pub vx_a: T, pub vx_b: T }
impl<T> RangeInclusive<T> {
    pub fn start(&self) -> (r: &T) ensures *r == self.vx_a { &self.vx_a }
    pub fn end(&self) -> (r: &T) ensures *r == self.vx_b { &self.vx_b }
}
impl<'a> CharSequence<'a> {
    /// what every constructor establishes
    pub open spec fn ok(&self) -> bool { self.len_in_char == self.inner@.len() && self.inner@.len() <= MAXLEN() }
    // `&self[a..b]` and the other slices, which the extraction writes as calls, are the `index` functions of the source
    pub fn vx_slice(&self, a: usize, b: usize) -> (r: &str) requires self.ok() ensures r@ == cslice(self.inner@, a as int, b as int)
    { <Self as VxIndex<Range<usize>>>::index(self, Range { start: a, end: b }) }
    pub fn vx_slice_incl(&self, a: usize, b: usize) -> (r: &str) requires self.ok(), b < usize::MAX ensures r@ == cslice(self.inner@, a as int, b + 1)
    { <Self as VxIndex<RangeInclusive<usize>>>::index(self, RangeInclusive { vx_a: a, vx_b: b }) }
    pub fn vx_slice_from(&self, a: usize) -> (r: &str) requires self.ok() ensures r@ == cslice(self.inner@, a as int, self.inner@.len() as int)
    { <Self as VxIndex<RangeFrom<usize>>>::index(self, RangeFrom { start: a }) }
    pub fn vx_slice_to(&self, b: usize) -> (r: &str) requires self.ok() ensures r@ == cslice(self.inner@, 0, b as int)
    { <Self as VxIndex<RangeTo<usize>>>::index(self, RangeTo { end: b }) }
    pub fn vx_slice_to_incl(&self, b: usize) -> (r: &str) requires self.ok(), b < usize::MAX ensures r@ == cslice(self.inner@, 0, b + 1)
    { <Self as VxIndex<RangeToInclusive<usize>>>::index(self, RangeToInclusive { end: b }) }
    pub fn vx_slice_full(&self) -> (r: &str) requires self.ok() ensures r@ == self.inner@
    { <Self as VxIndex<RangeFull>>::index(self, RangeFull) }
}
@trait CharSequence:Index<Range<usize>>
    open spec fn index_req(&self, i: Range<usize>) -> bool { self.ok() }
    open spec fn index_spec(&self, i: Range<usize>, r: &str) -> bool { r@ == cslice(self.inner@, i.start as int, i.end as int) }
@trait CharSequence:Index<RangeFrom<usize>>
    open spec fn index_req(&self, i: RangeFrom<usize>) -> bool { self.ok() }
    open spec fn index_spec(&self, i: RangeFrom<usize>, r: &str) -> bool { r@ == cslice(self.inner@, i.start as int, self.inner@.len() as int) }
@trait CharSequence:Index<RangeFull>
    open spec fn index_req(&self, i: RangeFull) -> bool { self.ok() }
    open spec fn index_spec(&self, i: RangeFull, r: &str) -> bool { r@ == self.inner@ }
@trait CharSequence:Index<RangeInclusive<usize>>
    open spec fn index_req(&self, i: RangeInclusive<usize>) -> bool { self.ok() && i.vx_b < usize::MAX }
    open spec fn index_spec(&self, i: RangeInclusive<usize>, r: &str) -> bool { r@ == cslice(self.inner@, i.vx_a as int, i.vx_b + 1) }
@trait CharSequence:Index<RangeTo<usize>>
    open spec fn index_req(&self, i: RangeTo<usize>) -> bool { self.ok() }
    open spec fn index_spec(&self, i: RangeTo<usize>, r: &str) -> bool { r@ == cslice(self.inner@, 0, i.end as int) }
@trait CharSequence:Index<RangeToInclusive<usize>>
    open spec fn index_req(&self, i: RangeToInclusive<usize>) -> bool { self.ok() && i.end < usize::MAX }
    open spec fn index_spec(&self, i: RangeToInclusive<usize>, r: &str) -> bool { r@ == cslice(self.inner@, 0, i.end + 1) }
@trait CharSequence:From<&'astr>
    open spec fn from_spec(t: &'a str, r: Self) -> bool { r.ok() && r.inner@ == t@ }
@trait str:From<CharSequence<'a>>
    open spec fn from_spec(t: CharSequence<'a>, r: Self) -> bool { r@ == t.inner@ }
@fn CharSequence::Index<Range<usize>>::index
@start
    proof { if index.start < index.end { lemma_cslice(self.inner@, index.start as int, index.end as int); } }
@fn CharSequence::Index<RangeFrom<usize>>::index
@fn CharSequence::Index<RangeFull>::index
@start
    proof { assert(cslice(self.inner@, 0, self.inner@.len() as int) =~= self.inner@); }
@fn CharSequence::Index<RangeInclusive<usize>>::index
@fn CharSequence::Index<RangeTo<usize>>::index
@fn CharSequence::Index<RangeToInclusive<usize>>::index
@fn CharSequence::From<&'astr>::from
@fn str::From<CharSequence<'a>>::from
@fn CharSequence::len
    requires self.ok()
    ensures r == self.inner@.len()
@fn CharSequence::is_empty
    requires self.ok()
    ensures r == (self.inner@.len() == 0)
@fn CharSequence::as_str
    ensures r@ == self.inner@
