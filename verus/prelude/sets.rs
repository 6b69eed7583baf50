pub mod vx_sets {
use super::*;
// ---- BTreeSet, by its elements (ASSUMED contracts) ----
/// lexicographic order of strings (UTF-8 keeps the order of the characters)
pub open spec fn slt(a: Seq<char>, b: Seq<char>) -> bool
    decreases a.len()
{ if b.len() == 0 { false } else if a.len() == 0 { true } else if a[0] == b[0] { slt(a.skip(1), b.skip(1)) } else { (a[0] as u32) < (b[0] as u32) } }
/// what the order of a type (its Ord) tells apart
pub trait VxKey : Sized {
    type K;
    spec fn kv(&self) -> Self::K;
    /// what is known of a set collected from an iterator, beside its keys
    spec fn set_extra(s: Seq<Self>, r: BTreeSet<Self>) -> bool;
}
impl VxKey for char { type K = char; open spec fn kv(&self) -> char { *self } open spec fn set_extra(s: Seq<char>, r: BTreeSet<char>) -> bool { true } }
impl VxKey for usize { type K = usize; open spec fn kv(&self) -> usize { *self } open spec fn set_extra(s: Seq<usize>, r: BTreeSet<usize>) -> bool { true } }
impl VxKey for String { type K = Seq<char>; open spec fn kv(&self) -> Seq<char> { self@ } open spec fn set_extra(s: Seq<String>, r: BTreeSet<String>) -> bool { true } }
impl<'a> VxKey for &'a str { type K = Seq<char>; open spec fn kv(&self) -> Seq<char> { (*self)@ } open spec fn set_extra(s: Seq<&'a str>, r: BTreeSet<&'a str>) -> bool { true } }
impl<'a> VxKey for &'a String { type K = Seq<char>; open spec fn kv(&self) -> Seq<char> { (*self)@ } open spec fn set_extra(s: Seq<&'a String>, r: BTreeSet<&'a String>) -> bool { true } }
impl<A: VxKey, B: VxKey, C: VxKey> VxKey for (A, B, C) { type K = (A::K, B::K, C::K); open spec fn kv(&self) -> (A::K, B::K, C::K) { (self.0.kv(), self.1.kv(), self.2.kv()) } open spec fn set_extra(s: Seq<(A, B, C)>, r: BTreeSet<(A, B, C)>) -> bool { true } }
/// a key, or what the key borrows as
pub trait VxBorrowed<KK> { spec fn bkv(&self) -> KK; }
impl<T: VxKey> VxBorrowed<T::K> for T { open spec fn bkv(&self) -> T::K { self.kv() } }
impl VxBorrowed<Seq<char>> for str { open spec fn bkv(&self) -> Seq<char> { self@ } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct BTreeSet<T> { v: Vec<T> }
impl<T: VxKey> BTreeSet<T> {
    pub uninterp spec fn view(&self) -> Set<T::K>;
    #[verifier::external_body]
    pub fn vx_len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_is_empty(&self) -> (r: bool) ensures r == (forall|v: T::K| !#[trigger] self@.contains(v)) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_intersection<'a>(&'a self, o: &'a BTreeSet<T>) -> (r: VxIter<&'a T>) ensures bts(r) == self@.intersect(o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_union<'a>(&'a self, o: &'a BTreeSet<T>) -> (r: VxIter<&'a T>) ensures bts(r) == self@.union(o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_difference<'a>(&'a self, o: &'a BTreeSet<T>) -> (r: VxIter<&'a T>) ensures bts(r) == self@.difference(o@) { unimplemented!() }
}
impl<'s> BTreeSet<&'s str> {
    #[verifier::external_body]
    pub fn vx_into_iter<'a>(&'a self) -> (r: VxIter<&'a &'s str>)
        ensures bts(r) == self@, forall|i: int, j: int| #![trigger r.rest()[i], r.rest()[j]] 0 <= i < j < r.rest().len() ==> slt(r.rest()[i]@, r.rest()[j]@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_contains(&self, x: &str) -> (r: bool) ensures r == self@.contains(x@) { unimplemented!() }
}
impl BTreeSet<String> {
    #[verifier::external_body]
    pub fn vx_iter<'a>(&'a self) -> (r: VxIter<&'a String>)
        ensures bts(r) == self@, forall|i: int, j: int| #![trigger r.rest()[i], r.rest()[j]] 0 <= i < j < r.rest().len() ==> slt(r.rest()[i]@, r.rest()[j]@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_iter<'a>(&'a self) -> (r: VxIter<&'a String>)
        ensures bts(r) == self@, forall|i: int, j: int| #![trigger r.rest()[i], r.rest()[j]] 0 <= i < j < r.rest().len() ==> slt(r.rest()[i]@, r.rest()[j]@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_contains(&self, x: &str) -> (r: bool) ensures r == self@.contains(x@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_insert(&mut self, x: String) -> (r: bool) ensures final(self)@ == old(self)@.insert(x@), r == !old(self)@.contains(x@) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct BTreeMap<K, V> { k: Vec<K>, v: Vec<V> }
impl<K: VxKey, V> BTreeMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K::K, V>;
    #[verifier::external_body]
    pub fn vx_get<'a, Q: VxBorrowed<K::K> + ?Sized>(&'a self, k: &Q) -> (r: Option<&'a V>) ensures r is Some <==> self@.contains_key(k.bkv()), r is Some ==> *r->0 == self@[k.bkv()] { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_contains_key<Q: VxBorrowed<K::K> + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.contains_key(k.bkv()) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k.kv(), v) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_extend(&mut self, m: BTreeMap<K, V>) ensures final(self)@ == old(self)@.union_prefer_right(m@) { unimplemented!() }
}
impl<K: VxKey, V> BTreeMap<K, V> {
    /// `entry(k).or_default()`
    #[verifier::external_body]
    pub fn vx_entry_or_default(&mut self, k: K) -> (r: &mut V) where V: VxEmpty
        ensures old(self)@.contains_key(k.kv()) ==> *r == old(self)@[k.kv()], !old(self)@.contains_key(k.kv()) ==> (*r).is_vx_empty(), final(self)@ == old(self)@.insert(k.kv(), *final(r))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_values_mut<'a>(&'a mut self) -> (r: VxIter<&'a mut V>)
        ensures exists|ks: Seq<K::K>| #[trigger] vx_vals(ks, old(self)@, final(self)@, r.rest())
    { unimplemented!() }
}
/// `vs` are references to the values of the keys `ks` of a map, which is `b` at the end of the borrow
#[verifier::prophetic] pub open spec fn vx_vals<'a, K, V>(ks: Seq<K>, a: Map<K, V>, b: Map<K, V>, vs: Seq<&'a mut V>) -> bool {
    &&& ks.len() == vs.len() && b.dom() == a.dom() && ks.no_duplicates() && (forall|k: K| #[trigger] ks.contains(k) <==> a.contains_key(k))
    &&& forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] vs[i]) == a[ks[i]] && b[ks[i]] == *final(vs[i])
}
impl<T: VxKey> VxDefault for BTreeSet<T> { open spec fn default_spec(r: Self) -> bool { r@ == Set::<T::K>::empty() } #[verifier::external_body] fn default() -> (r: Self) { unimplemented!() } }
impl<T> VxDefault for Vec<T> { open spec fn default_spec(r: Self) -> bool { r@ == Seq::<T>::empty() } fn default() -> (r: Self) { Vec::new() } }
pub trait VxEmpty { spec fn is_vx_empty(&self) -> bool; }
impl<T> VxEmpty for Vec<T> { open spec fn is_vx_empty(&self) -> bool { self@.len() == 0 } }
#[verifier::external_body] pub fn vx_btreemap_new<K: VxKey, V>() -> (r: BTreeMap<K, V>) ensures r@ == Map::<K::K, V>::empty() { unimplemented!() }
pub open spec fn map_of<K: VxKey, V>(s: Seq<(K, V)>, n: int) -> Map<K::K, V>
    decreases n
{ if n <= 0 { Map::empty() } else { map_of(s, n - 1).insert(s[n - 1].0.kv(), s[n - 1].1) } }
pub proof fn lemma_map_of<K: VxKey, V>(s: Seq<(K, V)>, n: int)
    requires 0 <= n <= s.len()
    ensures
        forall|i: int| 0 <= i < n ==> map_of(s, n).contains_key((#[trigger] s[i]).0.kv()),
        forall|k: K::K| #[trigger] map_of(s, n).contains_key(k) ==> exists|i: int| 0 <= i < n && (#[trigger] s[i]).0.kv() == k && map_of(s, n)[k] == s[i].1
    decreases n
{
    if n > 0 {
        lemma_map_of(s, n - 1);
        assert forall|k: K::K| #[trigger] map_of(s, n).contains_key(k) implies exists|i: int| 0 <= i < n && (#[trigger] s[i]).0.kv() == k && map_of(s, n)[k] == s[i].1 by {
            if k == s[n - 1].0.kv() { assert(map_of(s, n)[k] == s[n - 1].1); } else { assert(map_of(s, n - 1).contains_key(k)); }
        }
    }
}
#[verifier::external_body] pub fn vx_btreemap_from<K: VxKey, V, const N: usize>(a: [(K, V); N]) -> (r: BTreeMap<K, V>) ensures r@ == map_of(a@, N as int) { unimplemented!() }
/// the elements an iterator still gives
pub open spec fn bts<'a, T: VxKey>(it: VxIter<&'a T>) -> Set<T::K> { smap(it.rest(), |t: &'a T| (*t).kv()).to_set() }
pub open spec fn btv<T: VxKey>(it: VxIter<T>) -> Set<T::K> { smap(it.rest(), |t: T| t.kv()).to_set() }
pub broadcast proof fn lemma_bts<'a, T: VxKey>(it: VxIter<&'a T>, v: T::K)
    ensures #[trigger] bts(it).contains(v) == exists|i: int| 0 <= i < it.rest().len() && (*#[trigger] it.rest()[i]).kv() == v
{
    let m = smap(it.rest(), |t: &'a T| (*t).kv());
    if bts(it).contains(v) { assert(m.contains(v)); let i = choose|i: int| 0 <= i < m.len() && m[i] == v; assert((*it.rest()[i]).kv() == v); }
    if exists|i: int| 0 <= i < it.rest().len() && (*#[trigger] it.rest()[i]).kv() == v { let i = choose|i: int| 0 <= i < it.rest().len() && (*#[trigger] it.rest()[i]).kv() == v; assert(m[i] == v); assert(m.to_set().contains(v)); }
}
pub broadcast proof fn lemma_btv<T: VxKey>(it: VxIter<T>, v: T::K)
    ensures #[trigger] btv(it).contains(v) == exists|i: int| 0 <= i < it.rest().len() && (#[trigger] it.rest()[i]).kv() == v
{
    let m = smap(it.rest(), |t: T| t.kv());
    if btv(it).contains(v) { assert(m.contains(v)); let i = choose|i: int| 0 <= i < m.len() && m[i] == v; assert(it.rest()[i].kv() == v); }
    if exists|i: int| 0 <= i < it.rest().len() && (#[trigger] it.rest()[i]).kv() == v { let i = choose|i: int| 0 <= i < it.rest().len() && (#[trigger] it.rest()[i]).kv() == v; assert(m[i] == v); assert(m.to_set().contains(v)); }
}
/// the strings an iterator gives, as a set
pub broadcast proof fn lemma_btv_strings(it: VxIter<String>)
    ensures #[trigger] btv(it) == vrest(it).to_set()
{ assert(smap(it.rest(), |t: String| t.kv()) =~= vrest(it)); }
pub broadcast group vx_sets_group { lemma_bts, lemma_btv }
pub broadcast group vx_sets_strings { lemma_btv_strings }
impl<'a, T: VxKey> VxIter<&'a T> {
    #[verifier::external_body]
    pub fn vx_cloned(self) -> (r: VxIter<T>)
        ensures r.rest().len() == self.rest().len(), forall|i: int| #![trigger r.rest()[i]] #![trigger self.rest()[i]] 0 <= i < self.rest().len() ==> r.rest()[i] == *self.rest()[i], btv(r) == bts(self)
    { unimplemented!() }
}
impl<T: VxKey> VxCollect<T> for BTreeSet<T> { open spec fn collected(it: VxIter<T>, r: BTreeSet<T>) -> bool { r@ == btv(it) && T::set_extra(it.rest(), r) } }
#[verifier::external_body] pub fn vx_btreeset_from_iter<T: VxKey>(it: VxIter<T>) -> (r: BTreeSet<T>) ensures r@ == btv(it), T::set_extra(it.rest(), r) { unimplemented!() }
pub open spec fn keys_of<T: VxKey>(s: Seq<T>, n: int) -> Set<T::K>
    decreases n
{ if n <= 0 { Set::empty() } else { keys_of(s, n - 1).insert(s[n - 1].kv()) } }
#[verifier::external_body] pub fn vx_btreeset_from<T: VxKey, const N: usize>(a: [T; N]) -> (r: BTreeSet<T>) ensures r@ == keys_of(a@, N as int), T::set_extra(a@, r) { unimplemented!() }
#[verifier::external_body] pub fn vx_btreeset_new<T: VxKey>() -> (r: BTreeSet<T>) ensures r@ == Set::<T::K>::empty() { unimplemented!() }
// ---- comparing ----
pub use core::cmp::Ordering;
pub open spec fn ord_of(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
pub trait VxCmp { fn vx_cmp(&self, o: &Self) -> (r: Ordering) ensures r == ord_of(self.ci(), o.ci()); spec fn ci(&self) -> int; }
impl VxCmp for char { open spec fn ci(&self) -> int { *self as u32 as int } #[verifier::external_body] fn vx_cmp(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
impl VxCmp for usize { open spec fn ci(&self) -> int { *self as int } #[verifier::external_body] fn vx_cmp(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
pub trait VxOrdering { fn vx_reverse(self) -> (r: Ordering) ensures r == ord_rev(self.orv()); spec fn orv(&self) -> Ordering; }
pub open spec fn ord_rev(o: Ordering) -> Ordering { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
impl VxOrdering for Ordering { open spec fn orv(&self) -> Ordering { *self } #[verifier::external_body] fn vx_reverse(self) -> (r: Ordering) { unimplemented!() } }
pub trait VxSort<T> : Sized {
    spec fn sov(&self) -> Seq<T>;
    fn vx_sort_by<F: FnMut(&T, &T) -> Ordering>(&mut self, f: F)
        requires forall|a: &T, b: &T| f.requires((a, b))
        ensures forall|key: spec_fn(T) -> int| #[trigger] vx_hint(key) && (forall|a: &T, b: &T, o: Ordering| f.ensures((a, b), o) ==> o == ord_of(key(*a), key(*b))) ==> final(self).sov() == sstable(old(self).sov(), key);
}
impl<T> VxSort<T> for Vec<T> { open spec fn sov(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_sort_by<F: FnMut(&T, &T) -> Ordering>(&mut self, f: F) { unimplemented!() } }
pub trait VxOrd : Sized { spec fn cmp_spec(&self, o: &Self, r: Ordering) -> bool; fn cmp(&self, other: &Self) -> (r: Ordering) ensures self.cmp_spec(other, r); }
}
pub use vx_sets::*;
