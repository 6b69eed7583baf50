//! Executable reading of the vocabulary in which /verif/verus/spec/*.rs is written: the same text
//! that Verus reads as `spec fn`s is compiled here as ordinary functions over a Copy sequence type.
//! Sequences live in a thread-local arena that the driver clears between evaluations.
#![allow(dead_code, non_camel_case_types, non_snake_case)]
use std::cell::RefCell;
use std::ops::{Add, Index};
pub type int = i64;
pub type nat = i64;

thread_local! { static ARENA: RefCell<Vec<Box<dyn std::any::Any>>> = const { RefCell::new(Vec::new()) }; }
/// Must only be called when no Seq value is alive.
pub fn clear_arena() { ARENA.with(|a| a.borrow_mut().clear()) }
type Arena = Vec<Box<dyn std::any::Any>>;
thread_local! { static OWN: RefCell<Option<Arena>> = const { RefCell::new(None) }; }
/// What `f` builds outlives the arena: it lives as long as the Kept.
pub fn forever<T>(f: impl FnOnce() -> T) -> Kept<T> {
    struct Reset(Option<Arena>);
    impl Drop for Reset { fn drop(&mut self) { OWN.with(|o| *o.borrow_mut() = self.0.take()) } }
    let mut before = Reset(OWN.with(|o| o.borrow_mut().replace(vec![])));
    let value = f();
    let _own = OWN.with(|o| std::mem::replace(&mut *o.borrow_mut(), before.0.take())).unwrap();
    std::mem::forget(before);
    Kept { value, _own }
}
pub struct Kept<T> { value: T, _own: Arena }
// SAFETY: the boxes hold plain values that nothing changes any more.
unsafe impl<T: Send> Send for Kept<T> {}
unsafe impl<T: Sync> Sync for Kept<T> {}
impl<T> std::ops::Deref for Kept<T> { type Target = T; fn deref(&self) -> &T { &self.value } }
pub fn keep<T: Copy + 'static>(v: Vec<T>) -> &'static [T] {
    let b: Box<[T]> = v.into_boxed_slice();
    let p: *const [T] = &*b;
    OWN.with(|o| match &mut *o.borrow_mut() { Some(a) => a.push(Box::new(b)), None => ARENA.with(|a| a.borrow_mut().push(Box::new(b))) });
    // SAFETY: the box is kept in the arena until clear_arena, and moving the Box does not move its contents.
    unsafe { &*p }
}
#[derive(Clone, Copy, Debug)]
pub struct Seq<T: 'static>(pub &'static [T]);
impl<T: PartialEq + 'static> PartialEq for Seq<T> { fn eq(&self, o: &Self) -> bool { self.0 == o.0 } }
impl<T: Eq + 'static> Eq for Seq<T> {}
impl<T: Copy + 'static> Seq<T> {
    pub fn empty() -> Self { Seq(&[]) }
    pub fn of(v: Vec<T>) -> Self { if v.is_empty() { Seq(&[]) } else { Seq(keep(v)) } }
    pub fn new(n: int, f: impl Fn(int) -> T) -> Self { Seq::of((0..n).map(f).collect()) }
    pub fn len(self) -> int { self.0.len() as int }
    pub fn skip(self, n: int) -> Self { Seq(&self.0[n as usize..]) }
    pub fn take(self, n: int) -> Self { Seq(&self.0[..n as usize]) }
    pub fn subrange(self, a: int, b: int) -> Self { Seq(&self.0[a as usize..b as usize]) }
    pub fn push(self, x: T) -> Self { let mut v = self.0.to_vec(); v.push(x); Seq::of(v) }
    pub fn last(self) -> T { self.0[self.0.len() - 1] }
    pub fn first(self) -> T { self.0[0] }
    pub fn drop_last(self) -> Self { Seq(&self.0[..self.0.len() - 1]) }
    pub fn update(self, i: int, x: T) -> Self { let mut v = self.0.to_vec(); v[i as usize] = x; Seq::of(v) }
    pub fn remove(self, i: int) -> Self { let mut v = self.0.to_vec(); v.remove(i as usize); Seq::of(v) }
}
impl<T: Copy + PartialEq + 'static> Seq<T> { pub fn contains(self, x: T) -> bool { self.0.contains(&x) } }
impl<T: Copy + 'static> Add for Seq<T> { type Output = Seq<T>; fn add(self, o: Self) -> Self { if o.0.is_empty() { return self } if self.0.is_empty() { return o } let mut v = self.0.to_vec(); v.extend_from_slice(o.0); Seq::of(v) } }
impl<T: 'static> Index<int> for Seq<T> { type Output = T; fn index(&self, i: int) -> &T { &self.0[i as usize] } }
#[macro_export] macro_rules! S { ($s:expr) => { $crate::rt::str_seq($s) } }
pub fn str_seq(s: &str) -> Seq<char> { Seq::of(s.chars().collect()) }
pub fn seq_str(s: Seq<char>) -> String { s.0.iter().collect() }

pub fn sfilter<T: Copy + 'static>(s: Seq<T>, p: impl Fn(T) -> bool) -> Seq<T> { Seq::of(s.0.iter().copied().filter(|x| p(*x)).collect()) }
pub fn smap<T: Copy + 'static, U: Copy + 'static>(s: Seq<T>, f: impl Fn(T) -> U) -> Seq<U> { Seq::of(s.0.iter().map(|x| f(*x)).collect()) }
pub fn sflatten(s: Seq<Seq<char>>) -> Seq<char> { Seq::of(s.0.iter().flat_map(|x| x.0.iter().copied()).collect()) }
pub fn senum<T: Copy + 'static>(k: int, s: Seq<T>) -> Seq<(usize, T)> { Seq::of(s.0.iter().enumerate().map(|(i, c)| (i + k as usize, *c)).collect()) }
pub fn first_opt<T: Copy + 'static>(s: Seq<T>) -> Option<T> { s.0.first().copied() }
pub fn opt<T>(b: bool, t: T) -> Option<T> { if b { Some(t) } else { None } }
pub fn is_alpha(c: char) -> bool { c.is_alphabetic() }
pub fn is_ws(c: char) -> bool { c.is_whitespace() }
pub fn upper(c: char) -> Seq<char> { Seq::of(c.to_uppercase().collect()) }
pub fn lower(c: char) -> Seq<char> { Seq::of(c.to_lowercase().collect()) }
pub fn supper(s: Seq<char>) -> Seq<char> { str_seq(&seq_str(s).to_uppercase()) }
pub fn slower(s: Seq<char>) -> Seq<char> { str_seq(&seq_str(s).to_lowercase()) }
pub fn is_az(c: char) -> bool { ('a'..='z').contains(&c) }
pub fn is_AZ(c: char) -> bool { ('A'..='Z').contains(&c) }
pub fn is_09(c: char) -> bool { ('0'..='9').contains(&c) }
pub fn alow(c: char) -> char { if is_AZ(c) { (c as u8 + 32) as char } else { c } }
pub fn aup(c: char) -> char { if is_az(c) { (c as u8 - 32) as char } else { c } }
pub fn sstarts(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.take(p.len()) == p }
pub fn sends(s: Seq<char>, p: Seq<char>) -> bool { s.len() >= p.len() && s.skip(s.len() - p.len()) == p }
pub fn sreplace(s: Seq<char>, p: Seq<char>, r: Seq<char>) -> Seq<char> {
    let mut out = vec![]; let mut i = 0; let (s, p) = (s.0, p.0);
    while i < s.len() { if !p.is_empty() && s[i..].starts_with(p) { out.extend_from_slice(r.0); i += p.len() } else { out.push(s[i]); i += 1 } }
    Seq::of(out)
}
pub fn sreplace1(s: Seq<char>, p: Seq<char>, r: Seq<char>) -> Seq<char> {
    let mut out = vec![]; let (s, p) = (s.0, p.0);
    for i in 0..s.len() { if !p.is_empty() && s[i..].starts_with(p) { out.extend_from_slice(r.0); out.extend_from_slice(&s[i + p.len()..]); return Seq::of(out) } out.push(s[i]) }
    Seq::of(out)
}
pub fn scontains(s: Seq<char>, p: Seq<char>) -> bool { p.0.is_empty() || s.0.windows(p.0.len()).any(|w| w == p.0) }
pub fn strim(s: Seq<char>) -> Seq<char> { let mut s = s; while s.len() > 0 && is_ws(s[0]) { s = s.skip(1) } while s.len() > 0 && is_ws(s.last()) { s = s.drop_last() } s }
#[macro_export] macro_rules! sq { ($($x:expr),* $(,)?) => { $crate::rt::Seq::of(vec![$($x),*]) } }
pub use crate::sq;

#[derive(Clone, Copy, Debug)]
pub struct Map<K: 'static, V: 'static>(pub &'static [(K, V)]);
pub type IMap<K, V> = Map<K, V>;
impl<K: Copy + Ord + 'static, V: Copy + 'static> Map<K, V> {
    pub fn empty() -> Self { Map(&[]) }
    pub fn contains_key(self, k: K) -> bool { self.0.binary_search_by(|e| e.0.cmp(&k)).is_ok() }
    pub fn insert(self, k: K, v: V) -> Self { let mut a = self.0.to_vec(); match a.binary_search_by(|e| e.0.cmp(&k)) { Ok(i) => a[i].1 = v, Err(i) => a.insert(i, (k, v)) } Map(keep(a)) }
    pub fn map_values<W: Copy + 'static>(self, f: impl Fn(V) -> W) -> Map<K, W> { Map(keep(self.0.iter().map(|e| (e.0, f(e.1))).collect())) }
}
impl<K: Copy + Ord + 'static, V: Copy + 'static> Index<K> for Map<K, V> { type Output = V; fn index(&self, k: K) -> &V { &self.0[self.0.binary_search_by(|e| e.0.cmp(&k)).unwrap()].1 } }
pub fn ssplit(s: Seq<char>, c: char) -> Seq<Seq<char>> { Seq::of(s.0.split(|x| *x == c).map(|p| Seq(p)).collect()) }
pub fn sstable<T: Copy + 'static>(s: Seq<T>, key: impl Fn(T) -> int) -> Seq<T> { let mut v = s.0.to_vec(); v.sort_by_key(|x| key(*x)); Seq::of(v) }
pub fn clen(c: char) -> int { c.len_utf8() as int }
pub fn blen(s: Seq<char>) -> int { s.0.iter().map(|c| clen(*c)).sum() }
pub fn sjoin(s: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> { let mut v = vec![]; for (i, x) in s.0.iter().enumerate() { if i > 0 { v.extend_from_slice(sep.0) } v.extend_from_slice(x.0) } Seq::of(v) }
pub fn sspan<T: Copy + 'static>(s: Seq<T>, p: impl Fn(T) -> bool) -> int { s.0.iter().take_while(|x| p(**x)).count() as int }
pub fn sfind(s: Seq<char>, t: Seq<char>) -> Option<int> { (0..=s.0.len()).find(|i| s.0[*i..].starts_with(t.0)).map(|i| i as int) }
pub fn swords(s: Seq<char>) -> Seq<Seq<char>> { Seq::of(s.0.split(|c| c.is_whitespace()).filter(|w| !w.is_empty()).map(Seq).collect()) }
// ---- Beider-Morse ----
impl<T: Ord + 'static> PartialOrd for Seq<T> { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
impl<T: Ord + 'static> Ord for Seq<T> { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.0.cmp(o.0) } }
pub fn slt(a: Seq<char>, b: Seq<char>) -> bool { a < b }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Set<T: 'static>(pub &'static [T]);
impl<T: Copy + Ord + 'static> Set<T> {
    pub fn of(mut v: Vec<T>) -> Self { v.sort(); v.dedup(); Set(keep(v)) }
    pub fn empty() -> Self { Set(&[]) }
    pub fn len(self) -> int { self.0.len() as int }
    pub fn contains(self, x: T) -> bool { self.0.binary_search(&x).is_ok() }
    pub fn insert(self, x: T) -> Self { let mut v = self.0.to_vec(); v.push(x); Set::of(v) }
    pub fn intersect(self, o: Self) -> Self { Set::of(self.0.iter().copied().filter(|x| o.contains(*x)).collect()) }
    pub fn difference(self, o: Self) -> Self { Set::of(self.0.iter().copied().filter(|x| !o.contains(*x)).collect()) }
    pub fn union(self, o: Self) -> Self { Set::of(self.0.iter().chain(o.0).copied().collect()) }
    pub fn choose(self) -> T { self.0[0] }
}
impl<T: Copy + Ord + 'static> Seq<T> { pub fn to_set(self) -> Set<T> { Set::of(self.0.to_vec()) } }
impl<K: Copy + Ord + 'static, V: Copy + 'static> Map<K, V> {
    pub fn len(self) -> int { self.0.len() as int }
    pub fn union_prefer_right(self, o: Self) -> Self { let mut m = self; for e in o.0 { m = m.insert(e.0, e.1) } m }
}
pub fn is_alnum(c: char) -> bool { c.is_alphanumeric() }
thread_local! { static RX: RefCell<std::collections::HashMap<String, Option<regex::Regex>>> = Default::default(); }
fn rx<R>(p: Seq<char>, f: impl FnOnce(Option<&regex::Regex>) -> R) -> R {
    let k = seq_str(p);
    RX.with(|c| { let mut c = c.borrow_mut(); if c.len() > 20000 { c.clear() } f(c.entry(k.clone()).or_insert_with(|| regex::Regex::new(&k).ok()).as_ref()) })
}
pub fn rx_ok(p: Seq<char>) -> bool { rx(p, |r| r.is_some()) }
pub fn rx_match(p: Seq<char>, s: Seq<char>) -> bool { let t = seq_str(s); rx(p, |r| r.is_some_and(|r| r.is_match(&t))) }
