@use prelude/sets.rs proof/languages.rs
@file src/beider_morse/languages.rs
@extra LanguageSet
@text
impl LanguageSet { pub open spec fn lv(&self) -> Option<Set<Seq<char>>> { match self { LanguageSet::Any => None, LanguageSet::NoLanguages => Some(Set::empty()), LanguageSet::SomeLanguages(s) => Some(s@) } } }
impl LanguageSet {
    /// the languages a set stands for
    pub open spec fn has(&self, l: Seq<char>) -> bool { match self { LanguageSet::Any => true, LanguageSet::NoLanguages => false, LanguageSet::SomeLanguages(s) => s@.contains(l) } }
    pub open spec fn just(&self, l: Seq<char>) -> bool { forall|m: Seq<char>| #[trigger] self.has(m) == (m == l) }
}
pub open spec fn strs_of(v: Seq<&str>) -> Set<Seq<char>> { smap(v, |x: &str| x@).to_set() }
pub proof fn lemma_strs_has(v: Seq<&str>)
    ensures forall|l: Seq<char>| #[trigger] strs_of(v).contains(l) == (exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == l)
{
    let m = smap(v, |x: &str| x@);
    assert forall|l: Seq<char>| #[trigger] strs_of(v).contains(l) == (exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == l) by {
        if m.contains(l) { let i = choose|i: int| 0 <= i < m.len() && m[i] == l; assert(v[i]@ == l); }
        if exists|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == l { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i])@ == l; assert(m[i] == l); }
    }
}
pub proof fn lemma_just(x: LanguageSet)
    ensures (exists|l: Seq<char>| x.just(l)) == (match x { LanguageSet::SomeLanguages(s) => s@.len() == 1, _ => false })
{
    match x {
        LanguageSet::Any => { if exists|l: Seq<char>| x.just(l) { let l = choose|l: Seq<char>| x.just(l); assert(l.push('a').len() == l.len() + 1); assert(x.has(l.push('a')) == (l.push('a') == l)); assert(false); } }
        LanguageSet::NoLanguages => { if exists|l: Seq<char>| x.just(l) { let l = choose|l: Seq<char>| x.just(l); assert(x.has(l) == (l == l)); } }
        LanguageSet::SomeLanguages(s) => {
            lemma_singleton_set(s@);
            if exists|l: Seq<char>| x.just(l) { let l = choose|l: Seq<char>| x.just(l); assert forall|m: Seq<char>| #[trigger] s@.contains(m) == (m == l) by { assert(x.has(m) == (m == l)); } assert(is_just(s@, l)); }
            if exists|l: Seq<char>| is_just(s@, l) { let l = choose|l: Seq<char>| is_just(s@, l); assert forall|m: Seq<char>| #[trigger] x.has(m) == (m == l) by { assert(s@.contains(m) == (m == l)); } assert(x.just(l)); }
        }
    }
}
@fn LanguageSet::is_empty
    ensures r == (forall|l: Seq<char>| !self.has(l))
@start
    broadcast use vx_sets_group;
    proof { assert(*self is Any ==> self.has("a"@)); match self { LanguageSet::SomeLanguages(s) => { assert forall|l: Seq<char>| self.has(l) == #[trigger] s@.contains(l) by {} } _ => { } } }
@fn LanguageSet::is_singleton
    ensures r == (exists|l: Seq<char>| self.just(l))
@start
    proof { lemma_just(*self); }
@fn LanguageSet::restrict_to
    ensures forall|l: Seq<char>| #[trigger] r.has(l) == (self.has(l) && other.has(l))
@fn LanguageSet::merge
    ensures forall|l: Seq<char>| #[trigger] r.has(l) == (self.has(l) || other.has(l))
@fn LanguageSet::any
    ensures
        r is Some ==> !(*self is Any) && self.has((r->0)@) && forall|l: Seq<char>| #[trigger] self.has(l) && l != (r->0)@ ==> slt((r->0)@, l),
        r is None ==> *self is Any || forall|l: Seq<char>| !self.has(l)
@start
    broadcast use vx_sets_group;
    proof { match self { LanguageSet::SomeLanguages(s) => { assert forall|l: Seq<char>| #[trigger] self.has(l) == s@.contains(l) by {} } _ => { } } }
@closure 0 |v: &String| -> (vx_r: &str)
    ensures vx_r@ == v@
@fn LanguageSet::From<BTreeSet<String>>::from
@start
    proof { assert((forall|l: Seq<char>| !(#[trigger] languages@.contains(l))) ==> languages@ =~= Set::<Seq<char>>::empty()); }
@fn LanguageSet::From<Vec<&str>>::from
@start
    broadcast use vx_sets_group;
    let ghost vx_v = languages@;
    proof { lemma_strs_has(vx_v); }
@end
    proof { if vx_ret.lv() is Some { assert(vx_ret.lv()->0 =~= strs_of(vx_v)); } }
@closure 0 |v: &&str| -> (vx_r: String)
    ensures vx_r@ == v@
@trait LanguageSet:From<BTreeSet<String>>
    open spec fn from_spec(t: BTreeSet<String>, r: Self) -> bool { r.lv() == Some(t@) && (r is NoLanguages) == (t@ == Set::<Seq<char>>::empty()) && forall|l: Seq<char>| #[trigger] r.has(l) == t@.contains(l) }
@trait LanguageSet:From<Vec<&str>>
    open spec fn from_spec(t: Vec<&str>, r: Self) -> bool { r.lv() == Some(strs_of(t@)) && forall|l: Seq<char>| #[trigger] r.has(l) == (exists|i: int| 0 <= i < t@.len() && (#[trigger] t@[i])@ == l) }
