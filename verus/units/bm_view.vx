@include bm_view_rules.vx
@include bm_view_langs.vx
@file src/beider_morse/mod.rs
@struct NameType
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
@struct PrivateRuleType
#[derive(PartialEq, Eq, Structural, Clone, Copy)]
@text
pub open spec fn s_any() -> Seq<char> { seq!['a', 'n', 'y'] }
pub open spec fn s_common() -> Seq<char> { seq!['c', 'o', 'm', 'm', 'o', 'n'] }
impl NameType { pub open spec fn nv(&self) -> int { match self { NameType::Ashkenazi => 0, NameType::Generic => 1, NameType::Sephardic => 2 } } }
impl PrivateRuleType { pub open spec fn kdv(&self) -> int { match self { PrivateRuleType::Approx => 0, PrivateRuleType::Exact => 1, PrivateRuleType::Rules => 2 } } }
impl VxKey for NameType { type K = int; open spec fn kv(&self) -> int { self.nv() } open spec fn set_extra(s: Seq<NameType>, r: BTreeSet<NameType>) -> bool { true } }
impl VxKey for PrivateRuleType { type K = int; open spec fn kv(&self) -> int { self.kdv() } open spec fn set_extra(s: Seq<PrivateRuleType>, r: BTreeSet<PrivateRuleType>) -> bool { true } }
impl Rules {
    pub open spec fn rsv(&self) -> Map<(int, int, Seq<char>), Map<char, Seq<BmRule>>> { self.rules@.map_values(|m: BTreeMap<char, Vec<Rule>>| brules(m@)) }
    /// what reading the files establishes
    pub open spec fn ok(&self) -> bool {
        &&& forall|n: int, l: Seq<char>, k: int| #![trigger self.rules@.contains_key((n, k, l)), self.rules@.contains_key((n, 2, l))] (k == 0 || k == 1) && self.rules@.contains_key((n, 2, l)) ==> self.rules@.contains_key((n, k, l))
        &&& forall|n: int, k: int| #![trigger self.rules@.contains_key((n, k, s_common()))] (k == 0 || k == 1) && 0 <= n < 3 ==> self.rules@.contains_key((n, k, s_common()))
        &&& forall|n: int| #![trigger self.rules@.contains_key((n, 2, s_any()))] 0 <= n < 3 ==> self.rules@.contains_key((n, 2, s_any()))
        &&& forall|k: (int, int, Seq<char>)| #![trigger self.rules@[k]] self.rules@.contains_key(k) ==> rules_ok(self.rules@[k]@)
    }
}
impl ConfigFiles {
    /// what reading the files establishes
    pub open spec fn ok(&self) -> bool { self.rules.ok() && forall|n: int| #![trigger self.langs.langs@.contains_key(n)] 0 <= n < 3 ==> self.langs.langs@.contains_key(n) }
}
