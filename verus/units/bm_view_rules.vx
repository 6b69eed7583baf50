@file src/beider_morse/rule.rs
@text
pub open spec fn brules(m: Map<char, Vec<Rule>>) -> Map<char, Seq<BmRule>> { m.map_values(|v: Vec<Rule>| smap(v@, |r: Rule| r.rv())) }
pub open spec fn rules_ok(m: Map<char, Vec<Rule>>) -> bool { forall|c: char, k: int| #![trigger m[c]@[k]] m.contains_key(c) && 0 <= k < m[c]@.len() ==> m[c]@[k].ok() }
