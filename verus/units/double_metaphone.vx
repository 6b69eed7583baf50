@use spec/clean.rs spec/double_metaphone.rs proof/double_metaphone.rs
@litview
@include encoder.vx
@include helper_vowel.vx
@file src/double_metaphone.rs
@trait DoubleMetaphone:Encoder
    open spec fn enc(&self, s: Seq<char>) -> Seq<char> { double_metaphone(self.max_code_length, s).0 }
    open spec fn enc_ok(&self) -> bool { true }
@fn DoubleMetaphoneResult::new
    ensures r.primary@ == Seq::<char>::empty(), r.alternate@ == Seq::<char>::empty(), r.max_length == max_length
@fn DoubleMetaphoneResult::primary
    ensures r@ == self.primary@
@fn DoubleMetaphoneResult::alternate
    ensures r@ == self.alternate@
@fn DoubleMetaphoneResult::append_char
    requires dm_ok(*old(self)), (ch as u32) < 0x80, alternate is Some ==> (alternate->0 as u32) < 0x80
    ensures dm_ok(*final(self)), final(self).max_length == old(self).max_length, final(self).primary@ == dm_cut(old(self).max_length, old(self).primary@ + seq![ch]), final(self).alternate@ == dm_cut(old(self).max_length, old(self).alternate@ + seq![match alternate { Some(c) => c, None => ch }])
@fn DoubleMetaphoneResult::append_char_primary
    requires dm_ok(*old(self)), (ch as u32) < 0x80
    ensures dm_ok(*final(self)), final(self).max_length == old(self).max_length, final(self).primary@ == dm_cut(old(self).max_length, old(self).primary@ + seq![ch]), final(self).alternate@ == old(self).alternate@
@closure 0 |v: usize| -> (vx_r: bool)
    ensures vx_r == (self.primary@.len() < v)
@start
    broadcast use dm_append;
@fn DoubleMetaphoneResult::append_char_alternate
    requires dm_ok(*old(self)), (ch as u32) < 0x80
    ensures dm_ok(*final(self)), final(self).max_length == old(self).max_length, final(self).alternate@ == dm_cut(old(self).max_length, old(self).alternate@ + seq![ch]), final(self).primary@ == old(self).primary@
@closure 0 |v: usize| -> (vx_r: bool)
    ensures vx_r == (self.alternate@.len() < v)
@start
    broadcast use dm_append;
@fn DoubleMetaphoneResult::append_str
    requires dm_ok(*old(self)), is_ascii_seq(value@), alternate is Some ==> is_ascii_seq(alternate->0@)
    ensures dm_ok(*final(self)), final(self).max_length == old(self).max_length, final(self).primary@ == dm_cut(old(self).max_length, old(self).primary@ + value@), final(self).alternate@ == dm_cut(old(self).max_length, old(self).alternate@ + (match alternate { Some(c) => c@, None => value@ }))
@fn DoubleMetaphoneResult::append_str_primary
    requires dm_ok(*old(self)), is_ascii_seq(value@)
    ensures dm_ok(*final(self)), final(self).max_length == old(self).max_length, final(self).primary@ == dm_cut(old(self).max_length, old(self).primary@ + value@), final(self).alternate@ == old(self).alternate@
@closure 0 |v: usize| -> (vx_r: usize)
    requires self.primary@.len() <= v
    ensures vx_r == v - self.primary@.len()
@start
    broadcast use dm_append;
@fn DoubleMetaphoneResult::append_str_alternate
    requires dm_ok(*old(self)), is_ascii_seq(value@)
    ensures dm_ok(*final(self)), final(self).max_length == old(self).max_length, final(self).alternate@ == dm_cut(old(self).max_length, old(self).alternate@ + value@), final(self).primary@ == old(self).primary@
@closure 0 |v: usize| -> (vx_r: usize)
    requires self.alternate@.len() <= v
    ensures vx_r == v - self.alternate@.len()
@start
    broadcast use dm_append;
@fn DoubleMetaphoneResult::is_complete
    requires dm_ok(*self)
    ensures r == (dm_full(self.max_length, self.primary@) && dm_full(self.max_length, self.alternate@))
@closure 0 |v: usize| -> (vx_r: bool)
    ensures vx_r == (self.primary@.len() >= v && self.alternate@.len() >= v)
@start
    broadcast use dm_append;
@trait DoubleMetaphone:Default
    open spec fn default_spec(r: Self) -> bool { r.max_code_length == Some(4usize) }
@fn DoubleMetaphone::default
@fn DoubleMetaphone::new
    ensures r.max_code_length == max_code_length
@fn DoubleMetaphone::encode_alternate
    ensures r@ == double_metaphone(self.max_code_length, value@).1
@fn DoubleMetaphone::is_double_metaphone_equal
    ensures r == (if alternate { double_metaphone(self.max_code_length, value1@).1 == double_metaphone(self.max_code_length, value2@).1 } else { double_metaphone(self.max_code_length, value1@).0 == double_metaphone(self.max_code_length, value2@).0 })
@fn DoubleMetaphone::is_slavo_germanic
    ensures r == dm_slavo(value@)
@fn DoubleMetaphone::len
    ensures r == value@.len(), r <= MAXLEN()
@fn DoubleMetaphone::contains
    requires length > 0, forall|j: int| 0 <= j < criteria@.len() ==> (#[trigger] criteria@[j])@.len() == length
    ensures r == (exists|j: int| 0 <= j < criteria@.len() && dm_has(value@, start as int, (#[trigger] criteria@[j])@))
@start
    proof { lemma_dm_target(vx_value@, vx_start as int, length as int); }
@fn DoubleMetaphone::contains_array
    requires length > 0, forall|j: int| 0 <= j < criteria@.len() ==> (#[trigger] criteria@[j])@.len() == length
    ensures r == (exists|j: int| 0 <= j < criteria@.len() && dm_has(value@, start as int, (#[trigger] criteria@[j])@))
@start
    proof { lemma_dm_target(vx_value@, vx_start as int, length as int); }
@fn DoubleMetaphone::char_at
    ensures r == (if 0 <= index < value@.len() { Some(value@[index as int]) } else { None })
@fn DoubleMetaphone::condition_c0
    requires dm_pos(value@, index)
    ensures r == dm_c_as_in_bacher(value@, index as int)
@closure 0 |ch: char| -> (vx_r: bool)
    ensures vx_r == is_vowel_spec(alow(ch), true)
@start
    broadcast use dm_append;
@fn DoubleMetaphone::condition_ch0
    requires dm_pos(value@, index)
    ensures r == dm_ch_greek(value@, index as int)
@start
    broadcast use dm_append;
@fn DoubleMetaphone::condition_ch1
    requires dm_pos(value@, index)
    ensures r == dm_ch_germanic(value@, index as int)
@start
    broadcast use dm_append;

@fn DoubleMetaphone::condition_l0
    requires dm_pos(value@, index)
    ensures r == dm_l_spanish(value@, index as int)
@start
    broadcast use dm_append;
@fn DoubleMetaphone::condition_m0
    requires dm_pos(value@, index)
    ensures r == dm_m_one_more(value@, index as int)
@start
    broadcast use dm_append;
@fn DoubleMetaphone::handle_c
    requires dm_pos(value@, index), dm_ok(*old(result))
    ensures dm_did(*old(result), *final(result), dm_c(value@, index as int), r as int)
@start
    broadcast use dm_append;
@fn DoubleMetaphone::handle_ch
    requires dm_pos(value@, index), dm_ok(*old(result))
    ensures dm_did(*old(result), *final(result), dm_ch(value@, index as int), r as int)
@start
    broadcast use dm_append;
@fn DoubleMetaphone::handle_cc
    requires dm_pos(value@, index), dm_ok(*old(result))
    ensures dm_did(*old(result), *final(result), dm_cc(value@, index as int), r as int)
@start
    broadcast use dm_append;
@fn DoubleMetaphone::handle_d
    requires dm_pos(value@, index), dm_ok(*old(result))
    ensures dm_did(*old(result), *final(result), dm_d(value@, index as int), r as int)
@start
    broadcast use dm_append;
@fn DoubleMetaphone::handle_gh
    requires dm_pos(value@, index), dm_ok(*old(result))
    ensures dm_did(*old(result), *final(result), dm_gh(value@, index as int), r as int)
@start
    broadcast use dm_append;
@fn DoubleMetaphone::handle_h
    requires dm_pos(value@, index), dm_ok(*old(result))
    ensures dm_did(*old(result), *final(result), dm_h(value@, index as int), r as int)
@start
    broadcast use dm_append;
@fn DoubleMetaphone::handle_l
    requires dm_pos(value@, index), dm_ok(*old(result))
    ensures dm_did(*old(result), *final(result), dm_l(value@, index as int), r as int)
@start
    broadcast use dm_append;
@fn DoubleMetaphone::handle_p
    requires dm_pos(value@, index), dm_ok(*old(result))
    ensures dm_did(*old(result), *final(result), dm_p(value@, index as int), r as int)
@start
    broadcast use dm_append;
@fn DoubleMetaphone::handle_sc
    requires dm_pos(value@, index), dm_ok(*old(result))
    ensures dm_did(*old(result), *final(result), dm_sc(value@, index as int), r as int)
@start
    broadcast use dm_append;
@fn DoubleMetaphone::handle_t
    requires dm_pos(value@, index), dm_ok(*old(result))
    ensures dm_did(*old(result), *final(result), dm_t(value@, index as int), r as int)
@start
    broadcast use dm_append;
@fn DoubleMetaphone::handle_w
    requires dm_pos(value@, index), dm_ok(*old(result))
    ensures dm_did(*old(result), *final(result), dm_w(value@, index as int), r as int)
@start
    broadcast use dm_append;
@fn DoubleMetaphone::handle_x
    requires dm_pos(value@, index), dm_ok(*old(result))
    ensures dm_did(*old(result), *final(result), dm_x(value@, index as int), r as int)
@start
    broadcast use dm_append;
@fn DoubleMetaphone::handle_g
    requires dm_pos(value@, index), dm_ok(*old(result))
    ensures dm_did(*old(result), *final(result), dm_g(value@, index as int, slavo_germanic), r as int)
@start
    broadcast use dm_append;
@fn DoubleMetaphone::handle_j
    requires dm_pos(value@, index), dm_ok(*old(result))
    ensures dm_did(*old(result), *final(result), dm_j(value@, index as int, slavo_germanic), r as int)
@start
    broadcast use dm_append;
@fn DoubleMetaphone::handle_r
    requires dm_pos(value@, index), dm_ok(*old(result))
    ensures dm_did(*old(result), *final(result), dm_r(value@, index as int, slavo_germanic), r as int)
@start
    broadcast use dm_append;
@fn DoubleMetaphone::handle_s
    requires dm_pos(value@, index), dm_ok(*old(result))
    ensures dm_did(*old(result), *final(result), dm_s(value@, index as int, slavo_germanic), r as int)
@start
    broadcast use dm_append;
@fn DoubleMetaphone::handle_z
    requires dm_pos(value@, index), dm_ok(*old(result))
    ensures dm_did(*old(result), *final(result), dm_z(value@, index as int, slavo_germanic), r as int)
@start
    broadcast use dm_append;
@fn DoubleMetaphone::double_metaphone
    ensures r.primary@ == double_metaphone(self.max_code_length, value@).0, r.alternate@ == double_metaphone(self.max_code_length, value@).1
@start
    broadcast use dm_append;
    let ghost vx_w = supper(strim(vx_value@));
    let ghost vx_goal = double_metaphone(self.max_code_length, vx_value@);
@loop 0
    invariant
        value@ == vx_w, vx_w.len() <= MAXLEN(), slavo_germanic == dm_slavo(vx_w),
        result.max_length == self.max_code_length, dm_ok(result),
        char_index is Some ==> (char_index->0).0 < vx_w.len() && (char_index->0).1 == vx_w[(char_index->0).0 as int] && iterator.rest() == senum((char_index->0).0 + 1, vx_w.skip((char_index->0).0 + 1)) && dm_rest(self.max_code_length, vx_w, (char_index->0).0 as int, slavo_germanic, result.primary@, result.alternate@) == vx_goal,
        char_index is None ==> iterator.rest().len() == 0 && (result.primary@, result.alternate@) == vx_goal,
    ensures (result.primary@, result.alternate@) == vx_goal
    decreases iterator.rest().len() + (if char_index is Some { 1int } else { 0int })
@loopstart 0
    proof { reveal_with_fuel(dm_rest, 2); }
@fn DoubleMetaphone::encode
