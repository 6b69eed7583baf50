@litview
@use spec/clean.rs spec/caverphone.rs proof/caverphone.rs
@include encoder.vx
@include helper_vowel.vx
@file src/caverphone.rs
@fn replace_compact_all_to_uppercase
    ensures r@ == cav_squeeze(Seq::empty(), None, chars@, string@)
@loop 0
    invariant cav_squeeze(ret@, previous, chars@, vx_it0.rest()) == cav_squeeze(Seq::empty(), None, vx_chars@, vx_string@), chars == vx_chars
    ensures ret@ == cav_squeeze(Seq::empty(), None, vx_chars@, vx_string@)
    decreases vx_it0.rest().len()
@fn replace_end
    ensures r@ == cav_tail(string@, pattern@, to@)
@start
    broadcast use vx_lem::vx_ascii;
@fn replace_char
    requires forall|x: (usize, char)| f.requires((x,))
    ensures forall|q: spec_fn((usize, char)) -> char| (forall|x: (usize, char), y: char| f.ensures((x,), y) ==> y == q(x)) ==> r@ == #[trigger] smap(senum(0, string@), q),
        is_ascii_seq(string@) && (forall|x: (usize, char), y: char| f.ensures((x,), y) ==> (y as u32) < 0x80 || y == x.1) ==> is_ascii_seq(r@)
@end
    proof { reveal(is_ascii_seq); }
@fn remove_all_non_letter
    ensures r@ == sfilter(string@, |c: char| is_az(c))
@trait Caverphone1:Encoder
    open spec fn enc(&self, s: Seq<char>) -> Seq<char> { caverphone1(s) }
    open spec fn enc_ok(&self) -> bool { true }
@trait Caverphone2:Encoder
    open spec fn enc(&self, s: Seq<char>) -> Seq<char> { caverphone2(s) }
    open spec fn enc_ok(&self) -> bool { true }
@fn Caverphone1::encode
@start
    broadcast use vx_lem::vx_ascii; broadcast use cav_group;
@closure 0 |vx_p0_0: (usize, char)| -> (vx_r: char)
    ensures vx_r == cav_first(vx_p0_0.0, vx_p0_0.1)
@closure 1 |vx_p1_0: (usize, char)| -> (vx_r: char)
    ensures vx_r == if cav_vowel(vx_p1_0.1) { '3' } else { vx_p1_0.1 }
@fn Caverphone2::encode
@start
    broadcast use vx_lem::vx_ascii; broadcast use cav_group;
@closure 0 |vx_p0_0: (usize, char)| -> (vx_r: char)
    ensures vx_r == cav_first(vx_p0_0.0, vx_p0_0.1)
@closure 1 |vx_p1_0: (usize, char)| -> (vx_r: char)
    ensures vx_r == if cav_vowel(vx_p1_0.1) { '3' } else { vx_p1_0.1 }
