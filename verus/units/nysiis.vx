@litview
@use spec/clean.rs spec/nysiis.rs
@include encoder.vx
@include clean.vx
@include helper_vowel.vx
@file src/nysiis.rs
@trait Nysiis:Encoder
    open spec fn enc(&self, s: Seq<char>) -> Seq<char> { nysiis(self.strict, s) }
    open spec fn enc_ok(&self) -> bool { true }
@fn Nysiis::new
    ensures r.strict == strict
@fn Nysiis::transcode
    ensures r@ == nysiis_trans(*previous, *current, oderef(next), oderef(next_next))
@fn Nysiis::encode
@first
    hide(nysiis_head); hide(nysiis_tail); hide(nysiis_trim); hide(nysiis_rest); hide(nysiis_trans);
@after if tmp.starts_with(START_SCH)
    let ghost vx_h = tmp@;
    proof { assert(vx_h == nysiis_head(clean(vx_value@))) by { reveal(nysiis_head); } }
@after if tmp.ends_with(END_DT)
    let ghost vx_tl = tmp@;
    proof { assert(vx_tl == nysiis_tail(vx_h)) by { reveal(nysiis_tail); } }
@beforeloop 0
    let ghost vx_goal = nysiis_key(clean(vx_value@));
@loop 0
    invariant
        1 <= index <= len, len == chars@.len(), len <= isize::MAX,
        vx_goal == nysiis_key(clean(vx_value@)),
        nysiis_trim(nysiis_rest(key@, chars@[index - 1], chars@.skip(index as int))) == vx_goal,
    ensures
        nysiis_trim(key@) == vx_goal,
    decreases len - index
@looppre 0
    proof { reveal(nysiis_rest); }
@loopstart 0
    let ghost vx_c0 = chars@;
    let ghost vx_s = chars@.skip(index as int);
@beforeloop 1
    let ghost vx_t = transcode@;
    proof { reveal(nysiis_trans); reveal(nysiis_rest); assert(1 <= vx_t.len() <= vx_s.len()); assert(vx_t.take(0) =~= Seq::<char>::empty()); assert(vx_c0 =~= vx_c0.take(index as int) + vx_t.take(0) + vx_c0.skip(index + 0)); }
@loop 1
    invariant
        1 <= index < len, len <= isize::MAX,
        vx_t == transcode@,
        vx_c0.len() == len, chars@.len() == len,
        vx_t.len() <= len - index,
        vx_it1.rest().len() <= vx_t.len(),
        vx_it1.rest() == senum(vx_t.len() - vx_it1.rest().len(), vx_t.skip(vx_t.len() - vx_it1.rest().len())),
        chars@ == vx_c0.take(index as int) + vx_t.take(vx_t.len() - vx_it1.rest().len()) + vx_c0.skip(index + (vx_t.len() - vx_it1.rest().len())),
    ensures
        chars@ == vx_c0.take(index as int) + vx_t + vx_c0.skip(index + vx_t.len()),
    decreases vx_it1.rest().len()
@loopend 1
    proof { let j = vx_t.len() - vx_it1.rest().len(); assert(i == j - 1); assert(c == vx_t[j - 1]);
        assert(vx_it1.rest() =~= senum(j, vx_t.skip(j)));
        assert(chars@ =~= vx_c0.take(index as int) + vx_t.take(j) + vx_c0.skip(index + j)); }
@afterloop 1
    proof { reveal(nysiis_trans); reveal(nysiis_rest); let r = vx_t + vx_s.skip(vx_t.len() as int); 
        assert(chars@.skip(index as int) =~= r);
        assert(chars@[index as int] == r[0]); assert(chars@[index - 1] == vx_c0[index - 1]);
        assert(chars@.skip(index as int + 1) =~= r.skip(1)); }
@end
    proof { assert(vx_ret@ == nysiis(self.strict, vx_value@)) by { reveal(nysiis_trim); } }
@trait Nysiis:Default
    open spec fn default_spec(r: Self) -> bool { r.strict }
@fn Nysiis::default
