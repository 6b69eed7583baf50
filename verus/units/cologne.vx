@use spec/cologne.rs proof/cologne.rs
@include encoder.vx
@file src/cologne.rs
@trait Cologne:Encoder
    open spec fn enc(&self, s: Seq<char>) -> Seq<char> { cologne(s) }
    open spec fn enc_ok(&self) -> bool { true }
@fn CologneOutput::with_capacity
    requires capacity <= isize::MAX
    ensures r.last_char == '/', r.buffer@ == Seq::<char>::empty()
@fn CologneOutput::push
    ensures final(self).last_char == ch, final(self).buffer@ == cologne_put(old(self).buffer@, old(self).last_char, ch)
@fn Cologne::encode
@start
    broadcast use lemma_sreplace_swap;
@loop 0
    invariant
        cologne_rest(output.buffer@, output.last_char, last_char, iterator.rest()) == cologne(vx_s@),
    ensures
        output.buffer@ == cologne(vx_s@),
    decreases iterator.rest().len()
