pub proof fn lemma_pad4(code: Seq<char>, n: int)
    requires 0 <= n <= 4, code.len() == 4, forall|i: int| n <= i < 4 ==> code[i] == '0'
    ensures pad4(code.take(n)) == code
    decreases 4 - n
{ if n < 4 { assert(code.take(n).push('0') =~= code.take(n + 1)); lemma_pad4(code, n + 1); } }
