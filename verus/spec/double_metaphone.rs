// Double Metaphone. A step gives what it adds to the primary and to the alternate code, and how many further letters it consumes.
#[verifier::opaque]
pub open spec fn dm_has(w: Seq<char>, i: int, t: Seq<char>) -> bool { 0 <= i && i + t.len() <= w.len() && w.subrange(i, i + t.len()) == t }
pub open spec fn dm_is(w: Seq<char>, i: int, c: char) -> bool { 0 <= i && i < w.len() && w[i] == c }
pub open spec fn dm_vowel(w: Seq<char>, i: int) -> bool { 0 <= i && i < w.len() && is_vowel_spec(alow(w[i]), true) }
pub open spec fn dm_germanic(w: Seq<char>) -> bool { dm_has(w, 0, S!("VAN ")) || dm_has(w, 0, S!("VON ")) || dm_has(w, 0, S!("SCH")) }
pub open spec fn dm_both(s: Seq<char>, skip: int) -> (Seq<char>, Seq<char>, int) { (s, s, skip) }
pub open spec fn dm_one_more(b: bool) -> int { if b { 1int } else { 0int } }
pub open spec fn dm_c_as_in_bacher(w: Seq<char>, i: int) -> bool {
    if dm_has(w, i, S!("CHIA")) { true }
    else if i < 2 || dm_vowel(w, i - 2) || !dm_has(w, i - 1, S!("ACH")) { false }
    else { (!dm_is(w, i + 2, 'I') && !dm_is(w, i + 2, 'E')) || dm_has(w, i - 2, S!("BACHER")) || dm_has(w, i - 2, S!("MACHER")) }
}
pub open spec fn dm_ch_greek(w: Seq<char>, i: int) -> bool {
    i == 0 && !dm_has(w, 0, S!("CHORE"))
    && (dm_has(w, 1, S!("HARAC")) || dm_has(w, 1, S!("HARIS")) || dm_has(w, 1, S!("HOR")) || dm_has(w, 1, S!("HYM")) || dm_has(w, 1, S!("HIA")) || dm_has(w, 1, S!("HEM")))
}
pub open spec fn dm_ch_germanic(w: Seq<char>, i: int) -> bool {
    dm_germanic(w)
    || dm_has(w, i - 2, S!("ORCHES")) || dm_has(w, i - 2, S!("ARCHIT")) || dm_has(w, i - 2, S!("ORCHID"))
    || dm_has(w, i + 2, S!("T")) || dm_has(w, i + 2, S!("S"))
    || ((i == 0 || dm_has(w, i - 1, S!("A")) || dm_has(w, i - 1, S!("O")) || dm_has(w, i - 1, S!("U")) || dm_has(w, i - 1, S!("E")))
        && (dm_has(w, i + 2, S!("L")) || dm_has(w, i + 2, S!("R")) || dm_has(w, i + 2, S!("N")) || dm_has(w, i + 2, S!("M")) || dm_has(w, i + 2, S!("B"))
            || dm_has(w, i + 2, S!("H")) || dm_has(w, i + 2, S!("F")) || dm_has(w, i + 2, S!("V")) || dm_has(w, i + 2, S!("W")) || dm_has(w, i + 2, S!(" "))
            || i + 2 == w.len()))
}
pub open spec fn dm_ch(w: Seq<char>, i: int) -> (Seq<char>, Seq<char>, int) {
    if i > 0 && dm_has(w, i, S!("CHAE")) { (S!("K"), S!("X"), 1) }
    else if dm_ch_greek(w, i) || dm_ch_germanic(w, i) { dm_both(S!("K"), 1) }
    else if i > 0 { if dm_has(w, 0, S!("MC")) { dm_both(S!("K"), 1) } else { (S!("X"), S!("K"), 1) } }
    else { dm_both(S!("X"), 1) }
}
pub open spec fn dm_cc(w: Seq<char>, i: int) -> (Seq<char>, Seq<char>, int) {
    if (dm_has(w, i + 2, S!("I")) || dm_has(w, i + 2, S!("E")) || dm_has(w, i + 2, S!("H"))) && !dm_has(w, i + 2, S!("HU")) {
        if (i == 1 && dm_is(w, 0, 'A')) || dm_has(w, i - 1, S!("UCCEE")) || dm_has(w, i - 1, S!("UCCES")) { dm_both(S!("KS"), 2) } else { dm_both(S!("X"), 2) }
    }
    else { dm_both(S!("K"), 1) }
}
pub open spec fn dm_c(w: Seq<char>, i: int) -> (Seq<char>, Seq<char>, int) {
    if dm_c_as_in_bacher(w, i) { dm_both(S!("K"), 1) }
    else if i == 0 && dm_has(w, i, S!("CAESAR")) { dm_both(S!("S"), 1) }
    else if dm_has(w, i, S!("CH")) { dm_ch(w, i) }
    else if dm_has(w, i, S!("CZ")) && !dm_has(w, i - 2, S!("WICZ")) { (S!("S"), S!("X"), 1) }
    else if dm_has(w, i + 1, S!("CIA")) { dm_both(S!("X"), 2) }
    else if dm_has(w, i, S!("CC")) && !(i == 1 && dm_is(w, 0, 'M')) { dm_cc(w, i) }
    else if dm_has(w, i, S!("CK")) || dm_has(w, i, S!("CG")) || dm_has(w, i, S!("CQ")) { dm_both(S!("K"), 1) }
    else if dm_has(w, i, S!("CI")) || dm_has(w, i, S!("CE")) || dm_has(w, i, S!("CY")) {
        if dm_has(w, i, S!("CIO")) || dm_has(w, i, S!("CIE")) || dm_has(w, i, S!("CIA")) { (S!("S"), S!("X"), 1) } else { dm_both(S!("S"), 1) }
    }
    else if dm_has(w, i + 1, S!(" C")) || dm_has(w, i + 1, S!(" Q")) || dm_has(w, i + 1, S!(" G")) { dm_both(S!("K"), 2) }
    else if (dm_has(w, i + 1, S!("C")) || dm_has(w, i + 1, S!("K")) || dm_has(w, i + 1, S!("Q"))) && !dm_has(w, i + 1, S!("CE")) && !dm_has(w, i + 1, S!("CI")) { dm_both(S!("K"), 1) }
    else { dm_both(S!("K"), 0) }
}
pub open spec fn dm_d(w: Seq<char>, i: int) -> (Seq<char>, Seq<char>, int) {
    if dm_has(w, i, S!("DG")) {
        if dm_has(w, i + 2, S!("I")) || dm_has(w, i + 2, S!("E")) || dm_has(w, i + 2, S!("Y")) { dm_both(S!("J"), 2) } else { dm_both(S!("TK"), 1) }
    }
    else { dm_both(S!("T"), dm_one_more(dm_has(w, i, S!("DT")) || dm_has(w, i, S!("DD")))) }
}
pub open spec fn dm_gh(w: Seq<char>, i: int) -> (Seq<char>, Seq<char>, int) {
    if i > 0 && !dm_vowel(w, i - 1) { dm_both(S!("K"), 1) }
    else if i == 0 { dm_both(if dm_is(w, i + 2, 'I') { S!("J") } else { S!("K") }, 1) }
    else if dm_has(w, i - 2, S!("B")) || dm_has(w, i - 2, S!("H")) || dm_has(w, i - 2, S!("D"))
        || dm_has(w, i - 3, S!("B")) || dm_has(w, i - 3, S!("H")) || dm_has(w, i - 3, S!("D"))
        || dm_has(w, i - 4, S!("B")) || dm_has(w, i - 4, S!("H")) { dm_both(S!(""), 1) }
    else if dm_is(w, i - 1, 'U') && (dm_has(w, i - 3, S!("C")) || dm_has(w, i - 3, S!("G")) || dm_has(w, i - 3, S!("L")) || dm_has(w, i - 3, S!("R")) || dm_has(w, i - 3, S!("T"))) { dm_both(S!("F"), 1) }
    else if !dm_is(w, i - 1, 'I') { dm_both(S!("K"), 1) }
    else { dm_both(S!(""), 1) }
}
pub open spec fn dm_g_initial(w: Seq<char>, i: int) -> bool {
    dm_is(w, i + 1, 'Y') || dm_has(w, i + 1, S!("ES")) || dm_has(w, i + 1, S!("EP")) || dm_has(w, i + 1, S!("EB")) || dm_has(w, i + 1, S!("EL")) || dm_has(w, i + 1, S!("EY"))
    || dm_has(w, i + 1, S!("IB")) || dm_has(w, i + 1, S!("IL")) || dm_has(w, i + 1, S!("IN")) || dm_has(w, i + 1, S!("IE")) || dm_has(w, i + 1, S!("EI")) || dm_has(w, i + 1, S!("ER"))
}
pub open spec fn dm_g(w: Seq<char>, i: int, slavo: bool) -> (Seq<char>, Seq<char>, int) {
    if dm_is(w, i + 1, 'H') { dm_gh(w, i) }
    else if dm_is(w, i + 1, 'N') {
        if i == 1 && dm_vowel(w, 0) && !slavo { (S!("KN"), S!("N"), 1) }
        else if !dm_has(w, i + 2, S!("EY")) && !slavo { (S!("N"), S!("KN"), 1) }
        else { dm_both(S!("KN"), 1) }
    }
    else if dm_has(w, i + 1, S!("LI")) && !slavo { (S!("KL"), S!("L"), 1) }
    else if i == 0 && dm_g_initial(w, i) { (S!("K"), S!("J"), 1) }
    else if (dm_has(w, i + 1, S!("ER")) || dm_is(w, i + 1, 'Y'))
        && !dm_has(w, 0, S!("DANGER")) && !dm_has(w, 0, S!("RANGER")) && !dm_has(w, 0, S!("MANGER"))
        && !dm_has(w, i - 1, S!("E")) && !dm_has(w, i - 1, S!("I")) && !dm_has(w, i - 1, S!("RGY")) && !dm_has(w, i - 1, S!("OGY")) { (S!("K"), S!("J"), 1) }
    else if dm_has(w, i + 1, S!("E")) || dm_has(w, i + 1, S!("I")) || dm_has(w, i + 1, S!("Y")) || dm_has(w, i - 1, S!("AGGI")) || dm_has(w, i - 1, S!("OGGI")) {
        if dm_germanic(w) || dm_has(w, i + 1, S!("ET")) { dm_both(S!("K"), 1) }
        else if dm_has(w, i + 1, S!("IER")) { dm_both(S!("J"), 1) }
        else { (S!("J"), S!("K"), 1) }
    }
    else { dm_both(S!("K"), dm_one_more(dm_is(w, i + 1, 'G'))) }
}
pub open spec fn dm_h(w: Seq<char>, i: int) -> (Seq<char>, Seq<char>, int) {
    if (i == 0 || dm_vowel(w, i - 1)) && dm_vowel(w, i + 1) { dm_both(S!("H"), 1) } else { dm_both(S!(""), 0) }
}
pub open spec fn dm_j(w: Seq<char>, i: int, slavo: bool) -> (Seq<char>, Seq<char>, int) {
    if dm_has(w, i, S!("JOSE")) || dm_has(w, 0, S!("SAN ")) {
        if (i == 0 && dm_is(w, i + 4, ' ')) || w.len() == 4 || dm_has(w, 0, S!("SAN ")) { dm_both(S!("H"), 0) } else { (S!("J"), S!("H"), 0) }
    }
    else {
        let more = dm_one_more(dm_is(w, i + 1, 'J'));
        if i == 0 { (S!("J"), S!("A"), more) }
        else if dm_vowel(w, i - 1) && !slavo && (dm_is(w, i + 1, 'A') || dm_is(w, i + 1, 'O')) { (S!("J"), S!("H"), more) }
        else if i + 1 == w.len() { (S!("J"), S!(" "), more) }
        else if dm_has(w, i + 1, S!("L")) || dm_has(w, i + 1, S!("T")) || dm_has(w, i + 1, S!("K")) || dm_has(w, i + 1, S!("S")) || dm_has(w, i + 1, S!("N")) || dm_has(w, i + 1, S!("M")) || dm_has(w, i + 1, S!("B")) || dm_has(w, i + 1, S!("Z"))
            || dm_has(w, i - 1, S!("S")) || dm_has(w, i - 1, S!("K")) || dm_has(w, i - 1, S!("L")) { dm_both(S!(""), more) }
        else { dm_both(S!("J"), more) }
    }
}
pub open spec fn dm_l_spanish(w: Seq<char>, i: int) -> bool {
    let n = w.len();
    if i == n - 3 && (dm_has(w, i - 1, S!("ILLO")) || dm_has(w, i - 1, S!("ILLA")) || dm_has(w, i - 1, S!("ALLE"))) { true }
    else { (dm_has(w, n - 2, S!("AS")) || dm_has(w, n - 2, S!("OS")) || dm_has(w, n - 1, S!("A")) || dm_has(w, n - 1, S!("O"))) && dm_has(w, i - 1, S!("ALLE")) }
}
pub open spec fn dm_l(w: Seq<char>, i: int) -> (Seq<char>, Seq<char>, int) {
    if !dm_is(w, i + 1, 'L') { dm_both(S!("L"), 0) } else if dm_l_spanish(w, i) { (S!("L"), S!(""), 1) } else { dm_both(S!("L"), 1) }
}
pub open spec fn dm_m_one_more(w: Seq<char>, i: int) -> bool {
    dm_is(w, i + 1, 'M') || (dm_has(w, i - 1, S!("UMB")) && (i + 2 == w.len() || dm_has(w, i + 2, S!("ER"))))
}
pub open spec fn dm_p(w: Seq<char>, i: int) -> (Seq<char>, Seq<char>, int) {
    if dm_is(w, i + 1, 'H') { dm_both(S!("F"), 1) } else { dm_both(S!("P"), dm_one_more(dm_has(w, i + 1, S!("P")) || dm_has(w, i + 1, S!("B")))) }
}
pub open spec fn dm_r(w: Seq<char>, i: int, slavo: bool) -> (Seq<char>, Seq<char>, int) {
    let more = dm_one_more(dm_is(w, i + 1, 'R'));
    if i + 1 == w.len() && !slavo && dm_has(w, i - 2, S!("IE")) && !dm_has(w, i - 4, S!("ME")) && !dm_has(w, i - 4, S!("MA")) { (S!(""), S!("R"), more) } else { dm_both(S!("R"), more) }
}
pub open spec fn dm_sc(w: Seq<char>, i: int) -> (Seq<char>, Seq<char>, int) {
    if dm_is(w, i + 2, 'H') {
        if dm_has(w, i + 3, S!("ER")) || dm_has(w, i + 3, S!("EN")) { (S!("X"), S!("SK"), 2) }
        else if dm_has(w, i + 3, S!("OO")) || dm_has(w, i + 3, S!("UY")) || dm_has(w, i + 3, S!("ED")) || dm_has(w, i + 3, S!("EM")) { dm_both(S!("SK"), 2) }
        else if i == 0 && !dm_vowel(w, 3) && !dm_is(w, 3, 'W') { (S!("X"), S!("S"), 2) }
        else { dm_both(S!("X"), 2) }
    }
    else if dm_has(w, i + 2, S!("I")) || dm_has(w, i + 2, S!("E")) || dm_has(w, i + 2, S!("Y")) { dm_both(S!("S"), 2) }
    else { dm_both(S!("SK"), 2) }
}
pub open spec fn dm_s(w: Seq<char>, i: int, slavo: bool) -> (Seq<char>, Seq<char>, int) {
    if dm_has(w, i - 1, S!("ISL")) || dm_has(w, i - 1, S!("YSL")) { dm_both(S!(""), 0) }
    else if i == 0 && dm_has(w, i, S!("SUGAR")) { (S!("X"), S!("S"), 0) }
    else if dm_has(w, i, S!("SH")) {
        if dm_has(w, i + 1, S!("HEIM")) || dm_has(w, i + 1, S!("HOEK")) || dm_has(w, i + 1, S!("HOLM")) || dm_has(w, i + 1, S!("HOLZ")) { dm_both(S!("S"), 1) } else { dm_both(S!("X"), 1) }
    }
    else if dm_has(w, i, S!("SIO")) || dm_has(w, i, S!("SIA")) || dm_has(w, i, S!("SIAN")) { if slavo { dm_both(S!("S"), 2) } else { (S!("S"), S!("X"), 2) } }
    else if (i == 0 && (dm_has(w, i + 1, S!("M")) || dm_has(w, i + 1, S!("N")) || dm_has(w, i + 1, S!("L")) || dm_has(w, i + 1, S!("W")))) || dm_has(w, i + 1, S!("Z")) { (S!("S"), S!("X"), dm_one_more(dm_has(w, i + 1, S!("Z")))) }
    else if dm_has(w, i, S!("SC")) { dm_sc(w, i) }
    else {
        let more = dm_one_more(dm_has(w, i + 1, S!("S")) || dm_has(w, i + 1, S!("Z")));
        if i + 1 == w.len() && (dm_has(w, i - 2, S!("AI")) || dm_has(w, i - 2, S!("OI"))) { (S!(""), S!("S"), more) } else { dm_both(S!("S"), more) }
    }
}
pub open spec fn dm_t(w: Seq<char>, i: int) -> (Seq<char>, Seq<char>, int) {
    if dm_has(w, i, S!("TION")) || dm_has(w, i, S!("TIA")) || dm_has(w, i, S!("TCH")) { dm_both(S!("X"), 2) }
    else if dm_has(w, i, S!("TH")) || dm_has(w, i, S!("TTH")) {
        if dm_has(w, i + 2, S!("OM")) || dm_has(w, i + 2, S!("AM")) || dm_germanic(w) { dm_both(S!("T"), 1) } else { (S!("0"), S!("T"), 1) }
    }
    else { dm_both(S!("T"), dm_one_more(dm_has(w, i + 1, S!("T")) || dm_has(w, i + 1, S!("D")))) }
}
pub open spec fn dm_w(w: Seq<char>, i: int) -> (Seq<char>, Seq<char>, int) {
    if dm_has(w, i, S!("WR")) { dm_both(S!("R"), 1) }
    else if i == 0 && dm_vowel(w, i + 1) { (S!("A"), S!("F"), 0) }
    else if i == 0 && dm_has(w, i, S!("WH")) { dm_both(S!("A"), 0) }
    else if (i + 1 == w.len() && dm_vowel(w, i - 1)) || dm_has(w, i - 1, S!("EWSKI")) || dm_has(w, i - 1, S!("EWSKY")) || dm_has(w, i - 1, S!("OWSKI")) || dm_has(w, i - 1, S!("OWSKY")) || dm_has(w, 0, S!("SCH")) { (S!(""), S!("F"), 0) }
    else if dm_has(w, i, S!("WICZ")) || dm_has(w, i, S!("WITZ")) { (S!("TS"), S!("FX"), 3) }
    else { dm_both(S!(""), 0) }
}
pub open spec fn dm_x(w: Seq<char>, i: int) -> (Seq<char>, Seq<char>, int) {
    let more = dm_one_more(dm_has(w, i + 1, S!("C")) || dm_has(w, i + 1, S!("X")));
    if i == 0 { dm_both(S!("S"), 0) }
    else if i + 1 == w.len() && (dm_has(w, i - 3, S!("IAU")) || dm_has(w, i - 3, S!("EAU")) || dm_has(w, i - 2, S!("AU")) || dm_has(w, i - 2, S!("OU"))) { dm_both(S!(""), more) }
    else { dm_both(S!("KS"), more) }
}
pub open spec fn dm_z(w: Seq<char>, i: int, slavo: bool) -> (Seq<char>, Seq<char>, int) {
    let more = dm_one_more(dm_is(w, i + 1, 'Z'));
    if dm_is(w, i + 1, 'H') { dm_both(S!("J"), 1) }
    else if dm_has(w, i + 1, S!("ZO")) || dm_has(w, i + 1, S!("ZI")) || dm_has(w, i + 1, S!("ZA")) || (slavo && i > 0 && !dm_is(w, i - 1, 'T')) { (S!("S"), S!("TS"), more) }
    else { dm_both(S!("S"), more) }
}
pub open spec fn dm_step(w: Seq<char>, i: int, slavo: bool) -> (Seq<char>, Seq<char>, int) {
    let c = w[i];
    if one_of(c, "AEIOUY") { dm_both(if i == 0 { S!("A") } else { S!("") }, 0) }
    else if c == 'B' { dm_both(S!("P"), dm_one_more(dm_is(w, i + 1, 'B'))) }
    else if c == 'Ç' { dm_both(S!("S"), 0) }
    else if c == 'C' { dm_c(w, i) }
    else if c == 'D' { dm_d(w, i) }
    else if c == 'F' { dm_both(S!("F"), dm_one_more(dm_is(w, i + 1, 'F'))) }
    else if c == 'G' { dm_g(w, i, slavo) }
    else if c == 'H' { dm_h(w, i) }
    else if c == 'J' { dm_j(w, i, slavo) }
    else if c == 'K' { dm_both(S!("K"), dm_one_more(dm_is(w, i + 1, 'K'))) }
    else if c == 'L' { dm_l(w, i) }
    else if c == 'M' { dm_both(S!("M"), dm_one_more(dm_m_one_more(w, i))) }
    else if c == 'N' { dm_both(S!("N"), dm_one_more(dm_is(w, i + 1, 'N'))) }
    else if c == 'Ñ' { dm_both(S!("N"), 0) }
    else if c == 'P' { dm_p(w, i) }
    else if c == 'Q' { dm_both(S!("K"), dm_one_more(dm_is(w, i + 1, 'Q'))) }
    else if c == 'R' { dm_r(w, i, slavo) }
    else if c == 'S' { dm_s(w, i, slavo) }
    else if c == 'T' { dm_t(w, i) }
    else if c == 'V' { dm_both(S!("F"), dm_one_more(dm_is(w, i + 1, 'V'))) }
    else if c == 'W' { dm_w(w, i) }
    else if c == 'X' { dm_x(w, i) }
    else if c == 'Z' { dm_z(w, i, slavo) }
    else { dm_both(S!(""), 0) }
}
pub open spec fn dm_cut(max: Option<usize>, code: Seq<char>) -> Seq<char> {
    match max { Some(m) => if code.len() > m as int { code.take(m as int) } else { code }, None => code }
}
pub open spec fn dm_full(max: Option<usize>, code: Seq<char>) -> bool { match max { Some(m) => code.len() >= m as int, None => false } }
pub open spec fn dm_rest(max: Option<usize>, w: Seq<char>, i: int, slavo: bool, p: Seq<char>, a: Seq<char>) -> (Seq<char>, Seq<char>)
    decreases (if i < w.len() { w.len() - i } else { 0 })
{
    if i < 0 || i >= w.len() { (p, a) }
    else if dm_full(max, p) && dm_full(max, a) { (p, a) }
    else {
        let t = dm_step(w, i, slavo);
        if t.2 < 0 { (p, a) } else { dm_rest(max, w, i + 1 + t.2, slavo, dm_cut(max, p + t.0), dm_cut(max, a + t.1)) }
    }
}
pub open spec fn dm_slavo(w: Seq<char>) -> bool { w.contains('W') || w.contains('K') || scontains(w, S!("CZ")) || scontains(w, S!("WITZ")) }
pub open spec fn dm_silent(w: Seq<char>) -> bool { sstarts(w, S!("GN")) || sstarts(w, S!("KN")) || sstarts(w, S!("PN")) || sstarts(w, S!("WR")) || sstarts(w, S!("PS")) }
pub open spec fn double_metaphone(max: Option<usize>, s: Seq<char>) -> (Seq<char>, Seq<char>) {
    if strim(s).len() == 0 { (S!(""), S!("")) }
    else { dm_rest(max, supper(strim(s)), if dm_silent(supper(strim(s))) { 1int } else { 0int }, dm_slavo(supper(strim(s))), S!(""), S!("")) }
}
